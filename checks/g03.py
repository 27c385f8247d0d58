#!/usr/bin/env python3
"""G03: Rust code around the flapigen macros reaches the generated file untouched."""
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import progen
import rustitems
import rustlex
import tgt
import vlib
from g01 import tree, diff, NS

HEAD = ['use crate::support::*;', 'use std::{sync::{Arc, Mutex, MutexGuard}, rc::Rc, cell::{Ref, RefCell, RefMut}};']
# pairs of marks that are one operator: here the gap between them matters
OPS = set('=> -> :: .. == != <= += -= *= /= %= ^= |='.split())


def toks(exe, files):
    """Token lists of Rust files, ('joint' only where it changes the meaning)."""
    r = vlib.run([exe, 'tokens'] + files, timeout=300)
    out = {}
    cur = None
    for l in r.stdout.split('\n'):
        if l.startswith('@@FILE '):
            cur = out[l[7:]] = []
        elif l != '' or cur is None:
            if cur is not None:
                cur.append(l)
    for f in files:
        t = out.get(f)
        if t is None or any(x.startswith('LEXERROR') for x in t[-1:]):
            out[f] = None
            continue
        for i, x in enumerate(t):
            if len(x) == 2 and x[1] == '+' and not x[0].isalnum():
                nx = t[i + 1][0] if i + 1 < len(t) else ''
                t[i] = x if x[0] + nx in OPS else x[0]
    return out


class Case:
    def __init__(self, n, r, deck):
        self.n = n
        self.lang = ['cpp', 'java', 'python', 'cpp'][n % 4]
        g = progen.Gen(r.getrandbits(48), self.lang, classes=r.randrange(1, 4)).program()
        self.support = g.support()
        self.fl = [i.dsl() for i in g.items]
        nr = r.choice([1, 4, 8, 12, 20])
        self.rust = [rustitems.item(r, n * 1000 + k, next(deck)) for k in range(nr)]
        seq = [('f', x) for x in self.fl]
        pos = sorted(r.randrange(len(seq) + 1) for _ in range(nr)) if r.random() < 0.8 else [r.choice([0, len(seq)])] * nr
        for k in reversed(range(nr)):
            seq.insert(pos[k], ('r', self.rust[k].text))
        hp = [0, 0]
        self.items = [('r', h) for h in HEAD] + seq
        self.opts = r.choice([[], ['--separate-impl']]) if self.lang == 'cpp' else []
        self.dir = vlib.fresh_dir('g03', 'c%d' % n)
        self.forms = []
        sep = lambda: r.choice(['\n', '\n\n', ' ', '\n// x\n'])
        join = lambda its: ''.join(t + ('\n' if k == 'r' else sep()) for k, t in its)
        self.form('one file', [join(self.items)])
        for q in range(2):
            cuts = sorted(r.randrange(len(self.items) + 1) for _ in range(r.choice([1, 2, 4])))
            parts = [self.items[a:b] for a, b in zip([0] + cuts, cuts + [len(self.items)])]
            self.form('split %s' % cuts, [join(p) for p in parts])
        self.form('reformatted', [rustlex.reformat(r, join(self.items), False)])
        cuts = sorted(r.randrange(len(self.items) + 1) for _ in range(2))
        parts = [self.items[a:b] for a, b in zip([0] + cuts, cuts + [len(self.items)])]
        self.form('reformatted, doc attributes, split', [''.join((rustlex.reformat(r, t, True) if k == 'f' else t) + '\n' for k, t in p) for p in parts])
        if self.lang != 'python':
            self.form('rustfmt', [join(self.items)], ['--rustfmt'])

    def form(self, what, files, opts=()):
        d = '%s/f%d' % (self.dir, len(self.forms))
        os.makedirs(d + '/out')
        job = ['--lang', self.lang, '--ns', NS[self.lang], '--out', d + '/out', '--dst', d + '/glue.rs'] + self.opts + list(opts)
        for i, t in enumerate(files):
            with open('%s/in%d.rs.in' % (d, i), 'w', newline='') as f:
                f.write(t)
            job += ['--src', '%s/in%d.rs.in' % (d, i)]
        self.forms.append((what, d, job))


def find_all(hay, needle):
    """hay, needle: lists of tokens; all positions."""
    h = '\n' + '\n'.join(hay) + '\n'
    n = '\n' + '\n'.join(needle) + '\n'
    out, i = [], h.find(n)
    while i >= 0:
        out.append(i)
        i = h.find(n, i + 1)
    return out


def main(ck):
    r = random.Random('g03-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n = 300 if thorough else 50
    exe = vlib.build_vgen()
    deck = rustitems.deck(r)
    cases = [Case(i, r, deck) for i in range(n)]
    ck.cov['rule'] = ('one ordinary item (with its neighbours) or one layout of the same items, at least 8 tokens, found in or '
                      'compared with a generated file')
    jobs = [f[2] for c in cases for f in c.forms]
    res = vlib.vgen_jobs(jobs, timeout=800)
    it = iter(res)
    items_seen = 0
    kinds = set()
    build = []

    def prep(c):
        src = []
        for i, (k, t) in enumerate(c.items):
            p = '%s/item%d.rs' % (c.dir, i)
            vlib.write(p, t)
            src.append(p)
        outs = [f[1] + '/glue.rs' for f in c.forms if os.path.exists(f[1] + '/glue.rs')]
        return toks(exe, src), toks(exe, outs)
    allt = vlib.pmap(prep, cases)
    for c, (st, ot) in zip(cases, allt):
        rs = [next(it) for _ in c.forms]
        if not rs[0][0]:
            ck.violation('rejected', 'a valid %s program with ordinary items around the macros is rejected: %s\n%s'
                         % (c.lang, rs[0][1][:500], rs[0][2][:1500]), [c.dir])
            continue
        ref = None
        for (what, d, _), (ok, msg, err) in zip(c.forms, rs):
            ck.count()
            if not ok:
                ck.violation('%s: rejected' % what, '%s: the same items are accepted in one file, rejected as "%s": %s\n%s'
                             % (c.lang, what, msg[:500], err[:1500]), [c.dir])
                continue
            t = ot.get(d + '/glue.rs')
            if t is None:
                ck.violation('%s: not lexable' % what, 'the generated Rust file is not lexically valid Rust', [c.dir])
                continue
            fo = tree(d + '/out')
            if ref is None:
                ref = (fo, t, what)
            else:
                x = diff(ref[0], fo)
                if x:
                    ck.violation('%s: foreign files differ' % what, '%s program: "%s" gives other files than "%s": %s, %s'
                                 % (c.lang, what, ref[2], x[0], x[1]), [c.dir])
                if what != 'rustfmt':
                    if t != ref[1]:
                        i = next((k for k, (a, b) in enumerate(zip(t, ref[1])) if a != b), min(len(t), len(ref[1])))
                        ck.violation('%s: Rust differs' % what, '%s program: "%s" gives other Rust code than "%s": token %d: %s / %s'
                                     % (c.lang, what, ref[2], i, ' '.join(t[max(0, i - 12):i + 12]), ' '.join(ref[1][max(0, i - 12):i + 12])), [c.dir])
                ck.nontrivial(('layout', c.n, what))
            if what == 'rustfmt':
                continue
            last = -1
            want = 0
            for i, (k, text) in enumerate(c.items):
                if k != 'r':
                    continue
                ts = st['%s/item%d.rs' % (c.dir, i)]
                want += sum(x in ('foreign_class', 'foreign_enum', 'foreign_callback', 'foreign_interface', 'foreign_typemap', 'foreigner_class') for x in ts)
                pos = find_all(t, ts)
                items_seen += 1
                if len(pos) != 1:
                    near = ''
                    for m in range(len(ts), 0, -1):
                        q = find_all(t, ts[:m])
                        if q:
                            h = '\n' + '\n'.join(t) + '\n'
                            near = 'its first %d of %d tokens are there, then "%s" instead of "%s"' % (
                                m, len(ts), ' '.join(h[q[0]:].split('\n')[m + 1:m + 8]), ' '.join(ts[m:m + 7]))
                            break
                    ck.violation('item occurs %s' % ('more than once' if pos else 'never'),
                                 '%s, %s: this item occurs %d times in the generated file (%s):\n%s' % (c.lang, what, len(pos), near, text), [c.dir])
                    continue
                if pos[0] < last:
                    ck.violation('items out of order', '%s, %s: this item comes before one that stood before it:\n%s' % (c.lang, what, text), [c.dir])
                last = max(last, pos[0])
                if len(ts) >= 8:
                    ck.nontrivial(('item', c.n, i, what))
            got = sum(x in ('foreign_class', 'foreign_enum', 'foreign_callback', 'foreign_interface', 'foreign_typemap', 'foreigner_class') for x in t)
            if got != want:
                ck.violation('macro left', '%s, %s: the generated Rust file mentions flapigen macros %d times, the ordinary items %d times'
                             % (c.lang, what, got, want), [c.dir])
        for x in c.rust:
            kinds.add(x.kind)
        ck.sample('%s: %d ordinary items (%s) among %d declarations, forms: %s' % (
            c.lang, len(c.rust), ', '.join(sorted(set(x.kind for x in c.rust)))[:200], len(c.fl), '; '.join(f[0] for f in c.forms)))

    # what the items compute, alone and inside the generated file
    d = vlib.fresh_dir('g03', 'orig')
    o = '#![allow(warnings)]\n'
    for c in cases:
        o += '\n'.join(x.text for x in c.rust) + '\n'
    o += 'fn main() {\n' + ''.join('println!("%d {}", chk_%d());\n' % (x.n, x.n) for c in cases for x in c.rust) + '}\n'
    vlib.write(d + '/m.rs', o)
    try:
        vlib.rustc(['--edition=2021', '-Awarnings', '-Cdebuginfo=0', '--cap-lints=allow', '-o', d + '/m', d + '/m.rs'], 'items')
    except vlib.BuildFailure as e:
        raise vlib.Inconclusive('the random items do not compile: ' + e.out[-1500:])
    want = dict(l.split() for l in vlib.run([d + '/m']).stdout.splitlines())

    def beh(c):
        out = []
        if c.lang == 'python':
            return out
        for what, fd, _ in [c.forms[0], c.forms[-1]]:
            if not os.path.exists(fd + '/glue.rs'):
                continue
            src = tgt.lib_rs(c.lang, fd + '/glue.rs', c.support) + 'fn main() {\n' + ''.join(
                'println!("%d {}", glue::chk_%d());\n' % (x.n, x.n) for x in c.rust) + '}\n'
            vlib.write(fd + '/main.rs', src)
            try:
                vlib.rustc(['--edition=2021', '-Awarnings', '-Cdebuginfo=0', '--cap-lints=allow', '--error-format=short', '-o', fd + '/main', fd + '/main.rs'], 'x')
            except vlib.BuildFailure as e:
                out.append((what, 'does not compile', e.out[:1500]))
                continue
            x = vlib.run([fd + '/main'])
            got = dict(l.split() for l in x.stdout.splitlines())
            for q in c.rust:
                if got.get(str(q.n)) != want[str(q.n)]:
                    out.append((what, 'behaves differently', 'chk_%d() = %s alone, %s in the generated file:\n%s'
                                % (q.n, want[str(q.n)], got.get(str(q.n)), q.text)))
            os.unlink(fd + '/main')
        return out
    ran = 0
    for c, vs in zip(cases, vlib.pmap(beh, cases)):
        if c.lang != 'python':
            ck.count()
            ran += len(c.rust)
        for what, s, text in vs:
            ck.violation('%s: %s' % (what, s), '%s program: %s' % (c.lang, text), [c.dir])
    ck.cov['item_occurrences_compared'] = items_seen
    ck.cov['item_kinds'] = sorted(kinds)
    ck.cov['items_executed'] = ran
    if not ck.violations:
        shutil.rmtree(os.path.join(vlib.BUILD, 'g03'), ignore_errors=True)


if __name__ == '__main__':
    vlib.main('G03', main)
