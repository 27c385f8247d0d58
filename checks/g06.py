#!/usr/bin/env python3
"""G06: attribute callbacks run once per module of each declaration that carries the attribute."""
import collections
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import progen
import vlib
from g01 import tree, NS

POOL = ['Serialize', 'Foo', 'PreMark', 'HalfText', 'NewText', 'NopOne', 'x', 'PlainClassX', 'clone', 'Eq', 'doc_', 'PreB', 'Tail2', 'copy', 'ref_', 'UpperCase']


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return '%016x' % h


class Case:
    def __init__(self, n, r):
        self.n = n
        self.lang = ['cpp', 'java'][n % 2]
        pick = lambda: r.sample(POOL, r.choice([0, 1, 2, 3, 4]))
        self.kinds = dict(c=pick(), e=pick(), m=pick())
        if not any(self.kinds.values()):
            self.kinds['c'] = ['Foo']
        g = progen.Gen(r.getrandbits(48), self.lang, classes=r.randrange(1, 6), enums=r.randrange(0, 4),
                       class_derives=self.kinds['c'], enum_derives=self.kinds['e'], attrs=self.kinds['m']).program()
        self.g = g
        self.opts = r.choice([[], ['--separate-impl'], ['--use-boost']]) if self.lang == 'cpp' else []
        if r.random() < 0.2:
            self.opts = self.opts + ['--rustfmt']
        self.dir = vlib.fresh_dir('g06', 'c%d' % n)
        self.want = collections.Counter()
        mine = [c.derives for c in g.classes], [e.derives for e in g.enums], [m.attrs for c in g.classes for m in c.methods]
        for c in g.classes:
            for d in c.derives:
                if d in self.kinds['c']:
                    self.want['class %s %s' % (d, c.name)] += 1
            for m in c.methods:
                for a in m.attrs:
                    self.want['method %s %s %s %s' % (a, c.name, m.foreign_name(), m.kind)] += 1
        for e in g.enums:
            for d in e.derives:
                self.want['enum %s %s' % (d, e.name)] += 2 if self.lang == 'cpp' else 1
        self.used = set((k.split()[0], k.split()[1]) for k in self.want)
        full = g.dsl()
        # the same program without the attributes
        keep = {}
        for c in g.classes:
            keep[c] = (c.derives, [m.attrs for m in c.methods])
            c.derives = [d for d in c.derives if d not in self.kinds['c']]
            for m in c.methods:
                m.attrs = []
        for e in g.enums:
            keep[e] = e.derives
            e.derives = []
        bare = g.dsl()
        vlib.write(self.dir + '/full.rs.in', full)
        vlib.write(self.dir + '/bare.rs.in', bare)
        reg = []
        for k, o in (('c', '--class-cb'), ('e', '--enum-cb'), ('m', '--method-cb')):
            names = list(self.kinds[k]) + [x for x in r.sample(POOL, 2) if x not in self.kinds[k]]      # some that nothing uses
            r.shuffle(names)
            reg.append([(o, x) for x in names])
        self.reg = sum(reg, [])

        def job(src, tag, regs):
            os.makedirs('%s/%s' % (self.dir, tag))
            j = ['--lang', self.lang, '--ns', NS[self.lang], '--out', '%s/%s' % (self.dir, tag), '--dst', '%s/%s.rs' % (self.dir, tag),
                 '--src', '%s/%s.rs.in' % (self.dir, src), '--cb-log', '%s/%s.log' % (self.dir, tag)] + self.opts
            for o, x in regs:
                j += [o, x]
            return j
        self.jobs = [job('full', 'full', self.reg), job('bare', 'bare', self.reg)]
        # one used attribute is not registered, or registered for another kind of declaration only
        self.missing = None
        if self.used:
            kind, name = r.choice(sorted(self.used))
            o = dict(**{'class': '--class-cb', 'enum': '--enum-cb', 'method': '--method-cb'})[kind]
            regs = [x for x in self.reg if x != (o, name)]
            for other in ('--class-cb', '--enum-cb', '--method-cb'):
                if other != o and (other, name) not in regs and r.random() < 0.5:
                    regs.append((other, name))
            self.missing = (kind, name)
            self.jobs.append(job('full', 'miss', regs))


def main(ck):
    r = random.Random('g06-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n = 500 if thorough else 90
    vlib.build_vgen()
    cases = [Case(i, r) for i in range(n)]
    ck.cov['rule'] = 'one callback invocation (kind, attribute, declaration, text before and after) that was expected and whose text was followed to the file'
    res = iter(vlib.vgen_jobs([j for c in cases for j in c.jobs], timeout=800))
    calls = 0
    reported = 0
    for c in cases:
        ck.count(len(c.jobs))
        full, bare = next(res), next(res)
        miss = next(res) if c.missing else None
        if not bare[0]:
            raise vlib.Inconclusive('program without attributes is rejected: ' + (bare[1] + bare[2])[:1000])
        if not full[0]:
            ck.violation('rejected', '%s program with registered attributes is rejected: %s\n%s' % (c.lang, full[1][:500], full[2][:1500]), [c.dir])
            continue
        log = open(c.dir + '/full.log').read().splitlines()
        if open(c.dir + '/bare.log').read():
            ck.violation('called without attribute', '%s: callbacks were called for declarations without attributes:\n%s'
                         % (c.lang, open(c.dir + '/bare.log').read()[:500]), [c.dir])
        got = collections.Counter(' '.join(l.split()[:-2]) for l in log)
        calls += len(log)
        if got != c.want:
            for k in sorted(set(got) | set(c.want)):
                if got[k] != c.want[k]:
                    ck.violation('%s callback called %s' % (k.split()[0], 'too often' if got[k] > c.want[k] else 'too seldom'),
                                 '%s: "%s" was called %d times, expected %d' % (c.lang, k, got[k], c.want[k]), [c.dir])
        # follow the text of every module through its callbacks to the file
        ft, bt = tree(c.dir + '/full'), tree(c.dir + '/bare')
        if set(ft) != set(bt):
            ck.violation('other files', '%s: files %s exist only with or only without attributes' % (c.lang, sorted(set(ft) ^ set(bt))), [c.dir])
            continue
        first = {fnv(b): f for f, b in bt.items()}
        chains = {}         # hash now -> (file, hash at the beginning)
        byname = collections.defaultdict(list)
        cur = {f: fnv(b) for f, b in bt.items()}
        for l in log:
            w = l.split()
            kind, name, before, after = w[0], w[2], w[-2], w[-1]
            cands = (['%s.java' % name] if c.lang == 'java' else ['%s.hpp' % name] if kind != 'enum' else ['%s.hpp' % name, 'c_%s.h' % name])
            f = next((x for x in cands if cur.get(x) == before), None)
            if f is None:
                ck.violation('%s callback got other text' % kind, '%s: "%s" was called with a text that is not that of %s as it would be without this callback'
                             % (c.lang, ' '.join(w[:-2]), ' or '.join(cands)), [c.dir])
                f = cands[0]
            cur[f] = after
            ck.nontrivial((c.n, l))
        for f, h in cur.items():
            if fnv(ft[f]) != h:
                ck.violation('file is not what the callbacks left', '%s: %s does not hold what the last callback left (or what is generated without callbacks)' % (c.lang, f), [c.dir])
        if miss:
            kind, name = c.missing
            reported += 1
            text = miss[1] + miss[2]
            if miss[0]:
                ck.violation('unregistered %s attribute accepted' % kind, '%s: attribute "%s" of a %s is not registered, but the generator reports success' % (c.lang, name, kind), [c.dir])
            elif name not in text or 'full.rs.in' not in text:
                ck.violation('unregistered %s attribute: message' % kind, '%s: the message does not name the attribute "%s" and the file: %s' % (c.lang, name, text[:600]), [c.dir])
        ck.sample('%s: %d callback calls, e.g. %s' % (c.lang, len(log), '; '.join(log[:3])))

    # Python has no attribute callbacks: every attribute that is not built in is reported
    jobs, what = [], []
    d = vlib.fresh_dir('g06', 'py')
    for k in range(40 if thorough else 16):
        a = r.choice(POOL)
        kind = r.choice(['class', 'enum', 'method'])
        g = progen.Gen(r.getrandbits(48), 'python', classes=2, enums=r.randrange(1, 3)).program()
        if kind == 'class':
            r.choice(g.classes).derives.append(a)
        elif kind == 'enum':
            r.choice(g.enums).derives.append(a)
        else:
            r.choice(r.choice([x for x in g.classes if x.methods]).methods).attrs.append(a)
        vlib.write('%s/p%d.rs.in' % (d, k), g.dsl())
        os.makedirs('%s/o%d' % (d, k))
        jobs.append(['--lang', 'python', '--ns', 'vmod', '--out', '%s/o%d' % (d, k), '--dst', '%s/g%d.rs' % (d, k), '--src', '%s/p%d.rs.in' % (d, k)])
        what.append((kind, a))
    for (kind, a), j, (ok, msg, err) in zip(what, jobs, vlib.vgen_jobs(jobs)):
        ck.count()
        reported += 1
        if ok:
            ck.violation('python: unregistered %s attribute accepted' % kind, 'python: attribute "%s" of a %s is ignored silently' % (a, kind), [j[-1]])
        elif a not in msg + err or os.path.basename(j[-1]) not in msg + err:
            ck.violation('python: unregistered %s attribute: message' % kind, 'the message does not name "%s" and the file: %s' % (a, (msg + err)[:600]), [j[-1]])
        else:
            ck.nontrivial(('py', kind, a))
    ck.cov['callback_calls'] = calls
    ck.cov['unregistered_attributes'] = reported
    if not ck.violations:
        shutil.rmtree(os.path.join(vlib.BUILD, 'g06'), ignore_errors=True)


if __name__ == '__main__':
    vlib.main('G06', main)
