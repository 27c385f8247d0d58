#!/usr/bin/env python3
"""G02: the output directory after every run of a history: contents, untouched files, removals."""
import os
import random
import shutil
import stat
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import progen
import vlib

NS = dict(cpp='vns', java='com.v.pkg', python='vmod')
OLD = 10 ** 18      # time stamp given to every file before a run (2001)
HEAD = 'use crate::support::*;\nuse std::{sync::{Arc, Mutex, MutexGuard}, rc::Rc, cell::{Ref, RefCell, RefMut}};\n'


def snap(root):
    """path -> (kind, inode, mtime, content) of everything below root."""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs + ds:
            p = os.path.join(d, f)
            st = os.lstat(p)
            if stat.S_ISDIR(st.st_mode):
                out[p] = ('d', None, None, None)
            else:
                with open(p, 'rb') as fh:
                    out[p] = ('f', st.st_ino, st.st_mtime_ns, fh.read())
    return out


def stale_ext(lang, name):
    ext = name.rsplit('.', 1)[1] if '.' in name.lstrip('.') or ('.' in name and not name.startswith('.')) else None
    return ext in dict(cpp=('h', 'hpp'), java=('java',), python=())[lang]


class History:
    def __init__(self, n, seed):
        self.r = r = random.Random(seed)
        self.n = n
        self.lang = ['cpp', 'java', 'cpp', 'java', 'python'][n % 5]
        self.g = progen.Gen(r.getrandbits(48), self.lang, docs=True).program()
        self.all = list(self.g.items)
        self.dir = vlib.fresh_dir('g02', 'h%d' % n)
        self.opts = r.choice([[], ['--separate-impl'], ['--use-boost']]) if self.lang == 'cpp' else r.choice([[], ['--null-ann', 'x.y']]) if self.lang == 'java' else []
        self.stale = r.random() < 0.5
        self.log = []
        self.viol = []
        self.steps = 0
        self.kept = self.rewritten = self.removed = self.foreign = 0
        self.kinds = set()

    def program(self):
        """A changed version of the program that is still accepted."""
        r = self.r
        items = list(self.all)
        k = r.choice([0, 0, 1, 2, 3, 4, 5])
        what = 'same'
        if k == 0 and len([i for i in items if i.kind == 'class']) > 1:
            # drop a class nobody else mentions
            r.shuffle(items)
            items = progen.reorder(items)
            for c in [i for i in items if i.kind == 'class']:
                if not any(t.a is c for o in items if o is not c for m in getattr(o, 'methods', []) if m.kind != 'empty_ctor'
                           for t in [x for _, x in m.args] + [m.ret, m.ret.a] if isinstance(t, progen.Ty)):
                    items.remove(c)
                    what = 'without ' + c.name
                    break
        elif k == 1:
            c = r.choice(items)
            c.docs = ['changed %d' % r.randrange(1000)]
            what = 'docs of ' + c.name
        elif k == 2:
            c = r.choice(items)
            if getattr(c, 'methods', None):
                for m in c.methods:
                    if m.kind != 'empty_ctor' and m.style_ok():
                        m.alias = self.g.names.fn()
                        what = 'alias in ' + c.name
                        break
        elif k == 3:
            e = [i for i in items if i.kind == 'enum']
            if e and len(e[0].items) > 1:
                e[0].docs = ['docs %d' % r.randrange(100)]
                what = 'enum ' + e[0].name
        self.cur = items
        return HEAD + '\n'.join(i.dsl() for i in items), what

    def dirty(self, out):
        """Changes the output directory behind the generator's back."""
        r = self.r
        done = []
        files = sorted(f for f in os.listdir(out) if os.path.isfile(os.path.join(out, f)))
        for _ in range(r.randrange(0, 4)):
            k = r.randrange(13)
            if k < 9 and files:
                f = r.choice(files)
                p = os.path.join(out, f)
                if not os.path.exists(p):
                    continue
                b = open(p, 'rb').read()
                nb = [b[:len(b) // 2], b + b'\n// tail', b[:-1], b'', b[:-3] + b'x' * min(3, len(b)),
                      b[:len(b) // 2] + b.swapcase()[len(b) // 2:], b + b'\n', b.replace(b'\n', b'\r\n'), b' ' + b[1:]][k]
                with open(p, 'wb') as fh:
                    fh.write(nb)
                done.append(['truncate', 'append', 'cut last byte of', 'empty', 'alter end of', 'change case in', 'add newline to', 'crlf in', 'alter start of'][k] + ' ' + f)
            elif k == 9 and files:
                f = r.choice(files)
                if os.path.exists(os.path.join(out, f)):
                    os.unlink(os.path.join(out, f))
                    done.append('delete ' + f)
            else:
                f = r.choice(['Stale%d.java', 'stale%d.hpp', 'stale%d.h', 'notes%d.txt', 'Makefile%d', 'old%d.hpp.bak', '.hidden%d', 'x%d.HPP',
                              'sub%d/inner.hpp', 'sub%d/Inner.java', 'a%d.cpp', 'b%d.rs', 'c%d.class', 'Jav%djava']) % r.randrange(100)
                p = os.path.join(out, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w') as fh:
                    fh.write('foreign' * r.randrange(3))
                done.append('add ' + f)
        self.kinds.update(x.split()[0] for x in done)
        return done

    def args(self, src, out, dst):
        return ['--lang', self.lang, '--out', out, '--ns', NS[self.lang], '--dst', dst, '--src', src] + self.opts

    def bad(self, sig, text):
        self.viol.append((sig, '%s history %d (%s, remove=%s)\n%s\nsteps:\n  %s'
                          % (self.lang, self.n, ' '.join(self.opts), self.stale, text, '\n  '.join(self.log))))

    def run(self, exe, steps):
        d = self.dir
        world = d + '/world'
        out, src, dst = world + '/out', world + '/src/in.rs.in', world + '/rs/glue.rs'
        for x in ('out', 'src', 'rs', 'home', 'tmp', 'cwd', 'out/keepdir', 'outsider', 'home/out'):
            os.makedirs(world + '/' + x)
        for x in ('outsider/Other.hpp', 'outsider/Other.java', 'home/out/a.h', 'cwd/b.hpp', 'cwd/C.java', 'near.hpp', 'Near.java', 'rs/other.rs', 'src/x.h'):
            with open(world + '/' + x, 'w') as f:
                f.write('outside')
        env = vlib.base_env(TMPDIR=world + '/tmp', CARGO_CFG_TARGET_POINTER_WIDTH='64')
        for step in range(steps):
            text, what = self.program()
            did = self.dirty(out)
            broken = self.r.random() < 0.08
            vlib.write(src, text)
            stale = self.stale if self.r.random() < 0.8 else not self.stale
            self.log.append('%d: program %s; dir: %s; remove=%s%s' % (step, what, ', '.join(did) or 'as is', stale, ' (failing run first)' if broken else ''))
            if broken:
                # a run that ends with a diagnostic: whatever it leaves must be repaired by the next run
                vlib.write(src, text + '\nforeign_class!(class Broken { fn f(x: NoSuchTypeAtAll); });\n')
                vlib.run([exe] + self.args(src, out, dst), env=env, cwd=world + '/cwd')
                vlib.write(src, text)
            # reference: the same program into an empty directory
            ref, refdst = d + '/ref', d + '/refrs/glue.rs'
            for x in (ref, os.path.dirname(refdst)):
                shutil.rmtree(x, ignore_errors=True)
                os.makedirs(x)
            a = vlib.run([exe] + self.args(src, ref, refdst), env=env)
            if 'JOB 0 ok' not in a.stdout:
                self.log[-1] += ' REJECTED'
                self.rejected = (a.stdout + a.stderr)[:1000]
                continue
            for x in snap(world):
                if os.path.isfile(x):
                    os.utime(x, ns=(OLD, OLD))
            before = snap(world)
            how = self.r.choice([out, out, '../out', '../out/', './../out', out + '/', '../cwd/../out'])
            b = vlib.run([exe] + self.args(src, how, self.r.choice([dst, '../rs/glue.rs'])) + (['--remove-stale'] if stale else []), env=env, cwd=world + '/cwd')
            if 'JOB 0 ok' not in b.stdout:
                self.bad('run failed over existing contents', 'a run that works in an empty directory fails here:\n' + (b.stdout + b.stderr)[:800])
                return
            self.steps += 1
            after = snap(world)
            want = {os.path.join(out, os.path.relpath(p, ref)): v[3] for p, v in snap(ref).items() if v[0] == 'f'}
            want[dst] = open(refdst, 'rb').read()
            for p, c in want.items():
                if p not in after:
                    self.bad('generated file is missing', '%s is missing after the run' % p)
                elif after[p][3] != c:
                    self.bad('generated file has wrong contents', '%s: %d bytes, expected %d; before the run: %s'
                             % (p, len(after[p][3]), len(c), len(before[p][3]) if p in before else 'absent'))
                elif p in before and before[p][3] == c:
                    self.kept += 1
                    if after[p][1] != before[p][1] or after[p][2] != before[p][2]:
                        self.bad('file with unchanged contents was rewritten', '%s: contents are as before, but inode or time stamp changed' % p)
                else:
                    self.rewritten += 1
            for p in before:
                if p in want:
                    continue
                inside = os.path.dirname(p) == out
                doomed = inside and before[p][0] == 'f' and stale and stale_ext(self.lang, os.path.basename(p))
                self.foreign += 1
                if doomed:
                    self.removed += 1
                    if p in after:
                        self.bad('stale file was not removed', '%s is not part of the output and is still there' % p)
                elif p not in after:
                    self.bad('file was removed that had to stay', '%s is gone (remove=%s)' % (p, stale))
                elif after[p] != before[p]:
                    self.bad('unrelated file was changed', p)
            for p in after:
                if p not in before and p not in want:
                    self.bad('unexpected file was made', p)
            if self.viol:
                return


progen.Method.style_ok = lambda m: getattr(m, 'style', 'inline') != 'inline' and m.kind in ('method', 'static') and hasattr(m, 'access')


def faults(ck, exe):
    """A generated file that cannot be written is an error, not a success."""
    for lang in ('cpp', 'java'):
        d = vlib.fresh_dir('g02', 'fault-' + lang)
        vlib.write(d + '/in.rs.in', 'foreign_enum!(enum Ab { X = Ab::X, });\nforeign_class!(class Kc { fn f(x: i32) -> i32; });\n')
        os.makedirs(d + '/ref')
        base = ['--lang', lang, '--ns', NS[lang], '--src', d + '/in.rs.in']
        vlib.run([exe] + base + ['--out', d + '/ref', '--dst', d + '/ref.rs'])
        names = sorted(os.listdir(d + '/ref'))
        if not names:
            raise vlib.Inconclusive('no output to disturb')
        for i, f in enumerate(names + ['<rust>']):
            out = d + '/o%d' % i
            os.makedirs(out)
            dst = d + '/r%d.rs' % i
            blocked = dst if f == '<rust>' else os.path.join(out, f)
            os.makedirs(blocked)     # a directory where a file has to go
            x = vlib.run([exe] + base + ['--out', out, '--dst', dst])
            ck.count()
            if 'JOB 0 ok' in x.stdout:
                ck.violation('success although a file could not be written', '%s: %s could not be written and the run reported success' % (lang, f), [d])
            else:
                ck.nontrivial('fault %s %s' % (lang, f))


def main(ck):
    r = random.Random('g02-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n, steps = (300, 30) if thorough else (60, 10)
    exe = vlib.build_vgen()
    ck.cov['rule'] = ('one step of a history (program change, directory change, run) whose whole directory tree was compared with '
                      'the reference contents, with at least one file kept and one rewritten, removed or foreign; or one write fault')
    hs = [History(i, r.getrandbits(48)) for i in range(n)]
    vlib.pmap(lambda h: h.run(exe, steps), hs)
    rej = 0
    tot = dict(kept=0, rewritten=0, removed=0, foreign=0)
    for h in hs:
        ck.count(h.steps)
        for k in tot:
            tot[k] += getattr(h, k)
        for i in range(h.steps):
            if h.kept and h.rewritten + h.removed + h.foreign:
                ck.nontrivial((h.n, i))
        for sig, text in h.viol:
            ck.violation(sig, text, [h.dir])
        rej += sum('REJECTED' in x for x in h.log)
        if h.n < 6:
            ck.sample('%s remove=%s: %s' % (h.lang, h.stale, ' | '.join(h.log[:3])), 6)
    faults(ck, exe)
    ck.cov.update(tot, steps_rejected=rej, disturbances=sorted(set().union(*[h.kinds for h in hs])))
    if rej > n * steps // 4:
        raise vlib.Inconclusive('%d steps rejected: %s' % (rej, [h.rejected for h in hs if hasattr(h, 'rejected')][0]))
    shutil.rmtree(os.path.join(vlib.BUILD, 'g02'), ignore_errors=True)


vlib.main('G02', main)
