#!/usr/bin/env python3
"""G01: byte-identical output for identical inputs, whatever the process, place and environment."""
import hashlib
import os
import random
import shutil
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import progen
import typemaps
import vlib

NS = dict(cpp='vns', java='com.v.pkg', python='vmod')


def tree(*roots):
    out = {}
    for root in roots:
        if os.path.isfile(root):
            with open(root, 'rb') as f:
                out['<rust>'] = f.read()
            continue
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = fh.read()
    return out


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            if k not in a or k not in b:
                return k, 'file %s exists in one run only' % k
            for i, (x, y) in enumerate(zip(a[k].split(b'\n'), b[k].split(b'\n'))):
                if x != y:
                    j = next((n for n, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    lo = max(0, j - 60)
                    return k, 'line %d column %d:\n  %r\n  %r' % (i + 1, j, x[lo:j + 120], y[lo:j + 120])
            return k, 'lengths differ: %d and %d' % (len(a[k]), len(b[k]))
    return None


class Case:
    def __init__(self, n, r, tier):
        self.n = n
        self.lang = ['cpp', 'java', 'python', 'cpp', 'java'][n % 5]
        big = r.random() < 0.5
        opts = dict(classes=r.randrange(6, 12) if big else None, enums=r.randrange(2, 6) if big else None)
        if self.lang != 'python':
            opts['cbs'] = r.randrange(2, 5) if big else None
        self.g = progen.Gen(r.getrandbits(48), self.lang, **opts).program()
        self.dir = vlib.fresh_dir('g01', 'c%d' % n)
        self.files = []
        items = [i.dsl() for i in self.g.items]
        if self.lang != 'python':
            tm, uses = typemaps.random_maps(r, self.lang)
            items = tm + items + uses
        parts = r.choice([1, 1, 2, 3]) if self.lang != 'python' else 1
        cut = sorted(r.randrange(len(items) + 1) for _ in range(parts - 1))
        head = 'use crate::support::*;\nuse std::{sync::{Arc, Mutex, MutexGuard}, rc::Rc, cell::{Ref, RefCell, RefMut}};\n'
        for k in range(parts):
            a, b = ([0] + cut)[k], (cut + [len(items)])[k]
            self.files.append(('in%d.rs.in' % k, (head if k == 0 else '') + '\n'.join(items[a:b])))
        self.opts = []
        if self.lang == 'cpp':
            self.opts += r.choice([[], ['--use-boost'], ['--separate-impl'], ['--opt', 'boost']])
        if self.lang == 'java':
            self.opts += r.choice([[], ['--null-ann', 'org.v.ann'], ['--fence', '8'], ['--optional-pkg', 'java8.util']])
        if r.random() < 0.25:
            self.opts.append('--rustfmt')
        self.runs = []      # (what, tree)

    def place(self, where):
        """Lays the sources out in a new directory; returns it."""
        os.makedirs(where, exist_ok=True)
        for f, t in self.files:
            vlib.write(os.path.join(where, f), t)
        return where

    def job(self, src, out, dst, rel=None):
        def p(x):
            return os.path.relpath(x, rel) if rel else x
        os.makedirs(out, exist_ok=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        j = ['--lang', self.lang, '--out', p(out), '--ns', NS[self.lang], '--dst', p(dst)] + self.opts
        for f, _ in self.files:
            j += ['--src', p(os.path.join(src, f))]
        return j


def main(ck):
    r = random.Random('g01-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n = 150 if thorough else 20
    procs = 8 if thorough else 3
    cases = [Case(i, r, vlib.tier()) for i in range(n)]
    ck.cov['rule'] = ('one (program, configuration) pair whose outputs, at least 3 files and 2000 bytes, were compared over '
                      'all perturbed runs')
    exe = vlib.build_vgen()

    def solo(args, env=None, cwd=None):
        x = vlib.run([exe] + args, env=env, cwd=cwd, timeout=300)
        return 'JOB 0 ok' in x.stdout, x.stdout + x.stderr

    def variants(c):
        """Runs of one case in processes of their own."""
        d = c.dir
        base = c.place(d + '/s0')
        for k in range(procs):
            yield 'process %d' % k, c.job(base, d + '/o%d' % k, d + '/r%d/glue.rs' % k), None, None
        # another directory for the sources and outputs, deeper and with odd names
        s = c.place(d + '/else where/ünï/src')
        yield 'other place', c.job(s, d + '/other out/deep/er', d + '/other out/r/gen.rs'), None, None
        # relative paths from another working directory
        w = d + '/w/cwd'
        os.makedirs(w, exist_ok=True)
        s = c.place(d + '/w/src')
        yield 'relative paths', c.job(s, w + '/out', w + '/r/glue.rs', rel=w), None, w
        env = vlib.base_env(USER='nobody%d' % c.n, LANG='tr_TR.UTF-8', LC_ALL='C', TZ='Asia/Kathmandu', TMPDIR=d,
                            HOSTNAME='other', OUT_DIR=d + '/zz', CARGO_PKG_NAME='other', CARGO_MANIFEST_DIR='/',
                            PROFILE='release', TARGET='x86_64-pc-windows-msvc', HOST='arm', RUST_LOG='trace', NUM_JOBS='1',
                            CARGO_PKG_VERSION='9.9.9', SOURCE_DATE_EPOCH='1', RUST_BACKTRACE='1', OPT_LEVEL='3', DEBUG='true',
                            RUST_MIN_STACK='33554432')
        yield 'environment', c.job(base, d + '/oe', d + '/re/glue.rs'), env, None
        # other content was there before
        o = d + '/op'
        os.makedirs(o)
        os.makedirs(d + '/rp')
        seedtree = d + '/o0'
        for i, f in enumerate(sorted(os.listdir(seedtree)) if os.path.isdir(seedtree) else []):
            with open(os.path.join(seedtree, f), 'rb') as fh:
                b = fh.read()
            with open(os.path.join(o, f), 'wb') as fh:
                fh.write([b, b[:len(b) // 2], b + b, b'', b.replace(b'a', b'b')][i % 5])
        with open(d + '/rp/glue.rs', 'w') as f:
            f.write('stale' * 10)
        yield 'dirty directory', c.job(base, o, d + '/rp/glue.rs'), None, None

    def paths(job, cwd):
        g = lambda k: os.path.normpath(os.path.join(cwd or '/', job[job.index(k) + 1]))
        return g('--out'), g('--dst')

    def one(c):
        for what, job, env, cwd in variants(c):
            ok, text = solo(job, env, cwd)
            out, dst = paths(job, cwd)
            c.runs.append((what, ok, tree(out, dst) if ok else {}, text))
            if what == 'process 0':
                time.sleep(1.1)     # let clocks with second resolution move
    t0 = time.time()
    vlib.pmap(one, cases)
    # many jobs in one process, in two different orders, so every job has a different past
    for k, order in enumerate([list(range(n)), list(range(n))[::-1]] + ([r.sample(range(n), n)] if thorough else [])):
        jobs = []
        for i in order:
            c = cases[i]
            jobs.append(c.job(c.dir + '/s0', c.dir + '/b%d' % k, c.dir + '/rb%d/glue.rs' % k))
        lists = [jobs]
        import tempfile
        os.makedirs(vlib.BUILD + '/tmp', exist_ok=True)
        fd, path = tempfile.mkstemp(dir=vlib.BUILD + '/tmp')
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join('\t'.join(j) for j in jobs) + '\n')
        x = vlib.run([exe, 'batch', path], timeout=850)
        os.unlink(path)
        okset = set(int(l.split()[1]) for l in x.stdout.splitlines() if l.startswith('JOB ') and l.split()[2] == 'ok')
        for pos, i in enumerate(order):
            c = cases[i]
            ok = pos in okset
            c.runs.append(('in process, order %d' % k, ok, tree(c.dir + '/b%d' % k, c.dir + '/rb%d/glue.rs' % k) if ok else {}, ''))

    rejected = 0
    nbytes = 0
    for c in cases:
        a = c.runs[0]
        ck.count(len(c.runs))
        for b in c.runs[1:]:
            if a[1] != b[1]:
                ck.violation('%s: accepted in one run only' % b[0], '%s program %d: accepted=%s in "%s", accepted=%s in "%s"\n%s'
                             % (c.lang, c.n, a[1], a[0], b[1], b[0], (b[3] if a[1] else a[3])[:1500]), [c.dir])
                continue
            d = diff(a[2], b[2])
            if d:
                ck.violation('%s: output differs' % b[0], '%s program %d, run "%s" against "%s": file %s, %s'
                             % (c.lang, c.n, b[0], a[0], d[0], d[1]), [c.dir])
        if not a[1]:
            rejected += 1
            continue
        size = sum(len(x) for x in a[2].values())
        nbytes += size * len(c.runs)
        if len(a[2]) >= (3 if c.lang != 'python' else 1) and size >= 2000:
            ck.nontrivial((c.lang, tuple(c.opts), hashlib.sha256(b''.join(a[2][k] for k in sorted(a[2]))).hexdigest()))
        ck.sample('%s %s: %d files, %d bytes, %d runs (%s)' % (c.lang, ' '.join(c.opts), len(a[2]), size, len(c.runs),
                                                              ', '.join(x[0] for x in c.runs)))
    ck.cov['bytes_compared'] = nbytes
    ck.cov['runs'] = sum(len(c.runs) for c in cases)
    ck.cov['programs_rejected'] = rejected
    if os.environ.get('VH_DBG'):
        [print(c.lang, c.opts, c.runs[0][3][:900]) for c in cases if not c.runs[0][1]]
    if rejected > n // 3:
        bad = [c for c in cases if not c.runs[0][1]]
        raise vlib.Inconclusive('%d of %d programs were rejected: %s' % (rejected, n, bad[0].runs[0][3][-800:]))
    shutil.rmtree(os.path.join(vlib.BUILD, 'g01'), ignore_errors=True)


if __name__ == '__main__':
    vlib.main('G01', main)
