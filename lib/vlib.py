"""Shared machinery of the checks: builds, runs, verdicts, evidence.

Verdict discipline: a check ends with exit 0 (held on everything explored), or exit 1 after one
`VIOLATION property=<id> replay=<path>` line per violation, or exit 2 (inconclusive: the harness
could not decide). An inconclusive run is never reported as a violation or as a pass.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
STABLE = 'stable-x86_64-unknown-linux-gnu'
JAVA_HOME = '/usr/lib/jvm/java-17-openjdk-amd64'
NCPU = os.cpu_count() or 8


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def tier():
    t = os.environ.get('VERIF_TIER', 'quick')
    return t if t in ('quick', 'thorough') else 'quick'


def base_env(**kw):
    e = dict(os.environ)
    for k in ('CARGO_BUILD_TARGET', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUST_LOG',
              'CARGO_CFG_TARGET_POINTER_WIDTH', 'RUSTC_WRAPPER', 'LD_PRELOAD'):
        e.pop(k, None)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN=STABLE, CARGO_NET_OFFLINE='true',
             CARGO_TERM_COLOR='never', JAVA_HOME=JAVA_HOME, PYTHONDONTWRITEBYTECODE='1',
             PATH='/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin',
             RUST_BACKTRACE='0', CARGO_INCREMENTAL='0')
    e.update(kw)
    return e


class Inconclusive(Exception):
    pass


class BuildFailure(Exception):
    """Code that the generator produced does not compile."""

    def __init__(self, what, out):
        super().__init__(what)
        self.what = what
        self.out = out


def run(cmd, timeout=600, env=None, cwd=None, inp=None, text=True, hang=False):
    """Runs to the end; a timeout is inconclusive, or (hang) a result of its own: the program under test hangs."""
    try:
        return subprocess.run(cmd, capture_output=True, text=text, timeout=timeout,
                              env=env or base_env(), cwd=cwd, input=inp,
                              errors='replace' if text else None)
    except subprocess.TimeoutExpired as e:
        if hang:
            t = lambda x: (x or b'').decode(errors='replace') if not isinstance(x, str) else x
            return subprocess.CompletedProcess(cmd, 'timeout: still running after %ss' % timeout, t(e.stdout), t(e.stderr))
        raise Inconclusive('timeout of %ss: %s' % (timeout, ' '.join(map(str, cmd))[:300]))


def pmap(f, xs, n=NCPU):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------ the generator under test
def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = [x for x in ds if x not in ('target', '.git')]
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        import fcntl
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_vgen():
    """Builds the driver with the generator from /repo's working tree; returns its path."""
    with Lock(os.path.join(BUILD, 'vgen.lock')):
        tgt = os.path.join(BUILD, 'target')
        h = tree_hash(os.path.join(REPO, 'macroslib'), os.path.join(VERIF, 'crates', 'vgen'))
        exe = os.path.join(tgt, 'debug', 'vgen')
        stamp = os.path.join(BUILD, 'vgen.stamp')
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
            return exe
        crate = os.path.join(VERIF, 'crates', 'vgen')
        env = base_env(CARGO_TARGET_DIR=tgt)
        # cargo decides by time stamps, we decide by content
        run(['cargo', 'clean', '--offline', '-q', '-p', 'flapigen', '-p', 'vgen'], env=env, cwd=crate)
        r = run(['cargo', 'build', '--offline', '-q'], env=env, cwd=crate, timeout=900)
        if r.returncode != 0:
            raise Inconclusive('the generator does not build:\n' + r.stderr[-3000:])
        with open(stamp, 'w') as f:
            f.write(h)
        return exe


def vgen_jobs(jobs, timeout=600, env=None, cwd=None):
    """Runs generator jobs (lists of arguments). Returns [(ok, message, stderr)]."""
    exe = build_vgen()
    n = max(1, min(NCPU, (len(jobs) + 3) // 4))
    parts = [list(range(i, len(jobs), n)) for i in range(n)]
    tmp = os.path.join(BUILD, 'tmp')
    os.makedirs(tmp, exist_ok=True)

    def one(part):
        import tempfile
        fd, path = tempfile.mkstemp(dir=tmp, suffix='.jobs')
        with os.fdopen(fd, 'w') as f:
            for i in part:
                f.write('\t'.join(jobs[i]) + '\n')
        try:
            r = run([exe, 'batch', path], timeout=timeout, env=env, cwd=cwd)
        finally:
            os.unlink(path)
        res = {}
        errs = r.stderr.split('@@JOB ')[1:]
        for line in r.stdout.splitlines():
            p = line.split(' ', 3)
            if len(p) >= 3 and p[0] == 'JOB' and p[1].isdigit():
                k = int(p[1])
                e = errs[k].split('\n', 1)[1] if k < len(errs) else ''
                res[part[k]] = (p[2] == 'ok', p[3] if len(p) > 3 else '', e.replace('@@END\n', ''))
        for k, i in enumerate(part):
            if i not in res:
                # the process went away in the middle of the first job without an outcome
                res[i] = (False, 'process died rc=%s' % r.returncode, r.stderr[-2000:])
        return res

    out = {}
    for d in pmap(one, parts, n):
        out.update(d)
    return [out[i] for i in range(len(jobs))]


def vgen(args, **kw):
    return vgen_jobs([args], **kw)[0]


def fresh_dir(*parts):
    d = os.path.join(BUILD, *parts)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    return d


def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(s)


def rustc(args, what, toolchain=STABLE, timeout=600, env=None):
    r = run(['rustc', '+' + toolchain] + args, timeout=timeout, env=env or base_env())
    if r.returncode != 0:
        raise BuildFailure(what, r.stderr[-6000:])
    return r


# ------------------------------------------------------------------ verdicts
class Check:
    def __init__(self, prop, level='exploration'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.violations = []      # (signature, text, replay)
        self.known_hit = []
        self.cov = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[])
        self.distinct = set()
        self.extra_distinct = 0   # counted by the monitored program itself
        self.assumptions = []
        self.known = load_known(prop)

    def count(self, n=1):
        self.cov['evaluations'] += n

    def nontrivial(self, key):
        """Counts a case that is non-trivial by the rule; equal keys count once."""
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode()
        self.distinct.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, s, limit=8):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(s)

    def violation(self, sig, text, files=()):
        """sig identifies the failing input / call site; files are kept for the replay."""
        for k in self.known:
            if k['signature'] == sig:
                if sig not in [x[0] for x in self.known_hit]:
                    self.known_hit.append((sig, k['what']))
                return
        if any(v[0] == sig for v in self.violations):
            return
        d = os.path.join(VERIF, 'replay', self.prop)
        n = len(self.violations)
        if n == 0 and os.path.isdir(d):
            shutil.rmtree(d)
        d = os.path.join(d, str(n))
        if n < 20:
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'README.txt'), 'w') as f:
                f.write('property %s, VERIF_SEED=%d VERIF_TIER=%s\nsignature: %s\n\n%s\n'
                        % (self.prop, seed(), tier(), sig, text))
            for src in files:
                try:
                    if os.path.isdir(src):
                        shutil.copytree(src, os.path.join(d, os.path.basename(src)), dirs_exist_ok=True)
                    elif os.path.exists(src):
                        shutil.copy(src, d)
                except OSError:
                    pass
        self.violations.append((sig, text, d))

    def finish(self):
        c = self.cov
        c['distinct_nontrivial'] = len(self.distinct) + self.extra_distinct
        ev = dict(property=self.prop, tier=tier(), seed=seed(), level=self.level, coverage=c,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for sig, what in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        for sig, text, d in self.violations:
            print('---- %s' % sig)
            print(text[:3000])
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        if self.violations:
            sys.stdout.flush()
            sys.exit(1)
        if c['evaluations'] == 0 or c['distinct_nontrivial'] == 0:
            print('INCONCLUSIVE property=%s nothing was observed' % self.prop)
            sys.exit(2)
        print('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs'
              % (self.prop, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
        sys.exit(0)


def load_known(prop):
    """known-findings.txt: `finding: property=<id> sig=<signature> :: <what fails>` lines suppress
    exactly that signature; `fixed:` lines are a record and suppress nothing."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                sig, what = rest.split(' :: ', 1)
                out.append(dict(signature=sig[len('sig='):], what=what))
    return out


def main(prop, fn, level='exploration'):
    ck = Check(prop, level)
    try:
        fn(ck)
    except Inconclusive as e:
        if ck.violations:
            ck.finish()
        print('INCONCLUSIVE property=%s %s' % (prop, e))
        sys.exit(2)
    ck.finish()
