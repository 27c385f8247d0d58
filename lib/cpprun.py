"""Builds and runs instrumented C++/Rust programs; checks their event logs."""
import glob
import os
import re
import shutil

import vlib
from vlib import VERIF, BUILD

H = os.path.join(VERIF, 'harness')
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'tsan': ['-fsanitize=thread'],
    'none': [],
}
RUN_ENV = dict(ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:halt_on_error=1:exitcode=86:detect_stack_use_after_return=1',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=86',
               TSAN_OPTIONS='halt_on_error=1:exitcode=86:second_deadlock_stack=1',
               ASAN_SYMBOLIZER_PATH='/usr/bin/llvm-symbolizer-18')


class Prog:
    """One generated program: directory with glue, generated headers and driver."""

    def __init__(self, *parts):
        self.dir = vlib.fresh_dir(*parts)
        self.gen = os.path.join(self.dir, 'gen')
        self.glue_in = os.path.join(self.dir, 'glue.rs.in')
        self.glue_rs = os.path.join(self.dir, 'glue.rs')
        self.boost = False
        self.opts = []

    def job(self):
        j = ['--lang', 'cpp', '--out', self.gen, '--ns', 'vns', '--dst', self.glue_rs,
             '--src', self.glue_in, '--ptr-width', '64']
        if self.boost:
            j.append('--use-boost')
        os.makedirs(self.gen, exist_ok=True)
        return j + self.opts

    def headers(self):
        hs = sorted(os.path.basename(h) for h in glob.glob(os.path.join(self.gen, '*')))
        return [h for h in hs if h.endswith('.hpp')]

    def prelude(self, first=()):
        """Includes of every generated class header, as a user would write them."""
        o = ['#define VH_BOOST 1'] if self.boost else []
        hs = [h for h in self.headers() if not h.startswith('rust_')]
        hs = [h for h in first if h in hs] + [h for h in hs if h not in first]
        return '\n'.join(o + ['#include "%s"' % h for h in hs])

    def rust_lib(self, lib_rs, san='asan', what='generated Rust code', extra=()):
        src = os.path.join(self.dir, 'lib.rs')
        vlib.write(src, lib_rs)
        self.lib = os.path.join(self.dir, 'libvns.a')
        flags = ['--edition=2021', '--crate-type=staticlib', '--crate-name=vns', '-g', '-Cdebuginfo=1',
                 '-Copt-level=0', '-Cdebug-assertions=on', '-Coverflow-checks=on',
                 '-Ccodegen-units=16', '-Awarnings', '-o', self.lib, src] + list(extra)
        tc = vlib.STABLE
        if san == 'asan':
            tc = NIGHTLY
            flags += ['-Zsanitizer=address']
        elif san == 'tsan':
            tc = NIGHTLY
            flags += ['-Zsanitizer=thread', '-Cunsafe-allow-abi-mismatch=sanitizer']
        vlib.rustc(flags, what, toolchain=tc)

    def cc(self, src, san='asan', std=None, what='generated C++ code', extra=()):
        obj = src + '.o'
        std = std or ('c++14' if self.boost else 'c++17')
        cmd = ['clang++', '-std=' + std, '-O0', '-g1', '-fno-omit-frame-pointer', '-Wall', '-Wno-unused-function',
               '-Wno-unused-private-field', '-I', self.gen, '-I', os.path.join(H, 'cpp'), '-c', src, '-o', obj] + SAN[san] + list(extra)
        r = vlib.run(cmd, timeout=600)
        if r.returncode != 0:
            if 'Killed' in r.stderr or r.returncode < 0:
                raise vlib.Inconclusive('compiler died')
            raise vlib.BuildFailure(what, r.stderr[:6000])
        return obj

    def link(self, objs, exe='prog', san='asan'):
        exe = os.path.join(self.dir, exe)
        cmd = ['clang++', '-o', exe] + objs + [self.lib] + SAN[san] + ['-lpthread', '-ldl', '-lm']
        r = vlib.run(cmd)
        if r.returncode != 0:
            raise vlib.BuildFailure('link of generated Rust with generated C++', r.stderr[-4000:])
        return exe

    def run(self, exe, args, timeout=300, log='log', env=None):
        logp = os.path.join(self.dir, log)
        if os.path.exists(logp):
            os.unlink(logp)
        e = vlib.base_env(VH_LOG=logp, **RUN_ENV)
        e.update(env or {})
        r = vlib.run([exe] + [str(a) for a in args], timeout=timeout, env=e, hang=True)
        lines = []
        if os.path.exists(logp):
            with open(logp, errors='replace') as f:
                lines = f.read().split('\n')
            if lines and lines[-1] == '':
                lines.pop()
        return r, lines

    def cleanup(self):
        if os.environ.get("VH_KEEP"):
            return
        shutil.rmtree(self.dir, ignore_errors=True)


def sanitizer_report(r):
    """(kind, text) of what ended a run abnormally."""
    t = r.stderr
    for pat, kind in ((r'ERROR: AddressSanitizer: ([\w-]+)', 'asan'),
                      (r'WARNING: ThreadSanitizer: ([\w -]+)', 'tsan'),
                      (r'runtime error: ([^\n]*)', 'ubsan'), (r'VALLOC-ERROR[: ]*([^\n]*)', 'valloc'),
                      (r'unsafe precondition\(s\) violated: ([^\n]*)', 'rust-ub'),
                      (r"thread .* panicked at ([^\n]*\n[^\n]*)", 'panic'), (r'Assertion `([^\']*)', 'assert')):
        m = re.search(pat, t)
        if m:
            return kind + ': ' + m.group(1).strip()[:160]
    return 'exit %s' % r.returncode


class Pairing:
    """Online pairing of call events: caller `>` `<`, callee `]` `[`; single-threaded log."""

    def __init__(self):
        self.stack = []
        self.errors = []
        self.calls = 0
        self.sigs = {}

    def err(self, mid, s):
        if len(self.errors) < 50:
            self.errors.append((mid, s))

    def feed(self, line):
        tag, _, rest = line.partition(' ')
        if tag == '!':
            self.err('ledger', rest)
            return
        if tag not in '><][':
            return
        mid, _, data = rest.partition(' ')
        data = data.strip()
        if tag == '>':
            self.stack.append([mid, data, 0, None])
        elif tag == ']':
            if not self.stack:
                self.err(mid, 'callee %s entered without a call' % mid)
                return
            top = self.stack[-1]
            top[2] += 1
            if top[0] != mid:
                self.err(top[0], 'call of method %s reached method %s' % (top[0], mid))
            elif top[1] != data:
                self.err(mid, 'arguments differ:\n  caller passed  %s\n  callee received %s' % (top[1], data))
            if top[2] > 1:
                self.err(mid, 'callee entered %d times for one call' % top[2])
        elif tag == '[':
            if self.stack:
                self.stack[-1][3] = data
        elif tag == '<':
            if not self.stack:
                self.err(mid, 'return without call')
                return
            top = self.stack.pop()
            if top[0] != mid:
                self.err(mid, 'return of %s while in %s' % (mid, top[0]))
                return
            if top[2] == 0:
                self.err(mid, 'the call never reached the callee')
            elif top[3] is not None and top[3] != data:
                self.err(mid, 'results differ (return | changed arguments):\n  callee produced %s\n  caller received %s' % (top[3], data))
            self.calls += 1
            self.sigs[mid] = self.sigs.get(mid, 0) + 1
            return top[1], data
        return None


def build_all(ck, p, tag, lib_rs, cpp_files, keep, san='asan', extra=(), rextra=()):
    """Compiles both sides in parallel and links; a compile error of generated code is a violation."""
    tasks = [('rs', None)] + [('cc', f) for f in cpp_files]

    def build(t):
        try:
            if t[0] == 'rs':
                p.rust_lib(lib_rs, san=san, extra=rextra)
                return None
            return p.cc(t[1], san=san, extra=extra)
        except vlib.BuildFailure as e:
            return e

    res = vlib.pmap(build, tasks)
    for e in res:
        if isinstance(e, vlib.BuildFailure):
            ck.violation('%s: %s does not compile' % (tag, e.what), e.out, keep)
            return None
    try:
        return p.link(res[1:], san=san)
    except vlib.BuildFailure as e:
        ck.violation('%s: %s fails' % (tag, e.what), e.out, keep)
        return None


def probes(ck, where, glue, cpp, names):
    """Single hand-written inputs outside the random workload; each prints "good"."""
    import cppgen
    p = Prog(where, 'probe')
    vlib.write(p.glue_in, glue)
    ok, msg, err = vlib.vgen(p.job())
    if not ok:
        ck.violation('probe: generator rejects a supported interface', msg + err, [p.glue_in])
        return
    src = p.dir + '/t.cpp'
    vlib.write(src, cpp)
    keep = [p.glue_in, p.gen, src]
    exe = build_all(ck, p, 'probe', cppgen.LIB_RS % dict(common=os.path.join(H, 'common'), glue=p.glue_rs), [src], keep)
    if not exe:
        return
    for k, what in names.items():
        r, _ = p.run(exe, [k], log='log%d' % k)
        ck.count()
        if r.returncode != 0 or r.stdout.strip() != 'good':
            ck.violation('probe: ' + what, '%s\n%s' % (r.stdout, r.stderr[-3000:]), keep)
        else:
            ck.nontrivial('probe ' + what)
    p.cleanup()
