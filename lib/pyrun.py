"""Builds and runs Python extension modules made by the generator."""
import os
import shutil
import sys

import cpprun
import pygen
import tgt
import vlib

H = cpprun.H
PY = '/usr/bin/python3'


class PProg:
    def __init__(self, *parts, module='vmod'):
        self.dir = vlib.fresh_dir(*parts)
        self.module = module
        self.glue_in = os.path.join(self.dir, 'glue.rs.in')
        self.glue_rs = os.path.join(self.dir, 'glue.rs')
        self.so = os.path.join(self.dir, module + '.so')
        self.gen = self.glue_rs

    def job(self):
        return ['--lang', 'python', '--out', self.dir, '--ns', self.module, '--dst', self.glue_rs, '--src', self.glue_in, '--ptr-width', '64']

    def build(self, ck, tag, keep, extra='', opt='0'):
        rlib, deps = tgt.build_pyrt()
        src = os.path.join(self.dir, 'lib.rs')
        vlib.write(src, pygen.LIB_RS % dict(common=os.path.join(H, 'common'), glue=self.glue_rs, extra=extra))
        try:
            vlib.rustc(['--edition=2021', '--crate-type=cdylib', '--crate-name=' + self.module, '-Cdebuginfo=1', '-Copt-level=' + opt,
                        '-Cdebug-assertions=on', '-Coverflow-checks=on', '-Ccodegen-units=16', '-Awarnings', '-o', self.so, src,
                        '--extern', 'cpython=' + rlib, '-L', 'dependency=' + deps], 'generated Rust code (Python)')
        except vlib.BuildFailure as e:
            ck.violation('%s: %s does not compile' % (tag, e.what), e.out, keep)
            return False
        return True

    def run(self, script, args, timeout=300, log='log', env=None, pyargs=()):
        logp = os.path.join(self.dir, log)
        if os.path.exists(logp):
            os.unlink(logp)
        e = vlib.base_env(VH_LOG=logp, PYTHONPATH=self.dir, VH_MODULE=self.module, VH_SO=self.so, PYTHONMALLOC='debug', PYTHONDONTWRITEBYTECODE='1')
        e.update(env or {})
        r = vlib.run([PY, '-X', 'faulthandler'] + list(pyargs) + [script] + [str(a) for a in args], timeout=timeout, env=e, cwd=self.dir, hang=True)
        lines = []
        if os.path.exists(logp):
            with open(logp, errors='replace') as f:
                lines = f.read().split('\n')
            if lines and lines[-1] == '':
                lines.pop()
        return r, lines

    def cleanup(self):
        if not os.environ.get('VH_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)


def report(r):
    import re
    t = r.stdout + '\n' + r.stderr
    for pat, kind in ((r'VALLOC-ERROR[: ]*([^\n]*)', 'valloc'), (r"panicked at ([^\n]*\n[^\n]*)", 'panic'), (r'(Fatal Python error[^\n]*)', 'crash'),
                      (r'\n(\w+(?:\.\w+)*(?:Error|Exception)[^\n]*)', 'exception')):
        m = re.search(pat, t)
        if m:
            return kind + ': ' + re.sub(r'/\S*/', '', m.group(1)).strip()[:200]
    return 'exit %s' % r.returncode
