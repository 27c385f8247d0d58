"""Builds and runs instrumented Java/Rust programs: the Rust side with AddressSanitizer inside a real JVM."""
import glob
import os
import re
import shutil

import cpprun
import javagen
import tgt
import vlib
from vlib import BUILD

H = cpprun.H
JAVA = vlib.JAVA_HOME + '/bin/java'
ASAN_RT = '/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so'

OPTIONAL = '''package %(pkg)s;
public final class Optional%(n)s%(g)s {
    private final boolean is;
    private final %(ty)s v;
    private Optional%(n)s(boolean is, %(ty)s v) { this.is = is; this.v = v; }
    public static %(g1)sOptional%(n)s%(g)s of(%(ty)s v) { return new Optional%(n)s%(g)s(true, v); }
    public static %(g1)sOptional%(n)s%(g)s ofNullable(%(ty)s v) { return new Optional%(n)s%(g)s((Object) v != null, v); }
    public static %(g1)sOptional%(n)s%(g)s empty() { return new Optional%(n)s%(g)s(false, %(zero)s); }
    public boolean isPresent() { return is; }
    public %(ty)s get%(get)s() { if (!is) throw new java.util.NoSuchElementException(); return v; }
}
'''


class JProg:
    def __init__(self, *parts, pkg='vns'):
        self.dir = vlib.fresh_dir(*parts)
        self.pkg = pkg
        self.src = os.path.join(self.dir, 'src')
        self.gen = os.path.join(self.src, *pkg.split('.'))
        self.glue_in = os.path.join(self.dir, 'glue.rs.in')
        self.glue_rs = os.path.join(self.dir, 'glue.rs')
        self.lib = os.path.join(self.dir, 'libvh.so')
        self.cls = os.path.join(self.dir, 'classes')
        self.opts = []
        os.makedirs(self.gen)

    def job(self):
        return ['--lang', 'java', '--out', self.gen, '--ns', self.pkg, '--dst', self.glue_rs, '--src', self.glue_in,
                '--ptr-width', '64'] + self.opts

    def rust_lib(self, extra='', san='asan', opt='0', log=None):
        src = os.path.join(self.dir, 'lib.rs')
        vlib.write(src, javagen.LIB_RS % dict(common=os.path.join(H, 'common'), jh=tgt.JNI_H,
                                              support=os.path.join(H, 'java', 'support.rs'), log=log or tgt.LOG,
                                              glue=self.glue_rs, extra=extra))
        flags = ['--edition=2021', '--crate-type=cdylib', '--crate-name=vh', '-Cdebuginfo=1', '-Copt-level=' + opt,
                 '-Cdebug-assertions=on', '-Coverflow-checks=on', '-Ccodegen-units=16', '-Awarnings', '-o', self.lib, src]
        tc = vlib.STABLE
        if san == 'asan':
            tc = cpprun.NIGHTLY
            flags.append('-Zsanitizer=address')
        vlib.rustc(flags, 'generated Rust code (Java)', toolchain=tc)

    def java(self, files):
        """files: name -> text in the package of the generated code."""
        own = '--optional-pkg' in self.opts and self.opts[self.opts.index('--optional-pkg') + 1]
        texts = {os.path.join(self.gen, n): t for n, t in files.items()}
        vh = glob.glob(os.path.join(H, 'java', 'vh', '*.java'))
        if own:         # Optional of the user instead of the one of the JDK
            for f in vh:
                texts[os.path.join(self.src, 'vh', os.path.basename(f))] = open(f).read()
            for n, get, ty in (('Int', 'AsInt', 'int'), ('Long', 'AsLong', 'long'), ('Double', 'AsDouble', 'double'), ('', '', 'T')):
                texts[os.path.join(self.src, *own.split('.'), 'Optional%s.java' % n)] = OPTIONAL % dict(
                    pkg=own, n=n, get=get, ty=ty, g='' if n else '<T>', zero='0' if n else 'null', g1='' if n else '<T> ')
            vh = []
        for n, t in texts.items():
            vlib.write(n, t.replace('java.util.Optional', own + '.Optional') if own else t)
        fs = glob.glob(os.path.join(self.src, '**', '*.java'), recursive=True) + vh
        tgt.javac(fs, self.cls)

    def build(self, ck, tag, files, keep, extra='', san='asan', opt='0', log=None):
        def one(k):
            try:
                if k == 0:
                    self.rust_lib(extra, san, opt, log)
                else:
                    self.java(files)
            except vlib.BuildFailure as e:
                return e
        for e in vlib.pmap(one, [0, 1]):
            if e:
                ck.violation('%s: %s does not compile' % (tag, e.what), e.out, keep)
                return False
        return True

    def run(self, main, args, timeout=300, log='log', jvm=(), san='asan', env=None, gc='Serial'):
        logp = os.path.join(self.dir, log)
        if os.path.exists(logp):
            os.unlink(logp)
        e = vlib.base_env(VH_LOG=logp, VH_LIB=self.lib)
        if san == 'asan':
            e.update(LD_PRELOAD=ASAN_RT, ASAN_SYMBOLIZER_PATH='/usr/bin/llvm-symbolizer-18',
                     ASAN_OPTIONS='handle_segv=0:detect_leaks=0:exitcode=86:allow_user_segv_handler=1')
        e.update(env or {})
        cmd = [JAVA, '-Xcheck:jni', '-ea', '-Xmx512m', '-XX:ErrorFile=' + self.dir + '/hs_err.log', '-XX:-CreateCoredumpOnCrash',
               '-XX:+Use%sGC' % gc] + list(jvm) + ['-cp', self.cls, self.pkg + '.' + main]
        r = vlib.run(cmd + [str(a) for a in args], timeout=timeout, env=e, cwd=self.dir, hang=True)
        lines = []
        if os.path.exists(logp):
            with open(logp, errors='replace') as f:
                lines = f.read().split('\n')
            if lines and lines[-1] == '':
                lines.pop()
        return r, lines

    def cleanup(self):
        if not os.environ.get('VH_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)


def report(r):
    """What ended a run abnormally, or a complaint of the JVM about the use of JNI."""
    t = r.stdout + '\n' + r.stderr
    for pat, kind in ((r'ERROR: AddressSanitizer: ([\w-]+)', 'asan'), (r'((?:FATAL ERROR|WARNING) in native method[^\n]*|WARNING: JNI[^\n]*)', 'jni'),
                      (r"panicked at ([^\n]*\n[^\n]*)", 'panic'), (r'(UnsatisfiedLinkError[^\n]*)', 'link'),
                      (r'# +(SIG\w+)', 'crash'), (r'Exception in thread[^\n]*?((?:\w+\.)*\w+(?:Error|Exception)[^\n]*)', 'exception')):
        m = re.search(pat, t)
        if m:
            return kind + ': ' + re.sub(r'/\S*/', '', m.group(1)).strip()[:200]
    return 'exit %s' % r.returncode


def complaint(r):
    """A rule of JNI broken, as seen by -Xcheck:jni."""
    m = re.search(r'(FATAL ERROR in native method[^\n]*|WARNING in native method[^\n]*|WARNING: JNI[^\n]*)', r.stdout + r.stderr)
    return m.group(1) if m else None
