"""Compiles generated code of the three target languages (no sanitizers: used by the checks that
judge the generated text and interface)."""
import glob
import os
import re

import vlib
from vlib import VERIF, BUILD

H = os.path.join(VERIF, 'harness')
JNI_H = os.path.join(H, 'java', 'jni_c_header.rs')


def build_pyrt():
    """rust-cpython as rlib; (path of the rlib, directory of its dependencies)."""
    with vlib.Lock(os.path.join(BUILD, 'pyrt.lock')):
        tgt = os.path.join(BUILD, 'pytarget')
        deps = os.path.join(tgt, 'debug', 'deps')
        got = glob.glob(os.path.join(deps, 'libcpython-*.rlib'))
        if not got:
            r = vlib.run(['cargo', 'build', '--offline', '-q'], env=vlib.base_env(CARGO_TARGET_DIR=tgt),
                         cwd=os.path.join(VERIF, 'crates', 'pyrt'), timeout=900)
            if r.returncode != 0:
                raise vlib.Inconclusive('rust-cpython does not build: ' + r.stderr[-2000:])
            got = glob.glob(os.path.join(deps, 'libcpython-*.rlib'))
        return got[0], deps


HIT = '''
pub static SEQ: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn seq() -> i64 { SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 }
pub static HITS: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
pub fn hit(id: u32, args: &str) {
    HITS.lock().unwrap().push(format!("{} {}", id, args));
}
pub fn hits_take() -> String {
    let mut h = HITS.lock().unwrap();
    let s = h.join("\\n");
    h.clear();
    s
}
'''
# reports at once on stdout instead of keeping the reports
HIT_OUT = '''
pub static SEQ: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub fn seq() -> i64 { SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 }
pub fn hit(id: u32, args: &str) {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    writeln!(o, "H {} {}", id, args).unwrap();
    o.flush().unwrap();
}
'''
LOG = '''
pub mod log {
    // stands in for the log crate that the generated code uses
    macro_rules! vlog { ($($t:tt)*) => { eprintln!("VHLOG {}", format!($($t)*)) } }
    macro_rules! vnone { ($($t:tt)*) => { { let _ = format!($($t)*); } } }
    pub(crate) use {vlog as error, vlog as warn, vnone as info, vnone as debug, vnone as trace};
}
'''
SUPPORT_USE = 'use std::{sync::{Arc, Mutex}, rc::Rc, cell::RefCell};\n'


def lib_rs(lang, glue, support, extra='', crate_uses='', hit=None):
    o = '#![allow(warnings)]\n' + crate_uses
    if lang == 'java':
        o += '#[path = "%s"]\npub mod jni_c_header;\nuse jni_c_header::*;\n' % JNI_H
    o += (hit or HIT) + 'pub mod support {\n' + SUPPORT_USE + support + '\n}\n' + extra + '\n'
    if lang == 'java':
        o += LOG
    o += 'pub mod glue {\n%sinclude!("%s");\n}\n' % ('use crate::{log, jni_c_header::*};\n' if lang == 'java' else '', glue)
    return o


def rust_check(lang, src, out, crate='vns', metadata=True):
    """Compiles; raises vlib.BuildFailure."""
    a = ['--edition=2021', '--crate-name', crate, '-Awarnings', '-Cdebuginfo=0', '--cap-lints=allow', '--error-format=short']
    if lang == 'python':
        rlib, deps = build_pyrt()
        a += ['--extern', 'cpython=' + rlib, '-L', 'dependency=' + deps]
    if metadata:
        a += ['--emit=metadata', '--crate-type=lib', '-o', out + '.rmeta', src]
    else:
        a += ['--crate-type=%s' % ('staticlib' if lang == 'cpp' else 'cdylib'), '-o', out, src]
    vlib.rustc(a, 'generated Rust code (%s)' % lang)
    return out


def cpp_check(gen, boost=False, headers=None, extra_src='', args=()):
    """Every generated header compiles alone and all of them together."""
    hs = headers or sorted(h for h in os.listdir(gen) if h.endswith(('.hpp', '.h')) and not h.startswith('rust_'))
    bad = []
    std = '-std=c++14' if boost else '-std=c++17'

    def cc(text, name):
        p = os.path.join(os.path.dirname(gen), name)
        vlib.write(p, text)
        r = vlib.run(['clang++', std, '-fsyntax-only', '-Wno-everything', '-I', gen, p] + list(args))
        if r.returncode != 0:
            raise vlib.BuildFailure('generated C++ headers', r.stderr[:4000])
    cc('\n'.join('#include "%s"' % h for h in hs if h.endswith('.hpp')) + '\n' + extra_src, 'all.cpp')


def javac(gen_files, out, extra=(), params=True):
    os.makedirs(out, exist_ok=True)
    r = vlib.run([vlib.JAVA_HOME + '/bin/javac', '-nowarn', '-Xlint:none', '-proc:none', '-d', out] + (['-parameters'] if params else [])
                 + list(extra) + list(gen_files))
    if r.returncode != 0:
        raise vlib.BuildFailure('generated Java code', (r.stdout + r.stderr)[:4000])


def tsan_sysroot():
    """Rust's own libraries compiled with ThreadSanitizer (the shipped ones are not: locks that go through
    their slow path would look like races)."""
    root = os.path.join(BUILD, 'tsanroot')
    lib = os.path.join(root, 'lib', 'rustlib', 'x86_64-unknown-linux-gnu', 'lib')
    with vlib.Lock(os.path.join(BUILD, 'tsanroot.lock')):
        if os.path.exists(os.path.join(root, 'done')):
            return root
        d = os.path.join(BUILD, 'tsanstd')
        vlib.write(os.path.join(d, 'Cargo.toml'), '[package]\nname = "empty"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "lib.rs"\n[workspace]\n')
        vlib.write(os.path.join(d, 'lib.rs'), '')
        r = vlib.run(['cargo', '+nightly-x86_64-unknown-linux-gnu', 'build', '-q', '-Zbuild-std=std', '--target', 'x86_64-unknown-linux-gnu', '--offline'],
                     env=vlib.base_env(CARGO_TARGET_DIR=os.path.join(d, 't'), RUSTFLAGS='-Zsanitizer=thread -Cdebuginfo=1'), cwd=d, timeout=900)
        got = [f for f in glob.glob(os.path.join(d, 't', 'x86_64-unknown-linux-gnu', 'debug', '**', 'lib*.r*'), recursive=True) if f.endswith(('.rlib', '.rmeta')) and 'empty' not in os.path.basename(f)]
        if r.returncode != 0 or not got:
            raise vlib.Inconclusive('the instrumented standard library does not build: ' + r.stderr[-2000:])
        os.makedirs(lib, exist_ok=True)
        for f in got:
            os.link(f, os.path.join(lib, os.path.basename(f))) if not os.path.exists(os.path.join(lib, os.path.basename(f))) else None
        vlib.write(os.path.join(root, 'done'), '')
    return root
