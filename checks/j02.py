"""J02: Rust errors become exactly one Java exception; what cannot be represented is refused."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cpprun
import javagen
import javarun
import vlib
from javagen import T

CTOR = '''
pub struct R@N { a: i64, s: String, t: Ticket }
impl R@N {
    pub fn open(@S, a: i64, s: &str, f: Foo) -> Result<@V, @E> {
        vh::enter(@I, &[vh::c(&a), vh::c(&s), vh::c(&f)]);
        let bad: Result<(), @EI> = vh::with_rng(|r| Gen::gen(r));
        match bad {
            Ok(()) => { vh::log("[ @I O |"); Ok(@W(R@N { a, s: s.into(), t: Ticket::new("R@N") }@X)) }
            Err(e) => { vh::log(&format!("[ @I E({}) |", vh::c(&e))); Err(e) }
        }
    }
}
foreign_class!(class R@N {
    self_type R@N;
    constructor R@N::open(@S, a: i64, s: &str, f: Foo) -> Result<@V, @E>;
    fn a(&self) -> i64 { this.a }
    fn s(&self) -> &str { &this.s }
    fn set(&mut self, a: i64) -> Result<i64, @E> {
        vh::enter(@J, &[vh::c(&a)]);
        let r: Result<i64, @EI> = vh::with_rng(|r| if r.below(2) == 0 { Ok(this.a) } else { Err(Gen::gen(r)) });
        if r.is_ok() { this.a = a; }
        vh::log(&format!("[ @J {} |", vh::c(&r)));
        r
    }
});
'''
NEST = '''
pub trait Back { fn back(&self, depth: i32, ok: bool) -> i32; fn tell(&self, s: &str); }
foreign_callback!(callback Back {
    self_type Back;
    back = Back::back(&self, depth: i32, ok: bool) -> i32;
    tell = Back::tell(&self, s: &str);
});
pub struct Nest;
foreign_class!(class Nest {
    fn go(cb: Box<dyn Back>, depth: i32) -> Result<String, String> {
        vh::enter(9000, &[vh::c(&depth)]);
        let n = cb.back(depth, vh::with_rng(|r| r.below(2) == 0));
        cb.tell("x");
        let r: Result<String, String> = vh::with_rng(|r| Gen::gen(r));
        vh::log(&format!("[ 9000 {} |", vh::c(&r)));
        r
    }
});
'''


def ret_err(r):
    if r.random() < 0.15:
        return javagen.plain_ret(r)
    a = javagen.plain_ret(r) if r.random() < 0.85 else T('()')
    e, ei = r.choice([('String', 'String'), ('&str', "&'static str")])
    return T('Result<%s, %s>' % (a.rs, e), 'Result<%s, %s>' % (a.impl, ei))


def make(name, seed, pkg, n, opts=()):
    p = javarun.JProg('j02', name, pkg=pkg)
    p.opts = list(opts)
    r = random.Random(seed)
    glue = [open(os.path.join(javarun.H, 'java', 'objs.rs')).read()]
    keep, javagen.ret = javagen.ret, ret_err
    try:
        p.ms = javagen.methods(r, n, 0)
    finally:
        javagen.ret = keep
    glue.append(javagen.class_glue('VT', p.ms, []))
    p.ctors = []
    for i, (nm, v, w, x) in enumerate([('Bare', 'RBare', '', ''), ('Rc', 'Rc<RefCell<RRc>>', 'Rc::new(RefCell::new', '))'),
                                       ('Arc', 'Arc<Mutex<RArc>>', 'Arc::new(Mutex::new', '))'), ('Str', 'RStr', '', '')]):
        e, ei = ('&str', "&'static str") if nm == 'Str' else ('String', 'String')
        k = r.choice(['u8', 'bool', 'Color', '&str'])
        # (what makes the error is what the error may borrow from)
        et = "&'static str" if nm == 'Str' else 'String'
        t = CTOR.replace('@N', nm).replace('@V', v).replace('@W(', (w or '') + '(').replace('@X))', x + ')' if w else '))')
        t = t.replace('@S', '_z: ' + k).replace('@EI', ei).replace('@I', str(8000 + i)).replace('@J', str(8100 + i))
        # flapigen knows &str only
        head, _, tail = t.partition('foreign_class!')
        glue.append(head.replace('@E', ei) + '\nforeign_class!' + tail.replace('@E', e))
        p.ctors.append(('R' + nm, k, 8000 + i, 8100 + i))
    glue.append(NEST)
    vlib.write(p.glue_in, '\n'.join(glue))
    return p


def driver(p):
    o = ['package %s;' % p.pkg, 'import vh.VH;', 'public final class Main {',
         'static final class Obj { VT o; long id; int n; Obj(long i) { id = i; o = new VT(i); } }']
    fs = []
    for m in p.ms:
        o.append(javagen.call_java('VT', m))
        fs.append(m.id)
    for c, k, i, j in p.ctors:
        jt, g = javagen.jin(k)
        o.append('''static %(c)s[] s%(i)d = new %(c)s[5]; static long[] a%(i)d = new long[5]; static String[] t%(i)d = new String[5];
static void f%(i)d(VH.R r, Obj x) throws Exception {
  int at = r.below(5); long a = r.i64(); String s = r.str(); Foo f = Objs.Foo(r);
  if (s%(i)d[at] != null && r.bool()) { s%(i)d[at].delete(); if (r.bool()) s%(i)d[at].delete(); s%(i)d[at] = null; }
  VH.log("> %(i)d " + VH.c(a) + " " + VH.c(s) + " " + Objs.c(f));
  %(c)s before = s%(i)d[at]; String ret;
  try { s%(i)d[at] = new %(c)s(%(g)s, a, s, f); a%(i)d[at] = a; t%(i)d[at] = s; ret = "O"; }
  catch (Exception e) { ret = "E(" + VH.exc(e) + ")"; if (s%(i)d[at] != before) VH.log("! an object with an exception"); }
  VH.log("< %(i)d " + ret + " |");
}
static void f%(j)d(VH.R r, Obj x) throws Exception {
  int at = r.below(5); %(c)s q = s%(i)d[at]; if (q == null) return;
  if (q.a() != a%(i)d[at] || !q.s().equals(t%(i)d[at])) VH.log("! object of %(c)s does not hold its values");
  long a = r.i64(); String ret;
  VH.log("> %(j)d " + VH.c(a));
  try { long v = q.set(a); ret = "O(" + VH.c(v) + ")"; if (v != a%(i)d[at]) VH.log("! state of %(c)s"); a%(i)d[at] = a; }
  catch (Exception e) { ret = "E(" + VH.exc(e) + ")"; }
  VH.log("< %(j)d " + ret + " |");
}''' % dict(c=c, i=i, j=j, g=g))
        fs += [i, j]
    o.append('''
static void f9000(VH.R r, Obj x) throws Exception { nest(r, x, 1 + r.below(5)); }
static void nest(VH.R r, Obj x, int depth) {
  VH.log("> 9000 " + depth); String ret;
  try {
    String v = Nest.go(new Back() {
      public int back(int d, boolean ok) {
        if (d != depth) VH.log("! callback argument");
        try { FS[r.below(FS.length)].run(r, x); } catch (Exception e) { VH.log("! unexpected exception in callback " + e); }
        if (d > 0) nest(r, x, d - 1);
        if (r.chance(4)) System.gc();
        return d;
      }
      public void tell(String s) {
        // exceptions that Java code handles itself are none of Rust's business
        try { throw new IllegalStateException(s); } catch (IllegalStateException e) { if (!e.getMessage().equals("x")) VH.log("! tell"); }
      }
    }, depth);
    ret = "O(" + VH.c(v) + ")";
  } catch (Exception e) { ret = "E(" + VH.exc(e) + ")"; }
  VH.log("< 9000 " + ret + " |");
}
interface Fn { void run(VH.R r, Obj x) throws Exception; }
static final Fn[] FS = { %s };
static void drive(VH.R r, int n) throws Exception {
  Obj[] xs = { new Obj(100), new Obj(101) };
  for (int k = 0; k < n; ++k) {
    int at = r.below(FS.length + 3);
    if (at >= FS.length) f9000(r, xs[r.below(2)]); else FS[at].run(r, xs[r.below(2)]);
    if (r.chance(150)) { System.gc(); System.runFinalization(); }
    VH.poolClear();
  }
}
public static void main(String[] a) throws Throwable {
  System.load(System.getenv("VH_LIB"));
  long seed = Long.parseLong(a[0]); int n = Integer.parseInt(a[1]);
  VH.setSeed(seed * 77 + 5);
  try {
    drive(new VH.R(seed * 1000003), n);
    %s
    VH.allFreed(0);
    VH.log("END");
  } finally { VH.flush(); }
}
}''' % (', '.join('Main::f%d' % i for i in fs), ' '.join('s%d = null;' % c[2] for c in p.ctors)))
    return {'Objs.java': javagen.OBJS % dict(pkg=p.pkg), 'Main.java': '\n'.join(o)}


def evaluate(ck, p, tag, runs, steps):
    keep = [p.glue_in, p.gen]
    if not p.build(ck, tag, driver(p), keep):
        return
    sig = {str(m.id): '%s' % m for m in p.ms}

    def one(k):
        jvm = [['-Xint'], ['-Xcomp', '-XX:TieredStopAtLevel=1'], ['-Xmn1m'], []][k % 4]
        return p.run('Main', [vlib.seed() * 100 + k, steps], timeout=600, log='log%d' % k, jvm=jvm)

    errs = 0
    for k, (r, lines) in enumerate(vlib.pmap(one, range(runs))):
        pr = cpprun.Pairing()
        last, prev, err = None, [], 0
        for line in lines:
            if line.startswith('> '):
                last = line
            done = pr.feed(line)
            if done:
                mid = line[2:].partition(' ')[0]
                isx = done[1].startswith(('E(', 'S("')) and 'Result' in sig.get(mid, 'Result')
                err += isx
                # the outcomes that led here, with the signature: the history is part of the case
                prev = (prev + [('E' if isx else 'O') + str(len(pr.stack))])[-5:]
                ck.nontrivial('%s %s %s' % (sig.get(mid, mid), prev, done[1][:80] if isx else ''))
                if isx and err % 301 == 7:
                    ck.sample('%s: %s -> %s after %s' % (sig.get(mid, mid), done[0][:80], done[1][:100], prev[:-1]))
        errs += err
        ck.count(pr.calls)
        for mid, s in pr.errors[:10]:
            ck.violation('%s: %s' % (tag, sig.get(mid, mid)), '%s\n%s' % (sig.get(mid, mid), s), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END' or javarun.complaint(r):
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s in %s' % (tag, javarun.report(r), sig.get(mid, mid)),
                         'last call: %s\n%s\n%s' % (last, r.stdout[-3000:], r.stderr[-4000:]), keep)
    ck.cov['calls that ended in an exception'] = ck.cov.get('calls that ended in an exception', 0) + errs


# ---------------------------------------------------------------- values that are refused
REF_GLUE = '''
pub struct Refu { n: u32 }
impl Refu { pub fn new() -> Refu { Refu { n: 0 } } }
fn reached(s: String) -> i32 { vh::log(&("] 1 ".to_string() + &s)); vh::flush(); 1 }
foreign_class!(class Refu {
    self_type Refu;
    constructor Refu::new() -> Refu;
@M
    fn r_u64(k: i32) -> u64 { if k < 0 { u64::MAX } else if k > 63 { 7 } else { 1u64 << k } }
    fn r_usize(k: i32) -> usize { if k < 0 { usize::MAX } else if k > 63 { 7 } else { 1usize << k } }
    fn ref_foo(f: &Foo) -> i32 { reached(vh::c(&f)) }
    fn mut_foo(f: &mut Foo) -> i32 { reached(vh::c(&f)) }
    fn val_foo(f: Foo) -> i32 { reached(vh::c(&f)) }
    fn two_foo(f: &Foo, g: Foo) -> i32 { reached(vh::c(&g)) }
    fn vec_foo(f: Vec<Foo>) -> i32 { reached(vh::c(&f)) }
    fn ref_am(f: &Am_) -> i32 { reached(vh::c(&f)) }
    fn val_am(f: Arc<Mutex<Am_>>) -> i32 { reached(vh::c(&f)) }
    fn ref_sh(f: &Sh) -> i32 { reached(vh::c(&f)) }
    fn val_sh(f: Rc<RefCell<Sh>>) -> i32 { reached(vh::c(&f)) }
    fn get(&self) -> i32 { reached(this.n.to_string()) }
    fn put(&mut self) -> i32 { this.n += 1; reached(this.n.to_string()) }
});
'''
NUM = {'u8': ('(short)', [-1, 256, 32767, -32768], [0, 255]), 'u16': ('', [-1, 65536, 2**31 - 1, -2**31], [0, 65535]),
       'u32': ('', [-1, 2**32, 2**63 - 1, -2**63], [0, 2**32 - 1]), 'u64': ('', [-1, -2**63], [0, 2**63 - 1]),
       'usize': ('', [-1, -2**63], [0, 2**63 - 1])}


def refusals():
    """(name, Java code, does it have to work)"""
    o = []
    for t, (cast, bad, good) in NUM.items():
        suf = '' if t in ('u8', 'u16') else 'L'
        for i, v in enumerate(bad + good):
            ok = v in good
            e = '%s(%d%s)' % (cast, v, suf)
            f = ['Refu.s_%s(%s)', 'new Refu().m_%s(1, %s)', 'new Refu().x_%s("q", %s, 2.5)'][i % 3] % (t, e)
            o.append(('%s as %s' % (v, t), f, ok))
            if not ok and i == 0:
                o.append(('%s as %s (method)' % (v, t), 'new Refu().m_%s(1, %s)' % (t, e), False))
                o.append(('%s as %s (constructor)' % (v, t), 'new C_%s(%s).v()' % (t, e), False))
    for t in ('u64', 'usize'):
        o.append(('return of %s::MAX' % t, 'Refu.r_%s(-1)' % t, False))
        o.append(('return of 1 << 63 as %s' % t, 'Refu.r_%s(63)' % t, False))
        o.append(('return of 1 << 62 as %s' % t, 'Refu.r_%s(62)' % t, True))
    d = 'T x = new T(A); x.delete(); '
    for cls, a, calls in (('Foo', '1, "q"', ['x.x()', 'x.name()', 'x.set(1, "p")', 'Refu.ref_foo(x)', 'Refu.mut_foo(x)', 'Refu.val_foo(x)',
                                             'Refu.two_foo(x, new Foo(1, "w"))', 'Refu.two_foo(new Foo(1, "w"), x)',
                                             'Refu.vec_foo(new Foo[] { new Foo(1, "e"), x, new Foo(2, "e") })', 'x.clone()']),
                          ('Am_', '1, "q"', ['x.v()', 'x.incr()', 'x.s()', 'Refu.ref_am(x)', 'Refu.val_am(x)']),
                          ('Sh', '1', ['x.v()', 'Refu.ref_sh(x)', 'Refu.val_sh(x)']), ('Refu', '', ['x.get()', 'x.put()'])):
        for c in calls:
            o.append(('%s of a deleted %s' % (c, cls), d.replace('(A)', '(' + a + ')').replace('T ', cls + ' ').replace('T(', cls + '(') + '@' + c, False))
    o.append(('second use of an object given away', 'Foo x = new Foo(1, "q"); Refu.val_foo(x); @Refu.val_foo(x)', False))
    o.append(('method of an object given away', 'Foo x = new Foo(1, "q"); Refu.val_foo(x); @x.x()', False))
    o.append(('repeated delete', 'Foo x = new Foo(1, "q"); x.delete(); x.delete(); x = null; System.gc(); System.runFinalization(); @Refu.ref_foo(new Foo(2, ""))', True))
    return o


def refused(ck):
    p = javarun.JProg('j02', 'ref', pkg='vns')
    ms, cs = [], []
    for t in NUM:
        ms.append('    fn s_%s(v: %s) -> i32 { reached(vh::c(&v)) }' % (t, t))
        ms.append('    fn m_%s(&self, k: i32, v: %s) -> i32 { reached(vh::c(&v)) }' % (t, t))
        ms.append('    fn x_%s(&mut self, k: &str, v: %s, w: f64) -> i32 { reached(vh::c(&v)) }' % (t, t))
        cs.append('pub struct C_%s(%s); impl C_%s { pub fn new(v: %s) -> C_%s { reached(vh::c(&v)); C_%s(v) } } '
                  'foreign_class!(class C_%s { self_type C_%s; constructor C_%s::new(v: %s) -> C_%s; fn v(&self) -> %s { this.0 } });'
                  % ((t, t, t, t, t, t, t, t, t, t, t, t)))
    vlib.write(p.glue_in, open(os.path.join(javarun.H, 'java', 'objs.rs')).read() + REF_GLUE.replace('@M', '\n'.join(ms)) + '\n'.join(cs))
    ok, msg, err = vlib.vgen(p.job())
    if not ok:
        ck.violation('refusals: generator rejects a supported interface', msg + err, [p.glue_in])
        return
    cases = refusals()
    o = ['package vns;', 'import vh.VH;', 'public final class Main {', 'public static void main(String[] a) throws Throwable {',
         'System.load(System.getenv("VH_LIB")); int k = Integer.parseInt(a[0]);', 'String was;', 'try { switch (k) {']
    for i, (_, code, _) in enumerate(cases):
        pre, _, e = code.rpartition('@')
        stmt = 'VH.log("[ 1 " + %s);' % e if not e.startswith(('x.set', 'x.clone')) else '%s; VH.log("[ 1 done");' % e
        o.append('case %d: { %s VH.log("> 1"); VH.flush(); %s break; }' % (i, pre, stmt))
    o.append('} VH.log("< 1"); } catch (Throwable e) { VH.log("refused " + e); } VH.flush(); } }')
    if not p.build(ck, 'refusals', {'Main.java': '\n'.join(o)}, [p.glue_in, p.gen]):
        return

    def one(i):
        return p.run('Main', [i], timeout=120, log='log%d' % i, jvm=['-Xint'])
    for (name, code, good), (r, lines) in zip(cases, vlib.pmap(one, range(len(cases)))):
        ck.count()
        ck.nontrivial('refusal ' + name)
        asan = 'AddressSanitizer' in r.stderr
        after = lines[lines.index('> 1') + 1:] if '> 1' in lines else lines
        ret = [x for x in after if x == '< 1']
        entered = [x for x in after if x.startswith('] ')]
        refus = [x for x in after if x.startswith('refused')]
        panic = re.search(r'panicked at', r.stderr) is not None and r.returncode in (-6, 134)
        bad = None
        if asan or r.returncode in (-11, 139) or 'SIGSEGV' in r.stdout:
            bad = 'memory error'
        elif good and not ret:
            bad = 'a representable value or legal call does not work'
        elif not good and (ret or (entered and not refus and not panic)):
            bad = 'not refused: %s' % after
        elif not good and entered and 'return' not in name:
            bad = 'the Rust function was entered: %s' % entered
        elif not good and not (refus or panic):
            bad = 'neither an exception nor a panic message: exit %s' % r.returncode
        elif refus and not ret and r.returncode != 0:
            bad = 'exit %s after an exception' % r.returncode
        if bad:
            ck.violation('refusal: ' + name, '%s: %s: %s\n%s\n%s' % (name, code, bad, r.stdout[-1500:], r.stderr[-2500:]), [p.glue_in, p.gen])
    ck.sample('refused in a process of its own: ' + '; '.join(c[0] for c in cases if not c[2])[:600])
    ck.cov['refused'] = sum(not c[2] for c in cases)
    p.cleanup()


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call Java -> Rust in a history of succeeding and failing calls (methods, functions, '
                      'constructors, nested through callbacks), or one refused value in a process of its own; distinct = '
                      'distinct (signature, outcomes and nesting of the last five calls, error text)')
    th = vlib.tier() == 'thorough'
    refused(ck)
    confs = [('vns', 60, []), ('com.x', 60, ['--fence', 'std'])]
    if th:
        confs = [(p, 120, o) for p, _, o in confs] * 5
    progs = [make('p%d' % i, vlib.seed() * 1000 + 500 + i, *c) for i, c in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])

    def one(i):
        p, (ok, msg, err) = progs[i], res[i]
        if not ok:
            ck.violation('config %d: generator rejects a supported interface' % (i % 2), msg + '\n' + err, [p.glue_in])
            return
        evaluate(ck, p, 'config %d' % (i % 2), 4 if not th else 8, 3000 if not th else 20000)
        p.cleanup()
    vlib.pmap(one, range(len(progs)), 2)


if __name__ == '__main__':
    vlib.main('J02', check)
