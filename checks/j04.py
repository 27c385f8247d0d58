"""J04: calls of Rust on Java implementations of foreign_callback, threads, and the life of these objects."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import javagen
import javarun
import vlib
from javagen import T

# what a Java callback may receive and return
ARGS = list(javagen.PRIM) + ['&str', 'String', 'Color', 'Foo', 'Arc<Mutex<Am_>>', 'Rc<RefCell<Sh>>', 'Vec<Foo>'] + \
    ['&[%s]' % x for x in javagen.ARR] + ['&mut [%s]' % x for x in javagen.ARR] + ['Vec<%s>' % x for x in javagen.ARR]
RETS = [x for x in javagen.PRIM if x != 'isize']


def cb_arg(r):
    t = r.choice(['&str', 'String', 'Color', 'Foo', 'Vec<Foo>'] if r.random() < 0.3 else ARGS)
    impl = t
    if t.startswith('&'):
        impl = "&'static " + t[1:]
    return T(t, impl)


class Iface:
    def __init__(self, k, r, n, start):
        self.name = r.choice(['Cb%d', 'C_b%d', 'Cb_%d_', 'Cb%dÄ']) % k
        self.trait = 'Trait%d' % k
        self.ms = []
        for i in range(n):
            na = r.choice([0, 1, 1, 2, 2, 3, 5, 9])
            m = javagen.Method(start + i, r.choice(['ref', 'ref', 'mut']), [cb_arg(r) for _ in range(na)],
                               T(r.choice(RETS)) if r.random() < 0.7 else T('()'), False, javagen.pnames(r, na))
            m.jname = r.choice(['m%d', 'm%d', 'm_%d', '_m%d', 'm_1_%d', 'mé%d', 'имя_%d', 'onEvent%d', 'toString%d', 'do_m%d']) % m.id
            self.ms.append(m)
        # methods of one name, told apart by their arguments
        keys = set()
        for m in self.ms:
            key = tuple(javagen.jout(a.rs) for a in m.args)
            if r.random() < 0.3 and key not in keys:
                keys.add(key)
                m.jname = 'over'
        self.order = list(self.ms)
        r.shuffle(self.order)
        self.send = r.random() < 0.75
        self.dyn = 'Box<dyn %s%s>' % (self.trait, ' + Send' if self.send else '')

    def glue(self, r):
        o = ['pub trait %s {' % self.trait, '    fn uid(&self) -> u64;']
        me = {'ref': '&self', 'mut': '&mut self'}

        def args(m):
            return ', '.join([me[m.kind]] + ['%s: %s' % x for x in zip(m.names, [a.rs for a in m.args])])
        ms = list(self.ms)
        r.shuffle(ms)
        for m in ms:
            o.append('    fn t%d(%s) -> %s;' % (m.id, args(m), m.ret.rs))
        o.append('}')
        o.append('foreign_callback!(callback %s {' % self.name)
        o.append('    self_type %s%s;' % (self.trait, ' + Send' if self.send else ''))
        pos = r.randrange(len(self.order) + 1)
        for i, m in enumerate(self.order + [None]):
            if i == pos:
                o.append('    uid = %s::uid(&self) -> u64;' % self.trait)
            if m:
                o.append('    %s = %s::t%d(%s)%s;' % (m.jname, self.trait, m.id, args(m), '' if m.ret.rs == '()' else ' -> ' + m.ret.rs))
        o.append('});')
        o.append('pub fn call_%s(cb: &mut dyn %s, k: usize) { let uid = cb.uid(); match k {' % (self.name, self.trait))
        for i, m in enumerate(self.ms):
            o.append('  %d => {' % i)
            for j, a in enumerate(m.args):
                o.append('    let mut a%d: %s = vh::with_rng(|r| vh::Gen::gen(r));' % (j, a.impl))
            o.append('    vh::log(&format!("> %d @{} {}", uid, [%s].join(" ")));'
                     % (m.id, ', '.join('vh::c(&a%d)' % j for j in range(len(m.args))) or 'String::new()'))
            o.append('    let ret = cb.t%d(%s);' % (m.id, ', '.join('a%d' % j for j in range(len(m.args)))))
            o.append('    vh::log(&format!("< %d {} |", vh::c(&ret)));' % m.id)
            o.append('  }')
        o.append('  _ => unreachable!() } }')
        o.append(DRV.replace('THREADS', THREADS if self.send else '').replace('STAT', STAT if self.send else '')
                 .replace('DYN', self.dyn).replace('KEEP_N', 'KEEP_' + self.name).replace('BG_N', 'BG_' + self.name)
                 .replace('_N', '_' + self.name).replace('NM', str(len(self.ms))))
        return '\n'.join(o)

    def impl(self):
        """Java class with all the methods."""
        o = ['  static final class Impl%s implements %s {' % (self.name, self.name),
             '    final long id; final VH.R r;',
             '    Impl%s() { id = born(this); r = new VH.R(id * 977 + seed); }' % self.name,
             '    public long uid() { return id; }']
        for m in self.ms:
            c = ''.join(' + " " + ' + javagen.jcanon(a.rs, 'q%d' % k, True) for k, a in enumerate(m.args))
            ret = '()' if m.ret.rs == '()' else javagen.PRIM[m.ret.rs]
            o.append('    public %s %s(%s) {' % ('void' if ret == '()' else ret, m.jname, ', '.join(
                '%s q%d' % (javagen.jout(a.rs), k) for k, a in enumerate(m.args))))
            o.append('      VH.log("] %d @" + id%s); hook();' % (m.id, c))
            if ret == '()':
                o.append('      VH.log("[ %d () |");' % m.id)
            else:
                # (of a number of Java: Rust receives it whenever the Rust type has it)
                g = 'zz.%s()' % javagen.RGEN.get(m.ret.rs, m.ret.rs)
                o.append('      %s zzv; synchronized (this) { VH.R zz = r; zzv = %s; } VH.log("[ %d " + VH.c(zzv) + " |"); return zzv;' % (ret, g, m.id))
            o.append('    }')
        o.append('  }')
        return '\n'.join(o)


DRV = '''
thread_local!(static KEEP_N: RefCell<Vec<Rc<RefCell<DYN>>>> = RefCell::new(vec![]));
fn drop_N(cb: Rc<RefCell<DYN>>) { if let Ok(c) = Rc::try_unwrap(cb) { drop(c.into_inner()) } }
STAT
pub struct Use_N { cb: Option<DYN> }
foreign_class!(class Use_N {
    self_type Use_N;
    constructor new(pre: i32, cb: DYN, s: &str) -> Use_N { assert_eq!(pre as usize, s.len()); Use_N { cb: Some(cb) } }
    fn call(&mut self, k: usize) { call_N(&mut **this.cb.as_mut().unwrap(), k) }
    fn swap(&mut self, cb: DYN) { let c = this.cb.replace(cb).unwrap(); drop(c); }
    fn uid(&self) -> u64 { this.cb.as_ref().unwrap().uid() }
});
foreign_class!(class Drv_N {
    fn keep(cb: DYN) { KEEP_N.with(|v| v.borrow_mut().push(Rc::new(RefCell::new(cb)))) }
    fn keep3(a: DYN, x: i32, b: DYN, c: DYN) -> i32 { KEEP_N.with(|v| v.borrow_mut().extend([a, b, c].map(|c| Rc::new(RefCell::new(c))))); x + 1 }
    fn order(a: DYN, b: DYN) -> u64 { let r = a.uid() * 1000000 + b.uid(); for c in [b, a] { drop_N(Rc::new(RefCell::new(c))); } r }
    fn once(cb: DYN, k: usize) { let mut cb = cb; call_N(&mut *cb, k); drop_N(Rc::new(RefCell::new(cb))); }
    fn twice(cb: DYN, k: usize, k2: usize) { let mut cb = cb; call_N(&mut *cb, k); call_N(&mut *cb, k2); }
    fn call(i: usize, k: usize) -> bool { callk_N(i, k) }
    fn forget(i: usize) -> u64 { forget_N(i) }
    fn kept() -> usize { KEEP_N.with(|v| v.borrow().len()) }
    THREADS
});
fn callk_N(i: usize, k: usize) -> bool {
    let cb = KEEP_N.with(|v| { let v = v.borrow(); if v.is_empty() { None } else { Some(v[i % v.len()].clone()) } });
    let Some(cb) = cb else { return false };
    let ok = if let Ok(mut c) = cb.try_borrow_mut() { call_N(&mut **c, k); true } else { false };
    drop_N(cb);
    ok
}
fn forget_N(i: usize) -> u64 {
    let cb = KEEP_N.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { None } else { let n = v.len(); Some(v.swap_remove(i % n)) } });
    let Some(cb) = cb else { return 0 };
    if Rc::strong_count(&cb) > 1 { KEEP_N.with(|v| v.borrow_mut().push(cb)); return 0 }
    let u = cb.borrow().uid();
    drop_N(cb);
    u
}
pub struct Drv_N;
'''
STAT = '''
static BG_N: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());
fn worker_N(mut cb: DYN, tag: u32, n: usize, nm: usize) { vh::set_tag(tag); for _ in 0..n { let k = vh::with_rng(|r| r.below(nm as u64)) as usize; call_N(&mut *cb, k); } drop(cb); vh::pool_clear(); vh::set_tag(0); }
'''
THREADS = '''fn thread_call(cb: DYN, tag: u32, k: usize) {
        let mut cb = cb;
        vh::spawn(move || { vh::set_tag(tag); call_N(&mut *cb, k); drop(cb); vh::pool_clear(); vh::set_tag(0); }).join().unwrap();
    }
    fn threads(a: DYN, b: DYN, c: DYN, tag: u32, n: usize) {
        let hs: Vec<_> = [a, b, c].into_iter().zip(tag..).map(|(cb, t)| vh::spawn(move || worker_N(cb, t, n, NM))).collect();
        for h in hs { h.join().unwrap(); }
    }
    fn background(cb: DYN, tag: u32, n: usize) { BG_N.lock().unwrap().push(vh::spawn(move || worker_N(cb, tag, n, NM))); }
    fn join_all() -> usize { let v = std::mem::take(&mut *BG_N.lock().unwrap()); let n = v.len(); for h in v { h.join().unwrap(); } n }'''

# many calls inside of one native call
VOL = '''
pub trait Vol { fn take(&self, i: i32, s: &str, f: Foo, v: &[i64], w: Vec<Foo>) -> i32; fn tick(&mut self, i: i64) -> i64; fn uid(&self) -> u64; }
foreign_callback!(callback VolCb { self_type Vol + Send;
    tick = Vol::tick(&mut self, i: i64) -> i64;
    take = Vol::take(&self, i: i32, s: &str, f: Foo, v: &[i64], w: Vec<Foo>) -> i32;
    uid = Vol::uid(&self) -> u64;
});
pub struct Volume;
fn volume(mut cb: Box<dyn Vol + Send>, n: i32, big: usize) -> i32 {
    let s = "x".repeat(big);
    let mut bad = 0;
    for i in 0..n {
        if cb.take(i, &s, Foo::new(i as i64, "volume"), &[i as i64, 7], vec![Foo::new(1, ""); 2]) != i.wrapping_mul(3) { bad += 1 }
        if cb.tick(i as i64) != i as i64 + 1 { bad += 1 }
    }
    bad
}
foreign_class!(class Volume {
    fn run(cb: Box<dyn Vol + Send>, n: i32, big: usize) -> i32 { volume(cb, n, big) }
    fn run_thread(cb: Box<dyn Vol + Send>, n: i32, big: usize) -> i32 { vh::spawn(move || volume(cb, n, big)).join().unwrap() }
    fn churn(cb: Box<dyn Vol + Send>) -> u64 { cb.uid() }
});
'''

VOLMAIN = '''package PKG;
import vh.VH;
public final class VolMain {
  static long seen, bad;
  static final class V implements VolCb {
    public int take(int i, String s, Foo f, long [] v, Foo [] w) {
      ++seen;
      if (f.x() != i || v.length != 2 || v[0] != i || v[1] != 7 || w.length != 2) ++bad;
      f.delete(); for (Foo x : w) x.delete();
      return i * 3;
    }
    public long tick(long i) { ++seen; return i + 1; }
    public long uid() { return 42; }
  }
  public static void main(String[] a) throws Throwable {
    System.load(System.getenv("VH_LIB"));
    int n = Integer.parseInt(a[0]);
    try {
      if (Volume.run(new V(), n, 4000) != 0) VH.log("! volume: wrong results");
      if (Volume.run_thread(new V(), n / 4, 4000) != 0) VH.log("! volume in a Rust thread: wrong results");
      for (int i = 0; i < n * 4; ++i) if (Volume.churn(new V()) != 42) VH.log("! volume: uid");
      if (seen != 2 * (n + n / 4) || bad != 0) VH.log("! volume: calls lost or altered");
      VH.log("CALLS " + (seen + n * 4)); VH.log("END");
    } finally { VH.flush(); }
    Runtime.getRuntime().halt(0);
  }
}
'''

MAIN = '''package PKG;
import vh.VH;
import java.lang.ref.WeakReference;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.atomic.*;

public final class Main {
  static long seed;
  static final AtomicLong next = new AtomicLong();
  static final ConcurrentHashMap<Long, WeakReference<Object>> objs = new ConcurrentHashMap<>();
  /** objects that Rust holds, and Java does not */
  static final ConcurrentHashMap<Long, Boolean> held = new ConcurrentHashMap<>();
  static final AtomicInteger tags = new AtomicInteger(10);
  static long born(Object o) { long id = next.incrementAndGet(); objs.put(id, new WeakReference<>(o)); return id; }
  static final ThreadLocal<Integer> depth = ThreadLocal.withInitial(() -> 0);
  static final ThreadLocal<VH.R> hr = ThreadLocal.withInitial(() -> new VH.R(tags.incrementAndGet() * 31 + seed));
  static void hook() {
    VH.R r = hr.get();
    if (r.chance(50)) System.gc();
    if (r.chance(4)) new byte[20000].hashCode();
    if (depth.get() > 2 || !r.chance(6)) return;
    depth.set(depth.get() + 1);
    switch (r.below(HOOKS)) {
HOOKCASES
    }
    depth.set(depth.get() - 1);
  }
IMPLS
  static void bad(String s) { VH.log("! " + s); VH.flush(); }
  static long reachable, collected;
  /** what Rust holds is reachable, the rest is collected */
  static void gc() throws Exception {
    for (int i = 0; i < 60; ++i) {
      System.gc(); System.runFinalization();
      int rest = 0;
      for (long id : objs.keySet()) if (!held.containsKey(id)) { if (objs.get(id).get() == null) { objs.remove(id); ++collected; } else ++rest; }
      if (rest == 0) break;
      if (i == 59) bad("objects stay reachable after Rust dropped the callback: " + rest);
      Thread.sleep(i / 4);
    }
    for (long id : held.keySet()) { if (objs.get(id).get() == null) bad("object collected while Rust holds the callback"); ++reachable; }
  }
DRIVES
  /** threads of this VM, but those it starts for itself */
  static int threads() { int n = 0; for (Thread t : Thread.getAllStackTraces().keySet()) if (t.getName().startsWith("Thread-")) ++n; return n; }
  public static void main(String[] a) throws Throwable {
    System.load(System.getenv("VH_LIB"));
    seed = Long.parseLong(a[0]); int n = Integer.parseInt(a[1]);
    VH.setSeed(seed * 77 + 5);
    final VH.R r = new VH.R(seed * 1000003);
    try {
      for (int k = 0; k < 3; ++k) {
RUNS
        gc();
        // the same from several threads of Java
        Thread[] ts = new Thread[3];
        for (int i = 0; i < 3; ++i) {
          final int tag = tags.incrementAndGet() * 100; final long s = r.i64();
          ts[i] = new Thread(() -> { try { VH.setTag(tag); VH.R q = new VH.R(s); switch (q.below(NIF)) {
JRUNS
          } } catch (Throwable e) { e.printStackTrace(); bad("exception " + e); } });
          ts[i].start();
        }
        for (Thread t : ts) t.join();
        gc();
      }
      for (int i = 0; i < 100 && threads() != 0; ++i) Thread.sleep(20);
      if (threads() != 0) bad("threads of Rust stay attached: " + threads());
      if (!held.isEmpty()) bad("held");
      VH.poolClear();
      VH.allFreed(0);
      VH.log("STAT reachable=" + reachable + " collected=" + collected + " born=" + next.get());
      VH.log("END");
    } catch (Throwable e) { bad("exception " + e); e.printStackTrace(); } finally { VH.flush(); }
    Runtime.getRuntime().halt(0);
  }
}
'''
DRIVE = '''
  static void again_N(VH.R r) { Drv_N.call(r.below(1000), r.below(NM)); }
  static void drive_N(VH.R r, int n) throws Exception {
    for (int k = 0; k < n; ++k) {
      switch (r.below(CASES)) {
        case 0: { Impl_N x = new Impl_N(); held.put(x.id, true); Drv_N.keep(x); break; }
        case 1: { int x = r.below(99); Impl_N a = new Impl_N(), b = new Impl_N(), c = new Impl_N(); held.put(a.id, true); held.put(b.id, true); held.put(c.id, true);
                  if (Drv_N.keep3(a, x, b, c) != x + 1) bad("keep3: value"); break; }
        case 2: Drv_N.once(new Impl_N(), r.below(NM)); break;
        case 3: { Impl_N a = new Impl_N(), b = new Impl_N(); if (Drv_N.order(a, b) != a.id * 1000000 + b.id) bad("two callbacks were exchanged"); break; }
        case 4: if (Drv_N.kept() > 6 || r.chance(3)) { long u = Drv_N.forget(r.below(1000)); if (u != 0 && held.remove(u) == null) bad("forget: unknown object"); } break;
        case 5: { Impl_N a = new Impl_N(); String s = r.below(2) == 0 ? "" : "xyz"; Use_N u = new Use_N(s.length(), a, s); if (u.uid() != a.id) bad("another object");
                  for (int j = 0; j < 3; ++j) u.call(r.below(NM)); if (r.bool()) u.swap(new Impl_N()); if (r.bool()) u.delete(); break; }
        case 6: { Impl_N a = new Impl_N(); for (int j = r.below(4); j > 0; --j) Drv_N.twice(a, r.below(NM), r.below(NM)); break; }
        case 7: Drv_N.call(r.below(1000), r.below(NM)); break;
        case 8: if (r.chance(20)) gc1(); else Drv_N.call(r.below(1000), r.below(NM)); break;
        case 9: Drv_N.thread_call(new Impl_N(), (tags.incrementAndGet() * 100), r.below(NM)); break;
        case 10: if (r.chance(3)) { Impl_N a = new Impl_N(), b = r.bool() ? a : new Impl_N(); Drv_N.threads(a, b, new Impl_N(), (tags.incrementAndGet() * 100), 1 + r.below(8)); } break;
        case 11: if (r.chance(2)) Drv_N.background(new Impl_N(), (tags.incrementAndGet() * 100), 1 + r.below(12)); else if (r.chance(3)) Drv_N.join_all(); break;
      }
      if (k % 16 == 15) VH.poolClear();
    }
    while (Drv_N.kept() > 0) { long u = Drv_N.forget(0); held.remove(u); }
    JOIN
  }
'''


def make(name, seed, pkg, n_if, n_m, opts):
    p = javarun.JProg('j04', name, pkg=pkg)
    p.opts = list(opts)
    r = random.Random(seed)
    p.ifs = [Iface(k, r, n_m, k * n_m) for k in range(n_if)]
    glue = [open(os.path.join(javarun.H, 'java', 'objs.rs')).read()] + [i.glue(r) for i in p.ifs] + [VOL]
    vlib.write(p.glue_in, '\n'.join(glue))
    return p


def driver(p):
    def sub(s, i):
        return s.replace('Impl_N', 'Impl' + i.name).replace('_N', '_' + i.name).replace('NM', str(len(i.ms)))
    drives = [sub(DRIVE.replace('CASES', '12' if i.send else '9').replace('JOIN', 'Drv_N.join_all();' if i.send else ''), i) for i in p.ifs]
    drives = [d if i.send else re.sub(r' *case (9|10|11): .*\n', '', d) for d, i in zip(drives, p.ifs)]
    m = MAIN.replace('PKG', p.pkg).replace('IMPLS', '\n'.join(i.impl() for i in p.ifs)).replace('DRIVES', '\n'.join(drives))
    m = m.replace('HOOKCASES', '\n'.join('    case %d: again_%s(r); break; case %d: Drv_%s.once(new Impl%s(), r.below(%d)); break;'
                                         % (2 * k, i.name, 2 * k + 1, i.name, i.name, len(i.ms)) for k, i in enumerate(p.ifs)))
    m = m.replace('HOOKS', str(2 * len(p.ifs))).replace('NIF', str(len(p.ifs)))
    m = m.replace('JRUNS', '\n'.join('            case %d: drive_%s(q, n); break;' % (k, i.name) for k, i in enumerate(p.ifs)))
    m = m.replace('RUNS', '\n'.join('        drive_%s(r, n); gc();' % i.name for i in p.ifs))
    m = m.replace('gc1()', 'System.gc()')
    return {'Main.java': m, 'Objs.java': javagen.OBJS % dict(pkg=p.pkg), 'VolMain.java': VOLMAIN.replace('PKG', p.pkg)}


def evaluate(ck, p, tag, runs, rounds, th):
    keep = [p.glue_in, p.gen]
    if '--null-ann' in p.opts:
        for n in ('NonNull', 'Nullable'):
            vlib.write(os.path.join(p.src, 'org', 'ann', n + '.java'), 'package org.ann;\npublic @interface %s {}\n' % n)
    if not p.build(ck, tag, driver(p), keep):
        return
    sig = {str(m.id): '%s.%s [%s]' % (i.name, m, m.jname) for i in p.ifs for m in i.ms}
    jvms = [(['-Xcomp', '-XX:TieredStopAtLevel=1'], 'Serial'), ([], 'G1'), (['-Xint'], 'Serial'), (['-Xmn2m'], 'Parallel')]

    def one(k):
        if k == runs:
            return p.run('VolMain', [20000 if not th else 100000], timeout=300, log='vol', jvm=['-Xmx48m'])
        return p.run('Main', [vlib.seed() * 100 + k, rounds], timeout=300 if not th else 800, log='log%d' % k, jvm=jvms[k % 4][0], gc=jvms[k % 4][1])

    for k, (r, lines) in enumerate(vlib.pmap(one, range(runs + 1), 4)):
        prs, last = {}, None
        calls = 0
        order = []
        for line in lines:
            t = ''
            if line[:1] == 'T' and line[1:2].isdigit():
                t, _, line = line.partition(' ')
            if line.startswith('> '):
                last = line
            elif line.startswith('CALLS '):
                ck.count(int(line[6:]))
                ck.cov['volume_calls'] = ck.cov.get('volume_calls', 0) + int(line[6:])
            elif line.startswith('STAT '):
                for a, b in re.findall(r'(\w+)=(\d+)', line):
                    ck.cov[a] = ck.cov.get(a, 0) + int(b)
            pr = prs.setdefault(t, cpprun.Pairing())
            done = pr.feed(line)
            if line[:2] in ('> ', '] ') and (not order or order[-1] != t):
                order.append(t)
            if done:
                mid = line[2:].partition(' ')[0]
                ck.nontrivial(sig[mid] + ' ' + done[0] + ' -> ' + done[1])
                if pr.calls % 197 == 5:
                    ck.sample('%s: %s -> %s' % (sig[mid], done[0][:150], done[1][:150]))
        for t, pr in prs.items():
            ck.count(pr.calls)
            if pr.stack and lines and lines[-1] == 'END':
                pr.err(pr.stack[-1][0], 'a call never returned')
            for mid, s in pr.errors[:5]:
                ck.violation('%s: %s' % (tag, sig.get(mid, mid + ' ' + re.sub(r'\d+', '#', s))), '%s\n%s' % (sig.get(mid, mid), s), keep)
        m = re.search(r'VHLOG ([^\n]*)', r.stderr)
        if m:
            ck.violation('%s: the generated code reports an error: %s' % (tag, re.sub(r'-?\d+', '#', m.group(1))[:120]), r.stderr[-3000:], keep)
        ck.cov['threads'] = ck.cov.get('threads', 0) + len(prs)
        ck.cov['thread_switches'] = ck.cov.get('thread_switches', 0) + len(order)
        if r.returncode != 0 or not lines or lines[-1] != 'END' or javarun.complaint(r):
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s%s' % (tag, 'many calls in one native call: ' if k == runs else '', javarun.report(r)),
                         'last call: %s\n%s\n%s\n%s' % (last, sig.get(mid, mid), r.stdout[-3000:], r.stderr[-4000:]), keep)
    ck.cov['signatures'] = ck.cov.get('signatures', 0) + len(sig)


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call Rust -> Java of a randomly generated callback trait, paired on its thread with the Java method that ran; '
                      'distinct = distinct (signature, object and argument values, results)')
    th = vlib.tier() == 'thorough'
    confs = [('vns', []), ('com.ver_if.x1', ['--null-ann', 'org.ann'])] * (1 if not th else 4)
    progs = [make('p%d' % i, vlib.seed() * 1000 + i, pkg, 6, 12, o) for i, (pkg, o) in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])
    for i, (p, (ok, msg, err)) in enumerate(zip(progs, res)):
        tag = 'config %d' % (i % 2)
        if not ok:
            ck.violation('%s: generator rejects a supported interface' % tag, msg + '\n' + err, [p.glue_in])
            continue
        evaluate(ck, p, tag, 4 if not th else 12, 60 if not th else 300, th)
        p.cleanup()


if __name__ == '__main__':
    vlib.main('J04', check)
