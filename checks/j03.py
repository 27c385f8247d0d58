"""J03: native objects are freed exactly once, never while in use."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import javagen
import javarun
import vlib

GLUE = '''
static BIN: Mutex<Vec<Foo>> = Mutex::new(Vec::new());
static SHARED: Mutex<Vec<Arc<Mutex<Am_>>>> = Mutex::new(Vec::new());
fn bin() -> MutexGuard<'static, Vec<Foo>> { BIN.lock().unwrap() }
fn chk(f: &Foo) -> i64 {
    if vh::drops_of(f.t.0) != 0 { vh::log(&format!("! object {} in use was dropped", f.t.0)); vh::flush(); }
    // touches the memory of the string
    assert!(f.name.len() as u64 == f.name.bytes().map(|_| 1u64).sum::<u64>());
    f.t.0 as i64
}
pub trait Storm { fn storm(&self); }
foreign_callback!(callback Storm { self_type Storm; storm = Storm::storm(&self); });
pub trait Recv { fn recv(&self, f: Foo, k: i32) -> i32; }
foreign_callback!(callback Recv { self_type Recv; recv = Recv::recv(&self, f: Foo, k: i32) -> i32; });
pub struct Own { foo: Foo }
impl Own { pub fn new(f: Foo) -> Own { Own { foo: f } } }
foreign_class!(class Own {
    self_type Own;
    constructor Own::new(f: Foo) -> Own;
    fn inner(&self) -> i64 { chk(&this.foo) }
    fn swap(&mut self, f: Foo) -> Foo { std::mem::replace(&mut this.foo, f) }
    fn hold_this(&mut self, cb: Box<dyn Storm>) -> i64 { cb.storm(); chk(&this.foo) }
    fn probe_this(&self, cb: Box<dyn Storm>) -> i64 { let t = this.foo.t.0; cb.storm(); vh::drops_of(t) as i64 }
    fn probe_two(f: Foo, c: Color) -> i64 { let _ = c; chk(&f) }
    fn eat(f: Foo) -> i64 { chk(&f) }
    fn eat_opt(f: Option<Foo>) -> i64 { f.map(|f| chk(&f)).unwrap_or(0) }
    fn eat_two(f: Foo, g: Option<Foo>, n: &str) -> i64 { chk(&f); g.map(|g| chk(&g)).unwrap_or(0) }
    fn eat_err(f: Foo) -> Result<Foo, String> { Err(format!("{}", chk(&f))) }
    fn keep(f: Foo) -> i64 { let t = chk(&f); bin().push(f); t }
    fn keep_opt(f: Option<Foo>) { bin().extend(f); }
    fn keep_copies(v: Vec<Foo>) -> &[i64] { v.iter().for_each(|f| { chk(f); }); let t: Vec<i64> = v.iter().map(chk).collect(); bin().extend(v); vh::pool(t).as_slice() }
    fn drop_copies(v: Vec<Foo>) -> usize { v.iter().for_each(|f| { chk(f); }); v.len() }
    fn take() -> Option<Foo> { bin().pop() }
    fn take_res() -> Result<Foo, String> { bin().pop().ok_or_else(|| "empty".to_string()) }
    fn take_opt_res(k: i32) -> Result<Option<Foo>, String> { if k == 0 { Err("k".to_string()) } else { Ok(bin().pop()) } }
    fn take_all() -> Vec<Foo> { std::mem::take(&mut *bin()) }
    fn take_some(n: usize) -> Result<Vec<Foo>, &str> { let mut b = bin(); if n > b.len() { Err("few") } else { let k = b.len() - n; Ok(b.split_off(k)) } }
    fn make(n: usize) -> Vec<Foo> { (0..n).map(|i| Foo::new(i as i64, "made")).collect() }
    fn drop_all() -> usize { let v = std::mem::take(&mut *bin()); v.iter().for_each(|f| { chk(f); }); v.len() }
    fn pass(f: Foo) -> Foo { chk(&f); f }
    fn peek(f: &Foo) -> i64 { chk(f) }
    fn peek_mut(f: &mut Foo, k: i64) -> i64 { f.x = k; f.name = format!("n{}", k); chk(f) }
    fn peek_opt(f: Option<&Foo>) -> i64 { f.map(chk).unwrap_or(0) }
    fn hold(f: &Foo, g: &mut Foo, cb: Box<dyn Storm>) -> i64 { chk(f); cb.storm(); g.name.push('x'); chk(g); cb.storm(); chk(f) }
    fn hold1(cb: Box<dyn Storm>, f: &Foo) -> i64 { cb.storm(); chk(f) }
    fn hold2(g: &mut Foo, cb: Box<dyn Storm>) -> i64 { cb.storm(); g.x += 1; chk(g) }
    fn hold_opt(f: Option<&Foo>, cb: Box<dyn Storm>) -> i64 { cb.storm(); f.map(chk).unwrap_or(0) }
    fn hold_val(f: Foo, a: Arc<Mutex<Am_>>, cb: Box<dyn Storm>) -> i64 { cb.storm(); assert!(vh::drops_of(a.lock().unwrap().t.0) == 0); chk(&f) }
    fn hold_vec(v: Vec<Foo>, cb: Box<dyn Storm>) -> i64 { cb.storm(); v.iter().map(chk).sum() }
    fn hold_am(a: &Am_, cb: Box<dyn Storm>) -> i64 { cb.storm(); assert!(a.s.len() < 1 << 20); if vh::drops_of(a.t.0) != 0 { vh::log("! shared object in use was dropped"); } a.t.0 as i64 }
    fn hold_sh(a: &Sh, cb: Box<dyn Storm>) -> i64 { cb.storm(); if vh::drops_of(a.t.0) != 0 { vh::log("! object in use was dropped"); } a.t.0 as i64 }
    fn give(cb: Box<dyn Recv>, n: i32) -> i32 { (0..n).map(|k| cb.recv(Foo::new(k as i64, "given"), k)).fold(0, |a, b| a.wrapping_add(b)) }
    fn share(a: Arc<Mutex<Am_>>) -> usize { let mut s = SHARED.lock().unwrap(); s.push(a); s.len() }
    fn shared(i: usize) -> Option<Arc<Mutex<Am_>>> { SHARED.lock().unwrap().get(i).cloned() }
    fn shared_res(i: usize) -> Result<Arc<Mutex<Am_>>, String> { SHARED.lock().unwrap().get(i).cloned().ok_or_else(|| "no".to_string()) }
    fn unshare(i: usize) { let x = SHARED.lock().unwrap().swap_remove(i); drop(x); }
    fn pass_am(a: Arc<Mutex<Am_>>) -> Arc<Mutex<Am_>> { a }
    fn pass_sh(a: Rc<RefCell<Sh>>) -> Rc<RefCell<Sh>> { a }
});
'''

MAIN = r'''package PKG;
import vh.VH;
import java.util.ArrayList;

public final class Main {
  /** Java's view of one native object. */
  static final class H { volatile Foo o; final long t; boolean dead; int inUse; H(Foo o) { this.o = o; t = o.ticket(); } }
  static final class HA { volatile Am_ o; final long t; HA(Am_ o) { this.o = o; t = o.ticket(); } }
  static final class HS { volatile Sh o; final long t; HS(Sh o) { this.o = o; t = o.ticket(); } }
  static final class HO { volatile Own o; long t; int inUse; HO(Own o) { this.o = o; t = o.inner(); } }
  static final int N = 8;
  static H[] slot = new H[N]; static HA[] sa = new HA[N]; static HS[] ss = new HS[N]; static HO[] so = new HO[N];
  static ArrayList<Long> bin = new ArrayList<>(), shared = new ArrayList<>();
  /** tickets nobody refers to any more: finalized sooner or later */
  static ArrayList<Long> garbage = new ArrayList<>();
  static VH.R r; static int depth; static long ops, gcs, storms, finalized, deleted;

  static void bad(String s) { VH.log("! " + s); VH.flush(); }
  static void alive(long t, String s) { if (VH.drops(t) != 0) bad(s + ": dropped " + VH.drops(t) + " times, still owned"); }
  static void dropped(long t, String s) { if (VH.drops(t) != 1) bad(s + ": dropped " + VH.drops(t) + " times, once expected"); }
  static H live() { for (int i = 0; i < 6; ++i) { H h = slot[r.below(N)]; if (h != null && !h.dead) return h; } H h = new H(new Foo(r.i64(), "fresh" + ops)); slot[free()] = h; return h; }
  static H owned() { H h = live(); if (h.inUse > 0) { h = new H(new Foo(r.i64(), "own")); slot[free()] = h; } return h; }
  /** an object that nothing else uses now */
  static int free() { for (int i = 0; i < 20; ++i) { int k = r.below(N); if (slot[k] == null || slot[k].inUse == 0) { put(k, null); return k; } } put(0, null); return 0; }
  static void put(int k, H h) {
    H old = slot[k]; slot[k] = h;
    if (old == null || old.dead) return;
    for (H x : slot) if (x == old) return;
    if (old.inUse == 0) garbage.add(old.t); else late.add(old);
  }
  static ArrayList<H> late = new ArrayList<>();
  static void gone(H h) { h.dead = true; h.o = null; }
  static void add(Foo f, long t, String s) { H h = new H(f); if (t >= 0 && h.t != t) bad(s + ": another object: " + h.t + " for " + t); alive(h.t, s); slot[free()] = h; }
  static long popBin() { return bin.isEmpty() ? -1 : bin.remove(bin.size() - 1); }
  static void checkAll() {
    for (H h : slot) if (h != null) { if (h.dead) dropped1(h); else alive(h.t, "slot"); }
    for (long t : bin) alive(t, "moved into Rust");
    for (HA h : sa) if (h != null) alive(h.t, "shared slot");
    for (HS h : ss) if (h != null) alive(h.t, "rc slot");
    for (HO h : so) if (h != null) { alive(h.t, "inside an object"); if (h.o.inner() != h.t) bad("inner object changed"); }
    for (long t : shared) alive(t, "shared with Rust");
  }
  static void dropped1(H h) { if (VH.drops(h.t) > 1) bad("dropped twice"); }
  static Storm storm() { return new Storm() { public void storm() { Main.storm0(); } }; }
  static void storm0() {
    ++storms;
    if (r.chance(3)) { churn(); System.gc(); System.runFinalization(); ++gcs; }
    if (depth < 3) { ++depth; for (int i = r.below(4); i > 0; --i) step(); --depth; }
    if (r.chance(3)) { System.gc(); System.runFinalization(); ++gcs; }
  }
  static void churn() { for (int i = 0; i < 5; ++i) garbage.add(new Foo(i, "junk").ticket()); }
  // temporaries: nothing but the call keeps the argument
  static void temps() throws Exception {
    switch (r.below(9)) {
      case 0: garbage.add(Own.hold1(storm(), new Foo(1, "temp"))); break;
      case 1: garbage.add(Own.hold2(new Foo(2, "temp"), storm())); break;
      case 2: garbage.add(Own.hold_opt(new Foo(3, "temp"), storm())); break;
      case 3: garbage.add(Own.hold(new Foo(4, "temp"), new Foo(4, "temp2"), storm())); break;
      case 4: garbage.add(Own.hold_am(new Am_(4, "temp"), storm())); break;
      case 5: garbage.add(Own.hold_sh(new Sh(4), storm())); break;
      case 6: { long t = Own.hold_val(new Foo(5, "temp"), new Am_(5, "temp"), storm()); dropped(t, "by value"); break; }
      case 7: Own.hold_vec(new Foo[] { new Foo(6, "temp"), new Foo(7, "temp") }, storm()); break;
      default: { int n = r.below(5); Own.give(new Recv() { public int recv(Foo f, int k) {
          if (f.x() != k || !f.name().equals("given")) bad("given object");
          if (r.chance(3)) { System.gc(); ++gcs; }
          if (r.bool()) { long t = f.ticket(); f.delete(); dropped(t, "delete of given"); } else if (r.bool()) slot0(f); else garbage.add(f.ticket());
          return k; } }, n); }
    }
  }
  static void slot0(Foo f) { add(f, -1, "given"); }
  static void step() {
    try { step0(); } catch (Exception e) { bad("exception " + e); }
  }
  static void step0() throws Exception {
    ++ops;
    switch (r.below(34)) {
      case 0: case 1: case 2: { int k = free(); slot[k] = new H(new Foo(r.i64(), r.str())); break; }
      case 3: { H h = owned(); long t = h.t; h.o.delete(); dropped(t, "delete"); if (r.bool()) { h.o.delete(); dropped(t, "second delete"); } gone(h); ++deleted; break; }
      case 4: { int k = r.below(N); if (slot[k] == null || slot[k].inUse == 0) put(k, null); break; }
      case 5: { int k = free(); slot[k] = slot[r.below(N)]; break; }
      case 6: { H h = owned(); if (Own.eat(h.o) != h.t) bad("eat: another object"); dropped(h.t, "eat"); gone(h); break; }
      case 7: { if (r.chance(4)) { if (Own.eat_opt(null) != 0) bad("eat_opt null"); break; }
                H h = owned(); if (Own.eat_opt(h.o) != h.t) bad("eat_opt: another object"); dropped(h.t, "eat_opt"); gone(h); break; }
      case 8: { H h = owned(); try { Own.eat_err(h.o); bad("no exception"); } catch (Exception e) { if (!e.getMessage().equals("" + h.t)) bad("eat_err: " + e); } dropped(h.t, "eat_err"); gone(h); break; }
      case 9: case 10: { H h = owned(); Own.keep(h.o); alive(h.t, "keep"); bin.add(h.t); gone2(h); break; }
      case 11: { if (r.chance(4)) { Own.keep_opt(null); break; } H h = owned(); Own.keep_opt(h.o); alive(h.t, "keep_opt"); bin.add(h.t); gone2(h); break; }
      case 12: { H a = live(), b = live(); Foo[] v = { a.o, b.o, a.o }; long[] t = Own.keep_copies(v);
                 for (long x : t) bin.add(x); alive(a.t, "array element"); alive(b.t, "array element"); break; }
      case 13: { Foo[] v = new Foo[r.below(40)]; for (int i = 0; i < v.length; ++i) v[i] = live().o; if (Own.drop_copies(v) != v.length) bad("length"); for (Foo f : v) alive(f.ticket(), "array element"); break; }
      case 14: case 15: { long t = popBin(); java.util.Optional<Foo> f = Own.take(); if (f.isPresent() != (t >= 0)) bad("take"); if (t >= 0) add(f.get(), t, "take"); break; }
      case 16: { long t = popBin(); try { Foo f = Own.take_res(); if (t < 0) bad("take_res"); add(f, t, "take_res"); } catch (Exception e) { if (t >= 0) bad("take_res " + e); } break; }
      case 17: { int k = r.below(2); try { long t = k == 0 ? -1 : popBin(); java.util.Optional<Foo> f = Own.take_opt_res(k); if (f.isPresent() != (t >= 0)) bad("take_opt_res"); if (t >= 0) add(f.get(), t, "take_opt_res"); } catch (Exception e) { if (k != 0) bad("take_opt_res " + e); } break; }
      case 18: { ArrayList<Long> b = bin; bin = new ArrayList<>(); took(Own.take_all(), b, "take_all"); break; }
      case 19: { int n = r.below(4); if (n > bin.size()) { try { Own.take_some(n); bad("take_some"); } catch (Exception e) { } break; }
                 ArrayList<Long> b = new ArrayList<>(bin.subList(bin.size() - n, bin.size())); for (int i = 0; i < n; ++i) popBin(); took(Own.take_some(n), b, "take_some"); break; }
      case 20: { if (bin.size() < 6) break; ArrayList<Long> b = bin; bin = new ArrayList<>(); if (Own.drop_all() != b.size()) bad("drop_all"); for (long t : b) dropped(t, "drop_all"); break; }
      case 21: { H h = owned(); Foo f = Own.pass(h.o); gone2(h); add(f, h.t, "pass"); break; }
      case 22: { H h = live(); if (Own.peek(h.o) != h.t || Own.peek_opt(h.o) != h.t || Own.peek_opt(null) != 0) bad("peek"); break; }
      case 23: { H h = live(); if (Own.peek_mut(h.o, 5) != h.t || h.o.x() != 5 || !h.o.name().equals("n5")) bad("peek_mut"); break; }
      case 24: { H f = live(), g = live(); if (f == g || g.inUse > 0) break; ++f.inUse; ++g.inUse; if (Own.hold(f.o, g.o, storm()) != f.t) bad("hold"); done(f); done(g); break; }
      case 25: case 26: temps(); break;
      case 27: { int k = r.below(N); if (so[k] != null && so[k].inUse > 0) break; if (so[k] != null) { if (r.bool()) { so[k].o.delete(); dropped(so[k].t, "owner deleted"); so[k] = null; } else { garbage.add(so[k].t); so[k] = null; } break; }
                 H h = owned(); so[k] = new HO(new Own(h.o)); if (so[k].t != h.t) bad("constructor argument"); gone2(h); break; }
      case 28: { int k = r.below(N); if (so[k] == null || so[k].inUse > 0) break; H h = owned(); long t = so[k].t; Foo f = so[k].o.swap(h.o); gone2(h); so[k].t = h.t; add(f, t, "swap"); break; }
      case 29: { int k = r.below(N); HO o = so[k]; if (o == null || o.inUse > 0) break; ++o.inUse; long t = o.o.hold_this(storm()); if (t != o.t) bad("hold_this"); --o.inUse; break; }
      case 30: { int k = r.below(N); if (sa[k] == null) sa[k] = new HA(new Am_(r.u32(), r.str())); else if (r.bool()) sa[k].o.incr(); else { dropA(k); } break; }
      case 31: { int k = r.below(N); if (sa[k] == null) break;
                 if (r.bool()) { Am_ a = sa[k].o; long t = sa[k].t; Own.share(a); shared.add(t); sa[k] = null; lateA(t); if (r.bool()) { int j = r.below(N); if (sa[j] != null) dropA(j); sa[j] = new HA(Own.shared(shared.size() - 1).get()); if (sa[j].t != t) bad("shared identity"); } }
                 else { HA h = sa[k]; Am_ b = Own.pass_am(h.o); sa[k] = new HA(b); if (sa[k].t != h.t) bad("pass_am"); }
                 break; }
      case 32: { if (shared.isEmpty()) break; int i = r.below(shared.size());
                 if (r.bool()) { long t = shared.get(i); shared.set(i, shared.get(shared.size() - 1)); shared.remove(shared.size() - 1); Own.unshare(i); lateA(t); }
                 else { int j = r.below(N); if (sa[j] != null) dropA(j); sa[j] = new HA(Own.shared_res(i)); if (sa[j].t != shared.get(i)) bad("shared_res identity"); }
                 break; }
      default: { int k = r.below(N); if (ss[k] == null) ss[k] = new HS(new Sh(3)); else if (r.bool()) { HS h = ss[k]; ss[k] = new HS(Own.pass_sh(h.o)); if (ss[k].t != h.t) bad("pass_sh"); }
                 else if (r.bool()) { ss[k].o.delete(); dropped(ss[k].t, "rc delete"); ss[k] = null; } else { garbage.add(ss[k].t); ss[k] = null; } }
    }
  }
  static void took(Foo[] v, ArrayList<Long> b, String s) {
    if (v.length != b.size()) { bad(s + " length"); return; }
    for (int i = 0; i < v.length; ++i) { if (v[i].ticket() != b.get(i)) bad(s + ": element " + i); alive(b.get(i), s); }
    for (int i = 0; i < v.length; ++i) if (r.chance(3)) add(v[i], b.get(i), s); else if (r.bool()) { v[i].delete(); dropped(b.get(i), s); } else garbage.add(b.get(i));
  }
  static void done(H h) { --h.inUse; if (h.inUse == 0) for (int i = 0; i < late.size(); ++i) if (late.get(i) == h) { late.remove(i--); boolean found = false; for (H x : slot) found |= x == h; if (!found && !h.dead) garbage.add(h.t); } }
  /** moved: the Java object is empty now, deleting or finalizing it does nothing */
  static void gone2(H h) { Foo f = h.o; gone(h); h.dead = true; for (int i = 0; i < N; ++i) if (slot[i] == h) slot[i] = null; if (r.bool()) f.delete(); }
  static void lateA(long t) { for (HA x : sa) if (x != null && x.t == t) return; if (!shared.contains(t)) garbage.add(t); }
  static void dropA(int k) { HA h = sa[k]; sa[k] = null; if (r.bool()) { h.o.delete(); boolean other = shared.contains(h.t); for (HA x : sa) other |= x != null && x.t == h.t;
      if (other) { alive(h.t, "other handles"); return; } }
    lateA(h.t); }
  static void settle() throws Exception {
    for (int i = 0; i < 150; ++i) {
      System.gc(); System.runFinalization(); ++gcs;
      boolean all = true; for (long t : garbage) all &= VH.drops(t) >= 1;
      if (all) break;
      Thread.sleep(i / 5);
    }
    for (long t : garbage) { dropped(t, "unreachable object after garbage collections"); ++finalized; }
    garbage.clear();
  }
  static volatile boolean stop;
  public static void main(String[] a) throws Throwable {
    System.load(System.getenv("VH_LIB"));
    long seed = Long.parseLong(a[0]); int n = Integer.parseInt(a[1]);
    VH.setSeed(seed * 77 + 5); r = new VH.R(seed * 1000003);
    Thread gc = new Thread(() -> { while (!stop) { System.gc(); System.runFinalization(); try { Thread.sleep(2); } catch (InterruptedException e) { } } });
    try {
      if (a[2].equals("gc")) { gc.setDaemon(true); gc.start(); }
      for (int i = 0; i < n; ++i) { step(); if (i % 40 == 39) { checkAll(); VH.poolClear(); } if (i % 700 == 699) settle(); }
      // several threads delete the same objects
      for (int i = 0; i < n / 40; ++i) race();
      stop = true; gc.join(5000);
      settle(); checkAll();
      slot = null; sa = null; ss = null; so = null; late = null; Own.drop_all(); while (!shared.isEmpty()) { Own.unshare(0); shared.remove(0); }
      VH.poolClear();
      VH.allFreed(0);
      VH.log("STAT ops=" + ops + " gcs=" + gcs + " storms=" + storms + " finalized=" + finalized + " deleted=" + deleted + " born=" + VH.born());
      VH.log("END");
    } finally { VH.flush(); }
  }
  static void race() throws Exception {
    final Foo[] fs = new Foo[20]; long[] ts = new long[20];
    for (int i = 0; i < 20; ++i) { fs[i] = new Foo(i, "race"); ts[i] = fs[i].ticket(); }
    final java.util.concurrent.CyclicBarrier b = new java.util.concurrent.CyclicBarrier(3);
    Thread[] th = new Thread[3];
    for (int k = 0; k < 3; ++k) { th[k] = new Thread(() -> { try { b.await(); } catch (Exception e) { } for (Foo f : fs) f.delete(); }); th[k].start(); }
    for (Thread t : th) t.join();
    for (long t : ts) dropped(t, "concurrent delete");
  }
}
'''

# defects that are known; each has a run of its own
PROBE = r'''package PKG;
import vh.VH;
public final class Probe {
  static void gc() { for (int i = 0; i < 6; ++i) { System.gc(); System.runFinalization(); } }
  static long call() { return new Own(new Foo(1, "probe")).probe_this(new Storm() { public void storm() { gc(); } }); }
  static long leak() {
    Foo f = new Foo(2, "probe"); long t = f.ticket();
    try { Own.probe_two(f, null); VH.log("! probe: null enum accepted"); } catch (NullPointerException e) { }
    f.delete();
    return t;
  }
  public static void main(String[] a) throws Throwable {
    System.load(System.getenv("VH_LIB"));
    try {
      if (call() != 0) VH.log("! probe: object without other references finalized during a call of its own method");
      long t = leak(); gc();
      if (VH.drops(t) != 1) VH.log("! probe: object passed by value leaks when a later argument is a null enum");
      VH.log("END");
    } finally { VH.flush(); }
  }
}
'''


def program(ck, name, pkg, opts):
    p = javarun.JProg('j03', name, pkg=pkg)
    p.opts = list(opts)
    vlib.write(p.glue_in, open(os.path.join(javarun.H, 'java', 'objs.rs')).read() + GLUE)
    return p


def copies(ck, th):
    """Classes with derive(Copy) or derive(SmartPtrCopy): giving an object to Rust by value leaves the Java object usable."""
    p = javarun.JProg('j03', 'copies', pkg='vns')
    vlib.write(p.glue_in, open(os.path.join(javarun.H, 'java', 'copies.rs.in')).read())
    keep = [p.glue_in, p.gen]
    (ok, msg, err), = vlib.vgen_jobs([p.job()])
    if not ok:
        ck.violation('copies: generator rejects a supported interface', msg + '\n' + err, keep)
        return
    if not p.build(ck, 'copies', {'Copies.java': open(os.path.join(javarun.H, 'java', 'Copies.java.in')).read().replace('PKG', p.pkg)}, keep):
        return
    jvms = [(['-Xcomp'], 'Serial', 'no'), ([], 'G1', 'gc'), (['-Xint'], 'Serial', 'gc')] * (4 if th else 1)
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run('Copies', [vlib.seed() * 100 + k, 20000 if th else 3000, jvms[k][2]], timeout=400,
                                                             log='log%d' % k, jvm=jvms[k][0], gc=jvms[k][1]), range(len(jvms)), 3)):
        for b in sorted({x for x in lines if x.startswith('! ')})[:4]:
            ck.violation('copies: ' + re.sub(r'-?\d+', '#', b[2:]), '%s\nrun %d %s\n%s' % (b, k, jvms[k], r.stderr[-2000:]), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END' or javarun.complaint(r):
            ck.violation('copies: %s' % javarun.report(r), 'run %d %s\n%s\n%s' % (k, jvms[k], r.stdout[-3000:], r.stderr[-4000:]), keep)
        for x in lines:
            if x.startswith('OPS '):
                _, n, op = x.split(' ')
                ck.count(int(n))
                ck.nontrivial('copies ' + op)
                d = ck.cov.setdefault('copied_objects', {})
                d[op] = d.get(op, 0) + int(n)
    p.cleanup()


def check(ck):
    ck.cov['rule'] = ('one evaluation is one step of a random ownership history (make, delete, forget, move, copy, share, borrow '
                      'during a collection, nested through callbacks), each with exact drop counts; distinct = distinct '
                      '(run, collections, finalized objects) checkpoints and objects finalized or deleted')
    th = vlib.tier() == 'thorough'
    confs = [('vns', ['--fence', 'std']), ('com.e', ['--fence', '8'])]
    progs = [program(ck, 'p%d' % i, *c) for i, c in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])
    runs = []
    for i, (p, (ok, msg, err)) in enumerate(zip(progs, res)):
        keep = [p.glue_in, p.gen]
        if not ok:
            ck.violation('generator rejects a supported interface', msg + '\n' + err, keep)
            return
        if not p.build(ck, 'config %d' % i, {'Main.java': MAIN.replace('PKG', p.pkg), 'Probe.java': PROBE.replace('PKG', p.pkg), 'Objs.java': javagen.OBJS % dict(pkg=p.pkg)}, keep):
            return
        jvms = [(['-Xcomp'], 'Serial', 'no'), (['-Xint'], 'Serial', 'gc'), (['-Xcomp', '-XX:TieredStopAtLevel=1'], 'Parallel', 'no'),
                (['-Xmn1m', '-Xcomp'], 'Serial', 'gc'), ([], 'G1', 'gc'), (['-Xcomp', '-XX:-TieredCompilation'], 'G1', 'no')]
        k = 3 if not th else 12
        runs += [(p, i, k * i + j, jvms[(k * i + j) % len(jvms)]) for j in range(k)]

    def one(x):
        p, i, k, (jvm, gc, bg) = x
        return p.run('Main', [vlib.seed() * 100 + k, 2100 if not th else 14000, bg], timeout=800, log='log%d' % k, jvm=jvm, gc=gc)

    for (p, i, k, conf), (r, lines) in zip(runs, vlib.pmap(one, runs, 4)):
        bad = sorted({x for x in lines if x.startswith('! ')})
        for b in bad[:4]:
            sig = re.sub(r'\d+', '#', b[2:])
            ck.violation('config %d: %s' % (i, sig), '%s\nrun %s\n%s' % (b, conf, r.stderr[-2000:]), [p.glue_in, p.gen])
        st = [x for x in lines if x.startswith('STAT')]
        if r.returncode != 0 or not lines or lines[-1] != 'END' or javarun.complaint(r):
            ck.violation('config %d: %s' % (i, javarun.report(r)), '%s\nrun %s\n%s\n%s' % (javarun.report(r), conf, r.stdout[-3000:], r.stderr[-4000:]),
                         [p.glue_in, p.gen])
        if st:
            v = dict((a, int(b)) for a, b in re.findall(r'(\w+)=(\d+)', st[0]))
            ck.count(v['ops'])
            ck.extra_distinct += v['finalized'] + v['deleted']
            ck.nontrivial((k, v['gcs'], v['storms']))
            ck.sample('%s: %s' % (conf, st[0]))
            for a in ('gcs', 'storms', 'finalized', 'deleted', 'born'):
                ck.cov[a] = ck.cov.get(a, 0) + v[a]
    p = progs[0]
    r, lines = p.run('Probe', [], log='probe', jvm=['-Xcomp'])
    for b in lines:
        if b.startswith('! '):
            ck.violation(b[2:], r.stdout[-3000:] + r.stderr[-2000:], [p.glue_in, p.gen])
    if r.returncode != 0 or not lines or lines[-1] != 'END':
        ck.violation('probe: ' + javarun.report(r), r.stdout[-3000:] + r.stderr[-4000:], [p.glue_in, p.gen])
    for p in progs:
        p.cleanup()
    copies(ck, th)


if __name__ == '__main__':
    vlib.main('J03', check)
