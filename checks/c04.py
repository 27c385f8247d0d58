"""C04: smart-pointer self types share one object and serialise access (C++)."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import tgt
import vlib

# self type, how to make it, pointer to the lock (if it has a place of its own), features
KINDS = {
    'Am': dict(self='Arc<Mutex<Am>>', mk='Arc::new(Mutex::new(%s))', me='Arc::as_ptr(&s)', lock='Mutex', copy=True, mt=True),
    'AmP': dict(self='Arc<Mutex<AmP>>', mk='Arc::new(Mutex::new(%s))', me='Arc::as_ptr(&s)', lock='Mutex', copy=True, mt=True, plain=True),
    'AmN': dict(self='Arc<Mutex<AmN>>', mk='Arc::new(Mutex::new(%s))', me='Arc::as_ptr(&s)', lock='Mutex', mt=True),
    'Mx': dict(self='Mutex<Mx>', mk='Mutex::new(%s)', lock='Mutex', mt=True),
    'BxMx': dict(self='Box<Mutex<BxMx>>', mk='Box::new(Mutex::new(%s))', me='&*s as *const _', lock='Mutex', mt=True),
    'Ar': dict(self='Arc<Ar>', mk='Arc::new(%s)', copy=True, ro=True, mt=True),
    'ArN': dict(self='Arc<ArN>', mk='Arc::new(%s)', ro=True, mt=True),
    'RcMx': dict(self='Rc<Mutex<RcMx>>', mk='Rc::new(Mutex::new(%s))', me='Rc::as_ptr(&s)', lock='Mutex', copy=True),
    'RcRf': dict(self='Rc<RefCell<RcRf>>', mk='Rc::new(RefCell::new(%s))', me='Rc::as_ptr(&s)', lock='RefCell', copy=True),
    'ArRf': dict(self='Arc<RefCell<ArRf>>', mk='Arc::new(RefCell::new(%s))', me='Arc::as_ptr(&s)', lock='RefCell', copy=True),
    'Rf': dict(self='RefCell<Rf>', mk='RefCell::new(%s)', lock='RefCell'),
    'Rr': dict(self='Rc<Rr>', mk='Rc::new(%s)', copy=True, ro=True),
    'Bx': dict(self='Box<Bx>', mk='Box::new(%s)'),
    'Dy': dict(self='Box<Box<dyn DyT>>', mk='Box::new(Box::new(%s))', dyn=True, hidden='DyI'),
}

HEAD = '''#[allow(unused_imports)]
use crate::vh::{self, Ticket};
use std::{cell::{RefCell, Ref, RefMut}, rc::Rc, sync::{Arc, Mutex, MutexGuard}};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU32, Ordering};
pub static SPIN: AtomicU32 = AtomicU32::new(0);
static JIT: AtomicU64 = AtomicU64::new(1);
/// Keeps a critical section open for a while, sometimes long enough for another thread to run.
fn dwell() {
    let n = SPIN.load(Ordering::Relaxed);
    if n == 0 { return }
    let r = JIT.fetch_add(0x9E3779B97F4A7C15, Ordering::Relaxed);
    let r = (r ^ (r >> 29)).wrapping_mul(0xBF58476D1CE4E5B9) >> 40;
    match r % 16 { 0 => std::thread::yield_now(), 1 => for _ in 0..n * 8 { std::hint::spin_loop() }, 2..=5 => for _ in 0..n { std::hint::spin_loop() }, _ => () }
}
static JOBS: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());
static SEEN: Mutex<Vec<i64>> = Mutex::new(Vec::new());
pub struct Ctl;
foreign_class!(class Ctl {
    fn spin(n: u32) { SPIN.store(n, Ordering::Relaxed); }
    fn join() -> bool { let j = std::mem::take(&mut *JOBS.lock().unwrap()); j.into_iter().all(|x| x.join().is_ok()) }
    fn seen() -> Vec<i64> { std::mem::take(&mut *SEEN.lock().unwrap()) }
});
'''

# the two halves of the state are always equal outside of a call; plain memory where a lock protects it
RW = '''
pub struct @I@ { a: i64, b: i64, v: Vec<i64>, s: String, me: usize, t: Ticket }
unsafe impl Send for @I@ {}
impl @I@ {
    fn make(v: i64) -> @I@ { @I@ { a: v, b: v, v: vec![], s: format!("s{}", v), me: 0, t: Ticket::new("@K@") } }
    fn inside(&self, mutable: bool) {
        @INSIDE@
        if self.a != self.b { vh::log(&format!("! @K@ | a call saw the middle of another one: {} {}", self.a, self.b)); }
        let _ = mutable;
    }
    fn get(&self) -> i64 { self.inside(false); self.a }
    fn set(&mut self, v: i64) { self.inside(true); self.a = v; dwell(); self.b = v; self.s = format!("s{}", v); }
    fn incr(&mut self) -> i64 { self.inside(true); let v = self.a + 1; dwell(); self.a = v; dwell(); self.b = v; v }
    fn ticket(&self) -> u64 { self.t.0 }
    fn push(&mut self, v: i64) -> usize { self.inside(true); self.v.push(v); dwell(); self.v.len() }
    fn list(&self) -> Vec<i64> { self.inside(false); self.v.clone() }
    fn take(&mut self) -> Vec<i64> { self.inside(true); std::mem::take(&mut self.v) }
    fn text(&mut self, s: &str, n: i32) -> String { self.inside(true); self.s.push_str(s); if self.s.len() > 60 { self.s.clear(); } format!("{}{}", self.s, n) }
    fn maybe(&mut self, some: bool) -> Option<i64> { self.inside(true); if some { Some(self.a) } else { None } }
    fn fallible(&mut self, ok: bool) -> Result<i64, String> { self.inside(true); self.a += 1; dwell(); self.b += 1; if ok { Ok(self.a) } else { Err(format!("e{}", self.a)) } }
    fn checked(&self, ok: bool) -> Result<(), String> { self.inside(false); if ok { Ok(()) } else { Err("no".into()) } }
    fn pair(&self) -> (i64, i64) { self.inside(false); (self.a, self.b) }
    fn bump(&mut self, other: &Plain, by: i64) -> bool { self.inside(true); self.a += by + other.0; dwell(); self.b += by + other.0; true }
}
'''
RO = '''
pub struct @I@ { a: AtomicI64, v: Mutex<Vec<i64>>, s: Mutex<String>, t: Ticket }
impl @I@ {
    fn make(v: i64) -> @I@ { @I@ { a: AtomicI64::new(v), v: Mutex::new(vec![]), s: Mutex::new(format!("s{}", v)), t: Ticket::new("@K@") } }
    fn get(&self) -> i64 { self.a.load(Ordering::SeqCst) }
    fn set(&self, v: i64) { self.a.store(v, Ordering::SeqCst); *self.s.lock().unwrap() = format!("s{}", v); }
    fn incr(&self) -> i64 { dwell(); self.a.fetch_add(1, Ordering::SeqCst) + 1 }
    fn ticket(&self) -> u64 { self.t.0 }
    fn push(&self, v: i64) -> usize { let mut g = self.v.lock().unwrap(); g.push(v); g.len() }
    fn list(&self) -> Vec<i64> { self.v.lock().unwrap().clone() }
    fn take(&self) -> Vec<i64> { std::mem::take(&mut *self.v.lock().unwrap()) }
    fn text(&self, s: &str, n: i32) -> String { let mut g = self.s.lock().unwrap(); g.push_str(s); if g.len() > 60 { g.clear(); } format!("{}{}", g, n) }
    fn maybe(&self, some: bool) -> Option<i64> { if some { Some(self.get()) } else { None } }
    fn fallible(&self, ok: bool) -> Result<i64, String> { let v = self.incr(); if ok { Ok(v) } else { Err(format!("e{}", v)) } }
    fn checked(&self, ok: bool) -> Result<(), String> { if ok { Ok(()) } else { Err("no".into()) } }
    fn pair(&self) -> (i64, i64) { let v = self.get(); (v, v) }
    fn bump(&self, other: &Plain, by: i64) -> bool { self.a.fetch_add(by + other.0, Ordering::SeqCst); true }
}
'''
PLAIN = '''
pub struct Plain(i64);
foreign_class!(class Plain { self_type Plain; constructor new_plain(v: i64) -> Plain; });
fn new_plain(v: i64) -> Plain { Plain(v) }
'''
SIGS = [('get', '', 'i64'), ('set', 'v: i64', ''), ('incr', '', 'i64'), ('ticket', '', 'u64'), ('push', 'v: i64', 'usize'),
        ('list', '', 'Vec<i64>'), ('take', '', 'Vec<i64>'), ('text', 's: &str, n: i32', 'String'), ('maybe', 'some: bool', 'Option<i64>'),
        ('fallible', 'ok: bool', 'Result<i64, String>'), ('checked', 'ok: bool', 'Result<(), String>'), ('pair', '', '(i64, i64)'),
        ('bump', 'other: &Plain, by: i64', 'bool')]
CONST = ('get', 'ticket', 'list', 'checked', 'pair')


def rs_kind(n, k):
    I, S = k.get('hidden', n), k['self']
    ro = k.get('ro')
    o = [RO if ro else RW]
    inside = ''
    if k.get('me'):
        inside = '''if self.me != 0 {
            let l = unsafe { &*(self.me as *const %s<@I@>) };
            if !%s { vh::log("! @K@ | a body runs without holding the lock of its object"); }
        }''' % (k['lock'], 'l.try_lock().is_err()' if k['lock'] == 'Mutex' else '(if mutable { l.try_borrow().is_err() } else { l.try_borrow_mut().is_err() })')
    st = '{ let p = %s as usize; s%s.me = p; }' % (k['me'], {'Mutex': '.lock().unwrap()', 'RefCell': '.borrow_mut()'}[k['lock']]) if k.get('me') else ''
    o.append('pub fn new_@K@(v: i64) -> @S@ { let s: @S@ = %s; %s s }' % (k['mk'] % '@I@::make(v)', st))
    selfty = n
    if k.get('dyn'):
        selfty = 'dyn DyT'
        o.append('pub trait DyT: Send {\n' + '\n'.join('fn %s(&%sself%s)%s;' % (f, '' if f in CONST else 'mut ', ', ' + a if a else '', ' -> ' + r if r else '') for f, a, r in SIGS) + '\n}')
        o.append('impl DyT for DyI {\n' + '\n'.join('fn %s(&%sself%s)%s { DyI::%s(self%s) }' % (
            f, '' if f in CONST else 'mut ', ', ' + a if a else '', ' -> ' + r if r else '', f, ''.join(', ' + x.split(':')[0] for x in a.split(', ') if x)) for f, a, r in SIGS) + '\n}')
    der = ([] if not k.get('copy') else ['SmartPtrCopy']) + (['PlainClass'] if k.get('plain') else [])
    ms = []
    for i, (f, a, r) in enumerate(SIGS):
        me = '&self' if f in CONST or ro else '&mut self'
        sig = '(%s%s)%s' % (me, ', ' + a if a else '', ' -> ' + r if r else '')
        if i % 3 == 1 and not k.get('dyn'):
            ms.append('fn %s%s { this.%s(%s) }' % (f, sig, f, ', '.join(x.split(':')[0] for x in a.split(', ') if x)))
        else:
            ms.append('fn %s::%s%s;' % ('DyT' if k.get('dyn') else n, f, sig))
    o.append('foreign_class!(%s class @K@ {\n    self_type %s;\n    constructor new_@K@(v: i64) -> @S@;\n    %s\n});' % (
        '#[derive(%s)]' % ', '.join(der) if der else '', selfty, '\n    '.join(ms)))
    free = 'true'
    if k.get('copy') and k.get('lock'):
        free = 's.try_lock().is_ok()' if k['lock'] == 'Mutex' else 's.try_borrow_mut().is_ok()'
    count = '0'
    if k['self'].startswith(('Arc', 'Rc')):
        count = '%s::strong_count(&s) as u64' % k['self'][:k['self'].index('<')]
    acc = {'Mutex': 's.lock().unwrap().', 'RefCell': 's.borrow_mut().', None: 's.'}[k.get('lock')]
    o.append('''thread_local!(static KEEP_@K@: RefCell<Vec<@S@>> = RefCell::new(vec![]));
pub struct @K@Ops;
foreign_class!(class @K@Ops {
    fn free(s: @S@) -> bool { %s }
    fn count(s: @S@) -> u64 { %s }
    fn echo(s: @S@) -> @S@ { s }
    fn maybe(s: @S@, some: bool) -> Option<@S@> { if some { Some(s) } else { None } }
    fn res(s: @S@, ok: bool) -> Result<@S@, String> { if ok { Ok(s) } else { Err("no".into()) } }
    fn keep(s: @S@) { KEEP_@K@.with(|v| v.borrow_mut().push(s)) }
    fn give() -> Option<@S@> { KEEP_@K@.with(|v| v.borrow_mut().pop()) }
    fn use_here(s: @S@) -> i64 { let mut s = s; let _ = &mut s; let r = %sincr(); r }
    fn pair(s: @S@, t: @S@) -> (@S@, @S@) { (t, s) }
    %s
});''' % (free, count, acc,
          '''fn spawn(s: @S@, n: u32) { JOBS.lock().unwrap().push(vh::spawn(move || {
        let mut v = vec![];
        for _ in 0..n { let x = %sincr(); v.push(x); dwell(); }
        SEEN.lock().unwrap().extend(v);
        drop(s);
    })); }''' % acc if k.get('mt') and k['self'].startswith('Arc') else ''))
    return '\n'.join(o).replace('@INSIDE@', inside).replace('@I@', I).replace('@S@', S).replace('@K@', n)


SEQ = r'''
namespace { struct X {
  using K = vns::@; using Ops = vns::@Ops;
  struct M { int64_t v; std::vector<int64_t> l; std::string s; uint64_t t; long n; };
  std::vector<std::pair<K, std::shared_ptr<M>>> h; std::vector<std::shared_ptr<M>> kept; std::vector<K> gone;
  vh::Rng r; std::string op; std::map<std::string, long> ops; std::set<uint64_t> seen; int64_t next = 1;
  void bad(const std::string &s) { vh::log("! @ | " + op + ": " + s); }
  void eq(int64_t a, int64_t b, const char *w) { if (a != b) bad(std::string(w) + ": got " + std::to_string(a) + " want " + std::to_string(b)); }
  void rec(const char *o) { op = o; ops[o]++; uint64_t x = std::hash<std::string>()(op); std::map<M *, int> id;
    for (auto &p : h) x = x * 1099511628211ull + id.emplace(p.second.get(), (int)id.size()).first->second; seen.insert(x * 31 + kept.size()); }
  long owners(M *m) { long n = 0; for (auto &p : h) n += p.second.get() == m; for (auto &p : kept) n += p.get() == m; return n; }
  void check() {
    std::set<M *> live; for (auto &p : h) live.insert(p.second.get()); for (auto &p : kept) live.insert(p.get());
    eq(vh_alive(), live.size(), "number of live objects");
    for (auto &p : h) { eq(p.first.get(), p.second->v, "state through a handle"); eq(p.first.ticket(), p.second->t, "identity"); }
  }
  template <class V> std::vector<int64_t> vec(const V &x) { return std::vector<int64_t>(x.begin(), x.end()); }
  void one(size_t i) {
    K &k = h[i].first; M &m = *h[i].second;
    switch (r.below(27)) {
    case 0: rec("get"); eq(k.get(), m.v, "value"); break;
    case 1: rec("set"); m.v = next++; m.s = "s" + std::to_string(m.v); k.set(m.v); break;
    case 2: rec("incr"); eq(k.incr(), ++m.v, "value"); break;
    case 3: rec("push"); m.l.push_back(next); eq(k.push(next++), m.l.size(), "length"); break;
    case 4: rec("list"); if (vec(k.list()) != m.l) bad("elements"); break;
    case 5: rec("take"); if (vec(k.take()) != m.l) bad("elements"); m.l.clear(); break;
    case 6: { rec("text"); std::string a(r.below(7), 'x'); m.s += a; if (m.s.size() > 60) m.s.clear(); if (k.text(a, 5).to_std_string() != m.s + "5") bad("text"); break; }
    case 7: { rec("maybe"); bool s = r.chance(2); auto o = k.maybe(s); if (bool(o) != s || (s && *o != m.v)) bad("option"); break; }
    case 8: { rec("fallible"); bool s = r.chance(2); ++m.v; auto o = k.fallible(s); if (s) { auto *p = get_if_<int64_t>(&o); if (!p || *p != m.v) bad("Ok"); }
      else { auto *p = get_if_<vns::RustString>(&o); if (!p || p->to_std_string() != "e" + std::to_string(m.v)) bad("Err"); } break; }
    case 9: { rec("checked"); bool s = r.chance(2); auto o = k.checked(s); if (bool(o) == s) bad("result"); break; }
    case 10: { rec("pair"); auto p = k.pair(); eq(p.first, m.v, "first"); eq(p.second, m.v, "second"); break; }
    case 11: { rec("bump"); vns::Plain p(int64_t(r.below(9))); int64_t by = r.below(9); int64_t was = m.v; k.bump(p, by); m.v = k.get(); if (m.v - was < by || m.v - was > by + 8) bad("sum"); break; }
    case 12: rec("echo"); k = Ops::echo(std::move(k)); break;
    case 13: { rec("optional"); bool s = r.chance(2); auto o = Ops::maybe(std::move(k), s); if (bool(o) != s) bad("presence"); if (o) k = std::move(*o); else drop_(i); break; }
    case 14: { rec("result"); bool s = r.chance(2); auto o = Ops::res(std::move(k), s); auto *p = get_if_<K>(&o); if (bool(p) != s) bad("arm"); if (p) k = std::move(*p); else drop_(i); break; }
    case 15: rec("keep"); kept.push_back(h[i].second); Ops::keep(std::move(k)); drop_(i); break;
    case 16: { rec("give"); if (kept.empty()) { if (Ops::give()) bad("from nothing"); break; } auto o = Ops::give(); if (!o) { bad("nothing"); break; } h.emplace_back(std::move(*o), kept.back()); kept.pop_back(); break; }
    case 17: { rec("use in Rust"); auto mm = h[i].second; K t = std::move(k); drop_(i); eq(Ops::use_here(std::move(t)), mm->v + 1, "value"); ++mm->v; break; }
    case 18: rec("drop"); drop_(i); break;
    case 19: { rec("move"); K t(std::move(k)); if (r.chance(3)) gone.emplace_back(std::move(k)); k = std::move(t); break; }
    case 20: { if (gone.empty()) break; rec("assign to a moved-from handle"); gone.back() = std::move(k); k = std::move(gone.back()); break; }
    case 21: { if (gone.empty()) break; rec("assign from a moved-from handle"); k = std::move(gone.back()); if (r.chance(2)) gone.pop_back(); drop_(i); break; }
    case 22: { if (gone.empty()) break; rec("drop a moved-from handle"); K t(std::move(gone.back())); gone.pop_back(); break; }
    default: more(i);
    }
  }
  void drop_(size_t i) { if (i + 1 != h.size()) { std::swap(h[i].first, h.back().first); std::swap(h[i].second, h.back().second); } h.pop_back(); }
  void more(size_t i) {
    K &k = h[i].first; M &m = *h[i].second; (void)k; (void)m;
@COPY
  }
  void run(int n) {
    for (int j = 0; j < n; ++j) {
      if (h.empty() || (h.size() < 12 && r.chance(9))) { rec("construct"); int64_t v = next++; h.emplace_back(K(v), std::make_shared<M>()); M &m = *h.back().second; m.v = v; m.s = "s" + std::to_string(v); m.t = h.back().first.ticket(); }
      else one(r.below(h.size()));
      if (h.size() > 16) { while (h.size() > 4) drop_(r.below(h.size())); op = "drop many"; }
      check();
    }
    op = "end"; h.clear(); while (!kept.empty()) { if (!Ops::give()) bad("lost a kept object"); kept.pop_back(); }
    eq(vh_alive(), 0, "live objects at the end");
  }
}; }
void seq_@(uint64_t seed, int n) { { X x; x.r = vh::Rng{ seed }; x.run(n); for (auto &kv : x.ops) vh::log("OPS " + std::to_string(kv.second) + " " + kv.first); vh::log("DISTINCT " + std::to_string(x.seen.size())); } }
'''
COPY = r'''
    switch (r.below(8)) {
    case 4: { if (gone.empty()) break; rec("copy a moved-from handle"); K t(static_cast<const K &>(gone.back())); gone.emplace_back(std::move(t)); if (gone.size() > 6) gone.clear(); break; }
    case 5: { if (gone.empty()) break; rec("copy-assign from a moved-from handle"); k = static_cast<const K &>(gone.back()); drop_(i); break; }
    case 6: { if (gone.empty()) break; rec("copy-assign to a moved-from handle"); gone.back() = static_cast<const K &>(k); h.emplace_back(std::move(gone.back()), h[i].second); break; }
    case 7: { rec("copy-assign to itself"); K &same = k; k = static_cast<const K &>(same); break; }
    case 0: { rec("copy"); K t(static_cast<const K &>(k)); h.emplace_back(std::move(t), h[i].second); break; }
    case 1: { rec("copy-assign"); size_t j = r.below(h.size()); h[j].first = static_cast<const K &>(h[i].first); h[j].second = h[i].second; break; }
    case 2: { rec("lock is free"); if (!Ops::free(K(static_cast<const K &>(k)))) bad("the lock is still held after the call"); break; }
    case 3: { rec("reference count"); eq(Ops::count(K(static_cast<const K &>(k))), owners(&m) + 1, "owners"); break; }
    }
'''
MT = r'''
namespace { struct Y {
  using K = vns::@; using Ops = vns::@Ops;
  std::mutex mu; std::vector<int64_t> got; long inter = 0; uint64_t order = 0;
  void bad(const std::string &s) { vh::log("! @ | threads: " + s); }
  void run(uint64_t seed, int per) {
    vh::Rng r{ seed }; int nt = 2 + (int)r.below(5); int64_t base = (int64_t)r.below(1000); long total = 0;
    auto *shared = new K(base);
    uint64_t ticket = shared->ticket();
    std::vector<std::thread> ts; std::vector<std::vector<int64_t>> own(nt); std::atomic<long> calls{ 0 };
    for (int t = 0; t < nt; ++t) {
      total += per;
      uint64_t s2 = seed * 31 + t;
      @START
      ts.emplace_back([&own, &calls, this, t, per, s2, ticket @CAP]() mutable {
        vh::Rng q{ s2 }; vns::Plain zero(int64_t(0));
        auto &o = own[t];
        for (int i = 0; i < per; ++i) {
          switch (q.below(6)) {
          case 0: { auto v = k.fallible(true); auto *p = get_if_<int64_t>(&v); if (!p) bad("Err"); else o.push_back(*p); break; }
          @MORE
          default: o.push_back(k.incr());
          }
          calls++;
          switch (q.below(14)) {
          case 0: if (k.get() < o.back()) bad("the state went back"); break;
          case 1: { auto p = k.pair(); if (p.first < o.back()@SAME) bad("a torn state"); break; }
          case 2: k.bump(zero, 0); break;
          case 3: k.push(1); break;
          case 4: { auto l = k.list(); (void)l.size(); break; }
          case 5: { auto s = k.text("ab", 1); if (s.size() == 0) bad("text"); break; }
          case 6: { auto e = k.checked(false); if (!e) bad("Ok of Err"); break; }
          case 7: if (q.chance(4)) { auto l = k.take(); (void)l.size(); } break;
          case 8: { auto m = k.maybe(true); if (!m || *m < o.back()) bad("option"); break; }
          @HANDLES
          default: break;
          }
          if (k.ticket() != ticket) bad("another object");
        }
      });
    }
    @SPAWN
    @EARLY
    for (auto &t : ts) t.join();
    if (!vns::Ctl::join()) bad("a thread of Rust panicked");
    std::vector<std::pair<int64_t, int>> all; for (int t = 0; t < nt; ++t) { for (auto v : own[t]) all.emplace_back(v, t); for (size_t i = 1; i < own[t].size(); ++i) if (own[t][i] <= own[t][i - 1]) { bad("a thread saw the counter go back"); break; } }
    { auto s = vns::Ctl::seen(); for (auto v : s) all.emplace_back(v, -1); }
    std::sort(all.begin(), all.end());
    long lost = 0; for (size_t i = 0; i < all.size(); ++i) lost += all[i].first != base + 1 + (int64_t)i;
    if ((long)all.size() != total || lost) bad("updates lost or repeated (" + std::to_string(lost) + " of " + std::to_string(total) + ")");
    for (size_t i = 1; i < all.size(); ++i) { inter += all[i].second != all[i - 1].second; order = order * 1099511628211ull + all[i].second; }
    @LATE
    if (vh_alive()) bad("an object lives after its last handle");
    vh::log("OPS " + std::to_string(total) + " threads @"); vh::log("INTER " + std::to_string(inter) + " " + std::to_string(order));
  }
}; }
void mt_@(uint64_t seed, int rounds, int per) { for (int i = 0; i < rounds; ++i) { Y y; y.run(seed * 1000 + i, per); } }
'''


def mt(n, k):
    copy = k.get('copy')
    d = {'@START': 'auto &k = *shared;', '@CAP': ', &k', '@MORE': '', '@HANDLES': '', '@SPAWN': '', '@EARLY': '', '@LATE': 'delete shared;',
         '@SAME': '' if False else ' || p.first != p.second'}
    if copy:
        # every thread has a handle of its own, made while others work
        d['@START'] = 'K k(static_cast<const K &>(*shared));'
        d['@CAP'] = ', k = std::move(k)'
        d['@MORE'] = 'case 1: o.push_back(Ops::use_here(K(static_cast<const K &>(k)))); break;'
        d['@HANDLES'] = '''case 9: { K t(static_cast<const K &>(k)); k = std::move(t); break; }
          case 10: { K t = Ops::echo(K(static_cast<const K &>(k))); k = static_cast<const K &>(t); break; }
          case 11: { auto t = Ops::maybe(K(static_cast<const K &>(k)), q.chance(2)); if (t) k = std::move(*t); break; }'''
        d['@SPAWN'] = 'if (r.chance(2)) { int m = 1 + (int)r.below(2); while (m--) { total += per; Ops::spawn(K(static_cast<const K &>(*shared)), per); } }'
        # the last handle is dropped by whichever thread ends last
        d['@EARLY'] = 'bool early = r.chance(2); if (early) { delete shared; shared = nullptr; }'
        d['@LATE'] = 'ts.clear(); if (!early) { if (shared->get() != base + total) bad("final state"); delete shared; }'
    else:
        d['@LATE'] = 'if (shared->get() != base + total) bad("final state"); delete shared;'
    t = MT
    for a, b in d.items():
        t = t.replace(a, b)
    return t.replace('@', n)


PRE = '''
#include "vh.hpp"
#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
template <class T, class V> T *get_if_(V *v) {
#ifdef VH_BOOST
  return boost::get<T>(v);
#else
  return std::get_if<T>(v);
#endif
}
'''


def one_config(ck, boost, san, runs, n, rounds, per):
    tag = ('boost' if boost else 'std17') + ' ' + san
    p = cpprun.Prog('c04', tag.replace(' ', '_'))
    p.boost = boost
    vlib.write(p.glue_in, HEAD + PLAIN + '\n'.join(rs_kind(a, b) for a, b in KINDS.items()))
    ok, msg, err = vlib.vgen(p.job())
    keep = [p.glue_in, p.gen]
    if not ok:
        ck.violation('%s: generator rejects a supported interface' % tag, msg + err, keep)
        return
    head = p.prelude() + PRE
    files = []
    for a, b in KINDS.items():
        f = os.path.join(p.dir, 'k_%s.cpp' % a)
        vlib.write(f, head + SEQ.replace('@COPY', COPY if b.get('copy') else '').replace('@', a) + (mt(a, b) if b.get('mt') else ''))
        files.append(f)
    mts = [a for a in KINDS if KINDS[a].get('mt')]
    m = head + ''.join('void seq_%s(uint64_t, int);\n' % a for a in KINDS) + ''.join('void mt_%s(uint64_t, int, int);\n' % a for a in mts)
    m += 'int main(int, char **v) { uint64_t s = strtoull(v[1], 0, 10); int n = atoi(v[2]), rounds = atoi(v[3]), per = atoi(v[4]);\n'
    m += ''.join('seq_%s(s * 7919 + %d, n);\n' % (a, 13 * i) for i, a in enumerate(KINDS))
    m += 'for (uint32_t spin : {0u, 3u, 40u}) { vns::Ctl::spin(spin);\n' + ''.join('mt_%s(s * 104729 + %d + spin, rounds, per);\n' % (a, i) for i, a in enumerate(mts)) + '}\n'
    m += 'if (vh_alive()) vh::log("! leaked objects"); if (vh_over_dropped()) vh::log("! objects dropped twice"); vh::log("END"); vh_flush(); return 0; }'
    f = os.path.join(p.dir, 'main.cpp')
    vlib.write(f, m)
    rextra = ('--sysroot', tgt.tsan_sysroot()) if san == 'tsan' else ()
    exe = cpprun.build_all(ck, p, tag, cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs), files + [f], keep, san=san, rextra=rextra)
    if not exe:
        return
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run(exe, [vlib.seed() * 1000 + k, n, rounds, per], log='log%d' % k, timeout=400), range(runs), 4)):
        errs = [x[2:] for x in lines if x.startswith('! ')]
        for e in errs[:5]:
            import re
            ck.violation('%s: %s' % (tag, re.sub(r'-?\d+', '#', e)), '%s\nreplay: program of the kept glue, seed %d' % (e, vlib.seed() * 1000 + k), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            ck.violation('%s: %s' % (tag, cpprun.sanitizer_report(r)), r.stderr[:6000], keep)
        for x in lines:
            if x.startswith('OPS '):
                _, c, op = x.split(' ', 2)
                ck.count(int(c))
                d = ck.cov.setdefault('operations', {})
                d[op] = d.get(op, 0) + int(c)
            elif x.startswith('DISTINCT '):
                ck.extra_distinct += int(x.split(' ')[1])
            elif x.startswith('INTER '):
                ck.nontrivial(x)
                ck.cov['ownership hand-overs between threads'] = ck.cov.get('ownership hand-overs between threads', 0) + int(x.split()[1])
    p.cleanup()


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call or handle operation audited against a model of shared objects, or one update by one of several threads '
                      'whose results must be a permutation; distinct = distinct (operation, sharing pattern of handles) and orders of updates of threads')
    th = vlib.tier() == 'thorough'
    for boost, san in [(False, 'asan'), (True, 'asan'), (False, 'tsan')]:
        one_config(ck, boost, san, 3 if not th else 12, 800 if not th else 6000, 2 if not th else 12, 400 if not th else 1500)
    ck.cov['class_kinds'] = {a: b['self'] for a, b in KINDS.items()}
    ck.cov['samples'] = ['%s x %d' % kv for kv in sorted(ck.cov.get('operations', {}).items(), key=lambda x: -x[1])[:8]]


if __name__ == '__main__':
    vlib.main('C04', check)
