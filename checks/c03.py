"""C03: Rust objects owned by C++ wrappers are dropped exactly once, memory-safely."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import shapes
import vlib

# name: (self type, type behind the reference methods, derive, how to make SELF from K, access)
KINDS = {
    'Mv': dict(self='Mv', mk='%s', derive=''),
    'MvBig': dict(self='MvBig', mk='%s', derive='', pad='[u64; 40]', align=64),
    'MvZ': dict(self='MvZ', mk='%s', derive='', pad='()', align=8),
    'Cp': dict(self='Cp', mk='%s', derive='#[derive(Copy)]', copy='clone', pad='[u8; 3]', align=16),
    'Pl': dict(self='Pl', mk='%s', derive='#[derive(PlainClass)]', plain=True),
    'PlCp': dict(self='PlCp', mk='%s', derive='#[derive(PlainClass, Copy)]', plain=True, copy='clone'),
    'Ar': dict(self='Arc<Ar>', mk='Arc::new(%s)', derive='#[derive(SmartPtrCopy)]', copy='share', ro=True),
    'Rr': dict(self='Rc<Rr>', mk='Rc::new(%s)', derive='#[derive(SmartPtrCopy)]', copy='share', ro=True),
    'Am': dict(self='Arc<Mutex<Am>>', mk='Arc::new(Mutex::new(%s))', derive='#[derive(SmartPtrCopy)]', copy='share'),
    'Rc_': dict(self='Rc<RefCell<Rc_>>', mk='Rc::new(RefCell::new(%s))', derive='#[derive(SmartPtrCopy)]', copy='share'),
    'AmN': dict(self='Arc<Mutex<AmN>>', mk='Arc::new(Mutex::new(%s))', derive=''),
    'Bx': dict(self='Box<Bx>', mk='Box::new(%s)', derive=''),
    'Mx': dict(self='Mutex<Mx>', mk='Mutex::new(%s)', derive=''),
    'ArMxP': dict(self='Arc<Mutex<ArMxP>>', mk='Arc::new(Mutex::new(%s))', derive='#[derive(PlainClass, SmartPtrCopy)]', plain=True, copy='share'),
    'Dy': dict(self='Box<Box<dyn DyT>>', mk='Box::new(%s)', derive='', dyn=True),
}
for _n, _k in KINDS.items():
    _k.setdefault('copy', None)
    _k['bare'] = _k['self'] == _n


def rs_kind(n, k):
    S = k['self']
    mk = lambda e: k['mk'] % e
    o = []
    if k.get('dyn'):
        o.append('''
pub trait DyT { fn val(&self) -> i64; fn ticket(&self) -> u64; fn set(&mut self, v: i64); }
pub struct DyA(i64, Ticket);
pub struct DyB([u64; 9], i64, Ticket);
impl DyT for DyA { fn val(&self) -> i64 { self.0 } fn ticket(&self) -> u64 { self.1.0 } fn set(&mut self, v: i64) { self.0 = v } }
impl DyT for DyB { fn val(&self) -> i64 { self.1 } fn ticket(&self) -> u64 { self.2.0 } fn set(&mut self, v: i64) { self.1 = v } }
fn new_Dy(v: i64) -> Box<Box<dyn DyT>> { Box::new(if v % 2 == 0 { Box::new(DyA(v, Ticket::new("DyA"))) } else { Box::new(DyB([7; 9], v, Ticket::new("DyB"))) }) }
foreign_class!(class Dy {
    self_type dyn DyT;
    constructor new_Dy(v: i64) -> Box<Box<dyn DyT>>;
    fn DyT::val(&self) -> i64;
    fn DyT::ticket(&self) -> u64;
    fn DyT::set(&mut self, v: i64);
});
''')
        o.append('fn tick_Dy(s: &Box<Box<dyn DyT>>) -> u64 { s.ticket() }')
    else:
        al = '#[repr(align(%d))]' % k['align'] if 'align' in k else ''
        pad = k.get('pad', '[u16; %d]' % (len(n) * 3))
        pv = {'()': '()'}.get(pad) or ('[5; %s]' % pad.split(';')[1].strip(' ]'))
        o.append('''%s
pub struct %s { v: i64, pad: %s, name: String, t: Ticket }
impl %s { fn make(v: i64) -> %s { %s { v, pad: %s, name: format!("n{}", v), t: Ticket::new("%s") } } }
impl Clone for %s { fn clone(&self) -> Self { %s::make(self.v) } }
fn new_%s(v: i64) -> %s { %s }''' % (al, n, pad, n, n, n, pv, n, n, n, n, S, mk('%s::make(v)' % n)))
        acc = 's.t.0'
        if 'Mutex' in S:
            acc = 's.lock().unwrap().t.0'
        elif 'RefCell' in S:
            acc = 's.borrow().t.0'
        o.append('fn tick_%s(s: &%s) -> u64 { %s }' % (n, S, acc))
        o.append('''foreign_class!(%s
class %s {
    self_type %s;
    constructor new_%s(v: i64) -> %s;
    fn val(&self) -> i64 { assert_eq!(this.name, format!("n{}", this.v)); this.v }
    fn ticket(&self) -> u64 { this.t.0 }
    fn name(&self) -> &str { &this.name }
    %s
    %s
});''' % (k['derive'], n, n, n, S,
            '' if k.get('ro') else 'fn set(&mut self, v: i64) { this.v = v; this.name = format!("n{}", v); }',
            'fn %s::clone(&self) -> %s;' % (n, n) if k['copy'] == 'clone' else ''))
    inner = 'dyn DyT' if k.get('dyn') else n
    o.append('thread_local!(static KEEP_%s: RefCell<Vec<%s>> = RefCell::new(vec![]));' % (n, S))
    o.append('pub struct %sOps;' % n)
    m = ['''fn eat(k: S) -> u64 { tick_N(&k) }
    fn eat2(k: S, x: i32, l: S) -> u64 { let r = tick_N(&k).wrapping_mul(1000003) ^ tick_N(&l); drop(l); drop(k); r.wrapping_add(x as u64) }
    fn keep(k: S) { KEEP_N.with(|v| v.borrow_mut().push(k)) }
    fn give() -> Option<S> { KEEP_N.with(|v| { let mut v = v.borrow_mut(); let r = v.pop(); if v.is_empty() { *v = Vec::new(); } r }) }
    fn echo(k: S) -> S { k }
    fn make(v: i64) -> S { new_N(v) }
    fn maybe(k: S, some: bool) -> Option<S> { if some { Some(k) } else { None } }
    fn opt_in(k: Option<S>) -> u64 { k.map(|x| tick_N(&x)).unwrap_or(0) }
    fn opt_echo(k: Option<S>) -> Option<S> { k }
    fn res(k: S, ok: bool) -> Result<S, String> { if ok { Ok(k) } else { Err(format!("bad {}", tick_N(&k))) } }
    fn res_err(k: S, ok: bool) -> Result<i32, S> { if ok { Ok(17) } else { Err(k) } }
    fn res_unit(k: S, ok: bool) -> Result<(), S> { if ok { Ok(()) } else { Err(k) } }
    fn tup(k: S, l: S) -> (S, S) { (l, k) }
    fn tup_in(p: (S, i32)) -> u64 { tick_N(&p.0) + p.1 as u64 }
    fn tup3(k: S, l: S) -> (S, i32, S) { (k, 5, l) }
    fn opt_tup(k: S, some: bool) -> Option<(S, i32)> { if some { Some((k, 3)) } else { None } }
    fn str_cap(cap: usize, n: usize) -> String { let mut r = String::with_capacity(cap); r.extend((0..n).map(|i| (b'a' + (i % 26) as u8) as char)); r }
    fn nums_cap(cap: usize, n: usize) -> Vec<i32> { let mut r = Vec::with_capacity(cap); r.extend(0..n as i32); r }
    fn nums_in(v: Vec<i32>) -> i64 { v.iter().map(|x| *x as i64).sum() }
    fn look(k: &I) -> u64 { look_N(k) }''']
    if not k.get('ro'):
        m.append('fn look_mut(k: &mut I) -> u64 { look_N(k) }')
    if k['bare']:
        m.append('''fn look_opt(k: Option<&I>) -> u64 { k.map(|x| look_N(x)).unwrap_or(0) }
    fn look_opt_mut(k: Option<&mut I>) -> u64 { k.map(|x| look_N(x)).unwrap_or(0) }''')
        if not k.get('plain'):
            m.append('fn peek() -> &\'static I { pin_N() }\n    fn peek_opt(some: bool) -> Option<&\'static I> { if some { Some(pin_N()) } else { None } }')
            m.append('''fn vec(k: S, l: S) -> Vec<S> { vec![k, l] }
    fn vec_in(v: Vec<S>) -> u64 { v.iter().map(|x| tick_N(x)).fold(0, |a, x| a.wrapping_mul(31).wrapping_add(x)) }
    fn vec_echo(v: Vec<S>) -> Vec<S> { let mut v = v; v.reverse(); v }
    fn vec_cap(cap: usize, v: i64, n: usize) -> Vec<S> { let mut r = Vec::with_capacity(cap); r.extend((0..n).map(|i| new_N(v + i as i64))); r }
    fn vec_maybe(v: Vec<S>, some: bool) -> Option<Vec<S>> { if some { Some(v) } else { None } }
    fn vec_res(v: Vec<S>, ok: bool) -> Result<Vec<S>, String> { if ok { Ok(v) } else { Err("no".into()) } }''')
    look = 'k.ticket()' if k.get('dyn') else 'k.t.0'
    o.append('fn look_N(k: &I) -> u64 { %s }' % look)
    if k['bare'] and not k.get('plain'):
        o.append('fn pin_N() -> &\'static I { KEEP_N.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { v.push(new_N(-1)); } unsafe { &*(&v[0] as *const I) } }) }')
    o.append('foreign_class!(class NOps {\n    %s\n});' % '\n    '.join(m))
    t = '\n'.join(o).replace('NOps', n + 'Ops').replace('_N(', '_' + n + '(').replace('KEEP_N', 'KEEP_' + n)
    return re.sub(r'\bI\b', inner, re.sub(r'\bS\b', S, t))


CPP = r'''
namespace { struct X {
  using K = vns::@; using Ops = vns::@Ops;
  static constexpr int N = 7;
  alignas(K) unsigned char raw[N][sizeof(K)];
  enum St { ABSENT, EMPTY, OWNS } st[N];
  uint64_t tk[N]; int64_t vl[N];
  std::vector<K> vec; std::vector<uint64_t> vtk;
  std::vector<uint64_t> kept;           // tickets held by Rust
  std::map<uint64_t, long> own;         // ticket -> owners
  vh::Rng r; long n_ops = 0; std::string op; std::set<uint64_t> seen; std::map<std::string, long> ops;
  int nextv = 1;
  K &at(int i) { return *reinterpret_cast<K *>(raw[i]); }
  void bad(const std::string &s) { vh::log("! @ " + op + " | " + s); }
  void eq(uint64_t a, uint64_t b, const char *w) { if (a != b) bad(std::string(w) + ": got " + std::to_string(a) + " want " + std::to_string(b)); }
  template <class F> void tryput(F f) { f(); }
  int pick(St s) { int c[N], n = 0; for (int i = 0; i < N; ++i) if (st[i] == s) c[n++] = i; return n ? c[r.below(n)] : -1; }
  int other(St s, int no) { for (int k = 0; k < 20; ++k) { int i = pick(s); if (i != no) return i; } return -1; }
  void born(uint64_t t) { if (own.count(t)) bad("ticket of a new object is already known"); own[t] = 1; }
  void gone(uint64_t t) { own[t]--; }
  // the object now in k must be ticket t
  void same(const K &k, uint64_t t) { eq(k.ticket(), t, "identity"); }
  void put(int i, K &&k, uint64_t t, int64_t v) { new (raw[i]) K(std::move(k)); st[i] = OWNS; tk[i] = t; vl[i] = v; }
  int hole() { int i = pick(ABSENT); if (i >= 0) return i; i = pick(EMPTY); if (i < 0) i = (int)r.below(N); kill(i); return i; }
  void kill(int i) { if (st[i] == ABSENT) return; at(i).~K(); if (st[i] == OWNS) gone(tk[i]); st[i] = ABSENT; }
  K out(int i) { st[i] = EMPTY; return K(std::move(at(i))); }
  void rec(const char *o) { op = o; ops[o]++; n_ops++; uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; };
    for (const char *p = o; *p; ++p) mix(*p); for (int i = 0; i < N; ++i) mix(st[i]);
    std::map<uint64_t, int> id; for (int i = 0; i < N; ++i) if (st[i] == OWNS) { auto it = id.emplace(tk[i], (int)id.size()).first; mix(it->second); }
    mix(vtk.size()); mix(kept.size()); for (auto t : vtk) mix(own[t]); seen.insert(h); }
  void check() {
    uint64_t live = 0;
    for (auto it = own.begin(); it != own.end();) {
      uint32_t d = vh_drops_of(it->first);
      if (it->second == 0) { if (d != 1) bad("object " + std::to_string(it->first) + " without owner was dropped " + std::to_string(d) + " times"); it = own.erase(it); }
      else { if (d != 0) { bad("object " + std::to_string(it->first) + " was dropped while " + std::to_string(it->second) + " owners remain"); vh_flush(); _exit(3); } live++; ++it; }
    }
    eq(vh_alive(), live, "number of live objects");
    for (int i = 0; i < N; ++i) if (st[i] == OWNS) { same(at(i), tk[i]); eq(at(i).val(), vl[i], "value"); }
    if (vec.size() != vtk.size()) bad("vector size"); else for (size_t i = 0; i < vec.size(); ++i) same(vec[i], vtk[i]);
    rv_check();
  }
  void run(int n) {
    for (auto &s : st) s = ABSENT;
    for (int k = 0; k < n; ++k) { step(); check(); if (r.chance(400)) { finish(); check(); } }
    finish(); check();
  }
  void finish() {
    op = "finish";
    for (int i = 0; i < N; ++i) kill(i);
    vec.clear(); vec.shrink_to_fit(); for (auto t : vtk) gone(t); vtk.clear();
    rv_finish();
    while (!kept.empty()) { auto o = Ops::give(); if (!o) { bad("Rust lost a kept object"); break; } gone(kept.back()); same(*o, kept.back()); kept.pop_back(); }
    if (Ops::give()) bad("give() made an object of nothing");
  }
  void step() {
    int i = pick(OWNS);
    if (i < 0 || r.chance(7)) { int h = hole(); int64_t v = nextv++; rec("construct");
      if (r.chance(2)) { K k(v); uint64_t t = k.ticket(); born(t); put(h, std::move(k), t, v); }
      else { K k = Ops::make(v); uint64_t t = k.ticket(); born(t); put(h, std::move(k), t, v); } return; }
    switch (r.below(50)) {
    case 0: rec("destroy"); kill(i); break;
    case 1: { int j = pick(EMPTY); if (j < 0) break; rec("destroy moved-from"); kill(j); break; }
    case 2: { int h = hole(); if (st[i] != OWNS) break; rec("move-construct"); new (raw[h]) K(std::move(at(i))); st[h] = OWNS; tk[h] = tk[i]; vl[h] = vl[i]; st[i] = EMPTY; break; }
    case 3: { int j = other(OWNS, i); if (j < 0) break; rec("move-assign over owner"); at(j) = std::move(at(i)); gone(tk[j]); tk[j] = tk[i]; vl[j] = vl[i]; st[i] = EMPTY; break; }
    case 4: { int j = pick(EMPTY); if (j < 0) break; rec("move-assign over empty"); at(j) = std::move(at(i)); st[j] = OWNS; tk[j] = tk[i]; vl[j] = vl[i]; st[i] = EMPTY; break; }
    case 5: { int j = pick(EMPTY); if (j < 0) break; rec("move-assign from empty"); at(i) = std::move(at(j)); gone(tk[i]); st[i] = EMPTY; break; }
    case 6: { int j = other(OWNS, i); if (j < 0) break; rec("swap"); std::swap(at(i), at(j)); std::swap(tk[i], tk[j]); std::swap(vl[i], vl[j]); break; }
    case 7: { rec("eat"); eq(Ops::eat(out(i)), tk[i], "identity in Rust"); gone(tk[i]); break; }
    case 8: { int j = other(OWNS, i); if (j < 0) break; rec("eat2"); int32_t x = (int32_t)r.below(100); uint64_t want = (tk[i] * 1000003ull ^ tk[j]) + x; K a = out(i), b = out(j);
      eq(Ops::eat2(std::move(a), x, std::move(b)), want, "two by value"); gone(tk[i]); gone(tk[j]); break; }
    case 9: { rec("keep"); Ops::keep(out(i)); kept.push_back(tk[i]); break; }
    case 10: { rec("give"); auto o = Ops::give(); if (kept.empty()) { if (o) bad("value from nothing"); break; } if (!o) { bad("nothing from a value"); break; }
      uint64_t t = kept.back(); kept.pop_back(); same(*o, t); int64_t v = o->val(); int h = hole(); put(h, std::move(*o), t, v); break; }
    case 11: { rec("echo"); K k = Ops::echo(out(i)); same(k, tk[i]); put_back(i, std::move(k)); break; }
    case 12: { rec("echo self-assign"); at(i) = Ops::echo(out(i)); st[i] = OWNS; break; }
    case 13: { rec("maybe some"); auto o = Ops::maybe(out(i), true); if (!o) { bad("None"); break; } same(*o, tk[i]); if (r.chance(2)) put_back(i, std::move(*o)); else gone(tk[i]); break; }
    case 14: { rec("maybe none"); auto o = Ops::maybe(out(i), false); if (o) bad("Some"); gone(tk[i]); break; }
    case 15: { rec("opt_in some"); eq(Ops::opt_in(vh::Opt<K>(out(i))), tk[i], "identity"); gone(tk[i]); break; }
    case 16: { rec("opt_in none"); eq(Ops::opt_in(vh::Opt<K>()), 0, "none"); break; }
    case 17: { rec("opt_echo"); vh::Opt<K> o(out(i)); o = Ops::opt_echo(std::move(o)); if (!o) { bad("None"); break; } same(*o, tk[i]); put_back(i, std::move(*o)); break; }
    case 18: { rec("res ok"); auto v = Ops::res(out(i), true); auto *p = vh_get_if<K>(&v); if (!p) { bad("Err"); break; } same(*p, tk[i]); if (r.chance(2)) put_back(i, std::move(*p)); else gone(tk[i]); break; }
    case 19: { rec("res err"); auto v = Ops::res(out(i), false); auto *p = vh_get_if<vns::RustString>(&v); if (!p) { bad("Ok"); break; }
      if (p->to_std_string() != "bad " + std::to_string(tk[i])) bad("error text"); gone(tk[i]); break; }
    case 20: { rec("res_err ok"); auto v = Ops::res_err(out(i), true); auto *p = vh_get_if<int32_t>(&v); if (!p || *p != 17) bad("Ok arm"); gone(tk[i]); break; }
    case 21: { rec("res_err err"); auto v = Ops::res_err(out(i), false); auto *p = vh_get_if<K>(&v); if (!p) { bad("Ok"); break; } same(*p, tk[i]); if (r.chance(2)) put_back(i, std::move(*p)); else gone(tk[i]); break; }
    case 22: { rec("res_unit ok"); auto o = Ops::res_unit(out(i), true); if (o) bad("error from Ok"); gone(tk[i]); break; }
    case 23: { rec("res_unit err"); auto o = Ops::res_unit(out(i), false); if (!o) { bad("no error"); break; } same(*o, tk[i]); put_back(i, std::move(*o)); break; }
    case 24: { int j = other(OWNS, i); if (j < 0) break; rec("tup"); K a = out(i), b = out(j); auto p = Ops::tup(std::move(a), std::move(b)); same(p.first, tk[j]); same(p.second, tk[i]);
      put_back(j, std::move(p.first)); if (r.chance(2)) put_back(i, std::move(p.second)); else gone(tk[i]); break; }
    case 25: { rec("tup_in"); eq(Ops::tup_in(std::pair<K, int32_t>(out(i), 9)), tk[i] + 9, "tuple"); gone(tk[i]); break; }
    case 26: { int j = other(OWNS, i); if (j < 0) break; rec("tup3"); K a = out(i), b = out(j); auto p = Ops::tup3(std::move(a), std::move(b)); same(std::get<0>(p), tk[i]); same(std::get<2>(p), tk[j]);
      gone(tk[i]); put_back(j, std::move(std::get<2>(p))); break; }
    case 27: { bool s = r.chance(2); rec("opt_tup"); auto o = Ops::opt_tup(out(i), s); if (s != bool(o)) { bad("presence"); break; } if (o) { same(o->first, tk[i]); } gone(tk[i]); break; }
    case 28: { rec("look"); eq(Ops::look(at(i)), tk[i], "by reference"); break; }
    case 29: { rec("release/adopt"); auto *p = at(i).release(); st[i] = EMPTY; int h = hole(); new (raw[h]) K(p); st[h] = OWNS; tk[h] = tk[i]; vl[h] = vl[i]; break; }
    case 30: { rec("vector push"); vec.push_back(out(i)); vtk.push_back(tk[i]); break; }
    case 31: { rec("vector emplace"); vec.emplace_back(int64_t(nextv++)); vtk.push_back(vec.back().ticket()); born(vtk.back()); break; }
    case 32: { if (vec.empty()) break; rec("vector erase"); size_t k = r.below(vec.size()); gone(vtk[k]); vec.erase(vec.begin() + k); vtk.erase(vtk.begin() + k); break; }
    case 33: { rec("vector insert"); size_t k = r.below(vec.size() + 1); vec.insert(vec.begin() + k, out(i)); vtk.insert(vtk.begin() + k, tk[i]); break; }
    case 34: { if (vec.empty()) break; rec("vector pop into slot"); int h = hole(); new (raw[h]) K(std::move(vec.back())); st[h] = OWNS; tk[h] = vtk.back(); vl[h] = at(h).val(); vec.pop_back(); vtk.pop_back(); break; }
    case 35: { rec("vector rotate"); if (vec.size() > 1) { size_t k = r.below(vec.size()); std::rotate(vec.begin(), vec.begin() + k, vec.end()); std::rotate(vtk.begin(), vtk.begin() + k, vtk.end()); } break; }
    case 36: { if (!r.chance(4)) break; rec("vector clear"); vec.clear(); for (auto t : vtk) gone(t); vtk.clear(); break; }
    case 37: { rec("vector resize storage"); if (r.chance(2)) vec.shrink_to_fit(); else vec.reserve(vec.size() + r.below(9)); break; }
    case 38: { rec("unique_ptr"); auto p = std::unique_ptr<K>(new K(out(i))); auto q = std::move(p); same(*q, tk[i]); if (r.chance(2)) put_back(i, std::move(*q)); else gone(tk[i]); break; }
    case 39: { rec("string with spare capacity"); size_t n = r.chance(2) ? 0 : r.below(40), c = r.below(3) * 30; auto a = Ops::str_cap(c, n); eq(a.size(), n, "length"); auto b = a; eq(b.size(), n, "length of copy");
      switch (r.below(5)) { case 0: a = Ops::str_cap(r.below(50), 0); break; case 1: a = b; break; case 2: b = std::move(a); break; case 3: { decltype(a) e; a = std::move(e); b = a; break; } default: break; } break; }
    case 40: { rec("numbers with spare capacity"); size_t n = r.chance(2) ? 0 : r.below(40), c = r.below(3) * 30; auto a = Ops::nums_cap(c, n); eq(a.size(), n, "length");
      switch (r.below(5)) { case 0: a = Ops::nums_cap(r.below(50), 0); break; case 1: a.clear(); break; case 2: { auto b = std::move(a); a = std::move(b); break; } case 3: { decltype(a) e; a = std::move(e); break; }
        default: eq((uint64_t)Ops::nums_in(std::move(a)), n ? n * (n - 1) / 2 : 0, "sum"); } break; }
    default: extra(i);
    }
  }
  // vectors of class objects that live for many steps
@VMEM
  void put_back(int i, K &&k) { at(i) = std::move(k); st[i] = OWNS; }
  void extra(int i) {
    (void)i;
    switch (r.below(11)) {
@EXTRA
    default: break;
    }
  }
}; }
void run_@(uint64_t seed, int n) {
  uint64_t base = 0;
  for (int k = 0; k < 2; ++k) { X x; x.r = vh::Rng{ seed + k }; x.run(k ? n : 60);
    x.op = "end"; x.vec = std::vector<X::K>(); if (k == 0) base = vh_live_bytes(); else { x.eq(vh_live_bytes(), base, "bytes in use after everything was dropped");
      for (auto &kv : x.ops) vh::log("OPS " + std::to_string(kv.second) + " " + kv.first); vh::log("DISTINCT " + std::to_string(x.seen.size())); } }
}
'''
SET = '''    case 0: { rec("set"); int64_t v = nextv++; at(i).set(v); for (int j = 0; j < N; ++j) if (st[j] == OWNS && tk[j] == tk[i]) vl[j] = v; break; }
'''
LOOK_MUT = '''    case 1: { rec("look_mut"); eq(Ops::look_mut(at(i)), tk[i], "by mutable reference"); break; }
'''
BARE = '''    case 2: { rec("look_opt"); eq(Ops::look_opt(&at(i)), tk[i], "Option<&>"); eq(Ops::look_opt(nullptr), 0, "Option<&> none");
      eq(Ops::look_opt_mut(&at(i)), tk[i], "Option<&mut>"); eq(Ops::look_opt_mut(nullptr), 0, "Option<&mut> none"); break; }
'''
REF = '''    case 3: { rec("ref"); { auto f = at(i).as_rref(); eq(f.ticket(), tk[i], "through Ref"); auto g = std::move(f); eq(g.ticket(), tk[i], "through moved Ref");
      auto h2 = at(i).as_rref(); h2 = std::move(g); eq(h2.ticket(), tk[i], "through assigned Ref"); eq(h2.as_cref().ticket(), tk[i], "through const &"); eq(Ops::look(h2.as_cref()), tk[i], "as argument"); } break; }
'''
VEC = '''    case 4: { rec("Vec round trip"); int j = other(OWNS, i); if (j < 0) break; K a = out(i), b = out(j); auto v = Ops::vec(std::move(a), std::move(b)); if (v.size() != 2) { bad("size"); break; }
      eq(v[0].ticket(), tk[i], "element"); eq(v[1].ticket(), tk[j], "element");
      switch (r.below(7)) {
      case 0: eq(Ops::vec_in(std::move(v)), tk[i] * 31 + tk[j], "vec by value"); gone(tk[i]); gone(tk[j]); break;
      case 1: { auto w = Ops::vec_echo(std::move(v)); eq(w[0].ticket(), tk[j], "reversed"); K k = w.remove(0); same(k, tk[j]); put_back(j, std::move(k)); gone(tk[i]); break; }
      case 2: { bool s = r.chance(2); auto o = Ops::vec_maybe(std::move(v), s); if (bool(o) != s) bad("presence"); gone(tk[i]); gone(tk[j]); break; }
      case 3: { bool s = r.chance(2); auto o = Ops::vec_res(std::move(v), s); (void)o; gone(tk[i]); gone(tk[j]); break; }
      case 4: { K k = v.remove(1); v.push(K(int64_t(nextv))); put_back(j, std::move(k)); gone(tk[i]); auto t = v[1].ticket(); auto w = std::move(v); eq(w[1].ticket(), t, "moved vec"); v = std::move(w); nextv++; break; }
      case 5: { v.clear(); gone(tk[i]); gone(tk[j]); eq(v.size(), 0, "size after clear"); v.push(K(int64_t(nextv++))); break; }
      default: gone(tk[i]); gone(tk[j]); break; }
      break; }
    case 8: case 9: case 10: rv_step(i); break;
    case 5: { rec("Rust reference"); if (kept.empty()) break; eq(Ops::peek().ticket(), kept[0], "reference into Rust"); auto o = Ops::peek_opt(true); if (!o) bad("None"); else eq((*o).ticket(), kept[0], "optional reference");
      if (Ops::peek_opt(false)) bad("Some"); break; }
'''
VMEM = '''
  using RV = decltype(Ops::vec_cap(0, 0, 0));
  RV rv[3]; std::vector<uint64_t> rt[3];
  void rv_gone(int a) { for (auto t : rt[a]) gone(t); rt[a].clear(); }
  void rv_check() { for (int a = 0; a < 3; ++a) { if (rv[a].size() != rt[a].size() || rv[a].empty() != rt[a].empty()) { bad("size of Rust vector"); continue; } size_t k = 0;
    for (size_t j = 0; j < rt[a].size(); ++j) eq(rv[a][j].ticket(), rt[a][j], "element of Rust vector");
    for (auto e : rv[a]) eq(e.ticket(), rt[a][k++], "element by iterator"); } }
  void rv_finish() { for (int a = 0; a < 3; ++a) { if (r.chance(2)) rv[a].clear(); else rv[a] = RV(); rv_gone(a); } }
  void rv_step(int i) {
    int a = (int)r.below(3), b = (a + 1 + (int)r.below(2)) % 3;
    switch (r.below(16)) {
    case 0: case 1: case 2: rec("rv push"); rv[a].push(out(i)); rt[a].push_back(tk[i]); break;
    case 3: case 4: { if (rt[a].empty()) break; rec("rv remove"); size_t k = r.below(rt[a].size()); K o = rv[a].remove(k); same(o, rt[a][k]); gone(rt[a][k]); rt[a].erase(rt[a].begin() + k); break; }
    case 5: { rec("rv drain"); while (!rt[a].empty()) { size_t k = r.below(rt[a].size()); K o = rv[a].remove(k); same(o, rt[a][k]); gone(rt[a][k]); rt[a].erase(rt[a].begin() + k); } break; }
    case 6: rec("rv clear"); rv[a].clear(); rv_gone(a); break;
    case 7: rec("rv move-assign"); rv[a] = std::move(rv[b]); rv_gone(a); rt[a] = rt[b]; rt[b].clear(); break;
    case 8: { rec("rv move-construct"); RV t(std::move(rv[a])); rv[b] = std::move(t); rv_gone(b); rt[b] = rt[a]; rt[a].clear(); break; }
    case 9: rec("rv swap"); std::swap(rv[a], rv[b]); std::swap(rt[a], rt[b]); break;
    case 10: { rec("rv from Rust"); size_t n = r.chance(3) ? 0 : r.below(4); rv[a] = Ops::vec_cap(r.below(3) * 7, nextv, n); nextv += (int)n; rv_gone(a); for (size_t j = 0; j < rv[a].size(); ++j) { rt[a].push_back(rv[a][j].ticket()); born(rt[a].back()); } if (rt[a].size() != n) bad("size"); break; }
    case 11: { rec("rv scope"); { RV t = Ops::vec_cap(r.below(9), nextv, 1); uint64_t x = t[0].ticket(); born(x); K o = t.remove(0); same(o, x); gone(x); nextv++; if (r.chance(2)) t.push(std::move(o)); } break; }
    case 12: { rec("rv release/adopt"); auto c = rv[a].release(); eq(rv[a].size(), 0, "size after release"); rv[b] = RV(c); rv_gone(b); rt[b] = rt[a]; rt[a].clear(); break; }
    case 13: { rec("rv echo"); rv[a] = Ops::vec_echo(std::move(rv[a])); std::reverse(rt[a].begin(), rt[a].end()); break; }
    case 14: { rec("rv consume"); uint64_t w = 0; for (auto t : rt[a]) w = w * 31 + t; eq(Ops::vec_in(std::move(rv[a])), w, "consumed"); rv_gone(a); eq(rv[a].size(), 0, "size after move"); break; }
    case 15: { rec("rv move between"); if (rt[a].empty()) break; size_t k = r.below(rt[a].size()); rv[b].push(rv[a].remove(k)); rt[b].push_back(rt[a][k]); rt[a].erase(rt[a].begin() + k); break; }
    }
  }
'''
NOVMEM = 'void rv_check() {} void rv_finish() {}'
CLONE = '''    case 6: { rec("copy-construct"); int h = hole(); if (st[i] != OWNS) break; K k(at(i)); uint64_t t = k.ticket(); @BORN eq(k.val(), vl[i], "copied value"); put(h, std::move(k), t, vl[i]); break; }
    case 7: { int j = r.chance(3) ? pick(EMPTY) : pick(OWNS); if (j < 0) break; rec("copy-assign"); if (j == i) { K &same_ = at(i); at(i) = static_cast<const K &>(same_); break; }
      at(j) = static_cast<const K &>(at(i)); if (st[j] == OWNS) gone(tk[j]); st[j] = OWNS; tk[j] = at(j).ticket(); vl[j] = vl[i]; { uint64_t t = tk[j]; @BORN }
      int e = pick(EMPTY); if (e >= 0 && r.chance(3)) { op = "copy of moved-from"; K k(static_cast<const K &>(at(e))); if (r.chance(2)) { at(j) = static_cast<const K &>(at(e)); gone(tk[j]); st[j] = EMPTY; } }
      break; }
'''


def extra(n, k):
    o = ''
    if not k.get('ro'):
        o += SET + LOOK_MUT
    if k['bare']:
        o += BARE
    if not k.get('plain'):
        o += REF
    if k['bare'] and not k.get('plain'):
        o += VEC
    if k['copy'] == 'clone':
        o += CLONE.replace('@BORN', 'born(t);')
    elif k['copy'] == 'share':
        o += CLONE.replace('@BORN', 'eq(t, tk[i], "a copy is another object"); own[t]++;')
    return o


def one_config(ck, boost, runs, n):
    tag = 'boost' if boost else 'std17'
    p = cpprun.Prog('c03', tag)
    p.boost = boost
    vlib.write(p.glue_in, '#[allow(unused_imports)]\nuse crate::vh::{self, Ticket};\nuse std::{cell::{RefCell, Ref, RefMut}, rc::Rc, sync::{Arc, Mutex, MutexGuard}};\n'
               + '\n'.join(rs_kind(a, b) for a, b in KINDS.items()))
    ok, msg, err = vlib.vgen(p.job())
    keep = [p.glue_in, p.gen]
    if not ok:
        ck.violation('%s: generator rejects a supported interface' % tag, msg + err, keep)
        return
    head = p.prelude() + '''
#include "vh.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
template <class T, class V> T *vh_get_if(V *v) {
#ifdef VH_BOOST
  return boost::get<T>(v);
#else
  return std::get_if<T>(v);
#endif
}
'''
    files = []
    for a, b in KINDS.items():
        f = os.path.join(p.dir, 'k_%s.cpp' % a)
        vlib.write(f, head + CPP.replace('@EXTRA', extra(a, b)).replace('@VMEM', VMEM if b['bare'] and not b.get('plain') else NOVMEM).replace('@', a))
        files.append(f)
    m = head + ''.join('void run_%s(uint64_t, int);\n' % a for a in KINDS)
    m += 'int main(int, char **v) { uint64_t s = strtoull(v[1], 0, 10); int n = atoi(v[2]);\n'
    m += ''.join('run_%s(s * 7919 + %d, n);\n' % (a, 13 * i) for i, a in enumerate(KINDS))
    m += 'if (vh_alive()) vh::log("! leaked objects"); if (vh_over_dropped()) vh::log("! objects dropped twice"); vh::log("END"); vh_flush(); return 0; }'
    f = os.path.join(p.dir, 'main.cpp')
    vlib.write(f, m)
    exe = cpprun.build_all(ck, p, tag, cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs), files + [f], keep)
    if not exe:
        return
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run(exe, [vlib.seed() * 1000 + k, n], log='log%d' % k, timeout=800), range(runs))):
        for e in [x[2:] for x in lines if x.startswith('! ')][:5]:
            ck.violation('%s: %s' % (tag, e.split(' | ')[0]), '%s\nreplay: program of the kept glue, arguments %d %d' % (e, vlib.seed() * 1000 + k, n), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            ck.violation('%s: %s' % (tag, cpprun.sanitizer_report(r)), r.stderr[-5000:], keep)
        for x in lines:
            if x.startswith('OPS '):
                _, c, op = x.split(' ', 2)
                ck.count(int(c))
                d = ck.cov.setdefault('operations', {})
                d[op] = d.get(op, 0) + int(c)
            elif x.startswith('DISTINCT '):
                ck.extra_distinct += int(x.split(' ')[1])
    p.cleanup()


def check(ck):
    ck.cov['rule'] = ('one evaluation is one ownership operation followed by the audit of every live and every finished object; '
                      'distinct = distinct (class kind, operation, ownership pattern of all slots, vector and Rust store) within a run; '
                      'plus one evaluation per call of the shapes matrix, distinct = (storage of the class, argument or result, shape)')
    th = vlib.tier() == 'thorough'
    for boost in (False, True):
        one_config(ck, boost, 16 if th else 8, 12000 if th else 1500)
    shapes.run(ck)
    ck.cov['class_kinds'] = {a: b['self'] + ' ' + b['derive'] for a, b in KINDS.items()}
    ck.cov['samples'] = ['%s x %d' % kv for kv in sorted(ck.cov.get('operations', {}).items(), key=lambda x: -x[1])[:8]]


if __name__ == '__main__':
    vlib.main('C03', check)
