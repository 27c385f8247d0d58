"""Every shape in which an object of a class can be argument or result (storage of the class x
reference or smart pointer x wrapper): one C++ program per storage of the class; every function is
called with each alternative of its shape, under ASan, with a ledger of live objects. Results that need
a reference to a temporary object have to be rejected; what is accepted of them takes part too."""
import json
import os
import re

import cppgen
import cpprun
import vlib

STORE = {'T': 'K', 'Arc': 'Arc<K>', 'Rc': 'Rc<K>', 'Box': 'Box<K>', 'ArcMutex': 'Arc<Mutex<K>>', 'RcRefCell': 'Rc<RefCell<K>>',
         'Mutex': 'Mutex<K>', 'RefCell': 'RefCell<K>', 'RcMutex': 'Rc<Mutex<K>>'}
# accepted by the generator on the tree where this was written; "temporaries" would need a reference to
# an object that is destroyed before the function returns
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shapes.json')))

RUST = r'''
use crate::vh::{self, Ticket};
use std::{cell::{Cell, RefCell, Ref, RefMut}, rc::Rc, sync::{Arc, Mutex, MutexGuard}};
pub struct K { id: i64, s: String, _t: Ticket }
thread_local!(static NEXT: Cell<i64> = Cell::new(1000000); static LAST: Cell<i64> = Cell::new(0); static ALT: Cell<bool> = Cell::new(false); static LEAKED: Cell<i64> = Cell::new(0));
fn alt() -> bool { ALT.with(|x| x.get()) }
impl K { fn of(id: i64) -> K { K { id, s: format!("object number {}", id), _t: Ticket::new("K") } } }
trait Rd { fn rd(&self) -> i64; }
impl Rd for K { fn rd(&self) -> i64 { assert_eq!(self.s, format!("object number {}", self.id)); self.id } }
impl Rd for str { fn rd(&self) -> i64 { self.parse().unwrap() } }
impl Rd for String { fn rd(&self) -> i64 { self[..].rd() } }
impl Mk for String { fn mk() -> String { NEXT.with(|n| n.set(n.get() + 1)); format!("{:040}", NEXT.with(|n| n.get())) } }
impl Mk for Box<str> { fn mk() -> Self { String::mk().into() } }
impl Mk for Rc<str> { fn mk() -> Self { String::mk().into() } }
impl<T: Rd + ?Sized> Rd for &T { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd + ?Sized> Rd for &mut T { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd> Rd for Arc<T> { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd + ?Sized> Rd for Rc<T> { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd + ?Sized> Rd for Box<T> { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd> Rd for Mutex<T> { fn rd(&self) -> i64 { self.lock().unwrap().rd() } }
impl<T: Rd> Rd for RefCell<T> { fn rd(&self) -> i64 { self.borrow().rd() } }
impl<'a, T: Rd> Rd for MutexGuard<'a, T> { fn rd(&self) -> i64 { (**self).rd() } }
impl<T: Rd> Rd for Option<T> { fn rd(&self) -> i64 { match self { Some(x) => x.rd(), None => -1 } } }
impl<T: Rd> Rd for Result<T, String> { fn rd(&self) -> i64 { match self { Ok(x) => x.rd(), Err(_) => -2 } } }
impl<T: Rd> Rd for (T, i32) { fn rd(&self) -> i64 { self.0.rd() * 1000 + self.1 as i64 } }
impl<T: Rd> Rd for [T] { fn rd(&self) -> i64 { self.iter().fold(5, |a, x| a * 3 + x.rd()) } }
impl<T: Rd> Rd for Vec<T> { fn rd(&self) -> i64 { self[..].rd() } }
trait Mk: Sized { fn mk() -> Self; }
impl Mk for K { fn mk() -> K { NEXT.with(|n| n.set(n.get() + 1)); K::of(NEXT.with(|n| n.get())) } }
fn leak<T>(f: impl FnOnce() -> T) -> T { let a = vh::alive(); let r = f(); LEAKED.with(|x| x.set(x.get() + (vh::alive() - a) as i64)); r }
impl<T: Mk + 'static> Mk for &'static T { fn mk() -> Self { leak(|| Box::leak(Box::new(T::mk()))) } }
impl<T: Mk + 'static> Mk for &'static mut T { fn mk() -> Self { leak(|| Box::leak(Box::new(T::mk()))) } }
impl<T: Mk + 'static> Mk for &'static [T] { fn mk() -> Self { leak(|| Vec::leak(Vec::<T>::mk()) as &[T]) } }
impl<T: Mk> Mk for Arc<T> { fn mk() -> Self { Arc::new(T::mk()) } }
impl<T: Mk> Mk for Rc<T> { fn mk() -> Self { Rc::new(T::mk()) } }
impl<T: Mk> Mk for Box<T> { fn mk() -> Self { Box::new(T::mk()) } }
impl<T: Mk> Mk for Mutex<T> { fn mk() -> Self { Mutex::new(T::mk()) } }
impl<T: Mk> Mk for RefCell<T> { fn mk() -> Self { RefCell::new(T::mk()) } }
impl<T: Mk> Mk for Option<T> { fn mk() -> Self { if alt() { None } else { Some(T::mk()) } } }
impl<T: Mk> Mk for Result<T, String> { fn mk() -> Self { if alt() { Err("error of shapes".into()) } else { Ok(T::mk()) } } }
impl<T: Mk> Mk for (T, i32) { fn mk() -> Self { (T::mk(), 7) } }
impl<T: Mk> Mk for Vec<T> { fn mk() -> Self { let n = if alt() { 0 } else { 3 }; let mut v = Vec::with_capacity(n + 2); v.extend((0..n).map(|_| T::mk())); v } }
fn ret<T: Mk + Rd>() -> T { let r = T::mk(); LAST.with(|x| x.set(r.rd())); r }
fn new_k(id: i64) -> @S { @MK }
foreign_class!(class K {
    self_type K;
    constructor new_k(id: i64) -> @S;
    fn get(&self) -> i64 { this.rd() }
@DECL
});
impl K {
@IMPL
    fn set_alt(x: bool) { ALT.with(|a| a.set(x)) }
    fn text() -> String { String::new() }
    fn last() -> i64 { LAST.with(|x| x.get()) }
    fn leaked() -> i64 { LEAKED.with(|x| x.get()) }
}
'''
CPP = r'''
#include "vh.hpp"
#include <set>
using vns::K; using vns::KRef;
static int64_t next_id = 1;
static bool alt;
static std::set<int> chosen;
template <class T, class = void> struct is_seq : std::false_type {};
template <class T> struct is_seq<T, std::void_t<decltype(std::declval<const T &>().begin()), decltype(std::declval<const T &>().size())>> : std::true_type {};
template <class T, class = void> struct is_obj : std::false_type {};
template <class T> struct is_obj<T, std::void_t<decltype(std::declval<const T &>().get())>> : std::true_type {};
template <class T> int64_t rd(const T &x);
template <class T> int64_t rd_(const std::optional<T> &x) { return x ? rd(*x) : -1; }
template <class T> int64_t rd_(const std::pair<T, int32_t> &x) { return rd(x.first) * 1000 + x.second; }
template <class T> int64_t rd_(const std::variant<T, vns::RustString> &x) {
  if (x.index() == 0) return rd(std::get<0>(x));
  return std::get<1>(x).to_std_string() == "error of shapes" ? -2 : -3; }
template <class T> int64_t rd_(T *const &x) { return x ? rd(*x) : -1; }
int64_t rd_(const std::string_view &x) { return atoll(std::string(x).c_str()); }
int64_t rd_(const vns::RustString &x) { return atoll(x.to_std_string().c_str()); }
template <class T> std::enable_if_t<is_obj<T>::value, int64_t> rd_(const T &x) { return x.get(); }
template <class T> std::enable_if_t<is_seq<T>::value, int64_t> rd_(const T &x) { int64_t r = 5; size_t n = 0; for (auto i = x.begin(); i != x.end(); ++i, ++n) r = r * 3 + rd(*i); return n == x.size() ? r : -4; }
template <class T> int64_t rd(const T &x) { return rd_(x); }
template <class A> struct Mk;
template <> struct Mk<K> { K k{next_id++}; int64_t sum = k.get(); K get() { return std::move(k); } };
template <> struct Mk<K &> { K k{next_id++}; int64_t sum = k.get(); K &get() { return k; } };
template <> struct Mk<const K &> { K k{next_id++}; int64_t sum = k.get(); const K &get() { return k; } };
template <class P> struct MkPtr { K k{next_id++}; int64_t sum = alt ? -1 : k.get(); P *get() { return alt ? nullptr : &k; } };
template <> struct Mk<K *> : MkPtr<K> {};
template <> struct Mk<const K *> : MkPtr<const K> {};
template <class T> struct Mk<std::optional<T>> {
  Mk<T> m; int64_t sum = alt ? -1 : m.sum; std::optional<T> get() { return alt ? std::optional<T>() : std::optional<T>(m.get()); } };
template <class T> struct Mk<std::pair<T, int32_t>> { Mk<T> m; int64_t sum = m.sum * 1000 + 9; std::pair<T, int32_t> get() { return std::pair<T, int32_t>(m.get(), 9); } };
template <class V> struct MkVec { V v; int64_t sum; MkVec() {
  sum = 5; for (int i = 0; i < (alt ? 0 : 4); ++i) { sum = sum * 3 + next_id; v.push(K(next_id++)); }
  if (ELEMENTS && rd(v) != sum) vh::log("! wrong elements"); } };
#ifdef HAS_VEC
template <> struct Mk<vns::RustForeignVecK> : MkVec<vns::RustForeignVecK> { vns::RustForeignVecK get() { return std::move(v); } };
template <> struct Mk<vns::RustForeignSliceConst<KRef>> : MkVec<vns::RustForeignVecK> { vns::RustForeignSliceConst<KRef> get() { return v.as_slice(); } };
#endif
static void audit(int i, const char *what, int64_t got, int64_t want, int64_t before) {
  int64_t now = (int64_t)vh_alive() - K::leaked();
  if (got != want) vh::log("! wrong value | " + std::string(what) + " got " + std::to_string(got) + " expected " + std::to_string(want));
  if (now != before) vh::log("! objects leaked or lost | " + std::string(what) + " live objects changed by " + std::to_string(now - before));
  if (vh_over_dropped()) vh::log("! object dropped twice | " + std::string(what));
  vh::log("OK " + std::to_string(i));
}
template <class A> void arg_(int i, const char *what, int64_t (*f)(A)) {
  for (int k = 0; k < 2; ++k) {
    if (!chosen.count(i)) return;
    vh::log("CALL " + std::to_string(i)); vh_flush();
    alt = k; int64_t before = (int64_t)vh_alive() - K::leaked(), got, want;
    { Mk<A> m; want = m.sum; got = f(m.get()); }
    audit(i, what, got, want, before); alt = false;
  }
}
template <class R> void ret_(int i, const char *what, R (*f)()) {
  for (int k = 0; k < 2; ++k) {
    if (!chosen.count(i)) return;
    vh::log("CALL " + std::to_string(i)); vh_flush();
    K::set_alt(k); int64_t before = (int64_t)vh_alive() - K::leaked(), got, got2, want;
    { R r = f(); want = K::last(); got = rd(r); std::vector<std::string> junk(20, std::string(48, 'x')); got2 = rd(r); R r2 = std::move(r); if (got == got2) got2 = rd(r2); }
    audit(i, what, got == got2 ? got : -9, want, before); K::set_alt(false);
  }
}
int main(int n, char **v) {
  for (int i = 1; i < n; ++i) chosen.insert(atoi(v[i]));
@CALLS
  vh::log("END"); vh_flush(); return 0;
}
'''


def static(t):
    return re.sub(r'&(mut )?', lambda m: "&'static " + (m.group(1) or ''), t)


def smart(st):
    return re.match('(Arc|Rc|Box)<', STORE[st]) is not None


def groups(ms):
    """Two kinds of reference to the class inside of the same wrapper can not be in one program (finding of G04)."""
    refs = sorted({m.group(1) for m in (re.search(r'[<(](&[^,\[]*?)(?:, i32\)|, String>|>)$', t) for _, t in ms) if m})
    r = [[m for m in ms if not any(('<%s' % x in m[1] or '(%s,' % x in m[1]) for x in refs[1:])]]
    for x in refs[1:]:
        r.append([m for m in ms if re.search(r'[<(]%s(, i32\)|, String>|>)$' % re.escape(x), m[1])])
    return r


def program(st, ms):
    own = STORE[st]
    mk = 'K::of(id)'
    for w in reversed(re.findall(r'(\w+)<', own)):
        mk = '%s::new(%s)' % (w, mk)
    d, im = [], []
    for i, (kind, t) in enumerate(ms):
        if kind == 'arg':
            d.append('    fn K::f%d(x: %s) -> i64;' % (i, t))
            im.append('    fn f%d(x: %s) -> i64 { x.rd() }' % (i, t))
        else:
            d.append('    fn K::f%d() -> %s;' % (i, t))
            im.append('    fn f%d() -> %s { ret() }' % (i, static(t)))
    d.append('    fn K::set_alt(x: bool);\n    fn K::last() -> i64;\n    fn K::leaked() -> i64;\n    fn K::text() -> String;')
    return RUST.replace('@S', own).replace('@MK', mk).replace('@DECL', '\n'.join(d)).replace('@IMPL', '\n'.join(im))


def run(ck):
    todo = [(st, tuple(x.split(' ', 1))) for st, v in TABLE['temporaries'].items() for x in v]
    if vlib.tier() != 'thorough':
        todo = todo[vlib.seed() % 4::4]
    acc = {st: [tuple(x.split(' ', 1)) for x in v] for st, v in TABLE['accepted'].items()}
    acc = {(st, g): ms for st, v in acc.items() for g, ms in enumerate(groups(v))}
    progs = []
    single = [(st, m) for st, v in acc.items() for m in v]

    def jobs(xs):
        r = []
        for st, ms in xs:
            p = cpprun.Prog('c03', 'sh%d' % len(progs))
            vlib.write(p.glue_in, program(st, ms))
            progs.append(p)
            r.append(p.job())
        res = [x[0] for x in vlib.vgen_jobs(r)]
        while progs:
            progs.pop().cleanup()
        return res

    res = jobs([(st, [m]) for st, m in todo] + [(k[0], v) for k, v in acc.items()])
    extra = [x for x, ok in zip(todo, res) if ok]
    if not all(res[len(todo):]):
        # something is no longer supported: it is left out
        good = jobs([(st[0], [m]) for st, m in single])
        acc = {st: [m for (s, m), ok in zip(single, good) if ok and s == st] for st in acc}
    for st, m in extra:
        acc[st, 'temporary %s %s' % m] = [m]
    ck.cov['shapes'] = {'temporaries_tried': len(todo), 'temporaries_accepted': ['%s: %s %s' % (a, b[0], b[1]) for a, b in extra][:20],
                        'called': {st: sum(len(v) for k, v in acc.items() if k[0] == st) for st in STORE}}

    class late:
        found = []

        @staticmethod
        def violation(*a):
            late.found.append(a)

    def one(key):
        st, ms = key[0], acc[key]
        p = cpprun.Prog('c03', 'shape%s%s' % (st, list(acc).index(key)))
        vlib.write(p.glue_in, program(st, ms))
        keep = [p.glue_in, p.gen]
        ok, msg, err = vlib.vgen(p.job())
        if not ok:
            raise vlib.Inconclusive('shapes of %s: %s' % (st, (msg + err)[-400:]))
        vec = os.path.exists(p.gen + '/RustForeignVecK.hpp') or any('RustForeignVecK' in open(os.path.join(p.gen, f)).read() for f in os.listdir(p.gen) if f == 'K.hpp')
        calls = '\n'.join('  %s_(%d, "%s %s", &K::f%d);' % (k, i, k, t, i) for i, (k, t) in enumerate(ms))
        src = p.dir + '/t.cpp'
        vlib.write(src, p.prelude() + ('\n#define HAS_VEC\n' if vec else '') + '\n#define ELEMENTS %d\n' % (not smart(st)) + CPP.replace('@CALLS', calls))
        exe = cpprun.build_all(late, p, 'shapes of ' + st, cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs), [src], keep + [src])
        if not exe:
            return None
        # element access is known to be broken there (finding), so each of them gets a process of its own
        alone = [i for i, m in enumerate(ms) if smart(st) and re.match(r'ret (Vec<|&\[)', '%s %s' % m)]
        order = [i for i in range(len(ms)) if i not in alone]
        runs = [p.run(exe, order, log='log', timeout=300)] + [p.run(exe, [i], log='log%d' % i, timeout=300) for i in alone]
        return p, ms, keep + [src], runs

    for (st, _), r in zip(acc, vlib.pmap(one, list(acc))):
        if not r:
            continue
        p, ms, keep, runs = r
        good = True
        for pr, lines in runs:
            at = 'start'
            bad = {}
            for x in lines:
                if x.startswith('CALL '):
                    at = '%s %s' % ms[int(x[5:])]
                elif x.startswith('! '):
                    bad.setdefault(at, x[2:])
                elif x.startswith('OK '):
                    ck.count()
                    ck.nontrivial('shape %s %s %s' % ((st,) + ms[int(x[3:])]))
            if pr.returncode != 0 or not lines or lines[-1] != 'END':
                bad.setdefault(at, cpprun.sanitizer_report(pr))
            for a, what in bad.items():
                good = False
                ck.violation('shapes: class stored as %s: %s' % (STORE[st], a), '%s\n%s' % (what, pr.stderr[-5000:]), keep)
        if good:
            p.cleanup()
    for a in late.found:
        ck.violation(*a)
