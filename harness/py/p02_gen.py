"""Interface of the Python ownership workload: every way an object can cross, for each way it can be stored."""
HEAD = '''
use crate::vh::{self, Ticket};
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicI64, Ordering};

#[derive(Debug)]
pub struct PErr;
impl std::fmt::Display for PErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("no") } }
impl std::error::Error for PErr {}
'''

# objects that Rust and Python own together
SHARED = '''
static REG_@K@: Mutex<Vec<@S@>> = Mutex::new(Vec::new());
pub struct Reg@K@;
impl Reg@K@ {
    pub fn keep(x: @S@) { REG_@K@.lock().unwrap().push(x) }
    pub fn keep_ref(x: &@S@) { REG_@K@.lock().unwrap().push(x.clone()) }
    pub fn keep_opt(x: Option<@S@>) { REG_@K@.lock().unwrap().extend(x) }
    pub fn keep_vec(x: Vec<@S@>) { REG_@K@.lock().unwrap().extend(x) }
    pub fn keep_slice(x: &[@S@]) { REG_@K@.lock().unwrap().extend_from_slice(x) }
    pub fn keep_deep(x: Vec<Option<Vec<@S@>>>) { for v in x.into_iter().flatten() { REG_@K@.lock().unwrap().extend(v) } }
    pub fn keep_two(x: @S@, y: Option<@S@>) -> bool {
        let r = y.as_ref().map_or(false, |y| Arc::ptr_eq(&x, y));
        let mut g = REG_@K@.lock().unwrap();
        g.push(x);
        g.extend(y);
        r
    }
    pub fn let_go(x: @S@) -> usize { Arc::strong_count(&x) }
    pub fn fail_first(n: u8, x: @S@) { let _ = n; REG_@K@.lock().unwrap().push(x) }
    pub fn fail_last(x: @S@, n: u8) { let _ = n; REG_@K@.lock().unwrap().push(x) }
    pub fn keep_or_err(x: @S@, ok: bool) -> Result<@S@, PErr> { if ok { REG_@K@.lock().unwrap().push(x.clone()); Ok(x) } else { Err(PErr) } }
    pub fn back(x: @S@) -> @S@ { x }
    pub fn back_vec(x: Vec<@S@>) -> Vec<@S@> { x }
    pub fn back_opt(x: Option<@S@>) -> Option<@S@> { x }
    pub fn at(i: usize) -> @S@ { REG_@K@.lock().unwrap()[i].clone() }
    pub fn all() -> Vec<@S@> { REG_@K@.lock().unwrap().clone() }
    pub fn find(i: usize) -> Option<@S@> { REG_@K@.lock().unwrap().get(i).cloned() }
    pub fn pair(i: usize, j: usize) -> (@S@, u32, Option<@S@>) { let g = REG_@K@.lock().unwrap(); (g[i].clone(), 7, g.get(j).cloned()) }
    pub fn deep() -> Vec<Option<Vec<@S@>>> { let g = REG_@K@.lock().unwrap(); vec![None, Some(g.clone()), Some(vec![])] }
    pub fn get_or_err(i: usize) -> Result<@S@, PErr> { REG_@K@.lock().unwrap().get(i).cloned().ok_or(PErr) }
    pub fn drop_at(i: usize) { let x = REG_@K@.lock().unwrap().remove(i); drop(x) }
    pub fn clear() { let x = std::mem::take(&mut *REG_@K@.lock().unwrap()); drop(x) }
    pub fn held() -> usize { REG_@K@.lock().unwrap().len() }
}
foreign_class!(class Reg@K@ {
    fn Reg@K@::keep(x: @S@);
    fn Reg@K@::keep_ref(x: &@S@);
    fn Reg@K@::keep_opt(x: Option<@S@>);
    fn Reg@K@::keep_vec(x: Vec<@S@>);
    fn Reg@K@::keep_slice(x: &[@S@]);
    fn Reg@K@::keep_deep(x: Vec<Option<Vec<@S@>>>);
    fn Reg@K@::keep_two(x: @S@, y: Option<@S@>) -> bool;
    fn Reg@K@::let_go(x: @S@) -> usize;
    fn Reg@K@::fail_first(n: u8, x: @S@);
    fn Reg@K@::fail_last(x: @S@, n: u8);
    fn Reg@K@::keep_or_err(x: @S@, ok: bool) -> Result<@S@, PErr>;
    fn Reg@K@::back(x: @S@) -> @S@;
    fn Reg@K@::back_vec(x: Vec<@S@>) -> Vec<@S@>;
    fn Reg@K@::back_opt(x: Option<@S@>) -> Option<@S@>;
    fn Reg@K@::at(i: usize) -> @S@;
    fn Reg@K@::all() -> Vec<@S@>;
    fn Reg@K@::find(i: usize) -> Option<@S@>;
    fn Reg@K@::pair(i: usize, j: usize) -> (@S@, u32, Option<@S@>);
    fn Reg@K@::deep() -> Vec<Option<Vec<@S@>>>;
    fn Reg@K@::get_or_err(i: usize) -> Result<@S@, PErr>;
    fn Reg@K@::drop_at(i: usize);
    fn Reg@K@::clear();
    fn Reg@K@::held() -> usize;
});
'''

# objects that are copied when they cross by value
COPIED = '''
static REG_@K@: Mutex<Vec<@K@>> = Mutex::new(Vec::new());
pub struct Reg@K@;
impl Reg@K@ {
    pub fn keep(x: @K@) { REG_@K@.lock().unwrap().push(x) }
    pub fn keep_opt(x: Option<@K@>) { REG_@K@.lock().unwrap().extend(x) }
    pub fn keep_vec(x: Vec<@K@>) { REG_@K@.lock().unwrap().extend(x) }
    pub fn keep_slice(x: &[@K@]) { REG_@K@.lock().unwrap().extend_from_slice(x) }
    pub fn let_go(x: @K@) -> i64 { x.get() }
    pub fn fail_first(n: u8, x: @K@) { let _ = n; REG_@K@.lock().unwrap().push(x) }
    pub fn fail_last(x: @K@, n: u8) { let _ = n; REG_@K@.lock().unwrap().push(x) }
    pub fn back(x: @K@) -> @K@ { x }
    pub fn back_ref(x: &@K@) -> @K@ { x.clone() }
    pub fn back_vec(x: Vec<@K@>) -> Vec<@K@> { x }
    pub fn pop() -> Option<@K@> { REG_@K@.lock().unwrap().pop() }
    pub fn pop_or_err() -> Result<@K@, PErr> { REG_@K@.lock().unwrap().pop().ok_or(PErr) }
    pub fn drain() -> Vec<@K@> { std::mem::take(&mut *REG_@K@.lock().unwrap()) }
    pub fn drain_pair() -> (Option<@K@>, Vec<@K@>) { let mut g = REG_@K@.lock().unwrap(); let p = g.pop(); (p, std::mem::take(&mut *g)) }
    pub fn same(a: &@K@, b: &@K@) -> bool { a.get() == b.get() }
    pub fn clear() { let x = std::mem::take(&mut *REG_@K@.lock().unwrap()); drop(x) }
    pub fn held() -> usize { REG_@K@.lock().unwrap().len() }
}
foreign_class!(class Reg@K@ {
    fn Reg@K@::keep(x: @K@);
    fn Reg@K@::keep_opt(x: Option<@K@>);
    fn Reg@K@::keep_vec(x: Vec<@K@>);
    fn Reg@K@::keep_slice(x: &[@K@]);
    fn Reg@K@::let_go(x: @K@) -> i64;
    fn Reg@K@::fail_first(n: u8, x: @K@);
    fn Reg@K@::fail_last(x: @K@, n: u8);
    fn Reg@K@::back(x: @K@) -> @K@;
    fn Reg@K@::back_ref(x: &@K@) -> @K@;
    fn Reg@K@::back_vec(x: Vec<@K@>) -> Vec<@K@>;
    fn Reg@K@::pop() -> Option<@K@>;
    fn Reg@K@::pop_or_err() -> Result<@K@, PErr>;
    fn Reg@K@::drain() -> Vec<@K@>;
    fn Reg@K@::drain_pair() -> (Option<@K@>, Vec<@K@>);
    fn Reg@K@::same(a: &@K@, b: &@K@) -> bool;
    fn Reg@K@::clear();
    fn Reg@K@::held() -> usize;
});
'''

# objects that only Python owns
OWNED = '''
pub struct Reg@K@;
impl Reg@K@ {
    pub fn make(v: i64) -> @K@ { @K@::plain(v) }
    pub fn make_m(v: i64) -> Mutex<@K@> { Mutex::new(@K@::plain(v)) }
    pub fn make_vec(v: i64, n: u8) -> Vec<@K@> { (0..n).map(|i| @K@::plain(v + i as i64)).collect() }
    pub fn make_mvec(v: i64, n: u8) -> Vec<Mutex<@K@>> { (0..n).map(|i| Mutex::new(@K@::plain(v + i as i64))).collect() }
    pub fn make_opt(v: i64, some: bool) -> Option<@K@> { if some { Some(@K@::plain(v)) } else { None } }
    pub fn make_or_err(v: i64, ok: bool) -> Result<@K@, PErr> { let x = @K@::plain(v); if ok { Ok(x) } else { Err(PErr) } }
    pub fn make_tup(v: i64) -> (@K@, i64, Mutex<@K@>) { (@K@::plain(v), v, Mutex::new(@K@::plain(v + 1))) }
    pub fn look(x: &@K@) -> i64 { x.v }
    pub fn look_m(x: &Mutex<@K@>) -> i64 { x.lock().unwrap().v }
    pub fn poke(x: &mut @K@, v: i64) -> i64 { std::mem::replace(&mut x.v, v) }
    pub fn swap(x: &mut @K@, y: &mut @K@) { std::mem::swap(&mut x.v, &mut y.v) }
    pub fn poke_or_err(x: &mut @K@, v: i64, ok: bool) -> Result<i64, PErr> { if ok { x.v = v; Ok(v) } else { Err(PErr) } }
    pub fn poke_bad(x: &mut @K@, n: u8) { let _ = n; x.v += 1 }
}
foreign_class!(class Reg@K@ {
    fn Reg@K@::make(v: i64) -> @K@;
    fn Reg@K@::make_m(v: i64) -> Mutex<@K@>;
    fn Reg@K@::make_vec(v: i64, n: u8) -> Vec<@K@>;
    fn Reg@K@::make_mvec(v: i64, n: u8) -> Vec<Mutex<@K@>>;
    fn Reg@K@::make_opt(v: i64, some: bool) -> Option<@K@>;
    fn Reg@K@::make_or_err(v: i64, ok: bool) -> Result<@K@, PErr>;
    fn Reg@K@::make_tup(v: i64) -> (@K@, i64, Mutex<@K@>);
    fn Reg@K@::look(x: &@K@) -> i64;
    fn Reg@K@::look_m(x: &Mutex<@K@>) -> i64;
    fn Reg@K@::poke(x: &mut @K@, v: i64) -> i64;
    fn Reg@K@::swap(x: &mut @K@, y: &mut @K@);
    fn Reg@K@::poke_or_err(x: &mut @K@, v: i64, ok: bool) -> Result<i64, PErr>;
    fn Reg@K@::poke_bad(x: &mut @K@, n: u8);
});
'''

MUT = '''
pub struct @K@ { v: i64, t: Ticket }
impl @K@ {
    pub fn plain(v: i64) -> @K@ { @K@ { v, t: Ticket::new("@K@") } }
    pub fn new(v: i64, bad: u8) -> @S@ { let _ = bad; @W@ }
    pub fn get(&self) -> i64 { self.v }
    pub fn set(&mut self, v: i64) { self.v = v }
    pub fn incr(&mut self) -> i64 { let v = self.v; for _ in 0..8 { std::hint::spin_loop() } self.v = v + 1; self.v }
    pub fn incr_bad(&mut self, n: u8) -> i64 { let _ = n; self.v += 1; self.v }
    pub fn incr_or_err(&mut self, ok: bool) -> Result<i64, PErr> { self.v += 1; if ok { Ok(self.v) } else { Err(PErr) } }
    pub fn ticket(&self) -> u64 { self.t.0 }
    pub fn same(&self, o: &@K@) -> bool { self.t.0 == o.t.0 }
}
@C@
foreign_class!(@D@ class @K@ {
    self_type @K@;
    constructor @K@::new(v: i64, bad: u8) -> @S@;
    fn @K@::get(&self) -> i64;
    fn @K@::set(&mut self, v: i64);
    fn @K@::incr(&mut self) -> i64;
    fn @K@::incr_bad(&mut self, n: u8) -> i64;
    fn @K@::incr_or_err(&mut self, ok: bool) -> Result<i64, PErr>;
    fn @K@::ticket(&self) -> u64;
    fn @K@::same(&self, o: &@K@) -> bool;
});
'''

CONST = '''
pub struct @K@ { v: AtomicI64, t: Ticket }
impl @K@ {
    pub fn plain(v: i64) -> @K@ { @K@ { v: AtomicI64::new(v), t: Ticket::new("@K@") } }
    pub fn new(v: i64, bad: u8) -> @S@ { let _ = bad; @W@ }
    pub fn get(&self) -> i64 { self.v.load(Ordering::SeqCst) }
    pub fn set(&self, v: i64) { self.v.store(v, Ordering::SeqCst) }
    pub fn incr(&self) -> i64 { self.v.fetch_add(1, Ordering::SeqCst) + 1 }
    pub fn incr_bad(&self, n: u8) -> i64 { let _ = n; self.incr() }
    pub fn incr_or_err(&self, ok: bool) -> Result<i64, PErr> { let v = self.incr(); if ok { Ok(v) } else { Err(PErr) } }
    pub fn ticket(&self) -> u64 { self.t.0 }
    pub fn same(&self, o: &@K@) -> bool { self.t.0 == o.t.0 }
}
@C@
foreign_class!(@D@ class @K@ {
    self_type @K@;
    constructor @K@::new(v: i64, bad: u8) -> @S@;
    fn @K@::get(&self) -> i64;
    fn @K@::set(&self, v: i64);
    fn @K@::incr(&self) -> i64;
    fn @K@::incr_bad(&self, n: u8) -> i64;
    fn @K@::incr_or_err(&self, ok: bool) -> Result<i64, PErr>;
    fn @K@::ticket(&self) -> u64;
    fn @K@::same(&self, o: &@K@) -> bool;
});
'''

THREADS = '''
static JOBS: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());
static SEEN: Mutex<Vec<i64>> = Mutex::new(Vec::new());
fn work(n: u32, mut f: impl FnMut() -> i64 + Send + 'static) {
    JOBS.lock().unwrap().push(std::thread::spawn(move || {
        let mut v = Vec::new();
        for i in 0..n { v.push(f()); if i % 16 == 0 { std::thread::yield_now() } }
        SEEN.lock().unwrap().extend(v);
        drop(f);
    }));
}
pub struct Work;
impl Work {
    pub fn am(x: Arc<Mutex<Am>>, n: u32) { work(n, move || x.lock().unwrap().incr()) }
    pub fn sh(x: Arc<Sh>, n: u32) { work(n, move || x.incr()) }
    pub fn am_ref(x: &Arc<Mutex<Am>>, n: u32) { let x = x.clone(); work(n, move || x.lock().unwrap().incr()) }
    pub fn join() { let j = std::mem::take(&mut *JOBS.lock().unwrap()); for x in j { x.join().unwrap() } }
    pub fn seen() -> Vec<i64> { std::mem::take(&mut *SEEN.lock().unwrap()) }
}
foreign_class!(class Work {
    fn Work::am(x: Arc<Mutex<Am>>, n: u32);
    fn Work::sh(x: Arc<Sh>, n: u32);
    fn Work::am_ref(x: &Arc<Mutex<Am>>, n: u32);
    fn Work::join();
    fn Work::seen() -> Vec<i64>;
});
'''


def glue():
    o = [HEAD]
    clone = 'impl Clone for @K@ { fn clone(&self) -> @K@ { @K@::plain(self.get()) } }'
    for k, tpl, s, w, c, regs in [
            ('Foo', MUT, 'Foo', 'Foo::plain(v)', True, COPIED),
            ('Bx', CONST, 'Box<Bx>', 'Box::new(Bx::plain(v))', True, COPIED),
            ('Mx', MUT, 'Mutex<Mx>', 'Mutex::new(Mx::plain(v))', False, OWNED),
            ('Am', MUT, 'Arc<Mutex<Am>>', 'Arc::new(Mutex::new(Am::plain(v)))', False, SHARED),
            ('Sh', CONST, 'Arc<Sh>', 'Arc::new(Sh::plain(v))', False, SHARED)]:
        for t in (tpl, regs):
            o.append(t.replace('@W@', w).replace('@C@', clone if c else '').replace('@D@', '#[derive(Clone)]' if c else '').replace('@S@', s).replace('@K@', k))
    o.append(THREADS)
    return '\n'.join(o)
