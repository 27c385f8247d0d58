// Runtime of the instrumented Rust side, shared by the C++, Java and Python harnesses:
// event log, seeded generator of values, canonical form of values, drop ledger.
// Included as `mod vh` beside the glue that flapigen produced.
use std::{
    cell::RefCell,
    collections::BTreeMap,
    fmt::Write as _,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

// ---------------------------------------------------------------- event log
static LOG: Mutex<Vec<u8>> = Mutex::new(Vec::new());

pub use crate::valloc::quiet;
pub fn log(s: &str) {
    quiet(|| log_(s))
}
thread_local!(static TAG: std::cell::Cell<u32> = std::cell::Cell::new(0));
/// Lines of a tagged thread start with its number; its values have a seed of their own.
pub fn set_tag(t: u32) {
    TAG.with(|x| x.set(t));
    let s = SEED.load(Ordering::SeqCst).wrapping_mul(0x9E37_79B9).wrapping_add(t as u64 * 7919);
    RNG.with(|r| *r.borrow_mut() = Rng(s));
}
pub fn tag() -> u32 { TAG.with(|x| x.get()) }
fn log_(s: &str) {
    let mut l = LOG.lock().unwrap_or_else(|e| e.into_inner());
    let t = TAG.with(|x| x.get());
    if t != 0 { l.extend_from_slice(format!("T{} ", t).as_bytes()); }
    l.extend_from_slice(s.as_bytes());
    l.push(b'\n');
    if l.len() > 1 << 16 {
        flush_locked(&mut l);
    }
}
fn flush_locked(l: &mut Vec<u8>) {
    use std::io::Write;
    if let Ok(p) = std::env::var("VH_LOG") {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
            let _ = f.write_all(l);
        }
    }
    l.clear();
}
pub fn flush() {
    flush_locked(&mut LOG.lock().unwrap_or_else(|e| e.into_inner()));
}

// ---------------------------------------------------------------- seeded values
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
static SEED: AtomicU64 = AtomicU64::new(1);
static SIZE: AtomicU64 = AtomicU64::new(6);
pub fn set_seed(s: u64) {
    SEED.store(s, Ordering::SeqCst);
    RNG.with(|r| *r.borrow_mut() = Rng(s));
}
pub fn set_size(s: u64) {
    SIZE.store(s, Ordering::SeqCst);
}
thread_local!(static RNG: RefCell<Rng> = RefCell::new(Rng(SEED.load(Ordering::SeqCst))));
pub fn with_rng<R>(f: impl FnOnce(&mut Rng) -> R) -> R {
    // the generator may be re-entered (callbacks), so work on a copy
    let mut r = RNG.with(|r| r.borrow().clone());
    let ret = f(&mut r);
    RNG.with(|x| *x.borrow_mut() = r);
    ret
}
fn len(r: &mut Rng) -> usize {
    if r.below(400) == 0 {
        return 60 + r.below(1100) as usize;
    }
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(300) as usize % (SIZE.load(Ordering::Relaxed) as usize * 8 + 1),
        _ => r.below(SIZE.load(Ordering::Relaxed) + 1) as usize,
    }
}

/// Java: no number above the range of `long`.
pub static LONG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub trait Gen {
    fn gen(r: &mut Rng) -> Self;
}
macro_rules! gen_int {
    ($($t:ty)*) => ($(impl Gen for $t { fn gen(r: &mut Rng) -> $t {
        let v = match r.below(8) {
            0 => <$t>::MIN,
            1 => <$t>::MAX,
            2 => (1 as $t).wrapping_shl(r.below(128) as u32),
            3 => (1 as $t).wrapping_shl(r.below(128) as u32).wrapping_sub(1),
            4 => (0 as $t).wrapping_sub(r.below(3) as $t),
            5 => r.below(4) as $t,
            _ => r.next() as $t,
        };
        if v as i128 > i64::MAX as i128 && LONG.load(Ordering::Relaxed) { v >> 1 } else { v }
    } })*)
}
gen_int!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
impl Gen for bool {
    fn gen(r: &mut Rng) -> bool {
        r.below(2) == 0
    }
}
impl Gen for f32 {
    fn gen(r: &mut Rng) -> f32 {
        match r.below(10) {
            0 => 0.0,
            1 => -0.0,
            2 => f32::INFINITY,
            3 => f32::NEG_INFINITY,
            4 => f32::NAN,
            5 => f32::MIN_POSITIVE / 2.0,
            6 => f32::MAX,
            7 => (r.next() as i32) as f32,
            _ => {
                let f = f32::from_bits(r.next() as u32);
                if f.is_nan() { 1.5 } else { f }
            }
        }
    }
}
impl Gen for f64 {
    fn gen(r: &mut Rng) -> f64 {
        match r.below(10) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::INFINITY,
            3 => f64::NEG_INFINITY,
            4 => f64::NAN,
            5 => f64::MIN_POSITIVE / 2.0,
            6 => f64::MAX,
            7 => (r.next() as i64) as f64,
            _ => {
                let f = f64::from_bits(r.next());
                if f.is_nan() { -2.5 } else { f }
            }
        }
    }
}
pub fn gen_char(r: &mut Rng) -> char {
    match r.below(8) {
        0 => '\0',
        1 => char::from_u32(r.below(0x80) as u32).unwrap(),
        2 => char::from_u32(0x80 + r.below(0x780) as u32).unwrap(),
        3 => char::from_u32(0x800 + r.below(0xD000) as u32).unwrap(),
        4 => char::from_u32(0xE000 + r.below(0x2000) as u32).unwrap(),
        5 => char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap(),
        _ => (b'a' + r.below(26) as u8) as char,
    }
}
impl Gen for String {
    fn gen(r: &mut Rng) -> String {
        let n = len(r);
        let mut s = String::new();
        for _ in 0..n {
            s.push(gen_char(r));
        }
        if r.below(3) == 0 {
            s.reserve(r.below(64) as usize);
        }
        s
    }
}
impl<T: Gen> Gen for Option<T> {
    fn gen(r: &mut Rng) -> Self {
        if r.below(3) == 0 { None } else { Some(T::gen(r)) }
    }
}
impl<T: Gen, E: Gen> Gen for Result<T, E> {
    fn gen(r: &mut Rng) -> Self {
        if r.below(3) == 0 { Err(E::gen(r)) } else { Ok(T::gen(r)) }
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn gen(r: &mut Rng) -> Self {
        let n = len(r);
        let mut v = Vec::new();
        if r.below(3) == 0 {
            v.reserve(r.below(40) as usize);
        }
        for _ in 0..n {
            v.push(T::gen(r));
        }
        v
    }
}
impl Gen for () {
    fn gen(_: &mut Rng) {}
}
impl<A: Gen> Gen for (A,) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r),)
    }
}
impl<A: Gen, B: Gen, C: Gen, D: Gen, E: Gen> Gen for (A, B, C, D, E) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r), D::gen(r), E::gen(r))
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r))
    }
}
impl<A: Gen, B: Gen, C: Gen, D: Gen> Gen for (A, B, C, D) {
    fn gen(r: &mut Rng) -> Self {
        (A::gen(r), B::gen(r), C::gen(r), D::gen(r))
    }
}

// References handed out by the Rust side point into this pool of the thread, which lives until `pool_clear`.
struct PoolItem(*mut u8, unsafe fn(*mut u8));
struct Pool(RefCell<Vec<PoolItem>>);
impl Drop for Pool {
    fn drop(&mut self) {
        for x in self.0.take() { unsafe { (x.1)(x.0) } }
    }
}
thread_local!(static POOL: Pool = const { Pool(RefCell::new(Vec::new())) });
pub fn pool<T: 'static>(x: T) -> &'static mut T {
    unsafe fn d<T>(p: *mut u8) {
        drop(unsafe { Box::from_raw(p as *mut T) });
    }
    let p = Box::into_raw(Box::new(x));
    POOL.with(|v| v.0.borrow_mut().push(PoolItem(p as *mut u8, d::<T>)));
    unsafe { &mut *p }
}
pub fn pool_clear() {
    let v: Vec<PoolItem> = POOL.with(|v| v.0.take());
    for x in v {
        unsafe { (x.1)(x.0) }
    }
}
impl Gen for &'static str {
    fn gen(r: &mut Rng) -> Self {
        pool(String::gen(r)).as_str()
    }
}
impl<T: Gen + 'static> Gen for &'static [T] {
    fn gen(r: &mut Rng) -> Self {
        pool(Vec::<T>::gen(r)).as_slice()
    }
}
impl<T: Gen + 'static> Gen for &'static mut [T] {
    fn gen(r: &mut Rng) -> Self {
        pool(Vec::<T>::gen(r)).as_mut_slice()
    }
}

// ---------------------------------------------------------------- canonical form
pub trait Canon {
    fn canon(&self, o: &mut String);
    /// Change through a mutable reference what the caller can see; true if the type allows it.
    fn mutate(&mut self, _r: &mut Rng) -> bool {
        false
    }
    /// Result<(), E> shows as Option<E> on the other side.
    fn is_unit() -> bool
    where
        Self: Sized,
    {
        false
    }
}
pub fn c<T: Canon + ?Sized>(x: &T) -> String {
    let mut s = String::new();
    x.canon(&mut s);
    s
}
macro_rules! canon_int {
    ($($t:ty)*) => ($(impl Canon for $t { fn canon(&self, o: &mut String) { write!(o, "{}", self).unwrap(); } })*)
}
canon_int!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize);
impl Canon for bool {
    fn canon(&self, o: &mut String) {
        o.push(if *self { 'T' } else { 'F' });
    }
}
impl Canon for f32 {
    fn canon(&self, o: &mut String) {
        if self.is_nan() { o.push_str("nan") } else { write!(o, "f{:08x}", self.to_bits()).unwrap() }
    }
}
impl Canon for f64 {
    fn canon(&self, o: &mut String) {
        if self.is_nan() { o.push_str("nan") } else { write!(o, "d{:016x}", self.to_bits()).unwrap() }
    }
}
impl Canon for str {
    fn canon(&self, o: &mut String) {
        o.push('"');
        for b in self.as_bytes() {
            write!(o, "{:02x}", b).unwrap();
        }
        o.push('"');
    }
}
impl Canon for String {
    fn canon(&self, o: &mut String) {
        self.as_str().canon(o)
    }
}
impl Canon for std::path::Path {
    fn canon(&self, o: &mut String) {
        self.to_str().expect("utf-8 path").canon(o)
    }
}
impl<T: Canon> Canon for Option<T> {
    fn canon(&self, o: &mut String) {
        match self {
            None => o.push('N'),
            Some(x) => {
                o.push_str("S(");
                x.canon(o);
                o.push(')');
            }
        }
    }
    fn mutate(&mut self, r: &mut Rng) -> bool {
        match self {
            None => false,
            Some(x) => x.mutate(r),
        }
    }
}
impl<T: Canon, E: Canon> Canon for Result<T, E> {
    fn canon(&self, o: &mut String) {
        match self {
            Ok(_) if T::is_unit() => {
                o.push('N');
                return;
            }
            Err(x) if T::is_unit() => {
                o.push_str("S(");
                x.canon(o)
            }
            Ok(x) => {
                o.push_str("O(");
                x.canon(o)
            }
            Err(x) => {
                o.push_str("E(");
                x.canon(o)
            }
        }
        o.push(')');
    }
}
impl<T: Canon> Canon for [T] {
    fn canon(&self, o: &mut String) {
        o.push('[');
        for (i, x) in self.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            x.canon(o);
        }
        o.push(']');
    }
}
impl<T: Canon> Canon for Vec<T> {
    fn canon(&self, o: &mut String) {
        self.as_slice().canon(o)
    }
}
impl<T: Canon + ?Sized> Canon for &T {
    fn canon(&self, o: &mut String) {
        (**self).canon(o)
    }
}
pub trait Touch {
    fn touch(&mut self, r: &mut Rng);
}
macro_rules! touch_prim {
    ($($t:ty)*) => ($(impl Touch for $t { fn touch(&mut self, r: &mut Rng) { *self = <$t>::gen(r); } })*)
}
touch_prim!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize f32 f64);
impl<T: Touch> Touch for [T] {
    fn touch(&mut self, r: &mut Rng) {
        let n = self.len() as u64;
        if n > 0 {
            for _ in 0..1 + r.below(3) {
                let i = r.below(n) as usize;
                self[i].touch(r);
            }
            let (a, b) = (r.below(n) as usize, r.below(n) as usize);
            self.swap(a, b);
        }
    }
}
impl<T: Canon + Touch + ?Sized> Canon for &mut T {
    fn canon(&self, o: &mut String) {
        (**self).canon(o)
    }
    fn mutate(&mut self, r: &mut Rng) -> bool {
        (**self).touch(r);
        true
    }
}
impl<T: Canon + ?Sized> Canon for Box<T> {
    fn canon(&self, o: &mut String) {
        (**self).canon(o)
    }
}
impl Canon for () {
    fn canon(&self, o: &mut String) {
        o.push_str("()")
    }
    fn is_unit() -> bool {
        true
    }
}
macro_rules! canon_tuple {
    ($($n:tt $t:ident),*) => (impl<$($t: Canon),*> Canon for ($($t,)*) { fn canon(&self, o: &mut String) {
        o.push('(');
        $(if $n > 0 { o.push(','); } self.$n.canon(o);)*
        o.push(')');
    } })
}
canon_tuple!(0 A, 1 B);
canon_tuple!(0 A, 1 B, 2 C);
canon_tuple!(0 A, 1 B, 2 C, 3 D);
canon_tuple!(0 A);
canon_tuple!(0 A, 1 B, 2 C, 3 D, 4 E);

// ---------------------------------------------------------------- call events
pub fn enter(id: u32, args: &[String]) {
    log(&format!("] {} {}", id, args.join(" ")));
}
pub fn mutate(args: &mut [&mut dyn Canon]) -> Vec<String> {
    let mut post = vec![];
    for a in args.iter_mut() {
        if with_rng(|r| a.mutate(r)) {
            let mut s = String::new();
            a.canon(&mut s);
            post.push(s);
        }
    }
    post
}
pub fn leave<R: Gen + Canon>(id: u32, post: Vec<String>) -> R {
    let r = with_rng(|r| R::gen(r));
    log(&format!("[ {} {} | {}", id, c(&r), post.join(" ")));
    r
}

// ---------------------------------------------------------------- drop ledger
#[derive(Default, Clone, Debug)]
pub struct Life {
    pub kind: &'static str,
    pub drops: u32,
}
static LEDGER: Mutex<BTreeMap<u64, Life>> = Mutex::new(BTreeMap::new());
static NEXT_ID: AtomicU64 = AtomicU64::new(1);
/// Unique identity of one Rust value: registered when made, counted when dropped.
#[derive(Debug)]
pub struct Ticket(pub u64);
impl Ticket {
    pub fn new(kind: &'static str) -> Ticket {
        let id = NEXT_ID.fetch_add(1, Ordering::SeqCst);
        quiet(|| LEDGER.lock().unwrap_or_else(|e| e.into_inner()).insert(id, Life { kind, drops: 0 }));
        Ticket(id)
    }
}
impl Drop for Ticket {
    fn drop(&mut self) {
        let mut l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
        match l.get_mut(&self.0) {
            Some(x) => {
                x.drops += 1;
                if x.drops > 1 {
                    let kind = x.kind;
                    drop(l);
                    log(&format!("! double-drop {} {}", kind, self.0));
                    flush();
                }
            }
            None => {
                drop(l);
                log(&format!("! drop-of-unknown {}", self.0));
                flush();
            }
        }
    }
}
pub fn alive() -> u64 {
    let l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    l.values().filter(|x| x.drops == 0).count() as u64
}
pub fn alive_kind(kind: &str) -> u64 {
    let l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    l.values().filter(|x| x.drops == 0 && x.kind == kind).count() as u64
}
pub fn drops_of(id: u64) -> u32 {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner()).get(&id).map(|x| x.drops).unwrap_or(u32::MAX)
}
pub fn born() -> u64 {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner()).len() as u64
}
pub fn over_dropped() -> u64 {
    let l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    l.values().filter(|x| x.drops > 1).count() as u64
}
/// What is alive, by kind.
pub fn alive_kinds() -> String {
    let l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    let mut m: BTreeMap<&str, u32> = BTreeMap::new();
    for x in l.values().filter(|x| x.drops == 0) {
        *m.entry(x.kind).or_default() += 1;
    }
    m.iter().map(|(k, n)| format!("{} {}", n, k)).collect::<Vec<_>>().join(", ")
}

/// Threads as programs make them: every second one has a name, and the stacks differ.
#[allow(dead_code)]
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    if n % 2 == 0 { return std::thread::spawn(f); }
    std::thread::Builder::new().name(format!("vt-{n}")).stack_size((1 + n % 3) << 20).spawn(f).expect("thread")
}
