"""Random ordinary Rust items, each with a unique name and a function chk_<n>() -> u64."""
import random


def expr(r, d=0):
    """A random u64 expression over x (wrapping arithmetic, every operator family)."""
    k = r.randrange(16 if d < 3 else 4)
    if k == 0:
        return 'x'
    if k == 1:
        return r.choice(['0x%Xu64' % r.randrange(1 << 30), '0b%su64' % bin(r.randrange(256))[2:], '0o%ou64' % r.randrange(999), '1_0%d_0u64' % r.randrange(9),
                         '%du64' % r.randrange(1000)])
    if k == 2:
        return r.choice(["b'a' as u64", "'\\u{1F600}' as u64", "'\\'' as u64", "b'\\\\' as u64", "'\"' as u64", 'u8::MAX as u64'])
    if k == 3:
        return r.choice(['"a\\"b\\n".len() as u64', 'r#"raw "quoted" \\ text"#.len() as u64', 'b"bytes\\x00\\xff".len() as u64', 'br##"x"# y"##.len() as u64',
                         '"multi\nline".len() as u64', '"with // no comment /* here */".len() as u64', '"tab\\\n   cont".len() as u64', '(1.5e3_f64 as u64)', '(2.0f32 as u64)', '(7. as u64)'])
    a, b = expr(r, d + 1), expr(r, d + 1)
    if k == 4:
        return '(%s).wrapping_add(%s)' % (a, b)
    if k == 5:
        return '((%s) ^ (%s) & !(%s) | (%s))' % (a, b, a, expr(r, d + 1))
    if k == 6:
        return '((%s) >> ((%s) %% 7) << 2)' % (a, b)
    if k == 7:
        return 'if %s < %s && !(x == 3) || x != 9 { %s } else { %s }' % (p(a), p(b), a, b)
    if k == 8:
        return 'match %s %% 5 { 0 | 1 => %s, 2..=3 => { %s } n if n > 3 => n, _ => 0 }' % (p(a), a, b)
    if k == 9:
        return '(|y: u64| -> u64 { y ^ %s })(%s)' % (p(a), b)
    if k == 10:
        return '{ let mut v = %s; v ^= 1; v |= 2; v &= 0xff; v <<= 1; v >>= 1; v }' % a
    if k == 11:
        return '[%s, %s, %s].iter().fold(0u64, |a, &b| a.wrapping_mul(31).wrapping_add(b))' % (a, b, a)
    if k == 12:
        return '{ let (a, ref _b) = (%s, &%s); *&a }' % (a, p(b))
    if k == 13:
        return '(0..%s %% 4).map(|i| i * 2).sum::<u64>()' % p(a)
    if k == 14:
        return '{ let mut n = 0u64; \'out: loop { while n < 5 { n += 1; if n == 3 { break \'out; } } } n + %s %% 9 }' % p(a)
    return '{ let Some(q) = Some(%s) else { return 0 }; q }' % a


def p(e):
    return '(%s)' % e


class Item:
    def __init__(self, n, text, kind):
        self.n, self.text, self.kind = n, text, kind


def deck(r):
    """Every kind of item with every kind of prefix, in random order, again and again."""
    while True:
        d = [(k, a) for k in range(31) for a in range(9)]
        r.shuffle(d)
        yield from d


def item(r, n, pick=None):
    pick = pick or (r.randrange(31), r.randrange(9))
    e = expr(r)
    f = 'pub fn chk_%d() -> u64 { let x: u64 = %d; ' % (n, r.randrange(100))
    N = 'Pt%d' % n
    k = pick[0]
    doc = ['', '/// doc of %s with "quotes" and \\ backslash\n' % N, '/** block doc %s\n * more */\n' % N, '#[doc = "attr %s"]\n' % N,
                    '// plain comment foreign_class!(class X {})\n', '/* plain /* nested */ */ ', '#[allow(dead_code)]\n', '#[cfg(all(unix, not(windows)))]\n',
                    '#[cfg_attr(all(), allow(unused))] '][pick[1]]
    T = {
        0: ('fn', f + e + ' }'),
        1: ('generic fn', 'pub fn g_%d<\'a, T: Clone + \'a, const K: usize>(v: &\'a [T; K], _f: impl Fn(T) -> u64) -> Vec<Vec<T>> where T: Into<u64>, for<\'b> &\'b T: Sized { vec![v.to_vec(), v.to_vec()] }\n' % n
            + f + 'let v = g_%d(&[x, 2, 3], |y| y); let s: u64 = v.iter().flatten().cloned().fold(0, |a, b| a ^ b); s.wrapping_add(%s) }' % (n, e)),
        2: ('struct', '#[derive(Debug, Clone, PartialEq, Default)]\n#[repr(C)]\npub struct %s<T = u64, const Q: usize = 2> where T: Copy { pub(crate) a: T, /// field doc\n pub b: Vec<Option<Box<T>>>, pub(in crate) c: (T, [u8; 3]), d: [u8; Q] }\n' % N + f + e + ' }'),
        3: ('enum', '#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]\n#[repr(u16)]\npub enum %s { A = 1, /** vdoc */ B = 1 << 4, #[allow(unused)] C }\n' % N + f + '%s::C as u64 ^ (%s) }' % (N, e)),
        4: ('mod', 'pub mod m_%d {\n    //! inner doc\n    use super::*;\n    pub(super) const Z: u64 = 3;\n    pub mod inner { pub fn q(x: u64) -> u64 { super::Z ^ x } }\n    %s %s }\n}\npub fn chk2_%d() -> u64 { m_%d::inner::q(1) }\npub use m_%d::chk_%d;' % (n, f, e, n, n, n, n)),
        5: ('macro_rules', '#[macro_export]\nmacro_rules! mr_%d {\n    () => { 0u64 };\n    ($a:expr $(, $b:expr)* $(,)?) => { $a $(+ $b)* };\n    (@ $($t:tt)*) => { [$(stringify!($t).len()),*].len() as u64 };\n}\n' % n
            + f + 'mr_%d!(x, 2, 3,) + mr_%d!() + mr_%d!(@ foreign_class!(class X { })) ^ (%s) }' % (n, n, n, e)),
        6: ('trait', 'pub trait Tr%d: Send { type Out: Copy; const K: u64 = 4; fn go(&self, x: u64) -> u64 where Self: Sized { x + Self::K } fn req(&mut self) -> Self::Out; }\nimpl Tr%d for u8 { type Out = u64; fn req(&mut self) -> u64 { *self += 1; *self as u64 } }\n' % (n, n)
            + f + 'let mut q = 3u8; <u8 as Tr%d>::req(&mut q) + Tr%d::go(&q, 5) ^ (%s) }' % (n, n, e)),
        7: ('impl', 'pub struct %s(pub u64, f32);\nimpl %s { pub const W: u64 = 1; #[inline(always)] pub fn new(x: u64) -> Self { Self(x, -1.0e-3) } pub unsafe fn raw(self: &Box<Self>) -> *const u64 { &self.0 as *const u64 } }\nimpl std::ops::Add<u64> for %s { type Output = u64; fn add(self, o: u64) -> u64 { self.0.wrapping_add(o) } }\nimpl Drop for %s { fn drop(&mut self) {} }\n' % (N, N, N, N)
            + f + 'let b = Box::new(%s::new(x)); let r = unsafe { *b.raw() }; r ^ (%s) }' % (N, e)),
        8: ('const', 'pub const K_%d: &[(&str, u64)] = &[("a", 1), (r"b\\n", 2 << 3), ("c\\u{e9}", !0 >> 5)];\n' % n + f + 'K_%d.iter().map(|&(s, v)| s.len() as u64 ^ v).sum::<u64>().wrapping_add(%s) }' % (n, e)),
        9: ('static', 'pub static mut S_%d: u64 = 5;\npub static A_%d: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x1_F);\n' % (n, n) + f + 'A_%d.load(std::sync::atomic::Ordering::SeqCst) ^ (%s) }' % (n, e)),
        10: ('type', 'pub type Ty%d<\'a, T> = Result<std::collections::BTreeMap<&\'a str, Vec<Vec<T>>>, Box<dyn std::error::Error + Send + \'a>>;\n' % n + f + 'let t: Ty%d<u8> = Ok(Default::default()); t.unwrap().len() as u64 ^ (%s) }' % (n, e)),
        11: ('use', 'use std::{collections::{BTreeMap as Bt%d, *}, fmt::{self as fmt%d, Write as _}};\n' % (n, n) + f + 'let m: Bt%d<u8, fmt%d::Error> = Bt%d::new(); m.len() as u64 + (%s) %% 1000 }' % (n, n, n, e)),
        12: ('extern block', 'extern "C" { #[link_name = "strlen"] fn strlen_%d(s: *const std::os::raw::c_char) -> usize; }\npub extern "C" fn cf_%d(a: u8, f: Option<unsafe extern "C" fn(i32, ...) -> i32>) -> u8 { if f.is_none() { a } else { 0 } }\n' % (n, n)
             + f + 'unsafe { strlen_%d(b"abc\\0".as_ptr() as *const _) as u64 ^ cf_%d(1, None) as u64 ^ (%s) } }' % (n, n, e)),
        13: ('union', '#[derive(Clone, Copy)] pub union %s { pub a: u32, pub b: [u8; 4] }\n' % N + f + 'let u = %s { a: 0x01020304 }; unsafe { u.b[0] as u64 ^ (%s) } }' % (N, e)),
        14: ('macro item', 'thread_local!(static TL_%d: std::cell::Cell<u64> = const { std::cell::Cell::new(7) });\n' % n + f + 'TL_%d.with(|c| { c.set(c.get() + x); c.get() }) ^ (%s) }' % (n, e)),
        15: ('async fn', 'pub async fn as_%d<T>(t: T) -> T { let y = async move { t }; y.await }\n' % n + f + 'let _f = as_%d(1u8); %s }' % (n, e)),
        16: ('raw idents', 'pub fn r#match_%d(r#type: u64) -> u64 { let r#fn = r#type; r#fn ^ 1 }\npub mod r#mod%d { pub const r#async: u64 = 3; }\n' % (n, n) + f + 'match_%d(x) + r#mod%d::r#async ^ (%s) }' % (n, n, e)),
        17: ('const generics', 'pub struct Ar%d<const A: usize, const B: bool>([u64; A]);\nimpl<const A: usize> Ar%d<A, { 1 < 2 }> { pub fn s(&self) -> u64 { self.0.iter().sum() } }\n' % (n, n) + f + 'Ar%d::<{ 1 + 2 }, true>([x; 3]).s() ^ (%s) }' % (n, e)),
        18: ('nested macros', f + 'let v = vec![vec![x; 2], vec![1, 2, 3,]]; println_%d!(v); assert!(matches!(v.len(), 1..=2 if true), "{:?} {}", v, "a,b"); let s = format!("{0:>1$} {{}} {name}", x, 5, name = %s); s.len() as u64 }' % (n, p(e))),
        19: ('patterns', f + 'let t = (x, [1u64, 2, 3, 4], Some(&x)); let r = match t { (a @ 0..=50, [f, .., l], Some(&q)) if a >= q => f + l, (_, [_, rest @ ..], Some(_) | None) => rest.len() as u64 }; r ^ (%s) }' % e),
        20: ('dyn', 'pub fn dy_%d(f: &mut (dyn FnMut(&str) -> Result<u64, ()> + Send), g: Option<&dyn std::any::Any>) -> u64 { let _ = g; f("q").unwrap_or_default() }\n' % n + f + 'dy_%d(&mut |s| Ok::<u64, ()>(s.len() as u64), None) ^ (%s) }' % (n, e)),
        21: ('labels and ranges', f + 'let mut acc = 0u64; for (i, j) in (0..4).zip((1..=8).rev().step_by(2)) { if i == 2 { continue } acc = acc.wrapping_mul(3) + i * j; } let a = [1, 2, 3, 4]; acc + a[..2].len() as u64 + a[1..=2].len() as u64 + a[..].len() as u64 ^ (%s) }' % e),
        22: ('closures', f + 'let c = move |a: u64, (b, _): (u64, u8)| a.wrapping_sub(b); let d = || { c(x, (2, 0)) }; let z = &&x; d() ^ **z ^ (%s) }' % e),
        23: ('turbofish', f + '"1,2,3".split(\',\').map(str::parse::<u64>).collect::<Result<Vec<_>, _>>().unwrap().into_iter().max().unwrap() + <u64 as Default>::default() + <[u64]>::len(&[1]) as u64 ^ (%s) }' % e),
        24: ('struct update', '#[derive(Clone, Default)] pub struct %s { pub a: u64, pub r#b: i8, c: () }\n' % N + f + 'let d = %s { a: x, ..Default::default() }; let %s { a, .. } = d.clone(); a ^ d.b as u64 ^ (%s) }' % (N, N, e)),
        25: ('question mark', f + 'fn t(x: u64) -> Option<u64> { let y = x.checked_add(1)?; Some(y.checked_mul(2)?) } t(x).map_or(0, |v| v) ^ (%s) }' % e),
        26: ('casts and unary', f + 'let a = -5i64 as u64 as u8 as u64; let b = !a & 0xff; let c = -(-3i32); (a ^ b) + c as u64 + (x as f64 * -1.5).abs() as u64 ^ (%s) }' % e),
        27: ('inner attributes', f.replace('{ let x', '{ #![allow(unused_mut)] let mut x', 1) + '#[allow(unused)] let q = 1; %s }' % e),
        28: ('cfg items', '#[cfg(not(all()))]\ncompile_error!("not reached %d");\n#[cfg(all())]\n' % n + f + e + ' }'),
        29: ('impl trait for', 'pub struct It%d(u64);\nimpl<\'q> Iterator for &\'q mut It%d { type Item = u64; fn next(&mut self) -> Option<<Self as Iterator>::Item> { self.0 = self.0.checked_sub(1)?; Some(self.0) } }\nimpl From<It%d> for u64 { fn from(i: It%d) -> Self { i.0 } }\n' % (n, n, n, n)
             + f + '(&mut It%d(5)).sum::<u64>() + u64::from(It%d(x)) ^ (%s) }' % (n, n, e)),
        30: ('own macros', 'macro_rules! foreign_klass_%d { (class $n:ident { $k:ident $t:ty; }) => { pub struct $n(pub $t); }; ([$($n:ident),*]) => { $(pub const $n: u64 = 3;)* }; }\n'
             'foreign_klass_%d! { class %s { self_type u64; } }\nforeign_klass_%d!([KA_%d, KB_%d]);\nstd::thread_local! { static TM_%d: u8 = 5 }\n' % (n, n, N, n, n, n, n)
             + f + 'TM_%d.with(|q| *q as u64) + KA_%d ^ KB_%d + %s(5).0 ^ (%s) }' % (n, n, n, N, e)),
    }
    kind, text = T[k]
    if k == 18:
        text = 'macro_rules! println_%d { ($e:expr) => { let _ = &$e; } }\n' % n + text
    if k == 2:
        text = text.replace('PartialEq, Default', 'PartialEq')
    return Item(n, doc + text, kind)
