// Exported types used by the Python harnesses.
use crate::vh::{self, Canon, Gen, Rng, Ticket, Touch};
#[allow(unused_imports)]
use std::sync::{Arc, Mutex};

/// Stored in a Mutex, copied when passed by value.
pub struct Foo { x: i64, name: String, t: Ticket }
impl Foo {
    pub fn new(x: i64, name: &str) -> Foo { Foo { x, name: name.into(), t: Ticket::new("Foo") } }
    pub fn x(&self) -> i64 { self.x }
    pub fn name(&self) -> String { self.name.clone() }
    pub fn ticket(&self) -> u64 { self.t.0 }
    pub fn set(&mut self, x: i64, name: &str) { self.x = x; self.name = name.into(); }
}
impl Clone for Foo { fn clone(&self) -> Foo { Foo::new(self.x, &self.name) } }
impl Gen for Foo { fn gen(r: &mut Rng) -> Foo { Foo::new(i64::gen(r), &String::gen(r)) } }
impl Canon for Foo {
    fn canon(&self, o: &mut String) { o.push_str("Foo{"); self.x.canon(o); o.push(':'); self.name.canon(o); o.push('}'); }
}
impl Touch for Foo {
    fn touch(&mut self, r: &mut Rng) { if r.below(2) == 0 { self.x = i64::gen(r) } else { self.name = String::gen(r) } }
}
foreign_class!(#[derive(Clone)] class Foo {
    self_type Foo;
    constructor Foo::new(x: i64, name: &str) -> Foo;
    fn Foo::x(&self) -> i64;
    fn Foo::name(&self) -> String;
    fn Foo::ticket(&self) -> u64;
    fn Foo::set(&mut self, x: i64, name: &str);
});

/// Stored in a Box: Python cannot change it.
pub struct Bx { v: u32, t: Ticket }
impl Bx {
    pub fn new(v: u32) -> Box<Bx> { Box::new(Bx { v, t: Ticket::new("Bx") }) }
    pub fn v(&self) -> u32 { self.v }
    pub fn ticket(&self) -> u64 { self.t.0 }
}
impl Clone for Bx { fn clone(&self) -> Bx { *Bx::new(self.v) } }
impl Gen for Bx { fn gen(r: &mut Rng) -> Bx { *Bx::new(u32::gen(r)) } }
impl Gen for Box<Bx> { fn gen(r: &mut Rng) -> Box<Bx> { Bx::new(u32::gen(r)) } }
impl Canon for Bx { fn canon(&self, o: &mut String) { o.push_str("Bx{"); self.v.canon(o); o.push('}'); } }
foreign_class!(#[derive(Clone)] class Bx {
    self_type Bx;
    constructor Bx::new(v: u32) -> Box<Bx>;
    fn Bx::v(&self) -> u32;
    fn Bx::ticket(&self) -> u64;
});

/// In a Mutex that Rust made.
pub struct Mx { v: i16, t: Ticket }
impl Mx {
    pub fn new(v: i16) -> Mutex<Mx> { Mutex::new(Mx { v, t: Ticket::new("Mx") }) }
    pub fn v(&self) -> i16 { self.v }
    pub fn ticket(&self) -> u64 { self.t.0 }
}
impl Gen for Mx { fn gen(r: &mut Rng) -> Mx { Mx { v: i16::gen(r), t: Ticket::new("Mx") } } }
impl Gen for Mutex<Mx> { fn gen(r: &mut Rng) -> Mutex<Mx> { Mutex::new(Mx::gen(r)) } }
impl Canon for Mx { fn canon(&self, o: &mut String) { o.push_str("Mx{"); self.v.canon(o); o.push('}'); } }
impl Canon for Mutex<Mx> { fn canon(&self, o: &mut String) { self.lock().unwrap().canon(o) } }
impl Touch for Mx { fn touch(&mut self, r: &mut Rng) { self.v = i16::gen(r) } }
foreign_class!(class Mx {
    self_type Mx;
    constructor Mx::new(v: i16) -> Mutex<Mx>;
    fn Mx::v(&self) -> i16;
    fn Mx::ticket(&self) -> u64;
});

/// Shared, never changed.
pub struct Sh { v: i32, t: Ticket }
impl Sh {
    pub fn new(v: i32) -> Arc<Sh> { Arc::new(Sh { v, t: Ticket::new("Sh") }) }
    pub fn v(&self) -> i32 { self.v }
    pub fn ticket(&self) -> u64 { self.t.0 }
    pub fn same(&self, o: &Sh) -> bool { self as *const Sh == o as *const Sh }
}
impl Gen for Arc<Sh> { fn gen(r: &mut Rng) -> Self { Sh::new(i32::gen(r)) } }
impl Canon for Sh { fn canon(&self, o: &mut String) { o.push_str("Sh{"); self.v.canon(o); o.push('}'); } }
impl Canon for Arc<Sh> { fn canon(&self, o: &mut String) { (**self).canon(o) } }
foreign_class!(class Sh {
    self_type Sh;
    constructor Sh::new(v: i32) -> Arc<Sh>;
    fn Sh::v(&self) -> i32;
    fn Sh::ticket(&self) -> u64;
    fn Sh::same(&self, o: &Sh) -> bool;
});

/// Shared between threads.
pub struct Am_ { v: u32, s: String, t: Ticket }
impl Am_ {
    pub fn new(v: u32, s: &str) -> Arc<Mutex<Am_>> { Arc::new(Mutex::new(Am_ { v, s: s.into(), t: Ticket::new("Am_") })) }
    pub fn v(&self) -> u32 { self.v }
    pub fn s(&self) -> String { self.s.clone() }
    pub fn ticket(&self) -> u64 { self.t.0 }
    pub fn incr(&mut self) -> u32 { self.v = self.v.wrapping_add(1); self.v }
}
impl Gen for Arc<Mutex<Am_>> { fn gen(r: &mut Rng) -> Self { Am_::new(u32::gen(r), &String::gen(r)) } }
impl Canon for Am_ {
    fn canon(&self, o: &mut String) { o.push_str("Am_{"); self.v.canon(o); o.push(':'); self.s.canon(o); o.push('}'); }
}
impl Canon for Arc<Mutex<Am_>> { fn canon(&self, o: &mut String) { self.lock().unwrap().canon(o) } }
impl Touch for Am_ { fn touch(&mut self, r: &mut Rng) { if r.below(2) == 0 { self.v = u32::gen(r) } else { self.s = String::gen(r) } } }
foreign_class!(class Am_ {
    self_type Am_;
    constructor Am_::new(v: u32, s: &str) -> Arc<Mutex<Am_>>;
    fn Am_::v(&self) -> u32;
    fn Am_::s(&self) -> String;
    fn Am_::ticket(&self) -> u64;
    fn Am_::incr(&mut self) -> u32;
});

/// References to objects come out as copies, or as other handles of the same object.
impl Gen for &'static Foo { fn gen(r: &mut Rng) -> Self { vh::pool(Foo::gen(r)) } }
impl Gen for &'static Bx { fn gen(r: &mut Rng) -> Self { vh::pool(Bx::gen(r)) } }
impl Gen for &'static Arc<Sh> { fn gen(r: &mut Rng) -> Self { vh::pool(<Arc<Sh>>::gen(r)) } }
impl Gen for &'static Arc<Mutex<Am_>> { fn gen(r: &mut Rng) -> Self { vh::pool(<Arc<Mutex<Am_>>>::gen(r)) } }
impl Gen for &'static String { fn gen(r: &mut Rng) -> Self { vh::pool(String::gen(r)) } }
impl Gen for &'static i32 { fn gen(r: &mut Rng) -> Self { vh::pool(i32::gen(r)) } }
impl Gen for &'static Vec<u16> { fn gen(r: &mut Rng) -> Self { vh::pool(<Vec<u16>>::gen(r)) } }
impl Gen for &'static Option<String> { fn gen(r: &mut Rng) -> Self { vh::pool(<Option<String>>::gen(r)) } }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Color { Red = 7, Green = 2, Blue = 100, Ultra = -5, Infra = 0 }
pub const COLORS: [Color; 5] = [Color::Red, Color::Green, Color::Blue, Color::Ultra, Color::Infra];
foreign_enum!(enum Color {
    GREEN = Color::Green,
    INFRA = Color::Infra,
    BLUE = Color::Blue,
    RED = Color::Red,
    ULTRA = Color::Ultra,
});
impl Gen for Color { fn gen(r: &mut Rng) -> Color { COLORS[r.below(5) as usize] } }
impl Canon for Color {
    fn canon(&self, o: &mut String) {
        o.push_str(match self {
            Color::Red => "#RED", Color::Green => "#GREEN", Color::Blue => "#BLUE",
            Color::Ultra => "#ULTRA", Color::Infra => "#INFRA",
        })
    }
}
#[derive(Debug)]
pub struct VErr { msg: String, src: Option<Box<VErr>> }
impl std::fmt::Display for VErr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.msg) } }
impl std::error::Error for VErr {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.src.as_ref().map(|x| &**x as &(dyn std::error::Error + 'static)) }
}
impl VErr {
    pub fn new(msg: &str) -> VErr { VErr { msg: msg.into(), src: None } }
    fn text(&self) -> String { match &self.src { None => self.msg.clone(), Some(x) => format!("{}\nCaused by:\n{}", self.msg, x.text()) } }
}
impl Gen for VErr {
    fn gen(r: &mut Rng) -> VErr { VErr { msg: String::gen(r), src: if r.below(4) == 0 { Some(Box::new(VErr::gen(r))) } else { None } } }
}
impl Canon for VErr { fn canon(&self, o: &mut String) { self.text().canon(o) } }
