// Exported types used by the Java harnesses.
use crate::vh::{self, Canon, Gen, Rng, Ticket, Touch};
#[allow(unused_imports)]
use std::{cell::{Ref, RefCell, RefMut}, path::Path, rc::Rc, sync::{Arc, Mutex, MutexGuard}, time::SystemTime};

pub struct Foo { x: i64, name: String, t: Ticket }
impl Foo {
    pub fn new(x: i64, name: &str) -> Foo { Foo { x, name: name.into(), t: Ticket::new("Foo") } }
}
impl Clone for Foo { fn clone(&self) -> Foo { Foo::new(self.x, &self.name) } }
impl Gen for Foo { fn gen(r: &mut Rng) -> Foo { Foo::new(i64::gen(r), &String::gen(r)) } }
impl Canon for Foo {
    fn canon(&self, o: &mut String) { o.push_str("Foo{"); self.x.canon(o); o.push(':'); self.name.canon(o); o.push('}'); }
}
impl Touch for Foo {
    fn touch(&mut self, r: &mut Rng) { if r.below(2) == 0 { self.x = i64::gen(r) } else { self.name = String::gen(r) } }
}
foreign_class!(#[derive(Clone)] class Foo {
    self_type Foo;
    constructor Foo::new(x: i64, name: &str) -> Foo;
    fn x(&self) -> i64 { this.x }
    fn name(&self) -> &str { &this.name }
    fn ticket(&self) -> i64 { this.t.0 as i64 }
    fn set(&mut self, x: i64, name: &str) { this.x = x; this.name = name.into(); }
    fn Foo::clone(&self) -> Foo;
});

/// Shared on one thread.
pub struct Sh { v: i32, t: Ticket }
impl Sh { pub fn new(v: i32) -> Rc<RefCell<Sh>> { Rc::new(RefCell::new(Sh { v, t: Ticket::new("Sh") })) } }
impl Gen for Rc<RefCell<Sh>> { fn gen(r: &mut Rng) -> Self { Sh::new(i32::gen(r)) } }
impl Canon for Sh { fn canon(&self, o: &mut String) { o.push_str("Sh{"); self.v.canon(o); o.push('}'); } }
impl Canon for Rc<RefCell<Sh>> { fn canon(&self, o: &mut String) { self.borrow().canon(o) } }
impl Touch for Sh { fn touch(&mut self, r: &mut Rng) { self.v = i32::gen(r) } }
foreign_class!(class Sh {
    self_type Sh;
    constructor Sh::new(v: i32) -> Rc<RefCell<Sh>>;
    fn v(&self) -> i32 { this.v }
    fn ticket(&self) -> i64 { this.t.0 as i64 }
    fn same(&self, o: &Sh) -> bool { this as *const Sh == o as *const Sh }
});

/// Shared between threads.
pub struct Am_ { v: u32, s: String, t: Ticket }
impl Am_ { pub fn new(v: u32, s: &str) -> Arc<Mutex<Am_>> { Arc::new(Mutex::new(Am_ { v, s: s.into(), t: Ticket::new("Am_") })) } }
impl Gen for Arc<Mutex<Am_>> { fn gen(r: &mut Rng) -> Self { Am_::new(u32::gen(r), &String::gen(r)) } }
impl Canon for Am_ {
    fn canon(&self, o: &mut String) { o.push_str("Am_{"); self.v.canon(o); o.push(':'); self.s.canon(o); o.push('}'); }
}
impl Canon for Arc<Mutex<Am_>> { fn canon(&self, o: &mut String) { self.lock().unwrap().canon(o) } }
impl Touch for Am_ { fn touch(&mut self, r: &mut Rng) { if r.below(2) == 0 { self.v = u32::gen(r) } else { self.s = String::gen(r) } } }
foreign_class!(class Am_ {
    self_type Am_;
    constructor Am_::new(v: u32, s: &str) -> Arc<Mutex<Am_>>;
    fn v(&self) -> u32 { this.v }
    fn s(&self) -> &str { &this.s }
    fn ticket(&self) -> i64 { this.t.0 as i64 }
    fn incr(&mut self) -> u32 { this.v = this.v.wrapping_add(1); this.v }
});

#[derive(Clone, Copy, PartialEq, Debug)]
// (discriminants and order differ from the exported ones)
pub enum Color { Red = 7, Green = 2, Blue = 100, Ultra = -5, Infra = 0 }
pub const COLORS: [Color; 5] = [Color::Red, Color::Green, Color::Blue, Color::Ultra, Color::Infra];
foreign_enum!(enum Color {
    GREEN = Color::Green,
    INFRA = Color::Infra,
    BLUE = Color::Blue,
    RED = Color::Red,
    ULTRA = Color::Ultra,
});
impl Gen for Color { fn gen(r: &mut Rng) -> Color { COLORS[r.below(5) as usize] } }
impl Canon for Color {
    fn canon(&self, o: &mut String) {
        o.push_str(match self {
            Color::Red => "#RED", Color::Green => "#GREEN", Color::Blue => "#BLUE",
            Color::Ultra => "#ULTRA", Color::Infra => "#INFRA",
        })
    }
}
impl Gen for SystemTime {
    fn gen(r: &mut Rng) -> SystemTime {
        let ms = match r.below(4) { 0 => 0, 1 => r.below(3), 2 => r.below(1 << 32), _ => r.below(1 << 47) };
        SystemTime::UNIX_EPOCH + std::time::Duration::from_millis(ms)
    }
}
impl Canon for SystemTime {
    fn canon(&self, o: &mut String) {
        o.push_str(&format!("t{}", self.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_millis()));
    }
}
