// Exported types used by the C++ harnesses. `vh` is the monitoring runtime.
use crate::vh::{self, Canon, Gen, Rng, Ticket, Touch};
#[allow(unused_imports)]
use std::{
    cell::{Ref, RefCell, RefMut},
    path::Path,
    rc::Rc,
    sync::{Arc, Mutex, MutexGuard, RwLock},
};

pub struct Foo {
    x: i64,
    name: String,
    t: Ticket,
}
impl Foo {
    pub fn new(x: i64, name: &str) -> Foo {
        Foo { x, name: name.into(), t: Ticket::new("Foo") }
    }
}
impl Clone for Foo {
    fn clone(&self) -> Foo {
        Foo::new(self.x, &self.name)
    }
}
impl Gen for Foo {
    fn gen(r: &mut Rng) -> Foo {
        Foo::new(i64::gen(r), &String::gen(r))
    }
}
impl Canon for Foo {
    fn canon(&self, o: &mut String) {
        o.push_str("Foo{");
        self.x.canon(o);
        o.push(':');
        self.name.canon(o);
        o.push('}');
    }
}
impl Touch for Foo {
    fn touch(&mut self, r: &mut Rng) {
        if r.below(2) == 0 {
            self.x = i64::gen(r);
        } else {
            self.name = String::gen(r);
        }
    }
}
impl Gen for &'static Foo {
    fn gen(r: &mut Rng) -> Self {
        vh::pool(Foo::gen(r))
    }
}
impl Gen for &'static mut Foo {
    fn gen(r: &mut Rng) -> Self {
        vh::pool(Foo::gen(r))
    }
}

foreign_class!(class Foo {
    self_type Foo;
    constructor Foo::new(x: i64, name: &str) -> Foo;
    fn x(&self) -> i64 { this.x }
    fn name(&self) -> &str { &this.name }
    fn ticket(&self) -> u64 { this.t.0 }
    fn set(&mut self, x: i64, name: &str) { this.x = x; this.name = name.into(); }
    fn add(&mut self, d: i64) -> i64 { this.x = this.x.wrapping_add(d); this.x }
});

/// Over-aligned and larger than a cache line on purpose.
#[repr(align(16))]
pub struct Wide {
    a: [u64; 5],
    b: u8,
    t: Ticket,
}
impl Wide {
    pub fn new(s: u64, b: u8) -> Wide {
        Wide { a: [s, s ^ 1, s ^ 2, s ^ 3, s ^ 4], b, t: Ticket::new("Wide") }
    }
    fn ok(&self) -> bool {
        (0..5).all(|i| self.a[i] == self.a[0] ^ i as u64) && (self as *const Wide as usize) % 16 == 0
    }
}
impl Clone for Wide {
    fn clone(&self) -> Wide {
        Wide::new(self.a[0], self.b)
    }
}
impl Gen for Wide {
    fn gen(r: &mut Rng) -> Wide {
        Wide::new(u64::gen(r), u8::gen(r))
    }
}
impl Canon for Wide {
    fn canon(&self, o: &mut String) {
        assert!(self.ok());
        o.push_str("Wide{");
        self.a[0].canon(o);
        o.push(':');
        self.b.canon(o);
        o.push('}');
    }
}
impl Touch for Wide {
    fn touch(&mut self, r: &mut Rng) {
        self.b = u8::gen(r);
    }
}
impl Gen for &'static Wide {
    fn gen(r: &mut Rng) -> Self {
        vh::pool(Wide::gen(r))
    }
}
impl Gen for &'static mut Wide {
    fn gen(r: &mut Rng) -> Self {
        vh::pool(Wide::gen(r))
    }
}
foreign_class!(
#[derive(Copy)]
class Wide {
    self_type Wide;
    constructor Wide::new(s: u64, b: u8) -> Wide;
    fn s(&self) -> u64 { assert!(this.ok()); this.a[0] }
    fn b(&self) -> u8 { this.b }
    fn ticket(&self) -> u64 { this.t.0 }
    fn set_b(&mut self, b: u8) { this.b = b; }
    fn Wide::clone(&self) -> Wide;
});

/// One byte.
pub struct Tiny(u8);
impl Gen for Tiny {
    fn gen(r: &mut Rng) -> Tiny {
        Tiny(u8::gen(r))
    }
}
impl Canon for Tiny {
    fn canon(&self, o: &mut String) {
        o.push_str("Tiny{");
        self.0.canon(o);
        o.push('}');
    }
}
impl Touch for Tiny {
    fn touch(&mut self, r: &mut Rng) {
        self.0 = u8::gen(r);
    }
}
impl Gen for &'static Tiny {
    fn gen(r: &mut Rng) -> Self {
        vh::pool(Tiny::gen(r))
    }
}
foreign_class!(class Tiny {
    self_type Tiny;
    constructor new(x: u8) -> Tiny { Tiny(x) }
    fn v(&self) -> u8 { this.0 }
});

#[derive(Clone, Copy, PartialEq, Debug)]
// (discriminants and order differ from the exported ones)
pub enum Color {
    Red = 7,
    Green = 2,
    Blue = 100,
    Ultra = -5,
    Infra = 0,
}
pub const COLORS: [Color; 5] = [Color::Red, Color::Green, Color::Blue, Color::Ultra, Color::Infra];
foreign_enum!(enum Color {
    GREEN = Color::Green,
    INFRA = Color::Infra,
    BLUE = Color::Blue,
    RED = Color::Red,
    ULTRA = Color::Ultra,
});
impl Gen for Color {
    fn gen(r: &mut Rng) -> Color {
        COLORS[r.below(5) as usize]
    }
}
impl Canon for Color {
    fn canon(&self, o: &mut String) {
        o.push_str(match self {
            Color::Red => "#RED",
            Color::Green => "#GREEN",
            Color::Blue => "#BLUE",
            Color::Ultra => "#ULTRA",
            Color::Infra => "#INFRA",
        })
    }
}
