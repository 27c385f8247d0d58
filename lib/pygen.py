"""Random Python-exported interfaces: types with descriptions for the interpreting driver, classes and glue."""
import json

INT = dict(i8=(8, 1), u8=(8, 0), i16=(16, 1), u16=(16, 0), i32=(32, 1), u32=(32, 0), i64=(64, 1), u64=(64, 0),
           isize=(64, 1), usize=(64, 0))


class T:
    def __init__(self, rs, desc, impl=None):
        self.rs, self.desc, self.impl = rs, desc, impl or rs


def prim(x):
    if x in INT:
        b, s = INT[x]
        return T(x, ['int', -(1 << (b - 1)) if s else 0, (1 << (b - s)) - 1])
    return T(x, [{'bool': 'bool', 'f32': 'f32', 'f64': 'f64'}[x]])


PRIMS = list(INT) + ['bool', 'f32', 'f64']


def leaf_in(r):
    k = r.randrange(12)
    if k < 6:
        return prim(r.choice(PRIMS))
    if k < 8:
        return T('String', ['str'])
    if k == 8:
        return T('Color', ['enum'])
    return obj_in(r)


def obj_in(r):
    x, c = r.choice([('Foo', 'Foo'), ('Bx', 'Bx'), ('Arc<Sh>', 'Sh'), ('Arc<Mutex<Am_>>', 'Am_')])
    return T(x, ['obj', c])


def comp(r, d, leaf, noopt=False):
    """Vec and Option of things (an Option of an Option says nothing in Python)."""
    if d == 0:
        return leaf(r)
    if r.random() < 0.5 or noopt:
        t = comp(r, d - 1, leaf)
        return T('Vec<%s>' % t.rs, ['vec', t.desc], 'Vec<%s>' % t.impl)
    t = comp(r, d - 1, leaf, True) if d > 1 else leaf(r)
    return T('Option<%s>' % t.rs, ['opt', t.desc], 'Option<%s>' % t.impl)


def arg(r):
    """(type, whether it can be changed through a reference)"""
    k = r.randrange(20)
    if k < 5:
        return prim(r.choice(PRIMS)), False
    if k < 7:
        return r.choice([T('String', ['str']), T('&str', ['str'])]), False
    if k == 7:
        return T('Color', ['enum']), False
    if k < 10:
        return obj_in(r), False
    if k < 12:
        x, c = r.choice([('&Foo', 'Foo'), ('&Bx', 'Bx'), ('&Mx', 'Mx'), ('&Sh', 'Sh'), ('&Am_', 'Am_'), ('&Arc<Sh>', 'Sh'),
                         ('&Arc<Mutex<Am_>>', 'Am_'), ('&Mutex<Mx>', 'Mx')])
        return T(x, ['obj', c]), False
    if k < 14:
        x = r.choice(['Foo', 'Mx', 'Am_'])
        return T('&mut ' + x, ['obj', x]), True
    if k < 16:
        t = comp(r, r.choice([0, 0, 1]), leaf_in)
        return T('&[%s]' % t.rs, ['vec', t.desc]), False
    t = comp(r, r.choice([1, 1, 2, 3]), leaf_in)
    if r.random() < 0.2:
        return T('&' + t.rs, t.desc), False
    return t, False


def leaf_out(r):
    k = r.randrange(14)
    if k < 6:
        return prim(r.choice(PRIMS))
    if k == 6:
        return T('String', ['str'])
    if k == 7:
        return T('&String', ['str'], "&'static String")
    if k == 8:
        return T('Color', ['enum'])
    if k < 11:
        x, c = r.choice([('Foo', 'Foo'), ('Bx', 'Bx'), ('Box<Bx>', 'Bx'), ('Arc<Sh>', 'Sh'), ('Arc<Mutex<Am_>>', 'Am_'), ('Mx', 'Mx'), ('Mutex<Mx>', 'Mx')])
        return T(x, ['obj', c])
    if k == 11:
        x, c = r.choice([('&Foo', 'Foo'), ('&Bx', 'Bx'), ('&Arc<Sh>', 'Sh'), ('&Arc<Mutex<Am_>>', 'Am_')])
        return T(x, ['obj', c], "&'static " + x[1:])
    if k == 12:
        x = r.choice([T('String', ['str'])] + [prim(p) for p in ('u8', 'i64', 'f32', 'bool')] + [T('Arc<Sh>', ['obj', 'Sh']), T('Foo', ['obj', 'Foo']), T('Color', ['enum'])])
        return T('&[%s]' % x.rs, ['vec', x.desc], "&'static [%s]" % x.rs)
    return r.choice([T('&String', ['str'], "&'static String"), T('&i32', prim('i32').desc, "&'static i32"),
                     T('&Vec<u16>', ['vec', prim('u16').desc], "&'static Vec<u16>"),
                     T('&Option<String>', ['opt', ['str']], "&'static Option<String>")])


def ret(r, d=None):
    d = r.choice([0, 1, 1, 2, 3]) if d is None else d
    if d == 0:
        return leaf_out(r)
    if r.random() < 0.4:
        ts = [ret(r, r.randrange(d)) for _ in range(r.choice([1, 2, 2, 3, 4, 5]))]
        return T('(%s,)' % ', '.join(t.rs for t in ts), ['tup', [t.desc for t in ts]], '(%s,)' % ', '.join(t.impl for t in ts))
    t = ret(r, d - 1)
    if t.desc[0] != 'opt' and r.random() < 0.5:
        return T('Option<%s>' % t.rs, ['opt', t.desc], 'Option<%s>' % t.impl)
    return T('Vec<%s>' % t.rs, ['vec', t.desc], 'Vec<%s>' % t.impl)


NAMES = '''a b x value inner tuple ok_inner err_inner m instance ret out len data n s v id name obj this class_ slf args
kwargs cpython rust_instance create_instance foo clone result error self_ p o0 lhs rhs key t1 _a'''.split()


class Method:
    def __init__(self, mid, kind, args, ret, res, names):
        self.id, self.kind, self.args, self.ret, self.res, self.names = mid, kind, args, ret, res, names
        self.name = 'm%d' % mid
        self.pyname = self.name

    def sig(self):
        me = {'static': [], 'ref': ['&self'], 'mut': ['&mut self'], 'ctor': []}[self.kind]
        return ', '.join(me + ['%s: %s' % (n, a.rs) for n, (a, _) in zip(self.names, self.args)])

    def rtype(self, impl=False):
        t = self.ret.impl if impl else self.ret.rs
        return 'Result<%s, VErr>' % t if self.res else t

    def __str__(self):
        return 'fn %s(%s) -> %s' % (self.name, self.sig(), self.rtype())

    def desc(self):
        return dict(id=self.id, kind=self.kind, name=self.pyname, res=self.res, ret=self.ret.desc,
                    args=[dict(name=n, d=a.desc, mut=m) for n, (a, m) in zip(self.names, self.args)])


UNIT = T('()', ['unit'])


class Class:
    """`store` decides how the object is kept and whether it can change."""
    STORES = {'T': '%s', 'ArcMutex': 'Arc<Mutex<%s>>', 'Mutex': 'Mutex<%s>', 'Arc': 'Arc<%s>', 'Box': 'Box<%s>'}

    def __init__(self, r, name, store, n, start):
        self.name, self.store = name, store
        self.ms = []
        for i in range(n):
            kind = r.choice(['static', 'ref', 'mut'] if store in ('T', 'ArcMutex', 'Mutex') else ['static', 'ref'])
            na = r.choice([0, 1, 1, 2, 2, 3, 5])
            names = r.sample(NAMES, na) if r.random() < 0.6 else ['a%d' % k for k in range(na)]
            rt = UNIT if r.random() < 0.08 else ret(r)
            m = Method(start + i, kind, [arg(r) for _ in range(na)], rt, r.random() < 0.3, names)
            if m.res and r.random() < 0.15:
                m.ret = UNIT
            if r.random() < 0.2:
                m.pyname = r.choice(['al_%d', 'camelCase%d', '_u%d', 'next%d', 'get_%d']) % m.id
            self.ms.append(m)
        na = r.choice([0, 1, 2, 3])
        self.ctor = Method(start + n, 'ctor', [arg(r) for _ in range(na)], T('Self', ['self']), False, ['c%d' % k for k in range(na)])
        self.rep = Method(start + n + 1, 'ref', [], T('String', ['str']), False, [])
        self.rep.pyname = '__repr__'

    def glue(self):
        N = self.name
        own = self.STORES[self.store] % N
        wrap = {'T': '%s', 'ArcMutex': 'Arc::new(Mutex::new(%s))', 'Mutex': 'Mutex::new(%s)', 'Arc': 'Arc::new(%s)', 'Box': 'Box::new(%s)'}[self.store]
        o = ['pub struct %s { id: u32, n: u32, t: Ticket }' % N, '#[allow(unused_mut)]', 'impl %s {' % N]
        c = self.ctor
        sig = ', '.join(['id: u32'] + ['mut ' + x for x in c.sig().split(', ') if x] if False else ['id: u32'] + ['%s: %s' % (n, a.rs) for n, (a, _) in zip(c.names, c.args)])
        o.append('    pub fn make(%s) -> %s { vh::enter(%d, &[format!("@{}", id)%s]); vh::log("[ %d O |"); %s }' % (
            sig, own, c.id, ''.join(', vh::c(&%s)' % x for x in c.names), c.id, wrap % ('%s { id, n: 0, t: Ticket::new("%s") }' % (N, N))))
        o.append('    pub fn ticket_(&self) -> u64 { self.t.0 }')
        for m in self.ms + [self.rep]:
            me = {'static': '', 'ref': '&self, ', 'mut': '&mut self, '}[m.kind]
            pre = 'self.n = self.n.wrapping_add(1); ' if m.kind == 'mut' else ''
            who = ['format!("@{}:{}", self.id, self.n)'] if m.kind != 'static' else []
            name = 'to_string' if m is self.rep else m.name
            o.append('    pub fn %s(%s%s) -> %s { %svh::enter(%d, &[%s]); let post = vh::mutate(&mut [%s]); vh::leave(%d, post) }' % (
                name, me, ', '.join('mut %s: %s' % (n, a.rs) for n, (a, _) in zip(m.names, m.args)), m.rtype(True), pre, m.id,
                ', '.join(who + ['vh::c(&%s)' % x for x in m.names]), ', '.join('&mut %s' % n for n, (_, mu) in zip(m.names, m.args) if mu), m.id))
        o.append('}')
        o.append('foreign_class!(class %s {' % N)
        o.append('    self_type %s;' % N)
        o.append('    constructor %s::make(%s) -> %s;' % (N, sig, own))
        o.append('    fn %s::ticket_(&self) -> u64;' % N)
        o.append('    fn %s::to_string(&self) -> String;' % N)
        for m in self.ms:
            rt = m.rtype()
            o.append('    fn %s::%s(%s)%s;%s' % (N, m.name, m.sig(), '' if rt == '()' else ' -> ' + rt,
                                                 '' if m.pyname == m.name else '\n    alias %s;' % m.pyname))
        o.append('});')
        return '\n'.join(o)

    def desc(self):
        return dict(name=self.name, ms=[m.desc() for m in self.ms + [self.rep]], ctor=self.ctor.desc())


LIB_RS = '''#![allow(warnings)]
#[path = "%(common)s/vh.rs"]
pub mod vh;
#[path = "%(common)s/valloc.rs"]
pub mod valloc;
#[global_allocator]
static GLOBAL: valloc::VAlloc = valloc::VAlloc;
pub mod glue {
include!("%(glue)s");
}
pub mod ffi {
    use crate::vh;
    #[no_mangle]
    pub extern "C" fn vh_log(p: *const u8, n: usize) {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        vh::log(&String::from_utf8_lossy(s));
    }
    #[no_mangle]
    pub extern "C" fn vh_flush() { vh::flush() }
    #[no_mangle]
    pub extern "C" fn vh_set_seed(s: u64) { vh::set_seed(s) }
    #[no_mangle]
    pub extern "C" fn vh_set_tag(s: u32) { vh::set_tag(s) }
    #[no_mangle]
    pub extern "C" fn vh_alive() -> u64 { vh::alive() }
    #[no_mangle]
    pub extern "C" fn vh_born() -> u64 { vh::born() }
    #[no_mangle]
    pub extern "C" fn vh_over_dropped() -> u64 { vh::over_dropped() }
    #[no_mangle]
    pub extern "C" fn vh_drops_of(id: u64) -> u32 { vh::drops_of(id) }
    #[no_mangle]
    pub extern "C" fn vh_pool_clear() { vh::pool_clear() }
    #[no_mangle]
    pub extern "C" fn vh_log_alive() { vh::log(&format!("! not freed: {}", vh::alive_kinds())) }
    #[no_mangle]
    pub extern "C" fn vh_live_bytes() -> u64 { crate::valloc::LIVE_BYTES.load(std::sync::atomic::Ordering::SeqCst) as u64 }
}
%(extra)s
'''
