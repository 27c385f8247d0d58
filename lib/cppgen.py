"""Random C++-exported interfaces for the fidelity checks: types, methods, glue, drivers."""
import random

INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'isize', 'usize']
PRIMS = INTS + ['f32', 'f64', 'bool']
VECP = INTS + ['f32', 'f64']
CLASSES = ['Foo', 'Wide', 'Tiny']
# the C++ identity of a type, where two Rust types share it (Result needs distinct arms)
CPPKEY = {'isize': 'i64', 'usize': 'u64', 'bool': 'bool'}


class T:
    def __init__(self, rs, impl=None, key=None, mut=False):
        self.rs = rs                    # as declared to flapigen
        self.impl = impl or rs          # in the Rust implementation
        self.key = key or CPPKEY.get(rs, rs)

    def __repr__(self):
        return self.rs


def compound(r, depth, leaf, direction, allow_unit_res=True):
    k = r.choice(['opt', 'opt', 'opt', 'pair', 'pair', 'triple', 'res', 'res', 'unitres'])
    sub = lambda: (leaf(r) if depth <= 1 or r.random() < 0.6
                   else compound(r, depth - 1, leaf, direction))
    if k == 'opt':
        a = sub()
        return T('Option<%s>' % a.rs, 'Option<%s>' % a.impl, 'Option<%s>' % a.key)
    if k == 'pair':
        a, b = sub(), sub()
        return T('(%s, %s)' % (a.rs, b.rs), '(%s, %s)' % (a.impl, b.impl), '(%s,%s)' % (a.key, b.key))
    if k == 'triple':
        a, b, c = sub(), sub(), sub()
        return T('(%s, %s, %s)' % (a.rs, b.rs, c.rs), '(%s, %s, %s)' % (a.impl, b.impl, c.impl),
                 '(%s,%s,%s)' % (a.key, b.key, c.key))
    if k == 'unitres':
        a = sub()
        # shown to C++ as an optional of the error
        return T('Result<(), %s>' % a.rs, 'Result<(), %s>' % a.impl, 'Option<%s>' % a.key)
    for _ in range(20):
        a, b = sub(), sub()
        if a.key != b.key:
            return T('Result<%s, %s>' % (a.rs, b.rs), 'Result<%s, %s>' % (a.impl, b.impl),
                     'Result<%s,%s>' % (a.key, b.key))
    return leaf(r)


def leaf_in(r):
    """What C++ may pass inside a compound."""
    k = r.randrange(12)
    if k < 5:
        return T(r.choice(PRIMS))
    if k in (5, 6):
        # one project cannot have both Option<&str> and Option<String> as inputs (rejected)
        return T(r.str_in, key='str')
    if k == 7:
        return T('Color')
    if k < 10:
        return T(r.choice(CLASSES))
    if k == 10:
        p = r.choice(VECP)
        return T('Vec<%s>' % p, key='Vec<%s>' % CPPKEY.get(p, p) if False else 'Vec<%s>' % p)
    return T('Vec<%s>' % r.choice(CLASSES))


def arg(r):
    k = r.randrange(20)
    if k < 5:
        return T(r.choice(PRIMS))
    if k == 5:
        return T('&str')
    if k == 6:
        return T(r.choice(['String', '&Path', '&str']))
    if k == 7:
        return T('Color')
    if k == 8:
        return T(r.choice(CLASSES))
    if k == 9:
        return T('&' + r.choice(CLASSES))
    if k == 10:
        return T('&mut ' + r.choice(CLASSES))
    if k == 11:
        return T('Option<&%s%s>' % (r.choice(['', 'mut ']), r.choice(CLASSES)))
    if k == 12:
        return T('Vec<%s>' % r.choice(VECP + CLASSES))
    if k == 13:
        return T('&[%s]' % r.choice(VECP))
    if k == 14:
        return T('&mut [%s]' % r.choice(VECP))
    if k == 15:
        return T('&[%s]' % r.choice(CLASSES))
    if k == 16:
        return T('&mut [%s]' % r.choice(CLASSES))
    return compound(r, r.choice([1, 1, 2, 3]), leaf_in, 'in')


def leaf_out(r):
    k = r.randrange(14)
    if k < 5:
        return T(r.choice(PRIMS))
    if k == 5:
        return T('&str', "&'static str", 'str')
    if k == 6:
        return T('String')
    if k == 7:
        return T('Color')
    if k < 10:
        return T(r.choice(CLASSES))
    if k == 10:
        return T('Vec<%s>' % r.choice(VECP))
    if k == 11:
        return T('Vec<%s>' % r.choice(CLASSES))
    c = r.choice(CLASSES)
    if k == 12:
        return T('&' + c, "&'static " + c, 'ref ' + c)
    return T('String')


def ret(r):
    k = r.randrange(20)
    if k == 0:
        return T('()')
    if k < 9:
        return leaf_out(r)
    if k == 9:
        p = r.choice(VECP)
        return T('&[%s]' % p, "&'static [%s]" % p)
    if k == 10:
        p = r.choice(CLASSES)
        return T('&[%s]' % p, "&'static [%s]" % p)
    if k == 11:
        p = r.choice(VECP + CLASSES)
        return T('&mut [%s]' % p, "&'static mut [%s]" % p)
    if k == 12:
        p = r.choice(['Foo', 'Wide'])
        return T('&mut ' + p, "&'static mut " + p)
    return compound(r, r.choice([1, 1, 2, 3]), leaf_out, 'out')


# parameter names that are legal in Rust and in C++; many are used by generated code as well
PNAMES = '''ret p p0 p1 p2 out tmp self_ len data this_ptr value x o a0 a1 a2 a3 this_ self_obj err ok e v s r c
len_ capacity ptr chan cb obj fn_ trait0 result first second third val slice name std_ ref_ box_ raw tuple arg
i n it idx size elem item is_ok is_some data_ vec_ str_ xs ys inner wrapper'''.split()


def pnames(r, n):
    if r.random() < 0.35:
        return ['a%d' % i for i in range(n)]
    return r.sample(PNAMES[:13] if r.random() < 0.4 else PNAMES, n)


class Method:
    def __init__(self, mid, kind, args, ret, inline, names=None):
        self.id, self.kind, self.args, self.ret, self.inline = mid, kind, args, ret, inline
        self.name = 'm%d' % mid
        self.names = names or ['a%d' % i for i in range(len(args))]

    def decl_sig(self):
        return ', '.join(['%s: %s' % (n, a.rs) for n, a in zip(self.names, self.args)])

    def has_ref_ret(self):
        return '&' in self.ret.rs

    def __str__(self):
        s = {'static': '', 'ref': '&self, ', 'mut': '&mut self, '}[self.kind]
        return 'fn %s(%s%s) -> %s' % (self.name, s, self.decl_sig(), self.ret.rs)


def body(m, this):
    """Log arguments, change what may be changed, return a random value."""
    pre = ''
    if m.kind == 'mut':
        pre = '%s.n = %s.n.wrapping_add(1); ' % (this, this)
    who = ''
    if m.kind != 'static':
        who = 'format!("@{}:{}", %s.id, %s.n), ' % (this, this)
    s = pre
    s += 'vh::enter(%d, &[%s%s]); ' % (m.id, who, ', '.join('vh::c(&%s)' % x for x in m.names))
    s += 'let post = vh::mutate(&mut [%s]); ' % ', '.join('&mut %s' % x for x in m.names)
    s += 'vh::leave(%d, post)' % m.id
    return s


def methods(r, n, start=0, max_args=4):
    out = []
    for i in range(n):
        kind = r.choice(['static', 'ref', 'mut'])
        na = r.choice([0, 1, 1, 2, 2, 3, max_args])
        args = [arg(r) for _ in range(na)]
        rt = ret(r)
        if '&' in rt.rs and kind == 'static' and False:
            kind = 'ref'
        m = Method(start + i, kind, args, rt, False, pnames(r, na))
        m.inline = not m.has_ref_ret() and r.random() < 0.4
        out.append(m)
    return out


def ctor_arg(r):
    k = r.randrange(10)
    if k < 3:
        return T(r.choice(PRIMS))
    if k == 3:
        return T('&str')
    if k == 4:
        return T('Color')
    if k == 5:
        return T(r.choice(CLASSES))
    if k == 6:
        return T('&' + r.choice(CLASSES))
    if k == 7:
        return T('Vec<%s>' % r.choice(VECP + CLASSES))
    # (an optional or a variant would be made from a conversion to what it contains, not to itself)
    sub = [leaf_in(r) for _ in range(r.choice([2, 3]))]
    return T('(%s)' % ', '.join(x.rs for x in sub), '(%s)' % ', '.join(x.impl for x in sub))


def class_glue(name, ms, ctors, derive=''):
    o = ['pub struct %s { id: u32, n: u32, t: Ticket }' % name, '#[allow(unused_mut)]',
         'impl %s {' % name,
         '    pub fn make(id: u32) -> %s { %s { id, n: 0, t: Ticket::new("%s") } }' % (name, name, name)]
    for m in ms:
        if not m.inline:
            me = {'static': '', 'ref': '&self, ', 'mut': '&mut self, '}[m.kind]
            o.append('    pub fn %s(%s%s) -> %s { %s }' % (
                m.name, me, ', '.join('mut %s: %s' % (x, a.rs) for x, a in zip(m.names, m.args)),
                m.ret.impl, body(m, 'self')))
    for c in ctors:
        o.append('    pub fn %s(%s) -> %s { vh::enter(%d, &[%s]); let r = Self::make(%d); '
                 'vh::log("[ %d O |"); r }'
                 % (c.name, c.decl_sig(), name, c.id,
                    ', '.join('vh::c(&%s)' % x for x in c.names), c.id, c.id))
    o.append('}')
    o.append('foreign_class!(%sclass %s {' % (derive, name))
    o.append('    self_type %s;' % name)
    o.append('    constructor %s::make(id: u32) -> %s;' % (name, name))
    o.append('    fn ticket_(&self) -> u64 { this.t.0 }')
    for c in ctors:
        o.append('    constructor %s::%s(%s) -> %s;' % (name, c.name, c.decl_sig(), name))
    for m in ms:
        me = {'static': [], 'ref': ['&self'], 'mut': ['&mut self']}[m.kind]
        sig = ', '.join(me + ['%s: %s' % (x, a.rs) for x, a in zip(m.names, m.args)])
        rt = '' if m.ret.rs == '()' else ' -> ' + m.ret.rs
        if m.inline:
            shadow = ''.join('let mut %s = %s; ' % (x, x) for x in m.names)
            o.append('    fn %s(%s)%s { %s%s }' % (m.name, sig, rt, shadow, body(m, 'this')))
        else:
            o.append('    fn %s::%s(%s)%s;' % (name, m.name, sig, rt))
    o.append('});')
    return '\n'.join(o)


def mk_glue():
    """C++ cannot make a RustVec itself."""
    o = ['pub struct Mk;', 'foreign_class!(class Mk {']
    for p in VECP:
        o.append('    fn vec_%s(s: &[%s], room: usize) -> Vec<%s> { let mut v = Vec::with_capacity(s.len() + room %% 9);'
                 ' v.extend_from_slice(s); v }' % (p, p, p))
    o.append('});')
    return '\n'.join(o)


LIB_RS = '''#![allow(dead_code, unused_variables, unused_mut, unused_imports, non_snake_case, non_camel_case_types, static_mut_refs, improper_ctypes_definitions, private_interfaces)]
#[path = "%(common)s/vh.rs"]
pub mod vh;
#[path = "%(common)s/valloc.rs"]
pub mod valloc;
#[global_allocator]
static GLOBAL: valloc::VAlloc = valloc::VAlloc;
#[path = "%(glue)s"]
pub mod glue;
pub mod ffi {
    use crate::vh;
    #[no_mangle]
    pub extern "C" fn vh_log(p: *const u8, n: usize) {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        vh::log(&String::from_utf8_lossy(s));
    }
    #[no_mangle]
    pub extern "C" fn vh_flush() { vh::flush() }
    #[no_mangle]
    pub extern "C" fn vh_set_seed(s: u64) { vh::set_seed(s) }
    #[no_mangle]
    pub extern "C" fn vh_alive() -> u64 { vh::alive() }
    #[no_mangle]
    pub extern "C" fn vh_born() -> u64 { vh::born() }
    #[no_mangle]
    pub extern "C" fn vh_over_dropped() -> u64 { vh::over_dropped() }
    #[no_mangle]
    pub extern "C" fn vh_drops_of(id: u64) -> u32 { vh::drops_of(id) }
    #[no_mangle]
    pub extern "C" fn vh_pool_clear() { vh::pool_clear() }
    #[no_mangle]
    pub extern "C" fn vh_live_bytes() -> u64 { crate::valloc::LIVE_BYTES.load(std::sync::atomic::Ordering::SeqCst) as u64 }
}
'''
