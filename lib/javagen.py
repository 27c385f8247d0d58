"""Random Java-exported interfaces: types, methods, glue and Java drivers."""
import cppgen
from cppgen import T, Method, body

# Rust type -> (Java type, boxed form for overload keys, generator expression, canonical form)
PRIM = dict(i8='byte', u8='short', i16='short', u16='int', i32='int', u32='long', i64='long', u64='long',
            usize='long', isize='long', f32='float', f64='double', bool='boolean')
BOX = dict(i8='Byte', i16='Short', i32='Integer', i64='Long', f32='Float', f64='Double')
OPT = dict(i8='java.util.OptionalInt', i16='java.util.OptionalInt', i32='java.util.OptionalInt',
           i64='java.util.OptionalLong', f32='java.util.OptionalDouble', f64='java.util.OptionalDouble')
ARR = ['i8', 'i16', 'i32', 'i64', 'f32', 'f64']
# Java class -> how Rust names it by value
OBJ = {'Foo': 'Foo', 'Sh': 'Rc<RefCell<Sh>>', 'Am_': 'Arc<Mutex<Am_>>'}
RGEN = {'usize': 'u64'}
VAL = {v: k for k, v in OBJ.items()}


def strip(t, pre, suf='>'):
    return t[len(pre):-len(suf)] if t.startswith(pre) and t.endswith(suf) else None


def jin(t):
    """(java type, generator) of an argument."""
    if t in PRIM:
        return PRIM[t], 'r.%s()' % RGEN.get(t, t)
    if t in ('&str', 'String', '&Path'):
        return 'String', 'r.str()'
    if t == 'Color':
        return 'Color', 'Objs.color(r)'
    for o, v in OBJ.items():
        if t in (o, '&' + o, '&mut ' + o, v):
            return o, 'Objs.%s(r)' % o
    x = strip(t, 'Option<')
    if x is not None:
        if x in BOX:
            return BOX[x], 'r.opt(() -> r.%s())' % x
        j, g = jin(x)
        return j, 'r.opt(() -> %s)' % g
    x = strip(t, 'Vec<')
    if x == 'Foo':
        return 'Foo []', 'Objs.foos(r)'
    x = strip(t, '&[', ']')
    return PRIM[x] + ' []', 'r.%ss()' % x


def jcanon(t, x, out=False, dep=0):
    """Canonical form of Java expression x of Rust type t."""
    if t in PRIM or t in ('&str', 'String', '&Path', 'SystemTime'):
        return 'VH.c(%s)' % x
    if t == 'Color' or t in VAL or t.lstrip('&').replace('mut ', '') in OBJ:
        return 'Objs.c(%s)' % x
    y = strip(t, 'Option<')
    if y is not None:
        if y in BOX and out:
            return 'VH.opt%s(%s)' % ('F' if y == 'f32' else '', x)
        v = 'e%d' % dep
        return 'VH.%s(%s, %s -> %s)' % ('opt' if out else 'nopt', x, v, jcanon(y, v, out, dep + 1))
    y = strip(t, 'Vec<')
    if y in ('Foo', 'String'):
        return 'VH.arr(%s, e -> %s)' % (x, jcanon(y, 'e', out))
    return 'VH.c(%s)' % x


def jout(t):
    """Java type of a result (not of Result<>)."""
    if t in PRIM:
        return PRIM[t]
    if t in ('&str', 'String'):
        return 'String'
    if t in ('Color', 'Foo'):
        return t
    if t == 'SystemTime':
        return 'java.util.Date'
    if t in VAL:
        return VAL[t]
    y = strip(t, 'Option<')
    if y is not None:
        return OPT[y] if y in OPT else 'java.util.Optional<%s>' % jout(y)
    y = strip(t, 'Vec<')
    if y is not None:
        return jout(y) + ' []'
    y = strip(t, '&[', ']') or strip(t, '&mut [', ']')
    return PRIM[y] + ' []'


def arg(r):
    k = r.randrange(20)
    if k < 5:
        return T(r.choice([x for x in PRIM if x != 'isize']))
    if k < 8:
        return T(r.choice(['&str', 'String', '&Path']))
    if k == 8:
        return T('Color')
    if k == 9:
        return T(r.choice(list(OBJ.values())))
    if k in (10, 11):
        return T('&' + r.choice(list(OBJ)))
    if k in (12, 13):
        return T('&mut ' + r.choice(list(OBJ)))
    if k == 14:
        return T('Vec<Foo>')
    if k < 17:
        return T('&[%s]' % r.choice(ARR))
    return T('Option<%s>' % r.choice(list(BOX) + ['&str', 'Color', 'Foo', 'Foo', '&Foo', '&Foo', OBJ['Am_']]))


def plain_ret(r):
    k = r.randrange(20)
    if k < 6:
        return T(r.choice(list(PRIM)))
    if k < 9:
        return T('String') if r.random() < 0.5 else T('&str', "&'static str")
    if k == 9:
        return T('Color')
    if k in (10, 11):
        return T(r.choice(list(OBJ.values())))
    if k == 12:
        return T('SystemTime')
    if k == 13:
        return T(r.choice(['Vec<Foo>', 'Vec<String>']))
    if k < 16:
        x = r.choice(ARR)
        return T(*r.choice([('Vec<%s>' % x,), ('&[%s]' % x, "&'static [%s]" % x), ('&mut [%s]' % x, "&'static mut [%s]" % x)]))
    return T('Option<%s>' % r.choice(list(BOX) + ['String', 'String', 'Color', 'Color', 'Foo', 'Foo', OBJ['Am_'], OBJ['Am_']]))


def ret(r):
    k = r.random()
    if k < 0.08:
        return T('()')
    if k > 0.8:
        a = plain_ret(r) if r.random() < 0.85 else T('()')
        e, ei = r.choice([('String', 'String'), ('&str', "&'static str")])
        return T('Result<%s, %s>' % (a.rs, e), 'Result<%s, %s>' % (a.impl, ei))
    return plain_ret(r)


PNAMES = '''ret p p0 out self_ len data this_ptr value x o a0 a1 a2 a3 arg1 arg2 convRet conv err ok e v s obj
clazz cls jobj ptr chan cb raw n it idx size this_ this_obj result jenv name sig id slice jstr java_vm
object handle lib jret Foo_ String_ do_ o1 C0 i1'''.split()


def pnames(r, n):
    if r.random() < 0.35:
        return ['a%d' % i for i in range(n)]
    return r.sample(PNAMES[:15] if r.random() < 0.4 else PNAMES, n)


def okret(m):
    t = m.ret.rs
    if t.startswith('Result<'):
        return t[7:].rsplit(',', 1)[0], True
    return t, False


def native(t):
    if t in PRIM:
        return PRIM[t]
    j = jin(t)[0]
    if j == 'Color':
        return 'int'
    return 'long' if j in OBJ else j


def over_key(m):
    """The native methods behind overloads get the same name, so they have to differ as well."""
    return tuple((['long'] if m.kind != 'static' else []) + [native(a.rs) for a in m.args])


def methods(r, n, start):
    out = []
    used = set()
    for i in range(n):
        kind = r.choice(['static', 'ref', 'mut'])
        args = [arg(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
        m = Method(start + i, kind, args, ret(r), False, pnames(r, len(args)))
        m.inline = not m.has_ref_ret() and r.random() < 0.4
        # the name seen by Java: overloads, underscores and other letters are mangled by JNI
        m.jname = m.name
        k = r.random()
        if k < 0.3:
            key = over_key(m)
            key2 = ('java', tuple(jin(a.rs)[0] for a in args))
            if key not in used and key2 not in used:
                used |= {key, key2}
                m.jname = 'over'
        elif k < 0.45:
            m.jname = r.choice(['m_%d', '_m%d', 'm_1_%d', 'm__%d_', 'M_%d_x', 'do_m_%d']) % m.id
        elif k < 0.5:
            m.jname = r.choice(['mé%d', 'Ωm%d', 'имя_%d']) % m.id
        out.append(m)
    return out


def class_glue(name, ms, ctors):
    base = cppgen.class_glue(name, ms, ctors)
    # aliases follow the declarations
    o = []
    by = {m.name: m for m in ms}
    inside = False
    for line in base.split('\n'):
        inside = inside or line.startswith('foreign_class!')
        m = by.get(line[7:].split('(')[0].split('::')[-1]) if inside and line.startswith('    fn ') else None
        if m and m.jname != m.name:
            if m.inline:
                line = line.replace('fn %s(' % m.name, 'fn %s(' % m.jname, 1)
            o += [line, '    alias %s;' % m.jname][:1 if m.inline else 2]
        else:
            o.append(line)
    return '\n'.join(o).replace('fn ticket_(&self) -> u64', 'fn ticket_(&self) -> i64').replace('{ this.t.0 }', '{ this.t.0 as i64 }')


def call_java(cls, m):
    """Body of a static Java method that makes one monitored call."""
    o = ['static void f%d(VH.R r, Obj x) throws Exception {' % m.id]
    names, canons, post, byval = [], [], [], []
    for i, a in enumerate(m.args):
        j, g = jin(a.rs)
        v = 'arg%d' % i
        o.append('  final %s %s = %s;' % (j, v, g))
        names.append(v)
        canons.append('String c%d = %s;' % (i, jcanon(a.rs, v)))
        if a.rs.startswith('&mut '):
            post.append(jcanon(a.rs, v))
        elif a.rs.startswith(('&', 'Vec<', 'Option<&')) and a.rs != '&Path':
            byval.append('  VH.same(%d, "argument %d", c%d, %s);' % (m.id, i, i, jcanon(a.rs, v)))
    o += ['  ' + c for c in canons]
    who = []
    if m.kind == 'mut':
        o.append('  ++x.n;')
    if m.kind != 'static':
        who = ['"@" + x.id + ":" + x.n']
    o.append('  VH.log("> %d "%s);' % (m.id, ' + " "'.join(' + ' + x for x in who + ['c%d' % i for i in range(len(m.args))])))
    t, res = okret(m)
    tgt = cls if m.kind == 'static' else 'x.o'
    call = '%s.%s(%s)' % (tgt, m.jname, ', '.join(names))
    wrap = lambda e: e
    o.append('  String ret;')
    if res:
        o.append('  try {')
    if t == '()':
        o.append('  %s; ret = "%s";' % (call, 'N' if res else '()'))
    else:
        o.append('  %s v = %s; ret = %s;' % (jout(t), call, ('"O(" + %s + ")"' if res else '%s') % jcanon(t, 'v', True)))
    if res:
        o.append('  } catch (Exception e) { ret = "%s(" + VH.exc(e) + ")"; }' % ('S' if t == '()' else 'E'))
    o.append('  VH.log("< %d " + ret + " |"%s);' % (m.id, ''.join(' + " " + ' + p for p in post)))
    o += byval
    o.append('}')
    return '\n'.join(o)


OBJS = '''package %(pkg)s;
import vh.VH;
final class Objs {
    static Color color(VH.R r) { Color[] v = Color.values(); return v[r.below(v.length)]; }
    static Foo Foo(VH.R r) { return new Foo(r.i64(), r.str()); }
    static Sh Sh(VH.R r) { return new Sh(r.i32()); }
    static Am_ Am_(VH.R r) { return new Am_(r.u32(), r.str()); }
    static Foo[] foos(VH.R r) { Foo[] a = new Foo[r.below(6)]; for (int i = 0; i < a.length; ++i) a[i] = Foo(r); return a; }
    static String c(Color x) { return x == null ? "null" : "#" + x.name(); }
    static String c(Foo x) { return x == null ? "null" : "Foo{" + VH.c(x.x()) + ":" + VH.c(x.name()) + "}"; }
    static String c(Sh x) { return x == null ? "null" : "Sh{" + VH.c(x.v()) + "}"; }
    static String c(Am_ x) { return x == null ? "null" : "Am_{" + VH.c(x.v()) + ":" + VH.c(x.s()) + "}"; }
}
'''

LIB_RS = '''#![allow(warnings)]
#[path = "%(common)s/vh.rs"]
pub mod vh;
#[path = "%(common)s/valloc.rs"]
pub mod valloc;
#[path = "%(jh)s"]
pub mod jni_c_header;
#[path = "%(support)s"]
pub mod support;
%(log)s
pub mod glue {
use crate::{log, jni_c_header::*};
include!("%(glue)s");
}
%(extra)s
'''
