"""G07: user typemaps. Random sets of foreign_typemap! rules whose snippets report that they ran and change the
value by a map of their own; the generated programs are compiled and run, and every call's reports and
values are compared with those of the rules as written."""
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import patterns
import vlib
import tgt

NS = dict(cpp='vns', java='org.vh', python='vpy')
PRIM = {'i16': ('int16_t', 'short'), 'i32': ('int32_t', 'int'), 'i64': ('int64_t', 'long'), 'f64': ('double', 'double')}
JNI = dict(i16='jshort', i32='jint', i64='jlong', f64='jdouble')


def uh(k, way):
    return 'req_modules = ["\\"user_%s%d.hpp\\""]' % (way, k)


def jcast(p, v):
    return '(%s)%s' % (PRIM[p][1], v)


class Prim:
    """A primitive that no rule touches."""
    fin = fout = True
    stmt = False
    rules = ()
    kind = 'prim'

    def __init__(self, p):
        self.p = self.rust = p

    def events(self, way): return []
    def f(self, way, v): return v
    def rget(self, e): return '(%s as i64)' % e
    def rmk(self, e): return '((%s) as %s)' % (e, self.p)
    def mk(self, lang, v): return '%s(%d)' % (PRIM[self.p][0], v) if lang == 'cpp' else jcast(self.p, v)
    def get(self, lang, e): return '(long)(%s)' % e
    def foreign(self, lang, way): return PRIM[self.p][0 if lang == 'cpp' else 1]
    jcbtype = property(lambda s: PRIM[s.p][1])


class Rule:
    """A type with one foreign_typemap!: 'chain' (Rust code only, onto a primitive or another rule's type) or
    'ftype' (also a foreign type of its own)."""

    def __init__(self, g, k, kind, base_in, base_out, rust, rget, rmk, fin=True, fout=True, names=None):
        self.g, self.k, self.kind, self.bin, self.bout = g, k, kind, base_in, base_out
        self.rust, self._get, self._mk = rust, rget, rmk
        self.fin, self.fout = fin, fout
        self.names = names or (('User%d' % k,) * 2)      # foreign names in, out
        self.custom = names is None
        self.where = None
        r = g.r
        self.style = [r.randrange(6), r.randrange(6), r.randrange(6), r.randrange(6)]
        self.split = fin and fout and r.random() < 0.3     # two rules, one per direction
        self.first = r.random() < 0.5
        self.opt = kind == 'ftype' and self.custom and rust.startswith('U') and r.random() < 0.25
        self.word = r.choice(['a,b,,c', 'é – ü', '{} // no comment', 'let x = 1;', '$', 'swig', '/*', 'a, b  c'])

    def length(self, way):
        """Number of conversions in Rust until a type that has a foreign one."""
        b = self.base(way)
        return 0 if self.kind == 'ftype' else 1 + (b.length(way) if isinstance(b, Rule) else 0)

    def base(self, way): return self.bin if way == 'in' else self.bout

    def base_rust(self, way):
        b = self.base(way)
        return b.rust if isinstance(b, Rule) else b.p if self.g.lang == 'cpp' else JNI[b.p]

    # ---- model
    def events(self, way):
        c = ['c%d%s' % (self.k, way)] if self.kind == 'ftype' else []
        m = ['m%d%s' % (self.k, way)] if self.style[way == 'in'] == 4 else []
        r = m + ['r%d%s' % (self.k, way)]
        b = self.base(way)
        if way == 'in':
            return c + b.events(way) + r
        return r + b.events(way) + c

    def f(self, way, v):
        b = self.base(way)
        if way == 'in':
            return b.f(way, v) * 2 + self.k % 7
        return b.f(way, v * 3 + self.k % 5)

    def rget(self, e): return self._get % e
    def rmk(self, e): return self._mk % e

    # ---- texts
    def rules(self):
        """Texts of the foreign_typemap! calls."""
        lang, k = self.g.lang, self.k

        def rcode(way):
            fn = 'crate::support::%s%d' % (way, k)
            s = self.style[way == 'in']
            if s == 0:
                return '$out = %s($p);' % fn
            if s == 1:
                return 'let inner = $p;\n        $out = %s(inner);' % fn
            if s == 2:
                return '$out = { let inner = $p; %s(inner) };' % fn
            if s == 3:
                return '$out = match $p { inner => %s(inner) };' % fn
            if s == 4:
                return 'crate::support::word%s%d(&format!("%s"), $p_ref);\n        $out = %s($p);'.replace(', $p_ref', '') % (way, k, self.word.replace('{', '{{').replace('}', '}}').replace('"', '\\"'), fn)
            return '$out = if true { %s($p) } else { unreachable!() };' % fn

        def fcode(way):
            s = self.style[2 + (way == 'in')]
            if lang == 'cpp':
                fn = 'user_%s%d' % (way, k)
                return ['%s($p)', '%s( $p )', '(%s($p))', '%s(true ? $p : $p)', '        auto $tmp = %s($p);\n        $out = $tmp;\n', '        auto $one = $p;\n        auto $tmp = %s($one);\n        $out = $tmp;\n'][s] % fn
            e = ('User%d.out($p)' % k if way == 'out' else 'User%d.in($p)' % k)
            return ['$out = %s;', '        $out = %s;\n', '        $out = (%s);\n', '$out = %s;', '$out = %s;', '/* $out= */ $out = %s; // $p'][s].replace('/* $out= */ ', '').replace(' // $p', '') % e

        def esc(x): return x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n')

        def dirs(way):
            a = '=>' if way == 'out' else '<='
            o = '    ($p:r_type) %s %s %s {\n        %s\n    };\n' % (self.rust, a, self.base_rust(way), rcode(way))
            if self.kind == 'ftype':
                m = ', ' + uh(k, way) if lang == 'cpp' else ''
                if lang == 'cpp' and self.style[2 + (way == 'in')] >= 4:
                    m += ', $tmp: temporary' + (', $one: temporary' if self.style[2 + (way == 'in')] == 5 else '')
                line = '    ($p:f_type%s%s) %s "%s" "%s";\n'
                name, code = self.names[way == 'out'], esc(fcode(way))
                if self.opt:
                    on, off = self.g.options
                    ls = [line % (', option = "%s"' % on, m, a, name, code), line % (', option = "%s"' % off, m, a, 'Wrong%d' % k, 'wrong($p)')]
                    o += ''.join(ls[::-1] if self.word > 'b' else ls)
                else:
                    o += line % ('', m, a, name, code)
            return o
        ways = [w for w in ('out', 'in') if (self.fout if w == 'out' else self.fin)]
        if self.first:
            ways.reverse()
        if self.split:
            return ['foreign_typemap!(\n%s);\n' % dirs(w) for w in ways]
        return ['foreign_typemap!(\n%s);\n' % ''.join(dirs(w) for w in ways)]

    def prim(self, way):
        b = self.base(way)
        return b.p if isinstance(b, Prim) else b.prim(way)

    @property
    def stmt(self):
        """Does its foreign code need statements of its own (C++)? Other conversions can not contain it."""
        if self.kind == 'chain':
            return any(b is not None and b.stmt for b in (self.bin, self.bout))
        return self.g.lang == 'cpp' and max(self.style[2:]) >= 4

    def support(self):
        k = self.k
        o = '#[derive(Debug)]\npub struct %s(pub i64);\n' % self.rust if self.rust == 'U%d' % k else ''
        rust = re.sub(r'&', "&'static ", self.rust)
        b = self.base_rust

        def mkb(way, e):
            x = self.base(way)
            return x.rmk(e) if isinstance(x, Rule) else '((%s) as %s)' % (e, b(way))

        def getb(way, e):
            x = self.base(way)
            return x.rget(e) if isinstance(x, Rule) else '(%s as i64)' % e
        if self.fout:
            o += 'pub fn out%d(x: %s) -> %s { crate::ev("r%dout"); let v = %s * 3 + %d; %s }\n' % (
                k, self.rust, b('out'), k, self.rget('x'), k % 5, mkb('out', 'v'))
        if self.fin:
            o += 'pub fn in%d(x: %s) -> %s { crate::ev("r%din"); let v = %s * 2 + %d; %s }\n' % (
                k, b('in'), rust, k, getb('in', 'x'), k % 7, self.rmk('v'))
        for way in ('out', 'in'):
            o += 'pub fn word%s%d(s: &str) { crate::ev(if s == "%s" { "m%d%s" } else { s }); }\n' % (
                way, k, self.word.replace('\\', '\\\\').replace('"', '\\"'), k, way)
        return o

    def cpp(self):
        """{file: text} of the foreign types and conversions: a file for each direction and one for the type."""
        if self.kind != 'ftype':
            return {}
        k, t, res = self.k, '', {}
        for way in ('in', 'out'):
            if not (self.fin if way == 'in' else self.fout):
                continue
            f = self.names[way == 'out']
            p = PRIM[self.prim(way)][0]
            if self.custom and not (way == 'out' and self.fin and self.names[0] == f):
                t += 'struct %s { %s v; };\n' % (f, p)
            get, mk = ('(%s)x.v' % p, 'mk%d(x)' % k) if self.custom else ('(%s)x' % p, '(%s)x' % f)
            o = ''
            if self.custom and way == 'out':
                o += 'inline %s mk%d(%s x) { %s y; y.v = (decltype(y.v))x; return y; }\n' % (f, k, p, f)
            if way == 'in':
                o += 'inline %s user_in%d(const %s &x) { vev("c%din"); return %s; }\n' % (p, k, f, k, get)
            else:
                o += 'inline %s user_out%d(%s x) { vev("c%dout"); return %s; }\n' % (f, k, p, k, mk)
            res['user_%s%d.hpp' % (way, k)] = '#include "user_type%d.hpp"\nnamespace vns {\n%s}\n' % (k, o)
        res['user_type%d.hpp' % k] = '#include "vev.hpp"\nnamespace vns {\n%s}\n' % t
        return res

    def java(self):
        """{file: text} of the foreign types and helpers."""
        if self.kind != 'ftype':
            return {}
        k, res, h = self.k, {}, ''
        for way in ('in', 'out'):
            if not (self.fin if way == 'in' else self.fout):
                continue
            f, p = self.names[way == 'out'], PRIM[self.prim(way)][1]
            get, mk = ('(%s)x.v' % p, 'new %s(x, 0)' % f) if self.custom else ('(%s)x' % p, '(%s)x' % f)
            if f == 'boolean':
                get, mk = '(%s)(x ? 1 : 0)' % p, 'x != 0'
            if way == 'in':
                h += '    public static %s in(%s x) { Ev.ev("c%din"); return %s; }\n' % (p, f, k, get)
            else:
                h += '    public static %s out(%s x) { Ev.ev("c%dout"); return %s; }\n' % (f, p, k, mk)
            if self.custom and f != 'User%d' % k:
                res[f] = 'public final class %s { public final %s v; public %s(%s v) { this.v = v; } %s(%s v, int z) { this.v = v; } }\n' % (f, p, f, p, f, p)
        fld = ''
        if self.custom and 'User%d' % k in self.names:
            p = PRIM[self.prim('in' if self.names[0] == 'User%d' % k and self.fin else 'out')][1]
            fld = '    public final %s v;\n    public User%d(%s v) { this.v = v; }\n    User%d(double v, int z) { this.v = (%s)v; }\n' % (p, k, p, k, p)
        res['User%d' % k] = 'public final class User%d {\n%s%s}\n' % (k, fld, h)
        return res

    # ---- foreign side of the driver
    def mk(self, lang, v):
        if self.kind == 'chain':
            return self.bin.mk(lang, v)
        p = PRIM[self.prim('in')]
        if not self.custom:
            return '(%s)%d' % (self.names[0], v)
        return '%s{ %s(%d) }' % (self.names[0], p[0], v) if lang == 'cpp' else 'new %s((%s)%d)' % (self.names[0], p[1], v)

    def get(self, lang, e):
        if self.kind == 'chain':
            return self.bout.get(lang, e)
        return '(long)(%s)' % e if not self.custom else '(long)(%s).v' % e

    def foreign(self, lang, way):
        if self.kind == 'chain':
            return self.base(way).foreign(lang, way)
        return self.names[way == 'out']


class Gen:
    """A user's generic type constructor."""
    kind = 'generic'

    def __init__(self, g, k):
        self.g, self.k, self.name, self.where = g, k, 'W%d' % k, None
        r = g.r
        self.split = r.random() < 0.3
        self.param = r.choice(['T', 'T', 'E', 'Inner'])
        self.word = r.choice(['a,b,,c', 'é – ü', 'let x = 1;', 'swig_i_type', '$', 'a, b  c'])
        # with a foreign template around the argument's foreign type, or handing the argument on as it is
        self.templ = g.lang == 'cpp' and r.random() < 0.7
        self.msg = r.random() < 0.5
        # without a prefix of its own each instance needs a foreign type of its own
        self.prefix = not self.templ or r.random() < 0.5

    def rules(self):
        k, t, w = self.k, self.param, self.name
        cpp = self.g.lang == 'cpp'
        um = {w: ', ' + uh(k, w) if cpp else '' for w in ('in', 'out')}
        m = ['crate::support::gword%d(%s, &format!("%s"));\n        ' % (k, x, self.word) if self.msg else '' for x in ('false', 'true')]
        pre = '' if not self.prefix else ', unique_prefix = "/*%s<swig_subst_type!(%s)>*/"' % (w, t)
        fn = ('User%d<swig_f_type!(%s)>' % (k, t) if self.templ else 'swig_f_type!(%s)' % t)
        if self.prefix:
            fn = '/*%s<swig_subst_type!(%s)>*/%s' % (w, t, fn)
        uo, ui = ('user_out%d(' % k, 'user_in%d(' % k) if cpp else ('', '')
        out = ('    ($p:r_type) <%s> %s<%s> => swig_i_type!(%s) {\n        %slet inner = crate::support::gout%d($p);\n'
               '        swig_from_rust_to_i_type!(%s, inner, ret)\n        $out = ret;\n    };\n' % (t, w, t, t, m[1], k, t)
               + '    ($p:f_type%s%s) => "%s" "%s";\n' % (um['out'], pre, fn, uo + 'swig_foreign_from_i_type!(%s, $p)' % t + (')' if uo else '')))
        if not cpp:
            return ['foreign_typemap!(\n%s);\n' % out]
        inn = ('    ($p:r_type) <%s> %s<%s> <= swig_i_type!(%s) {\n        %sswig_from_i_type_to_rust!(%s, $p, ret)\n'
               '        $out = crate::support::gin%d(ret);\n    };\n' % (t, w, t, t, m[0], t, k)
               + '    ($p:f_type%s%s) <= "%s" "swig_foreign_to_i_type!(%s, %s$p%s)";\n' % (um['in'], pre, fn, t, ui, ')' if ui else ''))
        if self.split:
            return ['foreign_typemap!(\n%s);\n' % out, 'foreign_typemap!(\n%s);\n' % inn]
        return ['foreign_typemap!(\n%s%s);\n' % (out, inn)]

    def support(self):
        k = self.k
        return ('pub struct %s<T>(pub T);\npub fn gout%d<T>(x: %s<T>) -> T { crate::ev("r%dout"); x.0 }\n'
                'pub fn gin%d<T>(x: T) -> %s<T> { crate::ev("r%din"); %s(x) }\n'
                'pub fn gword%d(out: bool, s: &str) { crate::ev(if s == "%s" { if out { "m%dout" } else { "m%din" } } else { s }); }\n'
                % (self.name, k, self.name, k, k, self.name, k, self.name, k, self.word, k, k))

    def cpp(self):
        k = self.k
        t = {}
        if self.templ:
            t['type'] = ('template<class T> struct User%d { T v; };\n'
                         'template<class T> User%d<T> mk_user%d(T x) { return User%d<T>{ std::move(x) }; }\n' % (k, k, k, k))
            t['out'] = 'template<class T> User%d<T> user_out%d(T x) { vev("c%dout"); return User%d<T>{ std::move(x) }; }\n' % (k, k, k, k)
            t['in'] = 'template<class T> T user_in%d(User%d<T> x) { vev("c%din"); return std::move(x.v); }\n' % (k, k, k)
        else:
            t['type'] = ''
            t['out'] = 'template<class T> T user_out%d(T x) { vev("c%dout"); return std::move(x); }\n' % (k, k)
            t['in'] = 'template<class T> T user_in%d(T x) { vev("c%din"); return std::move(x); }\n' % (k, k)
        return {'user_%s%d.hpp' % (w, k): '#include "%s"\nnamespace vns {\n%s}\n' % ('vev.hpp' if w == 'type' else 'user_type%d.hpp' % k, x) for w, x in t.items()}

    def java(self): return {}


class Inst:
    """Gen<T>."""
    kind = 'inst'

    def __init__(self, gen, inner):
        self.gen, self.inner = gen, inner
        self.rust = '%s<%s>' % (gen.name, inner.rust)
        self.fin = inner.fin and gen.g.lang == 'cpp'
        self.fout = inner.fout
        self.stmt = False

    def events(self, way):
        k = self.gen.k
        c = ['c%d%s' % (k, way)] if self.gen.g.lang == 'cpp' else []
        m = ['m%d%s' % (k, way)] if self.gen.msg else []
        i = self.inner.events(way)
        ic, ir = [x for x in i if x[0] == 'c'], [x for x in i if x[0] != 'c']
        if way == 'in':
            return c + ic + m + ir + ['r%din' % k]
        return m + ['r%dout' % k] + ir + ic + c

    def f(self, way, v): return self.inner.f(way, v)
    def rget(self, e): return self.inner.rget('%s.0' % e)
    def rmk(self, e): return '%s(%s)' % (self.gen.name, self.inner.rmk(e))

    def mk(self, lang, v):
        return ('mk_user%d(%s)' % (self.gen.k, self.inner.mk(lang, v))) if self.gen.templ else self.inner.mk(lang, v)

    def get(self, lang, e):
        return self.inner.get(lang, '(%s).v' % e if self.gen.templ else e)

    def foreign(self, lang, way):
        return 'User%d<%s>' % (self.gen.k, self.inner.foreign(lang, way)) if self.gen.templ else self.inner.foreign(lang, way)


class Duo:
    """A user's generic type of two parameters, with a C struct of its own for each pair of intermediate types (C++)."""
    kind = 'generic'

    def __init__(self, g, k):
        self.g, self.k, self.name = g, k, 'D%d' % k
        r = g.r
        self.ps = r.choice([('T1', 'T2'), ('A', 'B'), ('T', 'T1'), ('Left', 'Right')])
        self.word = r.choice(['a,b,,c', 'é – ü', 'let x = 1;', 'swig_i_type', '$', 'a, b  c'])
        self.msg = r.random() < 0.5
        self.lam = r.random() < 0.5

    def rules(self):
        k, (a, b), w = self.k, self.ps, self.name
        m = ['crate::support::gword%d(%s, &format!("%s"));\n        ' % (k, x, self.word) if self.msg else '' for x in ('false', 'true')]
        mods = lambda way: 'req_modules = ["\\"CDuo%dModule!().h\\"", "\\"user_%s%d.hpp\\""], unique_prefix = "/*%s<swig_subst_type!(%s),swig_subst_type!(%s)>*/"' % (k, way, k, w, a, b)
        fn = '/*%s<swig_subst_type!(%s),swig_subst_type!(%s)>*/User%d<swig_f_type!(%s), swig_f_type!(%s)>' % (w, a, b, k, a, b)
        o = ('    generic_alias!(CDuo%d = swig_concat_idents!(CDuo%d, swig_i_type!(%s), swig_i_type!(%s)));\n'
             '    generic_alias!(CDuo%dModule = swig_concat_idents!(duo_%d, swig_i_type!(%s), swig_i_type!(%s)));\n' % (k, k, a, b, k, k, a, b)
             + '    define_c_type!(\n        module = "CDuo%dModule!().h";\n        #[repr(C)]\n        #[derive(Clone, Copy)]\n'
             '        pub struct CDuo%d!() {\n            one: swig_i_type!(%s),\n            two: swig_i_type!(%s),\n        }\n    );\n' % (k, k, a, b))
        out = ('    ($p:r_type) <%s, %s> %s<%s, %s> => CDuo%d!() {\n        %slet (a, b) = crate::support::gout%d($p);\n'
               '        swig_from_rust_to_i_type!(%s, a, p0)\n        swig_from_rust_to_i_type!(%s, b, p1)\n'
               '        $out = CDuo%d!() { one: p0, two: p1 };\n    };\n' % (a, b, w, a, b, k, m[1], k, a, b, k))
        fout = ('    ($p:f_type, %s) => "%s" "user_out%d(swig_foreign_from_i_type!(%s, $p.one), swig_foreign_from_i_type!(%s, $p.two))";\n' % (mods('out'), fn, k, a, b))
        inn = ('    ($p:r_type) <%s, %s> %s<%s, %s> <= CDuo%d!() {\n        %s$out = {\n            let t = $p;\n            swig_from_i_type_to_rust!(%s, t.one, p0)\n'
               '            swig_from_i_type_to_rust!(%s, t.two, p1)\n            crate::support::gin%d(p0, p1)\n        };\n    };\n' % (a, b, w, a, b, k, m[0], a, b, k))
        fin = ('    ($p:f_type, %s) <= "%s" r#"[](User%d<swig_f_type!(%s), swig_f_type!(%s)> q) -> CDuo%d!() {\n            auto p = user_in%d(std::move(q));\n            CDuo%d!() o;\n'
               '            o.one = swig_foreign_to_i_type!(%s, p.one);\n            o.two = swig_foreign_to_i_type!(%s, p.two);\n            return o;\n        }(std::move($p))"#;\n'
               % (mods('in'), fn, k, a, b, k, k, k, a, b))
        return ['foreign_typemap!(\n%s);\n' % (o + out + (inn + fout if self.lam else fout + inn) + fin)]

    def support(self):
        k = self.k
        return ('pub struct %s<A, B>(pub A, pub B);\npub fn gout%d<A, B>(x: %s<A, B>) -> (A, B) { crate::ev("r%dout"); (x.0, x.1) }\n'
                'pub fn gin%d<A, B>(a: A, b: B) -> %s<A, B> { crate::ev("r%din"); %s(a, b) }\n'
                'pub fn gword%d(out: bool, s: &str) { crate::ev(if s == "%s" { if out { "m%dout" } else { "m%din" } } else { s }); }\n'
                % (self.name, k, self.name, k, k, self.name, k, self.name, k, self.word, k, k))

    def cpp(self):
        k = self.k
        t = {'type': 'template<class A, class B> struct User%d { A one; B two; };\n' % k,
             'out': 'template<class A, class B> User%d<A, B> user_out%d(A a, B b) { vev("c%dout"); return User%d<A, B>{ std::move(a), std::move(b) }; }\n' % (k, k, k, k),
             'in': 'template<class A, class B> User%d<A, B> user_in%d(User%d<A, B> x) { vev("c%din"); return x; }\n' % (k, k, k, k)}
        return {'user_%s%d.hpp' % (w, k): '#include "%s"\nnamespace vns {\n%s}\n' % ('vev.hpp' if w == 'type' else 'user_type%d.hpp' % k, x) for w, x in t.items()}

    def java(self): return {}


class Inst2:
    """Duo<A, B>: the value v stands for the elements v and v + 1, the value read from it is that of the first and three
    times that of the second."""
    kind = 'inst2'
    stmt = False

    def __init__(self, gen, a, b):
        self.gen, self.a, self.b = gen, a, b
        self.rust = '%s<%s, %s>' % (gen.name, a.rust, b.rust)
        self.fin, self.fout = a.fin and b.fin, a.fout and b.fout

    def events(self, way):
        k = self.gen.k
        m = ['m%d%s' % (k, way)] if self.gen.msg else []
        c, q = [], []
        for x in (self.a, self.b):
            c += [e for e in x.events(way) if e[0] == 'c']
            q += [e for e in x.events(way) if e[0] != 'c']
        return ['c%d%s' % (k, way)] + c + m + q + ['r%d%s' % (k, way)] if way == 'in' else m + ['r%d%s' % (k, way)] + q + c + ['c%d%s' % (k, way)]

    def f(self, way, v): return self.a.f(way, v) + 3 * self.b.f(way, v + 1)
    def rget(self, e): return '{ let q = %s; (%s) + 3 * (%s) }' % (e, self.a.rget('q.0'), self.b.rget('q.1'))
    def rmk(self, e): return '{ let q: i64 = %s; %s(%s, %s) }' % (e, self.gen.name, self.a.rmk('q'), self.b.rmk('(q + 1)'))
    def mk(self, lang, v): return '%s{ %s, %s }' % (self.foreign(lang, 'in'), self.a.mk(lang, v), self.b.mk(lang, v + 1))
    def get(self, lang, e): return '(%s + 3 * %s)' % (self.a.get(lang, '(%s).one' % e), self.b.get(lang, '(%s).two' % e))
    def foreign(self, lang, way): return 'User%d<%s, %s>' % (self.gen.k, self.a.foreign(lang, way), self.b.foreign(lang, way))


class Builtin:
    """A built-in container around a user's type (C++)."""
    kind = 'builtin'

    def __init__(self, name, inner):
        self.name, self.inner, self.fin, self.fout, self.stmt = name, inner, inner.fin, inner.fout, False
        self.rust = '%s<%s>' % (name, inner.rust) if name == 'Option' else '(%s, i8)' % inner.rust

    def events(self, way): return self.inner.events(way)
    def f(self, way, v): return self.inner.f(way, v)
    def rget(self, e): return '{ let q = %s; %s }' % (e, self.inner.rget('q.unwrap()' if self.name == 'Option' else 'q.0'))
    def rmk(self, e): return ('Some(%s)' if self.name == 'Option' else '(%s, 7)') % self.inner.rmk(e)

    def mk(self, lang, v):
        i = self.inner.mk(lang, v)
        return 'std::optional<%s>(%s)' % (self.inner.foreign(lang, 'in'), i) if self.name == 'Option' else 'std::make_pair(%s, int8_t(7))' % i

    def get(self, lang, e): return self.inner.get(lang, '(*(%s))' % e if self.name == 'Option' else '(%s).first' % e)

    def foreign(self, lang, way):
        i = self.inner.foreign(lang, way)
        return 'std::optional<%s>' % i if self.name == 'Option' else 'std::pair<%s, int8_t>' % i


# built-in types a user may map: (rust, i64 of a value, value of an i64, ways)
OVER = {
    'cpp': [('String', '%s.parse::<i64>().unwrap()', '(%s).to_string()', 'io'),
            ('std::time::Duration', '(%s.as_secs() as i64)', 'std::time::Duration::from_secs((%s) as u64)', 'io'),
            ('Vec<i32>', '(%s[0] as i64)', 'vec![(%s) as i32]', 'io'), ('Vec<u8>', '(%s.len() as i64)', 'vec![0u8; (%s) as usize]', 'io'),
            ('Option<i32>', '(%s.unwrap() as i64)', 'Some((%s) as i32)', 'io'),
            ('(i32, i32)', '(%s.0 as i64)', '((%s) as i32, 0)', 'io'), ('Option<String>', '%s.unwrap().parse::<i64>().unwrap()', 'Some((%s).to_string())', 'io'),
            ('char', '(%s as i64)', 'char::from_u32((%s) as u32).unwrap()', 'io')],
    'java': [('bool', '(%s as i64)', '(((%s) & 1) != 0)', 'b'), ('u64', '(%s as i64)', '((%s) as u64)', 'io'),
             ('usize', '(%s as i64)', '((%s) as usize)', 'io'), ('u8', '(%s as i64)', '((%s) as u8)', 'b'),
             ('String', '%s.parse::<i64>().unwrap()', '(%s).to_string()', 'io'),
             ('std::time::SystemTime', '(%s.duration_since(std::time::SystemTime::UNIX_EPOCH).unwrap().as_secs() as i64)',
              '(std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs((%s) as u64))', 'i'),
             ('Vec<i32>', '(%s[0] as i64)', 'vec![(%s) as i32]', 'io'), ('Vec<u8>', '(%s.len() as i64)', 'vec![0u8; (%s) as usize]', 'io'),
             ('Option<i32>', '(%s.unwrap() as i64)', 'Some((%s) as i32)', 'i'),
             ('Option<String>', '%s.unwrap().parse::<i64>().unwrap()', 'Some((%s).to_string())', 'i'),
             ('char', '(%s as i64)', 'char::from_u32((%s) as u32).unwrap()', 'io')],
}
# primitives mapped again under the foreign name they have anyway
# (Java's int and long stand for several Rust types each: not those)
SAME = {'cpp': {'i32': 'int32_t', 'f64': 'double', 'i64': 'int64_t'}, 'java': {'f64': 'double'}}


class Prog:
    def __init__(self, i, r, lang):
        self.i, self.r, self.lang = i, r, lang
        self.dir = vlib.fresh_dir('g07', 'p%d' % i)
        self.options = (('CppStrView::Std17', 'CppStrView::Boost'), ('CppOptional::Std17', 'CppOptional::Boost'))[r.randrange(2)] if lang == 'cpp' else ('NoNullAnnotations', 'NullAnnotations')
        self.decls = []          # rules and generics
        self.types = []
        prims = list(PRIM)
        k = 0
        same = {}
        if r.random() < 0.4:
            p = r.choice(sorted(SAME[lang]))
            prims.remove(p)
            same[p] = None
        self.base_prims = [Prim(p) for p in prims]
        bp = lambda: r.choice(self.base_prims)
        for p in same:
            k += 1
            n = SAME[lang][p]
            x = Rule(self, k, 'ftype', bp(), bp(), p, '(%s as i64)', '((%%s) as %s)' % p, names=(n, n))
            self.decls.append(x)
            self.types.append(x)
            same[p] = x
        self.prims = [same.get(p) or Prim(p) for p in PRIM]
        for rust, get, mk, ways in r.sample(OVER[lang], r.randrange(0, 4)):
            if ways == 'b':
                continue
            k += 1
            x = Rule(self, k, 'ftype', bp(), bp(), rust, get, mk, fout='o' in ways)
            self.decls.append(x)
            self.types.append(x)
        own = []
        for _ in range(r.randrange(1, 6)):
            k += 1
            kind = r.choice(['chain', 'ftype', 'ftype'])

            def base(way):
                c = [x for x in own if getattr(x, 'f' + way)]
                return r.choice(c) if kind == 'chain' and c and r.random() < 0.6 else bp()
            fin, fout = r.choice([(True, True)] * 4 + [(True, False), (False, True)])
            names = None
            x = Rule(self, k, kind, base('in'), base('out'), 'U%d' % k, '%s.0', 'U%d(%%s)' % k, fin, fout)
            # an edge serves both directions: it must not be as short as the path of the type it is based on
            if fin and fout:
                if isinstance(x.bin, Rule) and x.bin.fout and x.bin.length('out') >= 1 + x.length('out'):
                    x.bin = bp()
                if isinstance(x.bout, Rule) and x.bout.fin and x.bout.length('in') >= 1 + x.length('in'):
                    x.bout = bp()
            if kind == 'ftype' and fin and fout and (r.random() < 0.25 or x.prim('in') != x.prim('out')):
                x.names = ('User%di' % k, 'User%d' % k)
                x.split = True
            own.append(x)
            self.decls.append(x)
            self.types.append(x)
        inner = [x for x in self.types + self.prims if not x.stmt]
        insts = []
        for _ in range(r.randrange(0, 3)):
            k += 1
            g = Gen(self, k)
            self.decls.append(g)
            for _ in range(r.randrange(1, 4)):
                x = r.choice(inner)
                if x.rust not in [y.inner.rust for y in insts if y.gen is g] and (lang == 'cpp' or x.fout):
                    x = Inst(g, x)
                    if not g.prefix and any(w.foreign(lang, d) == x.foreign(lang, d) for w in insts for d in ('in', 'out') if getattr(w.inner, 'f' + d) and getattr(x.inner, 'f' + d)):
                        continue
                    insts.append(x)
                    if lang == 'cpp':
                        inner.append(x)
        if lang == 'cpp' and r.random() < 0.4:
            k += 1
            g = Duo(self, k)
            self.decls.append(g)
            seen = set()
            for _ in range(r.randrange(1, 3)):
                a, b = r.choice(inner), r.choice(inner)
                x = Inst2(g, a, b)
                if (x.fin or x.fout) and x.rust not in seen:
                    seen.add(x.rust)
                    insts.append(x)
        self.types += insts
        if lang == 'cpp':
            f = [x for x in self.types if x.kind in ('ftype',) and x.custom and x.fin and x.fout and x.names[0] == x.names[1] and re.match(r'U\d', x.rust) and not x.stmt]
            for x in r.sample(f, min(len(f), r.randrange(0, 3))):
                self.types.append(Builtin(r.choice(['Option', 'pair']), x))
        # types no class uses
        self.unused = set(r.sample(range(len(self.types)), r.randrange(0, 2)))
        self.use = [x for j, x in enumerate(self.types) if j not in self.unused]
        self.want, self.n = {}, 0
        self.place()
        self.write()

    def place(self):
        """Which rule is in the source and which in a file of its own."""
        r = self.r
        texts = []
        for d in self.decls:
            texts += [(t, d) for t in d.rules()]
        r.shuffle(texts)
        self.src_rules, files = [], {}
        for t, d in texts:
            w = r.choice(['src', 'src', 'tm1', 'tm2'])
            if w == 'src':
                self.src_rules.append(t)
            else:
                files.setdefault(w, []).append(t)
        self.files = files

    def arg(self, ways=('in',)):
        c = [x for x in self.use if all(getattr(x, 'f' + w) for w in ways)]
        return self.r.choice(c) if c and self.r.random() < 0.8 else self.r.choice(self.prims)

    def write(self):
        r, lang = self.r, self.lang
        sup = ''.join(d.support() for d in self.decls)
        src = 'use crate::support::*;\n' + ''.join(self.src_rules) + '//rules-end\n'
        self.m = []
        # callbacks
        self.cbs = []
        ncb = r.randrange(0, 2) if lang == 'java' else r.randrange(0, 3)
        for c in range(ncb):
            ms = []
            for _ in range(r.randrange(1, 3)):
                self.n += 1
                if lang == 'java':
                    ok = [Prim(p.p) for p in self.base_prims] + [x for x in self.use if isinstance(x, Rule) and x.kind == 'chain' and x.fout and False]
                    args, ret = [r.choice(ok) for _ in range(r.randrange(1, 3))], r.choice(ok)
                else:
                    args, ret = [self.arg(('out',)) for _ in range(r.randrange(1, 4))], self.arg(('in',))
                    args = [a for a in args if a.kind != 'builtin'] if False else args
                ms.append((self.n, args, ret))
            self.cbs.append(ms)
            name = 'Cb%d' % c
            src += 'foreign_callback!(callback %s {\n    self_type crate::support::%s;\n' % (name, name)
            sup += 'pub trait %s {\n' % name
            for n, args, ret in ms:
                sig = 'm%d(&self, %s) -> %s' % (n, ', '.join('x%d: %s' % (j, a.rust) for j, a in enumerate(args)), ret.rust)
                src += '    m%d = %s::%s;\n' % (n, name, sig)
                sup += '    fn %s;\n' % sig
            src += '});\n'
            sup += '}\n'
        for c in range(r.randrange(1, 3)):
            name = 'K%d' % c
            ms = []
            src += 'foreign_class!(class %s {\n' % name
            inst = r.random() < 0.6
            if inst:
                a = self.arg()
                self.n += 1
                src += '    self_type crate::support::%s;\n    constructor crate::support::%s::new(x: %s) -> crate::support::%s;\n' % (name, name, a.rust, name)
                sup += 'pub struct %s(pub i64);\nimpl %s {\n    pub fn new(x: %s) -> %s { let g = %s; crate::hit(%d, &format!("{}", g)); %s(g) }\n' % (
                    name, name, a.rust, name, a.rget('x'), self.n, name)
                ms.append(('ctor', self.n, [a], None))
            else:
                sup += 'pub struct %s(pub i64);\nimpl %s {\n' % (name, name)
            imp = ''
            for _ in range(r.randrange(3, 8)):
                self.n += 1
                n = self.n
                kind = r.choice(['id', 'in', 'out', 'res'] + (['cb', 'cb'] if self.cbs else []))
                this = inst and r.random() < 0.4
                slf, call = ('&self, ', '') if this else ('', '')
                if kind == 'cb':
                    ci = r.randrange(len(self.cbs))
                    cn, cargs, cret = r.choice(self.cbs[ci])
                    src += '    fn %s::c%d(%scb: Box<dyn crate::support::Cb%d>, %s) -> i16;\n'.replace('i16', self.plain().rust) % (
                        name, n, slf, ci, ', '.join('v%d: %s' % (j, self.plain().rust) for j in range(len(cargs))))
                    pl = self.plain()
                    imp += '    pub fn c%d(%scb: Box<dyn Cb%d>, %s) -> %s {\n        crate::hit(%d, "");\n        let q = cb.m%d(%s);\n        let g = %s;\n        crate::hit(%d, &format!("{}", g));\n        %s\n    }\n' % (
                        n, slf, ci, ', '.join('v%d: %s' % (j, pl.rust) for j in range(len(cargs))), pl.rust, n, cn,
                        ', '.join(a.rmk(pl.rget('v%d' % j)) for j, a in enumerate(cargs)), cret.rget('q'), n, pl.rmk('g'))
                    ms.append(('cb', n, [ci, cn, cargs, cret, this], None))
                    continue
                if kind == 'id':
                    args = [self.arg(('in', 'out'))]
                    ret = args[0]
                elif kind == 'in':
                    args, ret = [self.arg() for _ in range(r.randrange(1, 4))], self.plain()
                else:
                    args, ret = [self.plain()], self.arg(('out',))
                if lang == 'cpp' and kind == 'res' and (not (ret.kind == 'ftype' and ret.custom and ret.rust != 'String' and not ret.stmt) or any(x.rust == 'String' and x.stmt for x in self.types)):
                    kind = 'out'
                rt = ret.rust if kind != 'res' else 'Result<%s, String>' % ret.rust
                if lang == 'java' and kind == 'res' and ret.kind == 'inst':
                    kind, rt = 'out', ret.rust
                src += '    fn %s::f%d(%s%s) -> %s;\n' % (name, n, slf, ', '.join('x%d: %s' % (j, a.rust) for j, a in enumerate(args)), rt)
                imp += '    pub fn f%d(%s%s) -> %s {\n' % (n, slf, ', '.join('x%d: %s' % (j, a.rust) for j, a in enumerate(args)), rt.replace('&', "&'static "))
                for j, a in enumerate(args):
                    imp += '        let g%d: i64 = %s;\n' % (j, a.rget('x%d' % j))
                imp += '        crate::hit(%d, &format!("%s"%s));\n' % (n, ' '.join('{}' for _ in args), ''.join(', g%d' % j for j in range(len(args))))
                e = ret.rmk('g0 + 1' if kind == 'id' else '+'.join('g%d' % j for j in range(len(args))))
                if kind == 'res':
                    e = 'if g0 % 5 == 4 { Err("7".to_string()) } else { Ok(' + e + ') }'
                imp += '        %s\n    }\n' % e
                ms.append((kind, n, args, ret, this))
            sup += imp.replace('%%', '%') + '}\n'
            src += '});\n'
            src = src.replace('fn %s::' % name, 'fn crate::support::%s::' % name)
            self.m.append((name, inst, ms))
        self.sup = sup
        # a class that nothing of this concerns
        mapped = {x.rust for x in self.decls if isinstance(x, Rule)}
        self.control = control(lang, mapped)
        src += self.control
        self.src_text = src
        vlib.write(self.dir + '/src.rs.in', src)
        self.tm = []
        for w in sorted(self.files):
            vlib.write('%s/%s.rs' % (self.dir, w), ''.join(self.files[w]))
            self.tm.append('%s=%s/%s.rs' % (w, self.dir, w))
        self.job = self.mkjob('out', self.tm)

    def plain(self):
        """A primitive for the method's own use (with the rule if there is one)."""
        return self.prims[2]

    def mkjob(self, out, tm, src='src.rs.in'):
        d = '%s/%s' % (self.dir, out)
        os.makedirs(d, exist_ok=True)
        a = ['--lang', self.lang, '--out', d, '--ns', NS[self.lang], '--dst', '%s/%s.rs' % (self.dir, out), '--src', '%s/%s' % (self.dir, src)]
        for t in tm:
            a += ['--typemap', t]
        return a

    # ---- running
    def expect(self, n, args, way, vals):
        evs = [a.events(way) for a in args]
        return evs, [a.f(way, v) for a, v in zip(args, vals)]

    def plan(self, what):
        """Driver statements and, per call, (events by argument, exact line) segments."""
        r, lang = self.r, self.lang
        st, want = [], []
        semi = '\n    '
        for name, inst, ms in self.m:
            obj = 'o%s' % name
            cn = name
            for m in ms:
                kind, n = m[0], m[1]
                for _ in range(1 if kind == 'ctor' else 2):
                    want.append(('L', 'C %d' % n))
                    st.append(self.say('"C %d"' % n))
                    if kind == 'ctor':
                        a, v = m[2][0], r.randrange(0, 20)
                        want.append(('E', [a.events('in')]))
                        want.append(('L', 'H %d %d' % (n, a.f('in', v))))
                        st.append(('%s %s(%s);' if lang == 'cpp' else '%s %s = new %s(%%s);' % (cn, obj, cn)) % ((cn, obj, a.mk(lang, v)) if lang == 'cpp' else a.mk(lang, v)))
                        continue
                    if kind == 'cb':
                        ci, cnn, cargs, cret, this = m[2]
                        pl = self.plain()
                        vals = [r.randrange(0, 20) for _ in cargs]
                        rv = r.randrange(0, 20)
                        want.append(('E', [pl.events('in')] * len(cargs)))
                        want.append(('L', 'H %d ' % n))
                        got = [pl.f('in', v) for v in vals]
                        want.append(('E', [a.events('out') for a in cargs]))
                        want.append(('L', 'B %d %s' % (cnn, ' '.join(str(a.f('out', v)) for a, v in zip(cargs, got)))))
                        want.append(('E', [cret.events('in')]))
                        q = cret.f('in', rv)
                        want.append(('L', 'H %d %d' % (n, q)))
                        want.append(('E', [pl.events('out')]))
                        want.append(('L', 'R %d %d' % (n, pl.f('out', q))))
                        w = ('%s.' % obj if this else cn + ('::' if lang == 'cpp' else '.')) + 'c%d' % n
                        cb = 'std::unique_ptr<Cb%d>(new MyCb%d(%d))' % (ci, ci, rv) if lang == 'cpp' else 'new MyCb%d(%d)' % (ci, rv)
                        e = '%s(%s)' % (w, ', '.join([cb] + [pl.mk(lang, v) for v in vals]))
                        st.append('{ auto q = %s; R(%d, %s); }' % (e, n, pl.get(lang, 'q')) if lang == 'cpp' else '{ var q = %s; R(%d, %s); }' % (e, n, pl.get(lang, 'q')))
                        continue
                    args, ret, this = m[2], m[3], m[4]
                    vals = [r.randrange(0, 20) for _ in args]
                    if kind == 'res':
                        vals = [r.choice([vals[0], 4])]
                    w = ('%s.' % obj if this else cn + ('::' if lang == 'cpp' else '.')) + 'f%d' % n
                    e = '%s(%s)' % (w, ', '.join(a.mk(lang, v) for a, v in zip(args, vals)))
                    want.append(('E', [a.events('in') for a in args]))
                    got = [a.f('in', v) for a, v in zip(args, vals)]
                    want.append(('L', 'H %d %s' % (n, ' '.join(map(str, got)))))
                    rv = got[0] + 1 if kind == 'id' else sum(got)
                    if kind == 'res' and got[0] % 5 == 4:
                        st_ = [x for x in self.decls if getattr(x, 'rust', '') == 'String'] if lang == 'cpp' else []
                        want.append(('E', [x.events('out') for x in st_]))
                        want.append(('L', 'R %d -1' % n))
                    else:
                        want.append(('E', [ret.events('out')]))
                        want.append(('L', 'R %d %d' % (n, ret.f('out', rv))))
                    if kind != 'res':
                        st.append('{ %s q = %s; R(%d, %s); }' % ('auto' if lang == 'cpp' else 'var', e, n, ret.get(lang, 'q')))
                    elif lang == 'cpp':
                        st.append('{ auto q0 = %s; if (q0.index() == 0) { auto &q = std::get<0>(q0); R(%d, %s); } else R(%d, -1); }' % (e, n, ret.get(lang, 'q'), n))
                    else:
                        st.append('try { var q = %s; R(%d, %s); } catch (Exception ex) { R(%d, -1); }' % (e, n, ret.get(lang, 'q'), n))
        self.want[what] = want
        return semi.join(st)

    def shapes(self):
        o = set()

        def kind(x):
            if x.kind == 'inst2':
                return 'inst2(%s, %s)' % (kind(x.a), kind(x.b))
            return '%s(%s)' % (x.kind, kind(x.inner)) if hasattr(x, 'inner') else x.kind + ('' if x.kind == 'prim' or x.rust.startswith('U') else ' ' + x.rust)
        for name, inst, ms in self.m:
            for m in ms:
                if m[0] == 'cb':
                    o.add((self.lang, 'cb') + tuple(sorted(map(kind, m[2][2]))) + ('->', kind(m[2][3])))
                else:
                    o.add((self.lang, m[0]) + tuple(sorted(map(kind, m[2]))) + ('->', kind(m[3]) if m[3] else ''))
        return o

    def say(self, s):
        return 'say(%s);' % s

    def build(self, what):
        lang = self.lang
        d = '%s/run_%s' % (self.dir, what)
        gen = '%s/%s' % (self.dir, what)
        os.makedirs(d, exist_ok=True)
        body = self.plan(what)
        ev = 'pub fn ev(s: &str) { use std::io::Write; let mut o = std::io::stdout().lock(); writeln!(o, "E {}", s).unwrap(); o.flush().unwrap(); }\n'
        sup = (self.sup if lang == 'cpp' else 'use crate::jni_c_header::*;\n' + self.sup) + 'pub struct Control;\n' + CONTROL_RS
        vlib.write(d + '/lib.rs', tgt.lib_rs(lang, gen + '.rs', sup, extra=ev, hit=tgt.HIT_OUT))
        if lang == 'cpp':
            tgt.rust_check('cpp', d + '/lib.rs', d + '/libvns.a', metadata=False)
            vlib.write(d + '/user/vev.hpp', '#pragma once\n#include <cstdio>\n#include <cstdint>\n#include <utility>\n'
                       'inline void vev(const char *s) { std::printf("E %s\\n", s); std::fflush(stdout); }\n')
            for x in self.decls:
                for f, t in x.cpp().items():
                    vlib.write('%s/user/%s' % (d, f), '#pragma once\n' + t)
            o = '#include <optional>\n#include <variant>\n#include <memory>\n'
            o += ''.join('#include "%s"\n' % h for h in sorted(os.listdir(gen)) if h.endswith('.hpp') and not h.startswith('rust_'))
            o += 'using namespace vns;\nstatic void say(const char *s) { std::printf("%s\\n", s); std::fflush(stdout); }\n'
            o += 'static void R(int n, long long v) { std::printf("R %d %lld\\n", n, v); std::fflush(stdout); }\n'
            for c, ms in enumerate(self.cbs):
                o += 'struct MyCb%d : Cb%d { int rv; MyCb%d(int v) : rv(v) {}\n' % (c, c, c)
                for n, args, ret in ms:
                    o += '  %s m%d(%s) const noexcept override { std::printf("B %d%s\\n"%s); std::fflush(stdout); return %s; }\n' % (
                        ret.foreign('cpp', 'in'), n, ', '.join('%s x%d' % (a.foreign('cpp', 'out'), j) for j, a in enumerate(args)), n,
                        ' %lld' * len(args), ''.join(', (long long)%s' % a.get('cpp', 'x%d' % j) for j, a in enumerate(args)),
                        ret.mk('cpp', 777).replace('777', 'rv').replace('778', '(rv + 1)'))
                o += '};\n'
            o += 'int main() {\n    %s\n    say("end");\n}\n' % body
            vlib.write(d + '/main.cpp', o)
            x = vlib.run(['clang++', '-std=c++17', '-O0', '-w', '-I', gen, '-I', d + '/user', d + '/main.cpp', d + '/libvns.a', '-lpthread', '-ldl', '-o', d + '/main'])
            if x.returncode != 0:
                raise vlib.BuildFailure('generated C++ headers', x.stderr[:3000])
            return [d + '/main']
        tgt.rust_check('java', d + '/lib.rs', d + '/libvns.so', metadata=False)
        j = gen
        pk = 'package org.vh;\n'
        vlib.write(j + '/Ev.java', pk + 'public class Ev { public static void ev(String s) { System.out.println("E " + s); System.out.flush(); } }\n')
        for x in self.decls:
            for f, t in x.java().items():
                vlib.write('%s/%s.java' % (j, f), pk + t)
        o = pk + 'public class Main {\n  static void say(String s) { System.out.println(s); System.out.flush(); }\n  static void R(int n, long v) { System.out.println("R " + n + " " + v); System.out.flush(); }\n'
        for c, ms in enumerate(self.cbs):
            o += '  static class MyCb%d implements Cb%d { int rv; MyCb%d(int v) { rv = v; }\n' % (c, c, c)
            for n, args, ret in ms:
                o += '    public %s m%d(%s) { say("B %d"%s); return (%s)rv; }\n' % (
                    ret.foreign('java', 'in'), n, ', '.join('%s x%d' % (a.foreign('java', 'out'), i) for i, a in enumerate(args)), n,
                    ''.join(' + " " + %s' % a.get('java', 'x%d' % i) for i, a in enumerate(args)), ret.foreign('java', 'in'))
            o += '  }\n'
        o += '  public static void main(String[] z) throws Exception {\n    System.load("%s/libvns.so");\n    %s\n    say("end");\n  }\n}\n' % (d, body)
        vlib.write(j + '/Main.java', o)
        tgt.javac([os.path.join(j, f) for f in sorted(os.listdir(j)) if f.endswith('.java')], d + '/cls')
        return [vlib.JAVA_HOME + '/bin/java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-XX:+UseSerialGC', '-Xcheck:jni', '-cp', d + '/cls', 'org.vh.Main']


CONTROL_RS = '''impl Control {
    pub fn c1(x: i8, y: u8, z: u16) -> u32 { 0 }
    pub fn c2(x: f32, b: bool) -> bool { b }
    pub fn c3(x: &str) -> i8 { 0 }
    pub fn c4(x: String) -> String { x }
    pub fn c5(x: u32) -> Result<u32, String> { Ok(x) }
    pub fn c6() -> Vec<u16> { vec![] }
    pub fn c7(x: Option<f32>) -> Option<f32> { x }
    pub fn c8(x: &[f32]) -> u32 { 0 }
}
'''
CONTROL = {
    'c1(x: i8, y: u8, z: u16) -> u32': (), 'c2(x: f32, b: bool) -> bool': ('bool',), 'c3(x: &str) -> i8': ('String',), 'c4(x: String) -> String': ('String',),
    'c5(x: u32) -> Result<u32, String>': ('String',), 'c6() -> Vec<u16>': ('java',), 'c7(x: Option<f32>) -> Option<f32>': ('java',), 'c8(x: &[f32]) -> u32': (),
}


def control(lang, mapped):
    o = 'foreign_class!(class Control {\n'
    for s, no in CONTROL.items():
        if lang not in no and not any(x in mapped for x in no):
            o += '    fn crate::support::Control::%s;\n' % s
    return o + '});\n'


def judge(want, lines):
    """None, or what differs: between two exact lines the reports of the conversions, in any order between
    different arguments, in the given order for each of them."""
    i = 0
    for j, (k, w) in enumerate(want):
        if k == 'L':
            if i >= len(lines) or lines[i].rstrip() != w.rstrip():
                return 'expected "%s", observed %s' % (w, lines[i:i + 3])
            i += 1
            continue
        n = i
        while n < len(lines) and lines[n].startswith('E '):
            n += 1
        got = [l[2:] for l in lines[i:n]]
        flat = sorted(sum(w, []))
        if sorted(got) != flat:
            return 'expected the conversions %s, observed %s' % (w, got)
        for c in w:
            q = iter(got)
            if not all(x in q for x in c):
                return 'expected the order %s, observed %s' % (c, got)
        i = n
    if lines[i:] != ['end']:
        return 'expected the end, observed %s' % lines[i:i + 3]


MATRIX = {
    'cpp': [('bool', 'bool'), ('i32', 'int32_t'), ('u64', 'uint64_t'), ('f64', 'double'), ('usize', 'uintptr_t'), ('String', 'RustString'),
            ('&str', 'std::string_view'), ('std::time::Duration', 'std::chrono::duration<int>'), ('Vec<i32>', 'RustVecI32'), ('Vec<u8>', 'RustVecU8'),
            ('Option<i32>', 'std::optional<int32_t>'), ('(i32, i32)', 'std::pair<int32_t, int32_t>'), ('Option<String>', 'std::optional<RustString>'),
            ('char', 'char32_t'), ('&[i32]', 'RustSliceI32')],
    'java': [('bool', 'boolean'), ('i32', 'int'), ('u64', 'long'), ('f64', 'double'), ('usize', 'long'), ('String', 'String'), ('&str', 'String'),
             ('std::time::SystemTime', 'java.util.Date'), ('Vec<i32>', 'int []'), ('Vec<u8>', 'byte []'), ('Option<i32>', 'java.util.OptionalInt'),
             ('Option<String>', 'java.util.Optional<String>'), ('char', 'char'), ('&[i32]', 'int []')]}
AT = re.compile(r'^(?:At|Error at) |\.rs\.in:\d+:\d+', re.M)
FOO = 'foreign_class!(class Foo { self_type Foo; constructor Foo::new() -> Foo; });\nforeign_enum!(enum En { A = En::A, B = En::B, });\n'
GEN = """foreign_typemap!(
    ($p:r_type) <T%s> G<T> => T { $out = crate::support::%s($p); };
);
"""


def corners():
    """(label, language, text, what is wanted: function of (declarations, Rust code) or None for a located rejection,
    may it be rejected?)."""
    out = []
    for lang, ts in MATRIX.items():
        i = 'i16' if lang == 'cpp' else 'jshort'
        for t, f in ts:
            for fn in ('UserB', f):
                for way, a in (('out', '=>'), ('in', '<=')):
                    code = 'user_%s1($p)' % way if lang == 'cpp' else '$out = User.%s($p);' % way
                    s = 'foreign_typemap!(\n    ($p:r_type) %s %s %s { $out = crate::support::%s1($p); };\n    ($p:f_type) %s "%s" "%s";\n);\n' % (t, a, i, way, a, fn, code)
                    s += 'foreign_class!(class K { fn a(%s)%s; });\n' % (('x: ' + t, '') if way == 'in' else ('', ' -> ' + t))
                    m = ('user_%s1(' if lang == 'cpp' else 'User.%s(') % way
                    out.append(('%s: own mapping of %s as %s, %s' % (lang, t, fn, 'result' if way == 'out' else 'argument'), lang, s,
                                lambda d, g, m=m, way=way: m in d and re.search(r'support\s*::\s*%s1' % way, g), True))
                    if t == 'String' and fn == 'UserB':
                        on, off = ('CppOptional::Std17', 'CppOptional::Boost') if lang == 'cpp' else ('NoNullAnnotations', 'NullAnnotations')
                        s = s.replace('    ($p:f_type)', '    ($p:f_type, option = "%s") %s "Wrong" "wrong";\n    ($p:f_type, option = "%s")' % (off, a, on))
                        out.append(('%s: own mapping of %s by option, %s' % (lang, t, 'result' if way == 'out' else 'argument'), lang, s, out[-1][3], True))
        # the foreign type is that of the intermediate type: no way to convert it
        pf = 'int32_t' if lang == 'cpp' else 'int'
        for way, a in (('out', '=>'), ('in', '<=')):
            s = 'foreign_typemap!(\n    ($p:r_type) MyId %s %s { $out = 1; };\n    ($p:f_type) %s "%s" "%s";\n);\n' % (
                a, 'i32' if lang == 'cpp' else 'jint', a, pf, 'user_x($p)' if lang == 'cpp' else '$out = User.x($p);')
            s += 'foreign_class!(class K { fn a(%s)%s; });\n' % (('x: MyId', '') if way == 'in' else ('', ' -> MyId'))
            out.append(('%s: foreign type of its own intermediate type, %s' % (lang, way), lang, s, None, True))
        # the bounds of a generic rule
        for bound, ty, ok in (('SwigForeignClass', 'Foo', True), ('SwigForeignEnum', 'En', True), ('SwigForeignClass', 'i32', False), ('SwigForeignEnum', 'i32', False),
                              ('SwigForeignClass', 'En', False), ('SwigForeignEnum', 'Foo', False)):
            s = FOO + GEN % (': ' + bound, 'g1') + 'foreign_class!(class K { fn a() -> G<%s>; });\n' % ty
            f = (lambda d, g: re.search(r'support\s*::\s*g1', g)) if ok else None
            out.append(('%s: rule for T: %s used for G<%s>' % (lang, bound, ty), lang, s, f, not (ok and (lang, ty) != ('java', 'En'))))
        for ty, fn in (('Foo', 'g1'), ('En', 'g2')):
            s = FOO + GEN % (': SwigForeignClass', 'g1') + GEN % (': SwigForeignEnum', 'g2') + 'foreign_class!(class K { fn a() -> G<%s>; });\n' % ty
            out.append(('%s: of two rules with different bounds, G<%s>' % (lang, ty), lang, s,
                        lambda d, g, fn=fn: re.search(r'support\s*::\s*' + fn, g) and not re.search(r'support\s*::\s*' + {'g1': 'g2', 'g2': 'g1'}[fn], g), lang == 'java' and ty == 'En'))
        # ... and of one with two parameters
        for b1, b2, t1, t2, ok in (('SwigForeignClass', 'SwigForeignEnum', 'Foo', 'En', True), ('SwigForeignClass', 'SwigForeignEnum', 'En', 'Foo', False),
                                   ('SwigForeignClass', 'SwigForeignEnum', 'Foo', 'Foo', False), ('SwigForeignClass', 'SwigForeignEnum', 'En', 'En', False),
                                   ('SwigForeignClass', 'SwigForeignClass', 'Foo', 'i32', False), ('SwigForeignEnum', 'SwigForeignClass', 'i32', 'Foo', False)):
            for ft in ('', '    ($p:f_type, unique_prefix = "/*G*/") => "/*G*/UserG" "%s";\n' % ('user_g($p)' if lang == 'cpp' else '$out = User.g($p);')):
                rule = 'foreign_typemap!(\n    ($p:r_type) <A: %s, B: %s> G<A, B> => i32 { $out = crate::support::g1($p); };\n%s);\n'.replace('i32', 'i32' if lang == 'cpp' else 'jint') % (b1, b2, ft)
                s = FOO + rule + 'foreign_class!(class K { fn a() -> G<%s, %s>; });\n' % (t1, t2)
                f = (lambda d, g: re.search(r'support\s*::\s*g1', g)) if ok else None
                out.append(('%s: rule for A: %s, B: %s used for G<%s, %s>%s' % (lang, b1, b2, t1, t2, ' with a foreign type' if ft else ''), lang, s, f, not ok or lang == 'java'))
        # only the Rust code of a built-in mapping replaced
        for t, inter in ((('bool', '::std::os::raw::c_char'),) if lang == 'cpp' else (('bool', 'jboolean'), ('i32', 'jint'), ('u8', 'jshort'), ('u64', 'jlong'))):
            for way, a in (('out', '=>'), ('in', '<=')):
                s = 'foreign_typemap!(\n    ($p:r_type) %s %s %s { $out = crate::support::%s1($p); };\n);\n' % (t, a, inter, way)
                s += 'foreign_class!(class K { fn a(%s)%s; });\n' % (('x: ' + t, '') if way == 'in' else ('', ' -> ' + t))
                out.append(('%s: Rust code of the mapping of %s replaced, %s' % (lang, t, 'result' if way == 'out' else 'argument'), lang, s,
                            lambda d, g, way=way: re.search(r'support\s*::\s*%s1' % way, g), True))
        # malformed rules
        head = '    ($p:r_type) MyId => %s { $out = 1; };\n' % ('i32' if lang == 'cpp' else 'jint')
        for label, s in [
                ('no rule', ''), ('unknown conversion kind', '    ($p:q_type) MyId => i32;\n'), ('one name twice', head + '    ($p:f_type) => "A";\n    ($p:f_type) => "B";\n'),
                ('the r_type twice', head + head), ('code without variable', '    (:r_type) MyId => i32 { $out = 1; };\n'),
                ('unknown option of f_type', head + '    ($p:f_type, no_such = "x") => "A" "$p";\n'),
                ('unknown option value', head + '    ($p:f_type, option = "NoSuchOption") => "A" "$p";\n'),
                ('name that is a number', head + '    ($p:f_type) => 5;\n'), ('arrow missing', '    ($p:r_type) MyId i32 { $out = 1; };\n'),
                ('unknown helper macro', '    ($p:r_type) <T> MyId<T> => swig_no_such!(T) { $out = 1; };\n'),
                ('unclosed type', '    ($p:r_type) Vec<MyId => i32 { $out = 1; };\n'), ('f_type of nothing', '    ($p:f_type) => "A" "$p";\n'),
                ('unknown module list', head + '    ($p:f_type, req_modules = "x") => "A" "$p";\n')]:
            out.append(('%s: rule with %s' % (lang, label), lang, 'foreign_typemap!(\n%s);\nforeign_class!(class K { fn a() -> MyId; });\n' % s, None, True))
        # a type for which there is a rule in the other direction only
        for way, a in (('out', '=>'), ('in', '<=')):
            s = 'foreign_typemap!(\n    ($p:r_type) MyId %s %s { $out = 1; };\n);\n' % (a, 'i32' if lang == 'cpp' else 'jint')
            s += 'foreign_class!(class K { fn a(%s)%s; });\n' % (('x: MyId', '') if way == 'out' else ('', ' -> MyId'))
            out.append(('%s: rule for the other direction only (%s)' % (lang, way), lang, s, None, True))
    # code of statements can not be a part of another conversion
    for inner in ('Option<MyId>', '(MyId, i32)', 'Result<MyId, String>'):
        s = ('foreign_typemap!(\n    ($p:r_type) MyId => i32 { $out = crate::support::out1($p); };\n    ($p:f_type, $tmp: temporary) => "UserB" "auto $tmp = user_out1($p); $out = $tmp;";\n);\n'
             'foreign_class!(class K { fn a() -> %s; });\n' % inner)
        out.append(('cpp: code with statements as a part of %s' % inner, 'cpp', s,
                    lambda d, g: 'user_out1(' in d and not re.search(r'\$\w', d), True))
    # an argument that becomes the result
    for lang in ('cpp', 'java'):
        rule = ('foreign_typemap!(\n    ($p:r_type) MyId <= i32 { $out = crate::support::in1($p); };\n    ($p:f_type, input_to_output) <= "UserB" "auto $p = user_in1(); $out = 1;";\n);\n'
                .replace('i32', 'i32' if lang == 'cpp' else 'jint'))
        for label, m, ok in (('of a function', 'fn a(x: MyId);', lang == 'cpp'), ('of a method', 'fn a(&self, x: i32, y: MyId);', lang == 'cpp'),
                             ('of a function with a result', 'fn a(x: MyId) -> i32;', False), ('of a constructor', 'constructor b(x: MyId) -> Foo;', False),
                             ('twice', 'fn a(x: MyId, y: MyId);', False)):
            s = rule + 'foreign_class!(class Foo { self_type Foo; constructor c() -> Foo; %s });\n' % m
            out.append(('%s: argument that becomes the result %s' % (lang, label), lang, s,
                        (lambda d, g: re.search(r'UserB\s+a\(', d) and 'user_in1(' in d) if ok else None, not ok))
    # what Java rules can not contain
    for label, s in [('req_modules', '    ($p:r_type) MyId => jint { $out = 1; };\n    ($p:f_type, req_modules = ["a.b.C"]) => "A" "$out = X.f($p);";\n'),
                     ('c_types', '    define_c_type!(module = "x.h"; #[repr(C)] struct CX { a: i32, });\n    ($p:r_type) MyId => jint { $out = 1; };\n'),
                     ('foreign code', '    foreign_code!(module = "x.h"; "int a;");\n    ($p:r_type) MyId => jint { $out = 1; };\n')]:
        out.append(('java: rule with ' + label, 'java', 'foreign_typemap!(\n%s);\nforeign_class!(class K { fn a() -> MyId; });\n' % s, None, True))
    s = ('foreign_typemap!(\n    ($p:r_type) <T> G<T> <= swig_i_type!(T) { swig_from_i_type_to_rust!(T, $p, r) $out = G(r); };\n'
         '    ($p:f_type, unique_prefix = "/*G*/") <= "swig_f_type!(T)" "swig_foreign_to_i_type!(T, $p)";\n);\nforeign_class!(class K { fn a(x: G<i32>); });\n')
    out.append(('java: generic rule for arguments', 'java', s, None, True))
    for t in ('Vec<String>', 'Option<i32>', 'Option<String>', 'Result<i32, String>', '(i32, i32)'):
        out.append(('java: callback argument ' + t, 'java', 'foreign_callback!(callback Cb { self_type Cb; a = Cb::a(&self, x: %s); });\n'
                    'foreign_class!(class K { fn a(x: Box<dyn Cb>); });\n' % t, lambda d, g: True, True))
    return out


def text_of(d):
    return '\n'.join(open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.endswith(('.hpp', '.java', '.h')))


def check_corners(ck):
    base = vlib.fresh_dir('g07', 'corners')
    cs, jobs = corners(), []
    for k, (label, lang, s, want, rej) in enumerate(cs):
        f = '%s/c%d.rs.in' % (base, k)
        vlib.write(f, s)
        os.makedirs('%s/c%d' % (base, k))
        jobs.append(['--lang', lang, '--ns', NS[lang], '--out', '%s/c%d' % (base, k), '--dst', '%s/c%d.rs' % (base, k), '--src', f])
    n = [0, 0]
    for k, ((label, lang, s, want, rej), (ok, msg, err)) in enumerate(zip(cs, vlib.vgen_jobs(jobs))):
        ck.count()
        fs = ['%s/c%d.rs.in' % (base, k), '%s/c%d' % (base, k), '%s/c%d.rs' % (base, k)]
        if not ok:
            n[1] += 1
            if not rej:
                ck.violation('rejected: ' + label, '%s\n%s is rejected: %s' % (s, label, (msg + '\n' + err)[-1500:]), fs)
            elif msg.startswith('process died') or not AT.search(msg + '\n' + err):
                ck.violation('no place: ' + label, '%s\n%s: the diagnostic has no file and line: %s' % (s, label, (msg + '\n' + err)[-1500:]), fs)
            else:
                ck.nontrivial(label)
            continue
        n[0] += 1
        if want is None:
            ck.violation('accepted: ' + label, '%s\n%s is accepted' % (s, label), fs)
        elif not want(text_of('%s/c%d' % (base, k)), open('%s/c%d.rs' % (base, k)).read()):
            ck.violation('ignored: ' + label, '%s\n%s: the generated code does not use the conversions of the rule' % (s, label), fs)
        else:
            ck.nontrivial(label)
    ck.cov['corners_used'], ck.cov['corners_rejected'] = n


def decl(lang, d):
    """The class no rule concerns: its file without includes."""
    t = open('%s/Control.%s' % (d, 'hpp' if lang == 'cpp' else 'java')).read()
    return [l.rstrip() for l in t.splitlines() if not l.startswith(('#include', 'import')) and l.strip()]


def main(ck):
    r = random.Random('g07-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n = 300 if thorough else 40
    vlib.build_vgen()
    ps = [Prog(i, r, ['cpp', 'java', 'cpp'][i % 3]) for i in range(n)]
    ck.cov['rule'] = 'one call with its conversions and values compared, over distinct (language, kinds of the types involved); or one special rule whose use or diagnostic was checked'
    jobs = [p.job for p in ps]
    # the same rules elsewhere, merged in another order
    again = [i for i in range(n) if i % 2 == 0 or thorough]
    for i in again:
        p = ps[i]
        o = p.files
        p.place()
        for w in sorted(p.files, reverse=True):
            vlib.write('%s/again_%s.rs' % (p.dir, w), ''.join(p.files[w]))
        rest = p.src_text.split('//rules-end\n', 1)[1]
        vlib.write(p.dir + '/again.rs.in', 'use crate::support::*;\n' + ''.join(p.src_rules) + rest)
        tm = ['%s=%s/again_%s.rs' % (w, p.dir, w) for w in sorted(p.files, reverse=True)]
        jobs.append(p.mkjob('again', tm, 'again.rs.in'))
    for p in ps:
        vlib.write(p.dir + '/control.rs.in', p.control)
        jobs.append(p.mkjob('control', [], 'control.rs.in'))
    res = vlib.vgen_jobs(jobs, timeout=800)
    ok = []
    for j, x in enumerate(res):
        p, what = (ps[j], 'out') if j < n else (ps[again[j - n]], 'again') if j < n + len(again) else (ps[j - n - len(again)], 'control')
        if not x[0]:
            ck.violation('%s rejected' % p.lang, 'valid rules are rejected: %s' % (x[1] + x[2])[:1500], [p.dir])
        elif what != 'control':
            ok.append((p, what))
    if not ck.violations:
        for p, what in ok:
            a, b = decl(p.lang, '%s/%s' % (p.dir, what)), decl(p.lang, p.dir + '/control')
            ck.count()
            if a != b:
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), -1)
                ck.violation('%s unrelated declarations' % p.lang, 'rules for other types change the class Control: "%s", without them "%s"' % (a[i:i + 1], b[i:i + 1]), [p.dir])

    def one(x):
        p, what = x
        try:
            cmd = p.build(what)
        except vlib.BuildFailure as e:
            return '%s does not compile' % p.lang, '%s (%s): %s' % (e.what, what, e.out[:2500])
        x = vlib.run(cmd, timeout=120, hang=True)
        lines = [l for l in x.stdout.splitlines()]
        bad = judge(p.want[what], lines)
        if bad:
            return '%s conversions differ' % p.lang, '%s: %s (exit %s, %s)' % (what, bad, x.returncode, x.stderr[-500:])
        p.calls = p.events = 0
        for l in lines:
            p.calls += l.startswith('C ')
            p.events += l.startswith('E ')
        return None
    for (p, what), bad in zip(ok, vlib.pmap(one, ok)):
        if bad:
            ck.violation(bad[0], bad[1], [p.dir])
            continue
        ck.count(p.calls)
        ck.cov['conversion_reports'] = ck.cov.get('conversion_reports', 0) + p.events
        ck.cov['programs'] = ck.cov.get('programs', 0) + 1
        ck.cov['rules'] = ck.cov.get('rules', 0) + sum(len(d.rules()) for d in p.decls)
        for c in p.shapes():
            ck.nontrivial(c)
        if r.random() < 0.1:
            ck.sample('%s, %d rules: %s' % (p.lang, len(p.decls), '; '.join('%s %s' % (w[0], w[1]) for w in p.want[what][:6])[:300]))
    check_corners(ck)
    for boost in (False, True):
        patterns.run(ck, boost, 16 if thorough else 3, 400 if thorough else 60)
    if not ck.violations:
        shutil.rmtree(os.path.join(vlib.BUILD, 'g07'), ignore_errors=True)


if __name__ == '__main__':
    vlib.main('G07', main)
