#!/usr/bin/env python3
"""G04: the declared interface is the generated interface, it compiles, and each name reaches what it was declared for."""
import html
import json
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import declcpp
import progen
import tgt
import vlib
from progen import CPP, JAVA, Class, Method, Ty

NS = dict(cpp='vns', java='vp.x', python='vmod')
ROUNDS = 6


def esc(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


# ------------------------------------------------------------------ program
def arg_names(m):
    """The names of the arguments; those declared as _ are called a and their place, or more if that is taken."""
    used = {n for n, _ in m.args}
    out = []
    for i, (n, _) in enumerate(m.args):
        if n == '_':
            n = 'a%d' % i
            k = 0
            while n in used:
                n = 'a%d%d' % (i, k)
                k += 1
            used.add(n)
        out.append(n)
    return out


class Case:
    def __init__(self, n, r):
        self.n, self.r = n, r
        self.lang = ['cpp', 'java', 'cpp', 'java', 'python'][n % 5]
        lang = self.lang
        self.opts = []
        self.boost = self.sep = False
        if lang == 'cpp':
            self.boost, self.sep = r.random() < 0.25, r.random() < 0.3
            self.opts = ['--use-boost'] * self.boost + ['--separate-impl'] * self.sep
        self.ann = False
        if lang == 'java':
            self.ann = r.random() < 0.5
            if self.ann:
                self.opts += r.choice([['--null-ann', 'org.ann'], ['--null-ann-import', 'org.ann.NonNull']])
            self.opts += r.choice([[], ['--fence', 'std'], ['--fence', '8']])
        if r.random() < 0.2:
            self.opts.append('--rustfmt')
        g = progen.Gen(r.getrandbits(48), lang, cyclic=lang != 'cpp',
                       kinds={'python': ['T', 'T', 'Arc', 'ArcMutex', 'Box', 'Mutex']}.get(lang, ['T', 'T', 'T', 'Arc', 'ArcMutex', 'Box', 'Rc', 'RcRefCell']))
        g.program()
        self.g = g
        for c in g.classes:
            if not c.has_self:
                continue
            if lang == 'cpp' and c.own_kind in ('T', 'Arc', 'ArcMutex') and r.random() < 0.3:
                c.derives.append('PlainClass')
            mk = self.extra(c, 'vh_make', [], Ty('val', c), c.mk())
            vv = self.extra(c, 'vh_v', [], Ty('prim', 'i64'), 'self.v', 'method')
            c.methods[r.randrange(len(c.methods) + 1):0] = [mk]
            c.methods.append(vv)
        kit = Class()
        kit.name = kit.rt = 'VhKit'
        kit.has_self, kit.docs, kit.derives, kit.methods = False, [], [], []
        kit.clone_rust, kit.extra_dsl, kit.extra_support, kit.val_ok, kit.ref_ok = False, [], '', False, False
        for e in g.enums:
            kit.methods.append(self.extra(kit, 'echo_' + e.name, [('x', Ty('enum', e))], Ty('enum', e), 'p0'))
        for cb in g.cbs:
            cb.order = list(range(len(cb.methods)))
            r.shuffle(cb.order)
            kit.methods.append(self.extra(kit, 'drive_' + cb.name, [('cb', Ty('cb', cb))], Ty('unit'), self.drive_body(cb)))
        self.kit = kit
        if kit.methods:
            g.classes.append(kit)
            g.items = progen.reorder(g.items[:0] + g.items + [kit])
        for c in g.classes:
            if lang != 'python' and r.random() < 0.35:
                self.foreign(c)
        self.dir = vlib.fresh_dir('g04', 'c%d' % n)
        self.gen = self.dir + '/gen'
        os.makedirs(self.gen)
        vlib.write(self.dir + '/src.rs.in', g.dsl())
        self.glue = self.dir + '/glue.rs'
        self.job = ['--lang', lang, '--ns', NS[lang], '--out', self.gen, '--dst', self.glue, '--src', self.dir + '/src.rs.in'] + self.opts
        self.exp = []
        self.seq = 0
        self.tick = 0

    def extra(self, c, name, args, ret, body, kind='static'):
        m = Method()
        m.kind, m.id, m.mut, m.rname, m.docs, m.attrs, m.access = kind, self.g.next_id(), False, name, [], [], 'public'
        m.args, m.ret, m.style, m.impl, m.free, m.body = args, ret, 'assoc' if c.has_self else 'free', name, name, body
        m.alias = name if c.camel else None
        return m

    def foreign(self, c):
        """Code of the user in the class: members that the program then calls; one member comes in two pieces."""
        r, n = self.r, self.g.next_id()
        if self.lang == 'cpp':
            a = '\n    static int fc%d(int x) noexcept\n    {\n        // \\ "quoted" ' % n
            b = '{{}} {class_name}\n        return x + %d;\n    }\n' % n
            m = '    int64_t fm%d(int64_t y) const noexcept { return this->vh_v() * 1000 + y; }\n' % n
        else:
            a = '\n    public static int fc%d(int x) {\n        // \\ "quoted" ' % n
            b = '{{}} {class_name}\n        return x + %d;\n    }\n' % n
            m = '    public final long fm%d(long y) { return this.vh_v() * 1000 + y; }\n' % n
        at = sorted(r.randrange(len(c.methods) + 1) for _ in range(3))
        c.foreign = [(at[0], a), (at[1], b)] + [(at[2], m)] * c.has_self
        c.foreign_id = n

    def foreign_text(self, ck, c, text):
        ck.count()
        t = ''.join(x for _, x in c.foreign)
        if t and text.count(t) != 1:
            self.bad(ck, 'foreign_code not copied', 'class %s: the text of its foreign_code is in the generated file %d times, should be once: %s' % (c.name, text.count(t), t))

    def cb_args(self, m, k):
        """Values of round k: (Rust expression, shown form) of each argument."""
        out = []
        for j, (_, t) in enumerate(m.args):
            n = k * 3 + j
            if t.k == 'str':
                out.append(('"s%d"' % n, 's%d' % n))
            elif t.k == 'enum':
                it = t.a.items[(k + j) % len(t.a.items)]
                out.append(('%s::%s' % (t.a.name, it.rv), it.name))
            else:
                out.append((progen.prim_rust(t.a, n), progen.prim_rust(t.a, n)))
        return out

    def drive_body(self, cb):
        o = 'let mut cb = p0;\n'
        for k in range(ROUNDS):
            for i in cb.order:
                m = cb.methods[i]
                o += '    { let r = cb.%s(%s); crate::hit(%d, &format!("cb {:?}", r)); }\n' % (
                    m.rname, ', '.join(a for a, _ in self.cb_args(m, k)), m.id)
        return o

    # ---------------------------------------------------------- calls
    def shown(self, t, n):
        """What the value Ty.default(n) looks like on the other side."""
        k, a = t.k, t.a
        if k == 'unit':
            return 'unit'
        if k == 'prim':
            return progen.prim_rust(a, n)
        if k == 'string':
            return 'r%d' % n
        if k == 'enum':
            return a.items[n % len(a.items)].name
        if k == 'opt':
            return 'Some(%s)' % progen.prim_rust(a, n)
        if k == 'vec':
            return '[%s]' % ','.join([progen.prim_rust(a, n)] * (n % 3 + 1))
        if k == 'res':
            return self.shown(a, n)
        raise KeyError(k)

    def value(self, t, plan):
        """(value in the model of the languages, canonical form in Rust)"""
        k, a = t.k, t.a
        self.tick += 1
        n = self.tick
        if k == 'prim':
            return ('prim', a, progen.prim_rust(a, n)), progen.prim_rust(a, n)
        if k in ('str', 'string'):
            return ('str', 's%d' % n), '"s%d"' % n
        if k == 'enum':
            it = a.items[n % len(a.items)]
            return ('enum', a, it), it.rv
        if k == 'opt':
            if n % 4 == 0:
                return ('none', a), 'None'
            return ('some', a, progen.prim_rust(a, n)), 'Some(%s)' % progen.prim_rust(a, n)
        if k == 'slice' or k == 'vec':
            v = [progen.prim_rust(a, n + i) for i in range(n % 4)]
            return ('list', a, v), '[%s]' % ', '.join(v)
        if k in ('ref', 'mut', 'val'):
            var = self.make(a, plan)
            return ('obj', a, var[0], k == 'val'), 'obj%d' % var[1]
        raise KeyError(k)

    def make(self, c, plan):
        m = [x for x in c.methods if x.rname == 'vh_make'][0]
        self.seq += 1
        v = ('o%d' % self.seq, self.seq)
        plan.append(('make', c, v[0]))
        self.exp.append('H %d ' % m.id)
        return v

    def plan(self):
        """The calls to make, and the lines they have to give."""
        plan, exp = [], self.exp
        calls = [(c, m) for c in self.g.classes for m in c.methods if m.kind != 'empty_ctor' and m.rname != 'vh_make']
        calls = calls * 2 + [(c, None) for c in self.g.classes if c.foreign]
        self.r.shuffle(calls)
        for c, m in calls:
            if m is None:
                i = c.foreign_id
                me = self.make(c, plan) if c.has_self else None
                plan.append(('foreign', c, 'fc%d' % i, 'fm%d' % i, me and me[0]))
                exp.append('F %d' % (7 + i))
                if me:
                    vv = [x for x in c.methods if x.rname == 'vh_v'][0]
                    exp.append('H %d @%d,' % (vv.id, me[1]))
                    exp.append('F %d' % (me[1] * 1000 + 5))
                continue
            if self.lang == 'python' and m.access != 'public':
                continue        # no such thing as access levels there
            if m.rname.startswith('drive_'):
                cb = m.args[0][1].a
                plan.append(('drive', c, m, cb))
                exp.append('C %d' % m.id)
                exp.append('H %d cb' % m.id)
                for k in range(ROUNDS):
                    for i in cb.order:
                        x = cb.methods[i]
                        exp.append('B %s(%s)' % (x.fname, ','.join(s for _, s in self.cb_args(x, k))))
                        exp.append('H %d cb %s' % (x.id, self.cb_ret(x, k, True)))
                exp.append('R unit')
                continue
            if m.rname.startswith('echo_'):
                e = m.args[0][1].a
                for it in e.items:
                    plan.append(('call', c, m, None, [('enum', e, it)]))
                    exp.extend(['C %d' % m.id, 'H %d %s' % (m.id, it.rv), 'R ' + it.name])
                continue
            me = self.make(c, plan) if m.kind == 'method' else None
            vals, canon = [], []
            for _, t in m.args:
                v, s = self.value(t, plan)
                vals.append(v)
                canon.append(s)
            plan.append(('call', c, m, me[0] if me else None, vals))
            exp.append('C %d' % m.id)
            exp.append('H %d %s%s' % (m.id, '@%d,' % me[1] if me else '', ','.join(canon)))
            if m.kind == 'ctor' or (m.ret.k == 'val'):
                self.seq += 1
                k = c if m.kind == 'ctor' else m.ret.a
                vv = [x for x in k.methods if x.rname == 'vh_v'][0]
                exp.append('H %d @%d,' % (vv.id, self.seq))
                exp.append('R obj%d' % self.seq)
            elif m.rname == 'vh_v':
                exp.append('R %d' % me[1])
            else:
                exp.append('R ' + self.shown(m.ret, m.id))
        return plan

    def cb_ret(self, m, k, rust=False):
        """What the k-th call of a callback method gives back."""
        t = m.ret
        if t.k == 'unit':
            return '()'
        if t.k == 'enum':
            it = t.a.items[(m.id + k) % len(t.a.items)]
            return it.rv if rust else it
        return progen.prim_rust(t.a, m.id + k)


# ------------------------------------------------------------------ C++
class CppCase(Case):
    def ty(self, t, arg):
        lib = 'boost' if self.boost else 'std'
        return t.cpp(arg, lib, lib, lib)

    def headers(self):
        return sorted(h for h in os.listdir(self.gen) if h.endswith('.hpp') and not h.startswith('rust_'))

    def std(self):
        return '-std=c++14' if self.boost else '-std=c++17'

    def driver(self, plan):
        g = self.g
        o = '#include <cstdio>\n#include <string>\n#include <memory>\n#include <type_traits>\n'
        o += ''.join('#include "%s"\n' % h for h in self.headers())
        o += '#include "rust_str.h"\n' if os.path.exists(self.gen + '/rust_str.h') else ''
        o += 'using namespace vns;\nstatic std::string sh(bool v) { return v ? "true" : "false"; }\n'
        for p in ('int8_t', 'int16_t', 'int32_t', 'int64_t', 'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t'):
            o += 'static std::string sh(%s v) { return std::to_string(v); }\n' % p
        o += ('static std::string sh(double v) { char b[64]; snprintf(b, sizeof b, "%.1f", v); return b; }\n'
              'static std::string sh(float v) { return sh((double)v); }\n'
              + ('static std::string sh(const RustString &v) { return v.to_std_string(); }\n' if os.path.exists(self.gen + '/rust_str.h') else '') +
              'template<class T> static std::string svs(const T &v) { return std::string(v.data(), v.size()); }\n'
              'template<class T> static std::string shv(const T &v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; s += sh(v[i]); } return s + "]"; }\n'
              'template<class T> static std::string sho(const T &v) { return v ? "Some(" + sh(*v) + ")" : "None"; }\n'
              'static void out(const std::string &s) { puts(s.c_str()); fflush(stdout); }\n')
        for e in g.enums:
            o += 'static std::string sh(%s e) {\n' % e.name
            for it in e.items:
                o += '    if (e == %s) return "%s";\n' % (it.name, it.name)
            o += '    return "bad value";\n}\n'
        for cb in g.cbs:
            o += 'struct Impl%s : public %s {\n' % (cb.name, cb.name)
            for i, m in enumerate(cb.methods):
                args = ', '.join('%s p%d' % (self.ty(t, True), j) for j, (_, t) in enumerate(m.args))
                o += '    mutable int n%d = 0;\n    %s %s(%s)%s noexcept override {\n' % (i, self.ty(m.ret, False), m.fname, args, '' if m.mut else ' const')
                o += '        out(std::string("B %s(")%s + ")");\n' % (m.fname, ' + ","'.join(
                    ' + ' + ('svs(p%d)' if t.k == 'str' else 'sh(p%d)') % j for j, (_, t) in enumerate(m.args)))
                if m.ret.k != 'unit':
                    vals = [self.cb_ret(m, k) for k in range(ROUNDS)]
                    o += '        static const %s v[] = {%s};\n        return v[n%d++ %% %d];\n' % (
                        self.ty(m.ret, False), ', '.join(v.name if m.ret.k == 'enum' else '%s(%s)' % (CPP[m.ret.a], v) for v in vals), i, ROUNDS)
                o += '    }\n'
            o += '};\n'
        # the declared kind and types of every method
        o += 'static void kinds() {\n'
        for c in g.classes:
            for m in c.methods:
                if m.kind not in ('method', 'static'):
                    continue
                args = ', '.join(self.ty(t, True) for _, t in m.args)
                if m.kind == 'static':
                    o += '    { %s (*p)(%s) = &%s::%s; (void)p; }\n' % (self.ty(m.ret, False), args, c.name, m.foreign_name())
                else:
                    o += '    { %s (%s::*p)(%s)%s = &%s::%s; (void)p; }\n' % (
                        self.ty(m.ret, False), c.name, args, '' if m.mut else ' const', c.name, m.foreign_name())
            if c.has_self:
                for m in c.methods:
                    if m.kind == 'ctor' and m.access == 'public':
                        o += '    static_assert(std::is_constructible<%s>::value, "");\n' % ', '.join([c.name] + [self.ty(t, True) for _, t in m.args])
                o += '    static_assert(!std::is_copy_constructible<%s>::value, "");\n' % c.name if not c.derives else ''
        o += '}\n'
        fns = []
        for i, step in enumerate(plan):
            if step[0] == 'make':
                fns.append('    auto %s = %s::vh_make();\n' % (step[2], step[1].name))
                continue
            if step[0] == 'foreign':
                fns.append('    out("F " + std::to_string(%s::%s(7)));\n' % (step[1].name, step[2]))
                if step[4]:
                    fns.append('    out("F " + std::to_string(%s.%s(5)));\n' % (step[4], step[3]))
                continue
            m, c = step[2], step[1]
            t = '    out("C %d");\n    ' % m.id
            if step[0] == 'drive':
                fns.append(t + '%s::%s(std::unique_ptr<%s>(new Impl%s));\n    out("R unit");\n' % (c.name, m.foreign_name(), step[3].name, step[3].name))
                continue
            args = ', '.join(self.arg(v) for v in step[4])
            pre = ''.join('    static const %s l%d_%d[] = {%s};\n' % (CPP[v[1]], i, j, ', '.join('%s(%s)' % (CPP[v[1]], x) for x in v[2]) or CPP[v[1]] + '()')
                          for j, v in enumerate(step[4]) if v[0] == 'list')
            args = ', '.join(self.arg(v, 'l%d_%d' % (i, j)) for j, v in enumerate(step[4]))
            if m.kind == 'ctor':
                call = '%s r%d%s' % (c.name, i, '(%s)' % args if args else '')
            elif m.kind == 'static':
                call = '%s::%s(%s)' % (c.name, m.foreign_name(), args)
            elif m.mut:
                call = '%s.%s(%s)' % (step[3], m.foreign_name(), args)
            else:
                call = 'const_cast<const %s &>(%s).%s(%s)' % (c.name, step[3], m.foreign_name(), args)
            k = m.ret.a.k if m.ret.k == 'res' else m.ret.k
            if m.kind == 'ctor':
                t += call + ';\n    out("R obj" + sh(r%d.vh_v()));\n' % i
            elif m.ret.k == 'unit':
                t += call + ';\n    out("R unit");\n'
            else:
                t += 'auto r%d = %s;\n' % (i, call)
                if m.ret.k == 'res' and k == 'unit':
                    t += '    out(r%d ? "R Err" : "R unit");\n' % i
                elif m.ret.k == 'res':
                    get = 'boost::get' if self.boost else 'std::get'
                    t += '    out("R " + sh(%s<%s>(r%d)));\n' % (get, self.ty(m.ret.a, False), i)
                elif k == 'val':
                    t += '    out("R obj" + sh(r%d.vh_v()));\n' % i
                elif k == 'vec':
                    t += '    out("R " + shv(r%d));\n' % i
                elif k == 'opt':
                    t += '    out("R " + sho(r%d));\n' % i
                else:
                    t += '    out("R " + sh(r%d));\n' % i
            fns.append(pre + t)
        return o + 'int main() {\n    kinds();\n%s    out("end");\n}\n' % ''.join(fns)

    def arg(self, v, var=''):
        k = v[0]
        if k == 'prim':
            return '%s(%s)' % (CPP[v[1]], v[2])
        if k == 'str':
            return '%s::string_view("%s")' % ('boost' if self.boost else 'std', v[1])
        if k == 'enum':
            return v[2].name
        if k == 'none':
            return 'boost::none' if self.boost else 'std::nullopt'
        if k == 'some':
            return '%s::optional<%s>(%s)' % ('boost' if self.boost else 'std', CPP[v[1]], v[2])
        if k == 'list':
            return 'RustSlice<const %s>{%s, %d}' % (CPP[v[1]], var, len(v[2]))
        if k == 'obj':
            return 'std::move(%s)' % v[2] if v[3] else v[2]
        raise KeyError(k)

    def build(self, ck, plan):
        files = {d.name: open('%s/%s.hpp' % (self.gen, d.name)).read() for d in self.g.items}
        alone = [h for h in sorted(os.listdir(self.gen)) if h.endswith('.hpp') and not h.startswith('rust_')]
        for h in alone:
            vlib.write(self.dir + '/one.cpp', '#include "%s"\n#include "%s"\n' % (h, h))
            x = vlib.run(['clang++', self.std(), '-fsyntax-only', '-Wno-everything', '-I', self.gen, self.dir + '/one.cpp'])
            if x.returncode != 0:
                raise vlib.BuildFailure('generated header %s on its own' % h, x.stderr[:3000])
        decls, names = declcpp.parse(self.gen, 'vns', self.std(), ''.join('#include "%s"\n' % h for h in self.headers()), files)
        self.compare(ck, decls, names)
        vlib.write(self.dir + '/lib.rs', tgt.lib_rs('cpp', self.glue, self.g.support(), hit=tgt.HIT_OUT))
        lib = tgt.rust_check('cpp', self.dir + '/lib.rs', self.dir + '/libx.a', metadata=False)
        vlib.write(self.dir + '/drv.cpp', self.driver(plan))
        x = vlib.run(['clang++', self.std(), '-O0', '-Wno-everything', '-fno-access-control', '-I', self.gen, self.dir + '/drv.cpp', lib,
                      '-lpthread', '-ldl', '-lm', '-o', self.dir + '/drv'])
        if x.returncode != 0:
            raise vlib.BuildFailure('C++ code that uses the interface as declared', x.stderr[:3000])
        return [self.dir + '/drv']

    def compare(self, ck, decls, names):
        allowed = set()
        for d in self.g.items:
            allowed |= {d.name, d.name + 'Ref', d.name + 'Wrapper'}
            got = decls.get(d.name)
            if got is None:
                self.bad(ck, 'not declared', '%s %s is not in the generated headers' % (d.kind, d.name))
                continue
            if got['what'] != ('enum' if d.kind == 'enum' else 'class'):
                self.bad(ck, 'wrong kind', '%s %s became a C++ %s' % (d.kind, d.name, got['what']))
                continue
            self.docs(ck, d.name, d.docs, got['docs'])
            if d.kind == 'enum':
                self.same(ck, 'enum items', d.name, [i.name for i in d.items], [n for n, _ in got['items']])
                for i in d.items:
                    self.docs(ck, d.name + '::' + i.name, i.docs, dict(got['items']).get(i.name, []))
                continue
            want, have = [], []
            if d.kind == 'callback':
                src = d.methods
                for m in d.methods:
                    want.append(('pure virtual', m.fname, 'public', not m.mut, tuple(n for n, _ in m.args)))
            else:
                src = [m for m in d.methods if m.kind != 'empty_ctor']
                for m in src:
                    a = tuple(arg_names(m))
                    if m.kind == 'ctor':
                        want.append(('constructor', '', m.access, False, a))
                    else:
                        want.append((m.kind, m.foreign_name(), m.access, m.kind == 'method' and not m.mut, a))
                if d.foreign:
                    want.append(('static', 'fc%d' % d.foreign_id, 'public', False, ('x',)))
                    if d.has_self:
                        want.append(('method', 'fm%d' % d.foreign_id, 'public', True, ('y',)))
                    self.foreign_text(ck, d, open('%s/%s.hpp' % (self.gen, d.name)).read())
            docs = {}
            for m in got['members']:
                name, k = m['name'], m['kind']
                ps = tuple(n for _, n in m['params'])
                if m['deleted'] or k == 'CXXDestructorDecl' or k == 'CXXConversionDecl' or name.startswith('operator'):
                    continue
                if d.kind == 'callback':
                    if k == 'CXXMethodDecl' and m['pure']:
                        have.append(('pure virtual', name, m['access'], m['const'], ps))
                        docs[('', name)] = m['docs']
                    elif m['access'] == 'public' and name not in ('to_c_interface', 'reference_to_c_interface'):
                        have.append(('undeclared ' + k, name, m['access'], m['const'], ps))
                    continue
                if k == 'CXXConstructorDecl':
                    t = [x for x, _ in m['params']]
                    if len(t) == 1 and (t[0] == 'SelfType' or 'Opaque' in t[0] or re.fullmatch(r'(const )?%s(<.*>)? &&?' % re.escape(got['alias']), t[0])):
                        continue
                    if not t and not any(x.kind == 'ctor' and not x.args for x in src) and m['access'] != 'public':
                        continue
                    have.append(('constructor', '', m['access'], False, ps))
                    docs[('constructor', ps)] = m['docs']
                elif k == 'CXXMethodDecl':
                    if name in ('release', 'as_rref', 'as_cref', 'free_mem') and not any(x[1] == name for x in want):
                        continue
                    if m['access'] != 'public' and not any(x[1] == name for x in want):
                        continue
                    have.append(('static' if m['static'] else 'method', name, m['access'], m['const'], ps))
                    docs[('', name)] = m['docs']
                elif m['access'] == 'public' and name not in ('value_type', 'SelfType', 'CForeignType'):
                    have.append(('undeclared ' + k, name, 'public', False, ()))
            self.same(ck, 'members', d.name, want, have)
            for m in src:
                ps = tuple(arg_names(m))
                key = ('constructor', ps) if m.kind == 'ctor' else ('', m.fname if d.kind == 'callback' else m.foreign_name())
                if key in docs:
                    self.docs(ck, '%s::%s' % (d.name, key[1]), m.docs, docs[key])
                ck.nontrivial((self.n, d.name, str(key)))
        for n in names - allowed:
            if not re.match(r'(C?Rust|C_|c_|[a-z])', n):
                self.bad(ck, 'undeclared name', 'namespace has %s, which was not declared' % n)

    def bad(self, ck, sig, text):
        ck.violation('%s %s' % (self.lang, sig), '%s program (%s): %s' % (self.lang, ' '.join(self.opts) or 'default options', text), [self.dir])

    def same(self, ck, what, name, want, have):
        ck.count()
        key = lambda x: str(x)
        if (want != have) if what == 'enum items' else sorted(want, key=key) != sorted(have, key=key):
            w = [x for x in want if x not in have]
            h = [x for x in have if x not in want]
            self.bad(ck, what + ' differ', '%s: declared but not generated: %s; generated but not declared: %s' % (name, w, h)
                     if w or h else '%s: %s declared, %s generated' % (name, want, have))

    def docs(self, ck, name, want, got):
        w, h = [x.strip() for x in want], [html.unescape(x).strip() for x in got]
        strip = lambda l: [x for x in l if x]
        if w and strip(w) != strip(h) or not w and any(re.fullmatch(r'doc\d+', x) for x in h):
            self.bad(ck, 'documentation differs', '%s is documented as %r, the declaration says %r' % (name, h, w))


# ------------------------------------------------------------------ Java
class JavaCase(CppCase):
    def jfiles(self):
        return sorted(os.path.join(self.gen, f) for f in os.listdir(self.gen) if f.endswith('.java'))

    def build(self, ck, plan):
        vlib.write(self.dir + '/lib.rs', tgt.lib_rs('java', self.glue, self.g.support(), hit=tgt.HIT_OUT))
        lib = tgt.rust_check('java', self.dir + '/lib.rs', self.dir + '/libx.so', metadata=False)
        anns = []
        if self.ann:
            for a in ('NonNull', 'Nullable'):
                anns.append('%s/org/ann/%s.java' % (self.dir, a))
                vlib.write(anns[-1], 'package org.ann;\npublic @interface %s {}\n' % a)
        tgt.javac(self.jfiles() + anns, self.dir + '/k0')       # the generated sources on their own
        vlib.write(self.dir + '/vp/x/Drv.java', self.driver(plan))
        try:
            tgt.javac(self.jfiles() + anns + [self.dir + '/vp/x/Drv.java'], self.dir + '/k')
        except vlib.BuildFailure as e:
            raise vlib.BuildFailure('Java code that uses the interface as declared', e.out)
        self.compare(ck, [json.loads(l) for l in open(self.dir + '/list.decls')])
        return [vlib.JAVA_HOME + '/bin/java', '-Xshare:auto', '-XX:TieredStopAtLevel=1', '-Xcheck:jni', '-cp', self.dir + '/k', 'vp.x.Drv', lib]

    def compare(self, ck, decls):
        top = {d['name']: d for d in decls if d['kind'] in ('CLASS', 'ENUM', 'INTERFACE') and not d['cls']}
        nt = lambda t: t.replace('java.util.', '').replace('java.lang.', '').replace(' ', '')
        dl = lambda d: [x.strip() for x in (d['doc'] or '').split('\n')]
        for d in self.g.items:
            got = top.get(d.name)
            kind = dict(enum='ENUM', callback='INTERFACE')
            kind['class'] = 'CLASS'
            if got is None or got['kind'] != kind[d.kind] or 'public' not in got['mods'] or got['file'] != d.name + '.java' or got['pkg'] != 'vp.x':
                self.bad(ck, 'not declared', '%s %s is generated as %s' % (d.kind, d.name, got))
                continue
            self.docs(ck, d.name, d.docs, dl(got))
            mem = [x for x in decls if x['cls'] == d.name]
            if d.kind == 'enum':
                its = [x for x in mem if x['kind'] == 'ITEM']
                self.same(ck, 'enum items', d.name, [i.name for i in d.items], [x['name'] for x in its])
                for i, x in zip(d.items, its):
                    self.docs(ck, d.name + '.' + i.name, i.docs, dl(x))
                extra = [x['name'] for x in mem if 'public' in x['mods'] and x['kind'] in ('METHOD', 'FIELD') and x['name'] != 'getValue']
                self.same(ck, 'members', d.name, [], extra)
                continue
            want, have, docs = [], [], {}
            ms = [m for m in d.methods if m.kind != 'empty_ctor']
            for m in ms:
                a = tuple((nt(t.java(True)), n) for n, (_, t) in zip(arg_names(m), m.args))
                rt = '' if m.kind == 'ctor' else nt(m.ret.java(False))
                name = m.fname if d.kind == 'callback' else '<init>' if m.kind == 'ctor' else m.foreign_name()
                want.append((name, 'public' if d.kind == 'callback' else m.access, m.kind == 'static', rt, a, m.ret.k == 'res' or None))
            if d.kind == 'class' and d.foreign:
                want.append(('fc%d' % d.foreign_id, 'public', True, 'int', (('int', 'x'),), None))
                if d.has_self:
                    want.append(('fm%d' % d.foreign_id, 'public', False, 'long', (('long', 'y'),), None))
                self.foreign_text(ck, d, open('%s/%s.java' % (self.gen, d.name)).read())
            for x in mem:
                if x['kind'] != 'METHOD':
                    if 'public' in x['mods'] or 'protected' in x['mods']:
                        have.append(('undeclared ' + x['name'],))
                    continue
                a = tuple((nt(t), n) for t, n in x['params'])
                acc = 'public' if d.kind == 'callback' else ([y for y in ('public', 'protected', 'private') if y in x['mods']] + ['package'])[0]
                rt = '' if x['name'] == '<init>' else nt(x['ret'])
                e = (x['name'], acc, 'static' in x['mods'], rt, a, True if x['throws'] else None)
                known = [w for w in want if w[0] == e[0] and (w[0] != '<init>' or len(w[4]) == len(a))]
                if acc in ('private', 'package') and not known:
                    continue
                if x['name'] in ('delete', 'finalize') and not a and not known:
                    continue
                if x['name'] == '<init>' and any('InternalPointerMarker' in t for t, _ in a) and acc == 'package':
                    continue
                if known and known[0][5] is None:
                    e = e[:5] + (None,)
                have.append(e)
                docs[(x['name'], a)] = dl(x)
                for m, w in zip(ms, want):
                    if w[:5] == e[:5] and acc == w[1]:
                        self.nulls(ck, d, m, x)
            self.same(ck, 'members', d.name, want, have)
            for m, w in zip(ms, want):
                if (w[0], w[4]) in docs:
                    self.docs(ck, '%s.%s' % (d.name, w[0]), m.docs, docs[(w[0], w[4])])
                ck.nontrivial((self.n, d.name, w[0], w[4]))
        extra = sorted(set(n for n, x in top.items() if 'public' in x['mods']) - set(d.name for d in self.g.items))
        if extra:
            self.bad(ck, 'undeclared class', 'the package has public %s, not declared' % extra)

    def nulls(self, ck, d, m, x):
        """With annotations: an optional argument is @Nullable, any other object is @NonNull; results are never null."""
        want = ['' if not self.ann or t.k == 'prim' else 'Nullable' if t.k == 'opt' else 'NonNull' for _, t in m.args]
        ck.count()
        if x['pann'] != want:
            self.bad(ck, 'null annotations of arguments', '%s.%s(%s): arguments are annotated %s, should be %s' % (
                d.name, x['name'], ', '.join(t.rust() for _, t in m.args), x['pann'], want))
        prim = m.kind == 'ctor' if d.kind == 'class' else False
        t = m.ret.a if m.ret.k == 'res' else m.ret
        if x['rann'] not in ([''] if not self.ann or prim or t.k in ('prim', 'unit') else ['', 'NonNull']):
            self.bad(ck, 'null annotations of results', '%s.%s: result %s is annotated %s' % (d.name, x['name'], t.rust(), x['rann']))

    def boxed(self, t):
        return {'boolean': 'Boolean', 'byte': 'Byte', 'short': 'Short', 'int': 'Integer', 'long': 'Long', 'float': 'Float', 'double': 'Double'}.get(t, t)

    def driver(self, plan):
        g = self.g
        o = '''package vp.x;
import java.lang.reflect.*;
import java.util.*;
public class Drv {
    static void out(String s) { System.out.println(s); System.out.flush(); }
    static String sh(Object o) {
        if (o == null) return "null";
        if (o instanceof OptionalInt) return ((OptionalInt) o).isPresent() ? "Some(" + ((OptionalInt) o).getAsInt() + ")" : "None";
        if (o instanceof OptionalLong) return ((OptionalLong) o).isPresent() ? "Some(" + ((OptionalLong) o).getAsLong() + ")" : "None";
        if (o instanceof OptionalDouble) return ((OptionalDouble) o).isPresent() ? "Some(" + ((OptionalDouble) o).getAsDouble() + ")" : "None";
        if (o instanceof Enum) return ((Enum) o).name();
        if (o.getClass().isArray()) {
            StringBuilder b = new StringBuilder("[");
            for (int i = 0; i < Array.getLength(o); ++i) b.append(i == 0 ? "" : ",").append(sh(Array.get(o, i)));
            return b + "]";
        }
        try {
            return "obj" + o.getClass().getMethod("vh_v").invoke(o);
        } catch (NoSuchMethodException e) {
            return o.toString();
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    }
    static Object hid(Class<?> c, String name, Object self, Class<?>[] ts, Object... as) throws Exception {
        Method m = c.getDeclaredMethod(name, ts);
        m.setAccessible(true);
        return m.invoke(self, as);
    }
'''
        for cb in g.cbs:
            o += '    static class Impl%s implements %s {\n' % (cb.name, cb.name)
            for i, m in enumerate(cb.methods):
                args = ', '.join('%s p%d' % (t.java(True), j) for j, (_, t) in enumerate(m.args))
                o += '        int n%d = 0;\n        @Override public %s %s(%s) {\n' % (i, m.ret.java(False), m.fname, args)
                o += '            out("B %s("%s + ")");\n' % (m.fname, ' + ","'.join(' + sh(p%d)' % j for j in range(len(m.args))))
                if m.ret.k != 'unit':
                    jt = m.ret.java(False)
                    o += '            return new %s[]{%s}[n%d++ %% %d];\n' % (jt, ', '.join(self.lit(m.ret.a, self.cb_ret(m, k)) for k in range(ROUNDS)), i, ROUNDS)
                o += '        }\n'
            o += '    }\n'
        chunks = []
        for i, step in enumerate(plan):
            if step[0] == 'make':
                chunks.append('        %s %s = %s.vh_make();\n' % (step[1].name, step[2], step[1].name))
                continue
            if step[0] == 'foreign':
                chunks.append('        out("F " + %s.%s(7));\n' % (step[1].name, step[2]))
                if step[4]:
                    chunks.append('        out("F " + %s.%s(5));\n' % (step[4], step[3]))
                chunks.append(None)
                continue
            c, m = step[1], step[2]
            t = '        out("C %d");\n        ' % m.id
            if step[0] == 'drive':
                chunks.append(t + '%s.%s(new Impl%s());\n        out("R unit");\n' % (c.name, m.foreign_name(), step[3].name))
                chunks.append(None)
                continue
            args = ', '.join(self.arg(v) for v in step[4])
            unit = m.ret.k == 'unit' or m.ret.k == 'res' and m.ret.a.k == 'unit'
            if m.kind == 'ctor':
                call = 'new %s(%s)' % (c.name, args)
                unit = False
            elif m.access == 'private':
                ts = ', '.join(['%s.class' % ty.java(True) for _, ty in m.args])
                call = 'hid(%s.class, "%s", %s, new Class<?>[]{%s}, new Object[]{%s})' % (c.name, m.foreign_name(), step[3] or 'null', ts, args)
            else:
                call = '%s.%s(%s)' % (step[3] or c.name, m.foreign_name(), args)
            if unit:
                t += call + ';\n        out("R unit");\n'
            else:
                t += '{ %s r = %s;\n        out("R " + sh(r)); }\n' % ('Object' if m.access == 'private' else c.name if m.kind == 'ctor' else m.ret.java(False), call)
            chunks.append(t)
            chunks.append(None)
        fns, cur = [], ''
        for x in chunks:
            if x is None:
                fns.append(cur)
                cur = ''
            else:
                cur += x
        o += ''.join('    static void f%d() throws Exception {\n%s    }\n' % (i, f) for i, f in enumerate(fns))
        return o + '    public static void main(String[] a) throws Exception {\n        System.load(a[0]);\n%s        out("end");\n    }\n}\n' % ''.join(
            '        f%d();\n' % i for i in range(len(fns)))

    def lit(self, p, v):
        return '%s(%s)' % ('(%s)' % JAVA[p], v + ('L' if JAVA[p] == 'long' else '')) if p != 'bool' else v

    def arg(self, v, var=''):
        k = v[0]
        if k == 'prim':
            return self.lit(v[1], v[2])
        if k == 'str':
            return '"%s"' % v[1]
        if k == 'enum':
            return '%s.%s' % (v[1].name, v[2].name)
        if k == 'none':
            return '(%s) null' % {'i32': 'Integer', 'i64': 'Long', 'f64': 'Double'}[v[1]]
        if k == 'some':
            return self.lit(v[1], v[2])
        if k == 'list':
            return 'new %s[]{%s}' % (JAVA[v[1]], ', '.join(self.lit(v[1], x) for x in v[2]))
        return v[2]


# ------------------------------------------------------------------ Python
class PyCase(CppCase):
    def build(self, ck, plan):
        vlib.write(self.dir + '/lib.rs', tgt.lib_rs('python', self.glue, self.g.support(), hit=tgt.HIT_OUT))
        tgt.rust_check('python', self.dir + '/lib.rs', self.dir + '/vmod.so', crate='vmod', metadata=False)
        vlib.write(self.dir + '/drv.py', self.driver(plan))
        return [sys.executable, '-u', self.dir + '/drv.py']

    def driver(self, plan):
        o = '''import sys, json
sys.path.insert(0, %r)
import vmod
def sh(o):
    if o is None: return 'None'
    if isinstance(o, bool): return 'true' if o else 'false'
    if isinstance(o, (list, tuple)): return '[' + ','.join(sh(x) for x in o) + ']'
    if hasattr(o, 'vh_v'): return 'obj%%d' %% o.vh_v()
    return str(o)
def out(s): print(s, flush=True)
def item(e, v): return [k for k, x in vars(e).items() if not k.startswith('__') and x == v][0]
d = {}
for k, v in vars(vmod).items():
    if k.startswith('__'): continue
    d[k] = dict(doc=getattr(v, '__doc__', None), mem={n: [type(x).__name__, getattr(x, '__doc__', None) if not isinstance(x, int) else None]
                for n, x in getattr(v, '__dict__', {}).items() if not n.startswith('__')}, new=type(v.__dict__.get('__new__')).__name__)
out('D ' + json.dumps(d))
''' % self.dir
        for i, step in enumerate(plan):
            if step[0] == 'make':
                o += '%s = vmod.%s.vh_make()\n' % (step[2], step[1].name)
                continue
            c, m = step[1], step[2]
            o += 'out("C %d")\n' % m.id
            ps = arg_names(m)
            kw = i % 2 == 0
            args = [(('%s=' % p) if kw else '') + self.arg(v) for p, v in zip(ps, step[4])]
            if kw:
                self.r.shuffle(args)
            a = ', '.join(args)
            if m.kind == 'ctor':
                o += 'r = vmod.%s(%s)\n' % (c.name, a)
            else:
                o += 'r = %s.%s(%s)\n' % (step[3] or 'vmod.' + c.name, m.foreign_name(), a)
            k, e = m.ret.k, m.ret
            if k == 'res':
                k, e = e.a.k, e.a
            if m.kind == 'ctor':
                k = 'val'
            if k == 'unit':
                o += 'out("R " + ("unit" if r is None else sh(r)))\n'
            elif k == 'enum':
                o += 'out("R " + item(vmod.%s, r))\n' % e.a.name
            elif k == 'opt':
                o += 'out("R " + ("None" if r is None else "Some(" + sh(r) + ")"))\n'
            else:
                o += 'out("R " + sh(r))\n'
        return o + 'out("end")\n'

    def arg(self, v, var=''):
        k = v[0]
        if k == 'prim':
            return {'true': 'True', 'false': 'False'}.get(v[2], v[2])
        if k == 'str':
            return repr(v[1])
        if k == 'enum':
            return 'vmod.%s.%s' % (v[1].name, v[2].name)
        if k == 'none':
            return 'None'
        if k == 'some':
            return v[2]
        if k == 'list':
            return '[%s]' % ', '.join(v[2])
        return v[2]

    def compare(self, ck, d):
        names = set(x.name for x in self.g.items)
        self.same(ck, 'members', 'module', sorted(names | {'Error'}), sorted(d))
        for x in self.g.items:
            got = d.get(x.name)
            if got is None:
                continue
            docs = lambda t: [l.strip() for l in (t or '').split('\n')]
            if x.kind == 'enum':
                self.docs(ck, x.name, x.docs, docs(got['doc']))
                self.same(ck, 'members', x.name, sorted(i.name for i in x.items), sorted(got['mem']))
                continue
            ctor = [m for m in x.methods if m.kind == 'ctor']
            self.docs(ck, x.name, x.docs + (ctor[0].docs if ctor else []), docs(got['doc']))
            pub = [m for m in x.methods if m.kind in ('method', 'static')]
            must = sorted((m.foreign_name(), m.kind == 'static') for m in pub if m.access == 'public')
            may = sorted((m.foreign_name(), m.kind == 'static') for m in pub if m.access != 'public')
            have = sorted((n, t[0] == 'staticmethod' or t[0] == 'builtin_function_or_method') for n, t in got['mem'].items())
            self.same(ck, 'members', x.name, must, [h for h in have if h not in may])
            for m in pub:
                if m.foreign_name() in got['mem']:
                    self.docs(ck, x.name + '.' + m.foreign_name(), m.docs, docs(got['mem'][m.foreign_name()][1]))
                ck.nontrivial((self.n, x.name, m.foreign_name()))


# ------------------------------------------------------------------ corners
# Programs that only have to compile (signature, language, options, declarations, Rust code). Names are those that
# generated code also uses for itself; the other ones are combinations that the random programs leave out.
K = 'pub struct K { pub v: i64 }\nimpl K { pub fn new() -> K { K { v: 1 } }\n'
ARGS = ('class K { self_type K; constructor K::new() -> K; fn K::a(&self, %s: i32, q: &str, z: Option<i32>) -> i32; fn K::b(%s: &str) -> String; '
        'fn K::d(&self, %s: &K) -> Result<i32, VErr>; fn K::f(%s: Option<i32>, y: K) -> Option<K>; '
        'fn K::g(%s: K) -> K; fn K::h(%s: &[i32]); fn K::i(&mut self, %s: bool) -> Vec<i32>; }')
ARGS_RS = (K + 'pub fn a(&self, n: i32, q: &str, z: Option<i32>) -> i32 { 1 } pub fn b(n: &str) -> String { String::new() } pub fn d(&self, n: &K) -> Result<i32, VErr> { Ok(1) } '
           'pub fn f(n: Option<i32>, y: K) -> Option<K> { None } pub fn g(n: K) -> K { n } pub fn h(n: &[i32]) {} pub fn i(&mut self, n: bool) -> Vec<i32> { vec![] } }')
OPT = ' fn K::c(%s: Option<&str>) -> Option<i32>; fn K::e(&mut self, %s: Option<&K>) -> i32; }'
OPT_RS = ' impl K { pub fn c(n: Option<&str>) -> Option<i32> { None } pub fn e(&mut self, n: Option<&K>) -> i32 { 1 } }'
RESERVED = ['env', 'tmp', 'obj_ptr', 'py', 'ret', 'self_', 'this_', 'jni', 'data', 'len', 'a0', 'cls', 'me', 'ptr', 'x', 'inner', 's', 'out', 'p', 'err', 'opaque',
            'val', 'o', 'i', 'it', 'r', 'v', 'jself', 'conv_result', 'elem', 'name', 'result', 'obj', 'vec', 'object', 'convRet', 'convRet0', 'ok', 'res', 'module', 'super_',
            'cpython', 'std', 'core', 'types', 'value', 'marker', 'raw', 'u8_', 'jlong', 'jobject', 'this_jobject', 'field', 'class_', 'method', 'args', 'kwargs', 'type_']


def corners():
    out = []
    for n in RESERVED:
        for lang in NS:
            if lang != 'python' and n in ('args', 'kwargs', 'py', 'module', 'cpython'):
                continue
            opt = lang != 'python'
            d = (ARGS[:-1] + OPT if opt else '#[derive(Clone)] ' + ARGS).replace('%s', n)
            e = 'String' if lang != 'python' else 'VErr'
            rs = (progen.VERR if lang == 'python' else '') + ('#[derive(Clone)] ' if lang == 'python' else '') + ARGS_RS + (OPT_RS if opt else '')
            out.append(('%s parameter called %s' % (lang, n), lang, [], ['foreign_class!(%s);' % d.replace('VErr', e)], rs.replace('Result<i32, VErr>', 'Result<i32, %s>' % e)))
    ab = ['foreign_class!(class A { self_type A; constructor A::new() -> A; fn A::a(b: &B); });', 'foreign_class!(class B { self_type B; constructor B::new() -> B; fn B::b(a: &A); });']
    ab_rs = 'pub struct A; pub struct B; impl A { pub fn new() -> A { A } pub fn a(b: &B) {} } impl B { pub fn new() -> B { B } pub fn b(a: &A) {} }'
    for lang in NS:
        out.append(('%s two classes that mention each other' % lang, lang, ['--separate-impl'] if lang == 'cpp' else [], ab, ab_rs))
    out.append(('java overloads with an object and a number', 'java', [], [
        'foreign_class!(class Q { self_type Q; constructor Q::new() -> Q; });',
        'foreign_class!(class K { self_type K; constructor K::new() -> K; fn K::a(&self, q: &Q) -> i32; alias get; fn K::b(&self, q: i64) -> i32; alias get; });'],
        'pub struct Q; impl Q { pub fn new() -> Q { Q } } ' + K + 'pub fn a(&self, q: &Q) -> i32 { 1 } pub fn b(&self, q: i64) -> i32 { 2 } }'))
    out.append(('java overloads with a string and a number', 'java', [], [
        'foreign_class!(class K { self_type K; constructor K::new() -> K; fn K::a(&self, q: &str) -> i32; alias get; fn K::b(&self, q: i64) -> i32; alias get; fn K::c(&self) -> i32; alias get; });'],
        K + 'pub fn a(&self, q: &str) -> i32 { 1 } pub fn b(&self, q: i64) -> i32 { 2 } pub fn c(&self) -> i32 { 3 } }'))
    out.append(('python method that returns &str', 'python', [], [
        'foreign_class!(class K { self_type K; constructor K::new() -> K; fn K::a(&self, q: &str) -> &str; });'], K + 'pub fn a(&self, q: &str) -> &str { "a" } }'))
    for lang in ('cpp', 'java'):
        out.append(('%s callback with an empty argument' % lang, lang, [], [
            'foreign_callback!(callback Cb { self_type TrCb; on = TrCb::on(&self, x: ()); });', 'foreign_class!(class K { fn go(cb: Box<dyn TrCb>); });'],
            'pub trait TrCb { fn on(&self, x: ()); } pub fn go(cb: Box<dyn TrCb>) {}'))
        out.append(('%s two callbacks with equal methods' % lang, lang, [], [
            'foreign_callback!(callback Cb1 { self_type Tr1; on = Tr1::on(&self, x: i32); });', 'foreign_callback!(callback Cb2 { self_type Tr2; on = Tr2::on(&self, x: i32); });',
            'foreign_class!(class K { fn go(a: Box<dyn Tr1>, b: Box<dyn Tr2>); });'],
            'pub trait Tr1 { fn on(&self, x: i32); } pub trait Tr2 { fn on(&self, x: i32); } pub fn go(a: Box<dyn Tr1>, b: Box<dyn Tr2>) {}'))
    return out


def corner(c, i):
    sig, lang, opts, dsl, rs = c
    d = vlib.fresh_dir('g04', 'k%d' % i)
    os.makedirs(d + '/gen')
    vlib.write(d + '/src.rs.in', 'use crate::support::*;\nuse std::sync::MutexGuard;\n' + '\n'.join(dsl) + '\n')
    vlib.write(d + '/lib.rs', tgt.lib_rs(lang, d + '/glue.rs', rs))
    return d, ['--lang', lang, '--ns', NS[lang], '--out', d + '/gen', '--dst', d + '/glue.rs', '--src', d + '/src.rs.in'] + opts


def corner_check(c, d):
    sig, lang = c[0], c[1]
    try:
        tgt.rust_check(lang, d + '/lib.rs', d + '/o', crate='vmod' if lang == 'python' else 'vns')
        if lang == 'cpp':
            tgt.cpp_check(d + '/gen')
        elif lang == 'java':
            tgt.javac([os.path.join(d, 'gen', f) for f in os.listdir(d + '/gen') if f.endswith('.java')], d + '/k', params=False)
    except vlib.BuildFailure as e:
        return '%s: %s' % (e.what, e.out[:2000])


CASES = dict(cpp=CppCase, java=JavaCase, python=PyCase)


def main(ck):
    r = random.Random('g04-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    n = 400 if thorough else 60
    vlib.build_vgen()
    tgt.build_pyrt()
    cases = []
    for i in range(n):
        lang = ['cpp', 'java', 'cpp', 'java', 'python'][i % 5]
        cases.append(CASES[lang](i, r))
    ck.cov['rule'] = 'one declared member whose generated form was compared and (if callable) called'
    ok = []
    for c, x in zip(cases, vlib.vgen_jobs([c.job for c in cases], timeout=800)):
        if x[0]:
            ok.append(c)
        else:
            ck.violation('%s rejected' % c.lang, 'a valid %s program (%s) is rejected: %s' % (c.lang, ' '.join(c.opts) or 'default options', (x[1] + x[2])[:1200]), [c.dir])
    cases = ok
    js = [c for c in cases if c.lang == 'java']
    for c in js:
        vlib.write(c.dir + '/list', '\n'.join(c.jfiles()) + '\n')
    kd = vlib.fresh_dir('g04', 'decls')
    vlib.run([vlib.JAVA_HOME + '/bin/javac', '-d', kd, os.path.join(tgt.H, 'java', 'Decls.java')])
    x = vlib.run([vlib.JAVA_HOME + '/bin/java', '-cp', kd, 'Decls'] + [c.dir + '/list' for c in js], timeout=800)
    if x.returncode != 0:
        ck.violation('java not readable', 'the generated Java cannot be read: ' + x.stderr[-1500:], [])
        cases = [c for c in cases if c.lang != 'java']

    def one(c):
        out = []

        class Rec:          # collects, so that threads do not interleave
            count = staticmethod(lambda n=1: out.append(('count', n)))
            nontrivial = staticmethod(lambda k: out.append(('nt', k)))
            violation = staticmethod(lambda *a: out.append(('v',) + a))
        plan = c.plan()
        try:
            cmd = c.build(Rec, plan)
        except vlib.BuildFailure as e:
            out.append(('v', '%s does not compile' % c.lang, '%s program: %s: %s' % (c.lang, e.what, e.out[:2500]), [c.dir]))
            return out
        x = vlib.run(cmd, timeout=120, hang=True)
        lines = x.stdout.splitlines()
        if c.lang == 'python' and lines and lines[0].startswith('D '):
            c.compare(Rec, json.loads(lines[0][2:]))
            lines = lines[1:]
        lines = [l for l in lines if l[:2] in ('C ', 'H ', 'B ', 'R ', 'F ') or l == 'end']
        want = c.exp + ['end']
        out.append(('count', len(want)))
        if lines != want:
            i = next((i for i, (a, b) in enumerate(zip(lines, want)) if a != b), min(len(lines), len(want)))
            ids = ['%d = %s.%s' % (m.id, k.name, m.foreign_name()) for k in c.g.classes for m in k.methods if m.kind != 'empty_ctor']
            out.append(('v', '%s calls reach something else' % c.lang, '%s program: after %s\nexpected %s\nobserved %s\n(exit %s, %s)\n%s'
                        % (c.lang, lines[max(0, i - 3):i], want[i:i + 2], lines[i:i + 2], x.returncode, x.stderr[-800:], '\n'.join(ids)), [c.dir]))
        return out
    calls = 0
    for c, out in zip(cases, vlib.pmap(one, cases)):
        for o in out:
            if o[0] == 'count':
                ck.count(o[1])
                calls += o[1]
            elif o[0] == 'nt':
                ck.nontrivial(o[1])
            else:
                ck.violation(*o[1:])
    cs = corners()
    if not thorough:
        fixed = [c for c in cs if 'called' not in c[0] or c[0].split()[-1] in ('env', 'tmp', 'obj_ptr', 'py')]
        cs = fixed + r.sample([c for c in cs if c not in fixed], 16)
    dirs = [corner(c, i) for i, c in enumerate(cs)]
    todo = []
    for c, (d, job), x in zip(cs, dirs, vlib.vgen_jobs([j for _, j in dirs], timeout=800)):
        ck.count()
        if x[0]:
            todo.append((c, d))
            ck.nontrivial(c[0])
        elif not re.search(r'At \S+:\d+:\d+|src.rs.in', x[1] + x[2]):
            ck.violation(c[0] + ' failed', '%s: the generator fails without a place in the source: %s' % (c[0], (x[1] + x[2])[:800]), [d])
    for (c, d), bad in zip(todo, vlib.pmap(lambda t: corner_check(*t), todo)):
        if bad:
            ck.violation(c[0], '%s does not compile: %s' % (c[0], bad), [d])
    ck.cov['corner_programs'] = dict(built=len(todo), rejected=len(cs) - len(todo))
    ck.cov['programs'] = {l: sum(c.lang == l for c in cases) for l in NS}
    ck.cov['declared_members'] = sum(len(getattr(d, 'methods', getattr(d, 'items', []))) for c in cases for d in c.g.items)
    ck.cov['observed_events'] = sum(len(c.exp) for c in cases)
    if not ck.violations:
        shutil.rmtree(os.path.join(vlib.BUILD, 'g04'), ignore_errors=True)


if __name__ == '__main__':
    vlib.main('G04', main)
