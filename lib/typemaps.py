"""Random user typemaps (foreign_typemap! rules) with known semantics.

Every rule k converts between a Rust type U<k>(i64) and something that crosses the border; each of its
conversion snippets reports an event and changes the value by an affine map, so the chain of snippets
that ran, their order and their number can be read off the log and the value.
"""
import random

PR = {'i32': ('int32_t', 'int'), 'i64': ('int64_t', 'long'), 'i16': ('int16_t', 'short'), 'f64': ('double', 'double')}


class Rule:
    """kind: 'chain' (Rust only, onto a primitive or another rule's type), 'ftype' (with a foreign type)."""

    def __init__(self, k, kind, base, has_in=True, has_out=True, name=None):
        self.k, self.kind, self.base, self.has_in, self.has_out = k, kind, base, has_in, has_out
        self.name = name or 'U%d' % k
        self.where = 'source'

    def base_rust(self, lang='cpp'):
        if isinstance(self.base, Rule):
            return self.base.name
        if lang == 'java':
            return dict(i32='jint', i64='jlong', i16='jshort', f64='jdouble')[self.base]
        return self.base

    def text(self, lang):
        k = self.k
        o = 'foreign_typemap!(\n'
        if self.has_out:
            o += '    ($p:r_type) %s => %s {\n        $out = crate::support::out%d($p);\n    };\n' % (self.name, self.base_rust(lang), k)
            if self.kind == 'ftype':
                if lang == 'cpp':
                    o += '    ($p:f_type, req_modules = ["\\"user_types.hpp\\""]) => "User%d" "user_out%d($p)";\n' % (k, k)
                else:
                    o += '    ($p:f_type) => "User%d" "$out = User%d.out($p);";\n' % (k, k)
        if self.has_in:
            o += '    ($p:r_type) %s <= %s {\n        $out = crate::support::in%d($p);\n    };\n' % (self.name, self.base_rust(lang), k)
            if self.kind == 'ftype':
                if lang == 'cpp':
                    o += '    ($p:f_type, req_modules = ["\\"user_types.hpp\\""]) <= "User%d" "user_in%d($p)";\n' % (k, k)
                else:
                    o += '    ($p:f_type) <= "User%d" "$out = $p.in();";\n' % k
        return o + ');\n'

    def foreign(self, lang):
        k = self.k
        if self.kind == 'ftype':
            return 'User%d' % k
        if isinstance(self.base, Rule):
            return self.base.foreign(lang)
        return PR[self.base][0 if lang == 'cpp' else 1]

    def prim(self):
        return self.base.prim() if isinstance(self.base, Rule) else self.base

    # the affine maps; Rust computes them in i64
    def f(self, way, x):
        return x * (3 if way == 'in' else 5) + self.k

    def rust(self):
        k = self.k
        b = self.base_rust()
        get, mk = ('x.0', '%s(v)' % b) if isinstance(self.base, Rule) else ('x as i64', 'v as %s' % b)
        o = '#[derive(Debug, Clone, Copy)]\npub struct %s(pub i64);\n' % self.name
        o += 'pub fn out%d(x: %s) -> %s { crate::ev("r%dout"); let v = x.0 * 5 + %d; %s }\n' % (k, self.name, b, k, k, mk)
        o += 'pub fn in%d(x: %s) -> %s { crate::ev("r%din"); %s((%s) * 3 + %d) }\n' % (k, b, self.name, k, self.name, get, k)
        return o

    def cpp(self):
        if self.kind != 'ftype':
            return ''
        k, p = self.k, PR[self.base][0]
        return ('struct User%d { %s v; };\ninline User%d user_out%d(%s x) { vh_ev("c%dout"); return User%d{ x }; }\n'
                'inline %s user_in%d(const User%d &x) { vh_ev("c%din"); return x.v; }\n' % (k, p, k, k, p, k, k, p, k, k, k))

    def java(self, pkg):
        if self.kind != 'ftype':
            return ''
        k, p = self.k, PR[self.base][1]
        return ('package %s;\npublic final class User%d {\n    public final %s v;\n    public User%d(%s v) { this.v = v; }\n'
                '    static User%d out(%s x) { Ev.ev("c%dout"); return new User%d(x); }\n'
                '    %s in() { Ev.ev("c%din"); return v; }\n}\n' % (pkg, k, p, k, p, k, p, k, k, p, k))

    def chain(self, way):
        """(events, function on the foreign value) of one crossing."""
        evs, fs = [], []
        r = self
        while isinstance(r, Rule):
            if way == 'in':
                evs.insert(0, 'r%din' % r.k)
                fs.insert(0, r)
                if r.kind == 'ftype':
                    evs.insert(0, 'c%din' % r.k)
            else:
                evs.append('r%dout' % r.k)
                fs.append(r)
                if r.kind == 'ftype':
                    evs.append('c%dout' % r.k)
            r = r.base

        def f(x):
            for q in fs:
                x = q.f(way, x)
            return x
        return evs, f


def random_rules(r, n, first=1):
    rules = []
    for i in range(n):
        k = first + i
        kind = r.choice(['chain', 'ftype', 'ftype'])
        base = r.choice(list(PR))
        if kind == 'chain' and rules and r.random() < 0.6:
            base = r.choice(rules)
        rules.append(Rule(k, kind, base))
    return rules


def random_maps(r, lang):
    """Typemap items and a class that uses them (text only)."""
    rules = random_rules(r, r.randrange(1, 6))
    o = 'foreign_class!(class TmUser {\n'
    for x in rules:
        o += '    fn tm_a%d(x: %s) -> %s;\n' % (x.k, x.name, x.name)
        if lang == 'cpp' and x.kind == 'ftype':
            o += '    fn tm_b%d(x: Option<%s>) -> Result<%s, String>;\n' % (x.k, x.name, x.name)
        elif lang == 'java':
            o += '    fn tm_b%d() -> Result<%s, String>;\n' % (x.k, x.name)
    return [x.text(lang) for x in rules], [o + '});\n']
