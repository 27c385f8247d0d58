"""Random interface programs: model, DSL text, and the Rust code they bind to.

A program is a list of items; every item knows its DSL text and its Rust support code, so the same
program can be shuffled, split over files and reformatted. Every Rust function reports its id and a
canonical form of its arguments through `crate::hit`, so a caller can tell what was reached.
"""
import random
import re

PRIMS = ['bool', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'usize', 'f32', 'f64']
CPP = dict(bool='bool', i8='int8_t', i16='int16_t', i32='int32_t', i64='int64_t', u8='uint8_t',
           u16='uint16_t', u32='uint32_t', u64='uint64_t', usize='uintptr_t', f32='float', f64='double')
JAVA = dict(bool='boolean', i8='byte', i16='short', i32='int', i64='long', u8='short', u16='int',
            u32='long', u64='long', usize='long', f32='float', f64='double')
NOUN = ['Apple', 'Bridge', 'Cloud', 'Delta', 'Engine', 'Forest', 'Garden', 'Harbor', 'Island', 'Jungle',
        'Kernel', 'Ladder', 'Mirror', 'Needle', 'Orbit', 'Pillar', 'Quartz', 'River', 'Saddle', 'Tunnel',
        'Umbra', 'Valley', 'Window', 'Xenon', 'Yarrow', 'Zephyr']
VERB = ['load', 'store', 'merge', 'split', 'open', 'close', 'find', 'push', 'pull', 'scan', 'bind', 'emit',
        'fold', 'grow', 'hide', 'join', 'kick', 'lift', 'move', 'nudge', 'order', 'pick', 'quote', 'rank',
        'seek', 'trim', 'unite', 'visit', 'weigh', 'yield']
WORD = ['alpha', 'beta', 'gamma', 'delta', 'omega', 'sigma', 'count', 'total', 'limit', 'depth', 'width',
        'height', 'index', 'label', 'level', 'mode', 'phase', 'range', 'scale', 'shape', 'state', 'tag']
BAD = {'move', 'yield'}


VERR = '''
#[derive(Debug, Clone)]
pub struct VErr(pub String);
impl std::fmt::Display for VErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for VErr {}
'''


class Names:
    def __init__(self, r):
        self.r = r
        self.used = set()

    def uniq(self, mk):
        for _ in range(1000):
            s = mk()
            k = s.lower().replace('_', '')
            if k not in self.used and s not in BAD:
                self.used.add(k)
                return s
        raise RuntimeError('names')

    def cls(self):
        r = self.r

        def mk():
            s = r.choice(NOUN)
            k = r.randrange(6)
            if k == 0:
                s += str(r.randrange(100))
            elif k == 1:
                s += '_' + r.choice(NOUN)
            elif k <= 3:
                s += r.choice(NOUN)
            return s
        return self.uniq(mk)

    def fn(self):
        r = self.r

        def mk():
            s = r.choice(VERB)
            k = r.randrange(8)
            if k == 0:
                return s + r.choice(WORD).capitalize()
            if k == 1:
                return s + '_' + r.choice(WORD) + str(r.randrange(10))
            if k == 2:
                return s + '_' + r.choice(WORD) + '_' + r.choice(WORD)
            return s + '_' + r.choice(WORD)
        return self.uniq(mk)

    def item(self):
        r = self.r

        def mk():
            s = r.choice(WORD)
            k = r.randrange(4)
            if k == 0:
                return s.capitalize() + str(r.randrange(50))
            if k == 1:
                return s.upper() + '_' + r.choice(WORD).upper()
            return (s + r.choice(WORD)).capitalize()
        return self.uniq(mk)


# ------------------------------------------------------------------ types
# ('prim', 'i32') ('str',) ('string',) ('unit',) ('enum', E) ('ref', C) ('mut', C) ('val', C)
# ('opt', prim) ('vec', prim) ('slice', prim) ('res', t)
class Ty:
    def __init__(self, k, a=None, err='String'):
        self.k, self.a, self.err = k, a, err    # Python wants a std::error::Error in results

    def rust(self):
        k, a = self.k, self.a
        return {'prim': lambda: a, 'str': lambda: '&str', 'string': lambda: 'String', 'unit': lambda: '()',
                'enum': lambda: a.name, 'ref': lambda: '&' + a.rt, 'mut': lambda: '&mut ' + a.rt,
                'val': lambda: a.own(), 'opt': lambda: 'Option<%s>' % a, 'vec': lambda: 'Vec<%s>' % a,
                'slice': lambda: '&[%s]' % a, 'res': lambda: 'Result<%s, %s>' % (a.rust(), self.err),
                'cb': lambda: 'Box<dyn %s>' % a.trait}[k]()

    def default(self, n):
        """Rust expression of a value distinguishable by n."""
        k, a = self.k, self.a
        if k == 'prim':
            return prim_rust(a, n)
        if k == 'string':
            return 'String::from("r%d")' % n
        if k == 'unit':
            return '()'
        if k == 'enum':
            return '%s::%s' % (a.name, a.items[n % len(a.items)].rv)
        if k == 'val':
            return a.mk()
        if k == 'opt':
            return 'Some(%s)' % prim_rust(a, n)
        if k == 'vec':
            return 'vec![%s]' % ', '.join([prim_rust(a, n)] * (n % 3 + 1))
        if k == 'res':
            return 'Ok(%s)' % a.default(n)
        raise KeyError(k)

    def canon(self, v):
        """Rust expression (a String) of the canonical form of argument v."""
        k = self.k
        if k in ('ref', 'mut'):
            return 'format!("obj{}", %s.v)' % v
        if k == 'cb':
            return '{ let _ = &%s; String::from("cb") }' % v
        if k == 'val':
            return 'format!("obj{}", %s.v)' % self.a.peek(v)
        return 'format!("{:?}", %s)' % v

    def cpp(self, arg, sv='std', opt='std', var='std'):
        k, a = self.k, self.a
        if k == 'prim':
            return CPP[a]
        if k == 'str' or (k == 'string' and arg):
            return 'std::string_view' if sv == 'std' else 'boost::string_view'
        if k == 'string':
            return 'RustString'
        if k == 'unit':
            return 'void'
        if k == 'enum':
            return a.name
        if k == 'ref':
            return 'const %s &' % a.name if arg else a.name + 'Ref'
        if k == 'mut':
            return '%s &' % a.name if arg else a.name + 'Ref'
        if k == 'val':
            return a.name
        if k == 'opt':
            return '%s::optional<%s>' % (opt, CPP[a])
        if k == 'vec':
            return 'RustVec' + a
        if k == 'slice':
            return 'RustSlice<const %s>' % CPP[a]
        if k == 'res':
            if a.k == 'unit':
                return '%s::optional<RustString>' % opt
            return '%s::variant<%s, RustString>' % (var, a.cpp(arg, sv, opt, var))
        if k == 'cb':
            return 'std::unique_ptr<%s>' % a.name
        raise KeyError(k)

    def java(self, arg):
        k, a = self.k, self.a
        if k == 'prim':
            return JAVA[a]
        if k in ('str', 'string'):
            return 'java.lang.String'
        if k == 'unit':
            return 'void'
        if k in ('enum', 'ref', 'mut', 'val', 'cb'):
            return a.name
        if k == 'opt':
            if arg:
                return {'i32': 'Integer', 'i64': 'Long', 'f64': 'Double'}[a]
            return {'i32': 'java.util.OptionalInt', 'i64': 'java.util.OptionalLong', 'f64': 'java.util.OptionalDouble'}[a]
        if k in ('vec', 'slice'):
            return JAVA[a] + '[]'
        if k == 'res':
            return a.java(arg)
        raise KeyError(k)


def prim_rust(p, n):
    if p == 'bool':
        return 'true' if n % 2 else 'false'
    if p in ('f32', 'f64'):
        return '%d.5' % (n % 1000)
    return str(n % 100)


class EItem:
    pass


def camel(name):
    """lowerCamelCase of a snake_case or camelCase name."""
    ws = [w for w in re.split('_+', re.sub('([a-z0-9])([A-Z])', r'\1_\2', name)) if w]
    return ''.join(w.lower() if i == 0 else w[0].upper() + w[1:].lower() for i, w in enumerate(ws))


class Enum:
    kind = 'enum'

    def dsl(self):
        o = doc(self.docs)
        if self.derives:
            o += '#[derive(%s)]\n' % ', '.join(self.derives)
        o += 'enum %s {\n' % self.name
        for i in self.items:
            o += doc(i.docs, '    ') + '    %s = %s::%s,\n' % (i.name, self.name, i.rv)
        return 'foreign_enum!(\n%s});\n' % o

    def support(self):
        o = '#[derive(Debug, Clone, Copy, PartialEq)]\npub enum %s {\n' % self.name
        for i in self.rust_items:
            o += '    %s%s,\n' % (i.rv, '' if i.disc is None else ' = %d' % i.disc)
        return o + '}\n'


class Callback:
    kind = 'callback'
    old = False         # the older names of the same declarations

    def dsl(self):
        o = doc(self.docs) + 'callback %s {\n    self_type %s;\n' % (self.name, self.trait)
        for m in self.methods:
            o += doc(m.docs, '    ') + '    %s = %s::%s(%s)%s;\n' % (m.fname, self.trait, m.rname, sig_args(m), ret(m.ret))
        if self.old:
            return 'foreign_interface!(\n%s});\n' % o.replace('callback %s {' % self.name, 'interface %s {' % self.name, 1)
        return 'foreign_callback!(\n%s});\n' % o

    def support(self):
        o = 'pub trait %s {\n' % self.trait
        for m in self.methods:
            o += '    fn %s(%s)%s;\n' % (m.rname, sig_args(m, True), ret(m.ret))
        o += '}\n'
        return o


class Method:
    """kind: ctor | static | method | empty_ctor; style: assoc | free | inline"""
    alias = None
    body = None         # replaces the body after the report

    camel = False       # the class derives camelCaseAliases

    def foreign_name(self):
        return self.alias or (camel(self.rname) if self.camel else self.rname)


class Class:
    kind = 'class'
    old = False
    camel = 0           # place of camelCaseAliases among the derives, from 1
    own_kind = 'T'
    foreign = ()        # pieces of code to be copied into the class: (place among the methods, text)

    def foreign_dsl(self, i):
        o = ''
        for k, (at, text) in enumerate(self.foreign):
            if at == i:
                o += '    %s %s;\n' % ('foreigner_code' if self.old else 'foreign_code',
                                       'r#"%s"#' % text if k % 2 else '"%s"' % text.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n'))
        return o

    def own(self):
        return {'T': '%s', 'Arc': 'Arc<%s>', 'ArcMutex': 'Arc<Mutex<%s>>', 'Box': 'Box<%s>', 'Mutex': 'Mutex<%s>',
                'Rc': 'Rc<%s>', 'RcRefCell': 'Rc<RefCell<%s>>', 'RefCell': 'RefCell<%s>'}[self.own_kind] % self.rt

    def wrap(self, e):
        return {'T': '%s', 'Arc': 'Arc::new(%s)', 'ArcMutex': 'Arc::new(Mutex::new(%s))', 'Box': 'Box::new(%s)',
                'Mutex': 'Mutex::new(%s)', 'Rc': 'Rc::new(%s)', 'RcRefCell': 'Rc::new(RefCell::new(%s))',
                'RefCell': 'RefCell::new(%s)'}[self.own_kind] % e

    def mk(self):
        return '%s::vmk()' % self.rt

    def peek(self, e):
        return {'ArcMutex': '%s.lock().unwrap()', 'Mutex': '%s.lock().unwrap()', 'RcRefCell': '%s.borrow()',
                'RefCell': '%s.borrow()'}.get(self.own_kind, '%s') % e

    def dsl(self):
        o = doc(self.docs)
        derives = list(self.derives)
        if self.camel:
            derives.insert(self.camel - 1, 'camelCaseAliases')
        if len(self.name) % 2 and len(derives) > 1:
            o += '#[derive(%s)]\n' % ', '.join(derives)
        else:
            for d in derives:
                o += '#[derive(%s)]\n' % d
        o += 'class %s {\n' % self.name
        if self.has_self:
            o += '    self_type %s;\n' % self.rt
        for i, m in enumerate(self.methods):
            o += self.foreign_dsl(i)
            o += doc(m.docs, '    ')
            for a in m.attrs:
                o += '    #[%s]\n' % a
            o += '    ' + {'public': '', 'private': 'private ', 'protected': 'protected '}[m.access]
            if m.kind == 'empty_ctor':
                o += 'constructor = empty%s;\n' % (' -> ' + self.own() if m.typed else '')
                continue
            head = 'constructor' if m.kind == 'ctor' else 'fn' if not self.old else 'method' if m.kind == 'method' else 'static_method'
            if m.style == 'inline':
                name = m.rname
            elif m.style == 'free':
                name = m.free
            else:
                name = '%s::%s' % (self.rt, m.rname)
            o += '%s %s(%s)%s' % (head, name, sig_args(m), ret(m.ret))
            if m.style == 'inline':
                call = ', '.join(a for a, _ in m.args)
                if m.kind == 'method':
                    o += ' { this.%s(%s) }\n' % (m.impl, call)
                else:
                    o += ' { %s::%s(%s) }\n' % (self.rt, m.impl, call)
            else:
                o += ';'
                if m.alias:
                    o += ' alias %s;' % m.alias
                o += '\n'
        o += self.foreign_dsl(len(self.methods))
        for extra in self.extra_dsl:
            o += '    ' + extra + '\n'
        return '%s!(\n%s});\n' % ('foreigner_class' if self.old else 'foreign_class', o)

    def support(self):
        o = ''
        free = ''
        if self.has_self or any(m.style != 'free' for m in self.methods):
            o += '%spub struct %s {\n    pub v: i64,\n}\nimpl %s {\n' % (
                '#[derive(Clone)]\n' if 'Clone' in self.derives or 'Copy' in self.derives or self.clone_rust else '', self.rt, self.rt)
            if self.has_self:
                o += '    pub fn vmk() -> %s { %s }\n' % (self.own(), self.wrap('%s { v: crate::seq() }' % self.rt))
        else:
            o += 'impl Nothing%s {\n' % self.name
            free += 'pub struct Nothing%s;\n' % self.name
        for m in self.methods:
            if m.kind == 'empty_ctor':
                continue
            name = m.impl if m.style == 'inline' else m.rname
            names = ['p%d' % i for i in range(len(m.args))]
            args = ', '.join('%s: %s' % (n, t.rust()) for n, (_, t) in zip(names, m.args))
            canon = ' + "," + '.join('&' + t.canon(n) for n, (_, t) in zip(names, m.args)) or '""'
            me = '' if m.kind != 'method' else 'format!("@{},", %s.v)' % ('this' if m.style == 'free' else 'self')
            body = '{ crate::hit(%d, &(String::new()%s + %s)); %s }' % (
                m.id, ' + &' + me if me else '', canon, m.body or (self.ctor_value(m) if m.kind == 'ctor' else m.ret.default(m.id)))
            if m.style == 'free':
                s = args
                if m.kind == 'method':
                    s = 'this: %s%s' % ('&mut ' if m.mut else '&', self.rt) + (', ' + args if args else '')
                free += 'pub fn %s(%s)%s %s\n' % (m.free, s, ret(m.ret), body)
            else:
                s = args
                if m.kind == 'method':
                    s = ('&mut self' if m.mut else '&self') + (', ' + args if args else '')
                o += '    pub fn %s(%s)%s %s\n' % (name, s, ret(m.ret), body)
        return o + '}\n' + free + self.extra_support

    def ctor_value(self, m):
        v = self.wrap('%s { v: crate::seq() }' % self.rt)
        return 'Ok(%s)' % v if m.ret.k == 'res' else v


def ret(t):
    return '' if t.k == 'unit' else ' -> ' + t.rust()


def sig_args(m, trait=False):
    a = []
    if m.kind == 'method':
        a.append('&mut self' if m.mut else '&self')
    a += ['%s: %s' % (n, t.rust()) for n, t in m.args]
    return ', '.join(a)


def doc(lines, ind=''):
    if lines and sum(map(len, lines)) % 4 == 0 and not any('*/' in l for l in lines):
        return '%s/** %s */\n' % (ind, ('\n' + ind).join(lines))
    return ''.join('%s/// %s\n' % (ind, l) if l else '%s///\n' % ind for l in lines)


def reorder(todo):
    todo = list(todo)
    all_ = list(todo)
    out = []
    while todo:
        for i in todo:
            need = [t.a for m in getattr(i, 'methods', []) if m.kind != 'empty_ctor'
                    for t in [x for _, x in m.args] + [m.ret] if t.k in ('enum', 'cb') and t.a in all_]
            if all(x in out for x in need):
                break
        todo.remove(i)
        out.append(i)
    return out


class Gen:
    """opts: docs, aliases, access, attrs, callbacks, kinds (self kinds), free, inline."""

    def __init__(self, seed, lang, **opts):
        self.r = random.Random(seed)
        self.lang = lang
        self.err = 'VErr' if lang == 'python' else 'String'
        self.names = Names(self.r)
        self.id = 0
        self.o = dict(docs=True, aliases=True, access=True, inline=lang != 'python', free=True, callbacks=lang != 'python', cyclic=lang != 'cpp',
                      attrs=[], class_derives=[], enum_derives=[], by_val=True, res=True, opt=True, vec=True,
                      kinds={'cpp': ['T', 'T', 'T', 'Arc', 'ArcMutex', 'Box', 'Rc', 'RcRefCell'],
                             'java': ['T', 'T', 'T', 'Arc', 'ArcMutex', 'Box', 'Rc', 'RcRefCell'],
                             'python': ['T', 'T', 'Arc', 'ArcMutex', 'Box', 'Mutex']}[lang],
                      classes=None, enums=None, cbs=None, max_methods=8)
        self.o.update(opts)

    def next_id(self):
        self.id += 1
        return self.id

    def docs(self, p=0.4):
        r = self.r
        if not self.o['docs'] or r.random() > p:
            return []
        n = r.choice([1, 1, 2, 3])
        return [' '.join(r.choice(WORD) for _ in range(r.randrange(1, 6))) + r.choice(['', '.', '?', ' <b>', ' "q"', ' & more', ' %d', ' */', ' C:\\users', ' back\\'])
                if r.random() > 0.08 else '' for _ in range(n)] + ['doc%d' % self.next_id()]

    def usable(self):
        """Classes a signature may mention; without separate implementation headers C++ needs them acyclic."""
        cs = self.classes
        if not self.o['cyclic']:
            cs = cs[:cs.index(self.cur) + 1] if self.cur in cs else []
        return [c for c in cs if c.has_self]

    def arg_ty(self, cb=False):
        r = self.r
        k = r.randrange(20)
        if k < 9:
            return Ty('prim', r.choice(PRIMS))
        if k < 12:
            return Ty('str')
        if k < 14 and self.enums:
            return Ty('enum', r.choice(self.enums))
        if cb:
            return Ty('prim', r.choice(PRIMS[:9]))
        if k < 17:
            c = [c for c in self.usable() if c.ref_ok]
            if c:
                return Ty('ref', r.choice(c))
        if k == 17 and self.o['opt']:
            return Ty('opt', r.choice(['i32', 'i64', 'f64']))
        if k == 18 and self.o['vec'] and self.lang != 'java':
            return Ty('slice', r.choice(['i32', 'i64', 'f64']))
        if k == 19 and self.o['by_val']:
            c = [c for c in self.usable() if c.val_ok]
            if c:
                return Ty('val', r.choice(c))
        return Ty('prim', r.choice(PRIMS))

    def ret_ty(self, cb=False):
        r = self.r
        k = r.randrange(20)
        if k < 5:
            return Ty('unit')
        if k < 11:
            return Ty('prim', r.choice(PRIMS))
        if k < 13 and self.enums and not (cb and self.lang == 'java'):
            return Ty('enum', r.choice(self.enums))
        if cb:
            return Ty('prim', 'i32')
        if k < 15:
            return Ty('string')
        if k == 15 and self.o['opt']:
            return Ty('opt', r.choice(['i32', 'i64', 'f64']))
        if k == 16 and self.o['vec']:
            return Ty('vec', r.choice(['i32', 'i64', 'f64']))
        if k == 17 and self.o['res']:
            return Ty('res', r.choice([Ty('unit'), Ty('prim', 'i32'), Ty('string')] if self.lang != 'cpp' else [Ty('unit'), Ty('prim', 'i32')]), self.err)
        if k >= 18 and self.o['by_val']:
            c = self.usable()
            if c:
                return Ty('val', r.choice(c))
        return Ty('unit')

    def args(self, cb=False, anon=True):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        ws = r.sample(WORD, n)
        a = []
        for i in range(n):
            w = ws[i]
            k = r.randrange(6)
            if k == 0:
                w = w + '_' + str(i)
            elif k == 1:
                w = w + r.choice(WORD).capitalize()
            elif k == 2 and anon and not cb:
                w = '_'
            a.append((w, self.arg_ty(cb)))
        if any(w == '_' for w, _ in a) and r.random() < 0.5:
            # a name that would do for an argument without one
            i, j = r.randrange(n), r.randrange(n)
            if a[i][0] != '_':
                a[i] = ('a%d' % j, a[i][1])
        return a

    def program(self):
        r, o = self.r, self.o
        n_enum = o['enums'] if o['enums'] is not None else r.randrange(0, 4)
        n_cls = o['classes'] if o['classes'] is not None else r.randrange(1, 6)
        n_cb = o['cbs'] if o['cbs'] is not None else (r.randrange(0, 3) if o['callbacks'] else 0)
        self.enums, self.classes, self.cbs = [], [], []
        for _ in range(n_enum):
            e = Enum()
            e.name = self.names.cls()
            e.docs = self.docs()
            e.derives = [d for d in o['enum_derives'] if r.random() < 0.5]
            e.items = []
            disc = 0
            for i in range(r.randrange(1, 7)):
                it = EItem()
                it.name = self.names.item()
                it.rv = it.name.capitalize().replace('_', '') if r.random() < 0.6 else 'V%d' % i
                if it.rv in [x.rv for x in e.items]:
                    it.rv = 'W%d' % i
                it.docs = self.docs(0.3)
                it.disc = None
                e.items.append(it)
            # the order and the discriminants of the Rust enum need not be those of the declaration
            e.rust_items = list(e.items)
            if self.lang != 'python':
                r.shuffle(e.rust_items)
                if r.random() < 0.4:
                    for it in e.rust_items:
                        disc += r.randrange(1, 9)
                        it.disc = disc
            self.enums.append(e)
        for _ in range(n_cls):
            c = Class()
            c.name = self.names.cls()
            c.rt = c.name if r.random() < 0.3 else c.name.replace('_', '') + 'Rt'
            c.has_self = r.random() < 0.8
            c.docs = self.docs()
            c.own_kind = r.choice(o['kinds']) if c.has_self else 'T'
            c.derives = [d for d in o['class_derives'] if r.random() < 0.5]
            c.clone_rust = False
            if self.lang == 'python' and c.own_kind == 'T' and r.random() < 0.5:
                c.derives.append('Clone')
            c.val_ok = (self.lang != 'python' or 'Clone' in c.derives)
            c.ref_ok = True
            if self.lang == 'java' and c.own_kind not in ('T',):
                c.val_ok = False
                c.ref_ok = c.own_kind in ('Arc', 'Box', 'Rc')
            c.extra_dsl, c.extra_support = [], ''
            c.methods = []
            self.classes.append(c)
        for _ in range(n_cb):
            c = Callback()
            c.name = self.names.cls()
            c.trait = 'Tr' + c.name.replace('_', '')
            c.docs = self.docs()
            c.methods = []
            for _ in range(r.randrange(1, 6)):
                m = Method()
                m.kind, m.mut = 'method', r.random() < 0.4
                m.id = self.next_id()
                m.rname = self.names.fn()
                m.fname = m.rname if r.random() < 0.5 else self.names.fn()
                m.docs = self.docs(0.3)
                m.args, m.ret = self.args(cb=True), self.ret_ty(cb=True)
                c.methods.append(m)
            self.cbs.append(c)
        for c in self.classes:
            self.fill(c)
        for d in self.classes + self.cbs:
            d.old = r.random() < 0.1
        for c in self.classes:
            if o['aliases'] and r.random() < 0.2:
                c.camel = r.randrange(1, len(c.derives) + 2)
                for m in c.methods:
                    m.camel = m.kind != 'empty_ctor'
        self.items = self.order()
        return self

    def order(self):
        """A random order in which enums and callbacks come before their uses."""
        todo = self.enums + self.cbs + self.classes
        self.r.shuffle(todo)
        return reorder(todo)

    def method(self, c, kind):
        r, o = self.r, self.o
        m = Method()
        m.kind = kind
        m.id = self.next_id()
        m.mut = kind == 'method' and c.own_kind in ('T', 'ArcMutex', 'RcRefCell', 'Mutex') and r.random() < 0.4
        if self.lang == 'java' and c.own_kind == 'Rc':
            m.mut = False
        m.rname = self.names.fn()
        m.docs = self.docs()
        m.attrs = [a for a in o['attrs'] if r.random() < 0.35]
        m.access = r.choice(['public'] * 6 + ['private', 'protected']) if o['access'] and kind != 'ctor' else 'public'
        m.args = self.args(anon=True)
        m.ret = self.ret_ty() if kind != 'ctor' else Ty('val', c)
        styles = ['assoc'] * 3
        if o['free'] and kind != 'ctor':
            styles.append('free')
        if o['inline']:
            styles += ['inline']
        m.style = r.choice(styles)
        if m.style == 'inline' and any(n == '_' for n, _ in m.args):
            m.style = 'assoc'
        m.impl = 'imp_' + m.rname
        m.free = m.rname
        if kind != 'ctor' and m.style != 'inline' and o['aliases'] and r.random() < 0.3:
            m.alias = self.names.fn()
        return m

    def fill(self, c):
        r, o = self.r, self.o
        self.cur = c
        if c.has_self:
            if self.lang == 'python':
                n = 1
            else:
                n = r.choice([1, 1, 1, 2, 3])
            sigs = set()
            fallible = o['res'] and r.random() < 0.2 and self.lang == 'java'
            for _ in range(n):
                m = self.method(c, 'ctor')
                s = tuple(t.java(True) if self.lang == 'java' else t.cpp(True) for _, t in m.args)
                # overloaded constructors have to differ for the target language
                if len(s) == 1 and m.args[0][1].a is c:
                    m.args[0] = (m.args[0][0], Ty('prim', 'i16'))
                    s = ('i16',)
                if len(s) in [len(x) for x in sigs]:
                    continue
                sigs.add(s)
                if fallible:
                    m.ret = Ty('res', Ty('val', c), self.err)
                c.methods.append(m)
            if self.lang != 'python' and r.random() < 0.2 and len(c.methods) == 1 and not fallible:
                m = c.methods[0]
                m.kind, m.access, m.typed, m.docs, m.attrs = 'empty_ctor', 'private', True, [], []
        for _ in range(r.randrange(1, o['max_methods'] + 1)):
            kind = r.choice(['method', 'method', 'static']) if c.has_self else 'static'
            m = self.method(c, kind)
            if not c.has_self and m.style == 'assoc':
                m.style = 'free'
            if not c.has_self and m.style == 'inline':
                m.style = 'free'
            c.methods.append(m)
        r.shuffle(c.methods)
        if self.lang == 'python':
            c.methods.sort(key=lambda m: 0)

    # -------------------------------------------------------------- text
    def dsl(self, header=True):
        return 'use crate::support::*;\nuse std::{sync::{Arc, Mutex, MutexGuard}, rc::Rc, cell::{Ref, RefCell, RefMut}};\n' * header + '\n'.join(i.dsl() for i in self.items)

    def support(self):
        return (VERR if self.lang == 'python' else '') + '\n'.join(i.support() for i in self.items)
