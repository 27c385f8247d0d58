#!/usr/bin/env python3
"""G05: invalid input is rejected with the file and line of the offending declaration; accepted input is not silently incomplete."""
import collections
import os
import random
import re
import subprocess
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import badprog
import progen
import rustitems
import rustlex
import vlib
from g01 import NS

HEAD = 'use crate::support::*;\nuse std::{sync::{Arc, Mutex, MutexGuard}, rc::Rc, cell::{Ref, RefCell, RefMut}};\n'
LANGS = ['cpp', 'java', 'python']
AT = re.compile(r'^At vcrate: (\S+):(\d+):(\d+)$', re.M)

# texts no Rust lexer or parser accepts; @ marks the line of the fault
BROKEN = ['fn q( {}', 'struct Q { a: i32', 'const S: &str = "never closed;', 'fn q() { (] }', 'fn q() { { }', '} fn q() {}', 'let x = 5;',
          'foo bar baz;', 'impl {}', 'fn 12() {}', 'struct;', 'use ;', "const C: char = 'ab';", 'fn q() -> {}', 'enum Q { A B }', 'pub pub fn q() {}',
          'const N: i32 = 1', 'trait T { fn }', 'mod', 'static X: = 1;', 'fn q(a b: i32) {}', '$', 'const R: &str = r#"open";', 'fn q() { 1 +^ 2 }',
          'foreign_class![class X {];', 'type A = ;', 'where T: X {}', 'unsafe', "fn q<'>() {}"]
# malformed rules; all are rejected by the grammar of foreign_typemap
TYPEMAPS = ['($p:r_type) NoSuch => ;', '($p:r_type) &str => jstring { $out = 1; };', 'define_c_type!();', '($p:f_type) => "a" "b";', 'generic_alias!(A = );',
            '($p:r_type) Vec<i32> => $x { $out = 5 };', 'no_such_thing!(1);', '($p:z_type) i32 => i64 { $out = 1; };', '($p:r_type) i32', 'define_c_type!(struct A);',
            'define_c_type!(module="a.h"; fn q() {});', 'foreign_code!(5);', '($p:r_type <T: Swig>) i32 => ;', '($p:f_type) => "A" "$out = $p.x()" "y";', '=>', '() i32;', '($:r_type) i32;',
            '($p:r_type) => i64 { $out = $p; };', '($p:f_type, option = 5) => "x";', 'require!();',
            # rules that contradict or repeat one another
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:r_type) Ab => i32 { $out = $p.1; };',
            '($p:r_type) Ab <= i64 { $out = Ab($p); }; ($p:r_type) Ab <= i32 { $out = Ab($p); };',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:r_type) Ab;',
            '($p:r_type) <T: SwigForeignClass> Ab<T> => i64 { $out = $p.0; }; ($p:r_type) <T> Ab<T> <= i64 { $out = Ab($p); };',
            '($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; ($p:r_type) <U> Ab<U> <= i64 { $out = Ab($p); };',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type) => "long" "$out = $p;"; ($p:f_type) => "short" "$out = $p;";',
            '($p:r_type) Ab <= i64 { $out = Ab($p); }; ($p:f_type) <= "long" "$out = $p;"; ($p:f_type) <= "short" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, option = "A") => "long" "$out = $p;"; ($p:f_type, option = "A") => "short" "$out = $p;";',
            '($p:r_type) Ab <= i64 { $out = Ab($p); }; ($p:f_type, option = "A") <= "long" "$out = $p;"; ($p:f_type, option = "A") <= "short" "$out = $p;";',
            # rules whose code does not use its variables, or has none to use
            '($p:r_type) Ab => i64 { $out = 5; };', '($p:r_type) Ab => i64 { $p.0 };', '($p:r_type) Ab <= i64 { $out = Ab(1); };', '($q:r_type) Ab => i64 { $out = $p.0; };',
            '(r_type) Ab => i64 { $out = $p.0; };', '(r_type) Ab <= i64 { $out = Ab($p); };',
            '($p:r_type) Ab => i64 { $out = $p.0; }; (f_type) => "long" "$out = $p;";', '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, $a: temporary, $a: temporary) => "long" "$a = $p; $out = $a;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, unique_prefix = "/*x*/") => "long" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, req_modules = ["a" "b"]) => "long" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, req_modules = [5]) => "long" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type, no_such_key = "b") => "long" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type) => "long" "$out = $p;"',
            # rules that are incomplete
            '($p:r_type) Ab => i64;', '($p:r_type) Ab <= i64;', '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type) "long" => "short" "$out = $p;";',
            '($p:r_type) Ab <= i64 { $out = Ab($p); }; ($p:f_type) "long" <= "short" "$out = $p;";',
            '($p:r_type) Ab => i64 { $out = $p.0; }; ($p:f_type) <= "long" "$out = $p;";', '($p:r_type) Ab <= i64 { $out = Ab($p); }; ($p:f_type) => "long" "$out = $p;";',
            # generics where there are none
            'generic_alias!(A = i32); ($p:r_type) Ab => i64 { $out = $p.0; };', 'define_c_type!(module = "a.h"; #[repr(C)] struct A { a: i32 }); generic_alias!(B = i32); ($p:r_type) Ab => i64 { $out = $p.0; };',
            '($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; generic_alias!(5 = T);',
            # types for C
            'define_c_type!(module = "a.h"; struct A { a: i32 }); ($p:r_type) Ab => i64 { $out = $p.0; };', 'define_c_type!(module = "a.h"; union A { a: i32 }); ($p:r_type) Ab => i64 { $out = $p.0; };',
            'define_c_type!(module = "a.h"; #[no_mangle] pub fn q() {}); ($p:r_type) Ab => i64 { $out = $p.0; };', 'define_c_type!(module = "a.h"; #[no_mangle] pub extern "system" fn q() {}); ($p:r_type) Ab => i64 { $out = $p.0; };',
            'define_c_type!(module = "a.h"; pub extern "C" fn q() {}); ($p:r_type) Ab => i64 { $out = $p.0; };', 'define_c_type!(module = "a.h"; pub static Q: i32 = 1;); ($p:r_type) Ab => i64 { $out = $p.0; };',
            'define_c_type!(module = "a.h"; enum A { B }); ($p:r_type) Ab => i64 { $out = $p.0; };', 'define_c_type!(modul = "a.h"; #[repr(C)] struct A { a: i32 }); ($p:r_type) Ab => i64 { $out = $p.0; };',
            'define_c_type!(module = "a.h"; #[repr(Rust)] struct A { a: i32 }); ($p:r_type) Ab => i64 { $out = $p.0; };',
            'foreign_code!(module = "a.h"; option = 5; "x"); ($p:r_type) Ab => i64 { $out = $p.0; };', 'foreign_code!(module = a; "x"); ($p:r_type) Ab => i64 { $out = $p.0; };', 'foreign_code!(module = "a.h" "x"); ($p:r_type) Ab => i64 { $out = $p.0; };']
# the same for the text of a merged type map: must name the text
MAPFILES = ['mod swig_foreign_types_map {}\nfoo bar', 'fn (', '"', 'foreign_typemap!(\n($p:r_type) NoSuch => ;\n);', 'foreign_typemap!(5 + 5);', '#[swig_code]\nfn q(', 'mod swig_foreign_types_map {}\nmod swig_foreign_types_map {}',
            '\n\nfn q() }', 'foreign_typemap!();']


# generic rules are expanded where they are used: these are faults once somebody does
GENERIC = ['($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; generic_alias!(A = swig_no_such!(T)); ($p:f_type) => "A" "$out = $p;";',
           '($p:r_type) <T> Ab<T> => swig_i_type!(T, B, C) { $out = $p.0; };', '($p:r_type) <T> Ab<T> => swig_i_type!() { $out = $p.0; };',
           '($p:r_type) <T> Ab<T> => swig_no_such!(T) { $out = $p.0; };',
           '($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; ($p:f_type) => "swig_f_type!(Z)" "$out = $p;";', '($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; ($p:f_type) => "swig_f_type!(T, NoSuch)" "$out = $p;";',
           '($p:r_type) <T> Ab<T> => swig_i_type!(Z) { $out = $p.0; };', '($p:r_type) <T: NoSuchBound> Ab<T> => i64 { $out = $p.0; };',
           '($p:r_type) <T> Ab<T> => i64 { $out = $p.0; }; ($p:f_type) => "long" "swig_no_such!(T)";']


class Job:
    def __init__(self, kind, name, lang, files, want, extra=(), ext=None, decls=(), key='', note=''):
        self.kind, self.name, self.lang, self.files, self.want = kind, name, lang, files, want
        self.extra, self.ext, self.decls, self.key, self.note = list(extra), ext, decls, key, note


def scan_decls(text):
    """(kind, name) of each declaration flapigen would expand, by tokens."""
    ps = [x for k, x in rustlex.pieces(text) if k not in ('ws', 'comment')]
    out = []
    i = 0
    depth = 0
    while i < len(ps):
        x = ps[i]
        if depth == 0 and x in ('foreign_class', 'foreign_enum', 'foreign_callback') and ps[i + 1:i + 2] == ['!'] and ps[i + 2:i + 3] and ps[i + 2] in '({[':
            j = i + 3
            d = 0
            while j < len(ps):
                if ps[j] in ('(', '[', '{'):
                    d += 1
                    if d == 1 and ps[j] == '{':
                        break
                elif ps[j] in (')', ']', '}'):
                    d -= 1
                j += 1
            if ps[j - 2:j - 1] and ps[j - 2] in ('class', 'enum', 'callback', 'interface'):
                out.append((x, ps[j - 1], [] if re.search('camel_?case', ' '.join(ps[i:j]), re.I) else members(x, ps, j)))
        if x and x in '([{':
            depth += 1
        elif x and x in ')]}':
            depth -= 1
        i += 1
    return out


def members(kind, ps, j):
    """Foreign names declared between the braces that open at j."""
    out, d, k = [], 0, j
    while k < len(ps):
        x = ps[k]
        if x in ('(', '[', '{'):
            d += 1
        elif x in (')', ']', '}'):
            d -= 1
            if d == 0:
                break
        elif d == 1 and kind == 'foreign_class':
            if x == 'fn':
                m = k + 1
                while ps[m + 1:m + 2] == ['::'] or ps[m + 1:m + 3] == [':', ':']:
                    m += 2 if ps[m + 1] == '::' else 3
                if ps[m + 1:m + 2] == ['(']:
                    out.append(ps[m])
            elif x == 'alias' and out and ps[k - 1] in (';', '}') and re.match(r'[A-Za-z_]\w*$', ps[k + 1]) and ps[k + 2] == ';':
                out[-1] = ps[k + 1]
            elif x == 'constructor':
                out.append('')
        elif d == 1 and kind == 'foreign_enum' and re.match(r'[A-Za-z_]\w*$', x) and ps[k + 1] == '=' and ps[k - 1] in ('{', ','):
            out.append(x)
        elif d == 1 and kind == 'foreign_callback' and re.match(r'[A-Za-z_]\w*$', x) and ps[k + 1] == '=' and ps[k - 1] in (';', '{'):
            out.append(x)
        k += 1
    return [x for x in out if re.match(r'[A-Za-z_]\w*$', x)]


def names_used(item, others):
    """Does another declaration mention a type of this one?"""
    names = {item.name, item.name + 'Rt'}
    m = re.search(r'self_type ([^;]*);', item.dsl())
    if m:
        names |= set(re.findall(r'\w+', m.group(1))) - {'Arc', 'Mutex', 'Rc', 'RefCell', 'Box', 'dyn'}
    for o in others:
        if set(re.findall(r'\w+', o.dsl())) & names:
            return True
    return False


def assemble(items, change=None, text=None, sep='\n', head=HEAD):
    """Text of the program and the lines the changed item takes."""
    t = head
    ext = None
    for x in items:
        s = text if x is change else x.dsl()
        if x is change:
            ext = (t.count('\n') + 1, t.count('\n') + max(1, s.rstrip('\n').count('\n') + 1))
        t += s + sep
    return t, ext


def make(ck, r, nprog, nmut):
    d = vlib.fresh_dir('g05', 'w')
    jobs = []

    def put(text, suffix='', crlf=False):
        f = '%s/s%d%s.rs.in' % (d, len(jobs), suffix)
        if isinstance(text, bytes):
            with open(f, 'wb') as h:
                h.write(text)
        else:
            vlib.write(f, text.replace('\n', '\r\n') if crlf else text)
        return f

    for n in range(nprog):
        lang = LANGS[n % 3]
        g = progen.Gen(r.getrandbits(40), lang, classes=r.randrange(1, 4)).program()
        items = g.items
        # 1. targeted corruptions of one declaration
        it = r.choice(items)
        for name, t in badprog.bads(r, it, lang):
            if name == 'item without value':        # `NAME,` is a legal short form of `NAME = Enum::NAME`
                continue
            others = [x for x in items if x is not it]
            cascade = names_used(it, others) and re.search(r'self_type|constructor|name|class|enum|callback', name)
            form = r.random()
            if form < 0.75 or cascade:
                text, ext = assemble(items, it, t)
                if r.random() < 0.3:
                    text, ext = text, ext
                f = put(text, crlf=form < 0.1)
                jobs.append(Job('bad', name, lang, [f], (f, ext, bool(cascade)), decls=None, key=(lang, it.kind, name)))
            else:
                # several files: the declarations are spread, the corrupted one is in the middle file
                k = items.index(it)
                a, ext = assemble(items[:k], head=HEAD)
                b, ext = assemble([it], it, t, head='// second\n' * r.randrange(0, 9))
                c, _ = assemble(items[k + 1:], head='')
                fs = [put(a, 'a'), put(b, 'b'), put(c, 'c')]
                jobs.append(Job('bad', name + ' (many files)', lang, fs, (fs[1], ext, bool(cascade)), key=(lang, it.kind, name, 'many')))
        # 2. random token level damage
        for _ in range(nmut):
            it = r.choice(items)
            t = badprog.mutate(r, it.dsl())
            text, ext = assemble(items, it, t)
            f = put(text)
            jobs.append(Job('mut', '', lang, [f], None, decls=scan_decls(text), key=(lang, it.kind, t)))
        # 3. two faults
        if len(items) > 1:
            a, b = r.sample(items, 2)
            ta, tb = r.choice(badprog.bads(r, a, lang))[1], r.choice(badprog.bads(r, b, lang))[1]
            text = HEAD
            spans = []
            for x in items:
                s = ta if x is a else tb if x is b else x.dsl()
                if x in (a, b):
                    spans.append((text.count('\n') + 1, text.count('\n') + s.rstrip('\n').count('\n') + 1))
                text += s + '\n'
            f = put(text)
            jobs.append(Job('two', '', lang, [f], None, decls=scan_decls(text), key=(lang, ta, tb)))
        # 4. the file is not Rust at all from some line on
        bt = r.choice(BROKEN)
        k = r.randrange(len(items) + 1)
        pre, _ = assemble(items[:k])
        post, _ = assemble(items[k:], head='')
        f = put(pre + bt + '\n' + post)
        jobs.append(Job('syntax', bt, lang, [f], (f, (1, 10 ** 9), False), key=(lang, bt, k == 0)))
        # 5. malformed rules in the source
        tm = r.choice(TYPEMAPS)
        form = r.choice(['foreign_typemap!(%s);\n', 'foreign_typemap!(\n    %s\n);\n', 'foreign_typemap! {\n %s\n}\n'])
        s = form % tm
        f = put(pre + s + post)
        l0 = pre.count('\n') + 1
        jobs.append(Job('typemap', tm, lang, [f], (f, (l0, l0 + s.count('\n') - 1), False), key=(lang, tm)))
        # 6. malformed merged maps
        mf = r.choice(MAPFILES)
        whole, _ = assemble(items)
        f = put(whole)
        p = '%s/m%d.map' % (d, len(jobs))
        vlib.write(p, mf)
        jobs.append(Job('mapfile', mf, lang, [f], ('my map %d' % n, (1, mf.count('\n') + 1), False), extra=['--typemap', 'my map %d=%s' % (n, p)], key=(lang, mf)))
        # 7. duplicates of one declaration
        it = r.choice(items)
        if lang != 'python' or it.kind == 'enum':
            text = HEAD
            spans = []
            for x in items + [it]:
                if x is it:
                    spans.append((text.count('\n') + 1, text.count('\n') + x.dsl().rstrip('\n').count('\n') + 1))
                text += x.dsl() + '\n'
            f = put(text)
            if not (it.kind == 'class' and 'self_type' not in it.dsl()):
                jobs.append(Job('duplicate', it.kind, lang, [f], (f, spans, False), key=(lang, it.kind, 'dup')))
    # 8. each malformed rule in each language, the generic ones with a use
    for lang in LANGS:
        for tm in TYPEMAPS:
            s = 'foreign_typemap!(\n    %s\n);\n' % tm
            f = put(HEAD + 'foreign_class!(class Fine { fn fine() -> i32; });\n' + s)
            l0 = HEAD.count('\n') + 2
            jobs.append(Job('typemap', tm, lang, [f], (f, (l0, l0 + 2), False), key=(lang, tm)))
        for tm in GENERIC:
            s = 'foreign_typemap!(\n    %s\n);\nforeign_class!(class Use {\n fn using() -> Ab<i32>;\n});\n' % tm
            f = put(HEAD + 'foreign_class!(class Fine { fn fine() -> i32; });\n' + s)
            l0 = HEAD.count('\n') + 2
            jobs.append(Job('generic typemap', tm, lang, [f], (f, (l0, l0 + 5), False), key=(lang, tm)))
    # 9. unreadable inputs
    ok = HEAD + 'foreign_class!(class Fine { fn fine() -> i32; });\n'
    for lang in LANGS:
        for bad in (b'\xff\xfe', b'fn a() {}\n\xc3(', b'\x80'):
            f = put(ok.encode() + bad)
            jobs.append(Job('unreadable', '', lang, [f], f, key=(lang, bad)))
        f = '%s/absent-%s.rs.in' % (d, lang)
        jobs.append(Job('unreadable', 'absent', lang, [f], f, key=(lang, 'absent')))
        os.makedirs('%s/isdir-%s' % (d, lang))
        jobs.append(Job('unreadable', 'directory', lang, ['%s/isdir-%s' % (d, lang)], '%s/isdir-%s' % (d, lang), key=(lang, 'directory')))
        good = put(ok)
        jobs.append(Job('unreadable', 'absent', lang, [good, f], f, key=(lang, 'absent2')))
    return d, jobs


def big(r, d, thorough):
    """Inputs of unusual size: (name, text, is it valid)."""
    n = 3000 if thorough else 600
    out = []
    deep = lambda k, w, base: w * k + base + '>' * k
    out.append(('many methods', 'foreign_class!(class Big { self_type Big; constructor Big::new() -> Big;\n%s});\n'
                % ''.join('fn Big::m%d(&self, a: i32, b: &str) -> Option<i32>;\n' % i for i in range(n)), None))
    out.append(('many classes', ''.join('foreign_class!(class Big%d { self_type Big%d; constructor Big%d::new() -> Big%d; fn Big%d::f(&self, x: i32); });\n' % ((i,) * 5) for i in range(n // 6)), None))
    out.append(('many items', 'foreign_enum!(enum Big {\n%s});\n' % ''.join('I%d = Big::I%d,\n' % (i, i) for i in range(n)), None))
    out.append(('many arguments', 'foreign_class!(class Big {\nfn f(%s) -> i32;\n});\n' % ', '.join('a%d: i32' % i for i in range(200)), None))
    for k in (8, 40):
        for w in ('Option<', 'Vec<', 'Box<', 'Result<', 'NoSuch<'):
            out.append(('deep %s x%d' % (w, k), 'foreign_class!(class Deep {\nfn f(a: %s);\n});\n' % deep(k, w, 'NoSuchType'), (2, 2)))
            out.append(('deep result %s x%d' % (w, k), 'foreign_class!(class Deep {\nfn f() -> %s;\n});\n' % deep(k, w, 'NoSuchType'), (2, 2)))
        out.append(('deep tuple x%d' % k, 'foreign_class!(class Deep {\nfn f(a: %si32%s);\n});\n' % ('(' * k, ', NoSuchType)' * k), (2, 2)))
        out.append(('deep reference x%d' % k, 'foreign_class!(class Deep {\nfn f(a: %sNoSuchType);\n});\n' % ('& ' * k), (2, 2)))
        out.append(('deep slice x%d' % k, 'foreign_class!(class Deep {\nfn f(a: &%si32%s);\n});\n' % ('[' * k, ']' * k), (2, 2)))
    out.append(('long name', 'foreign_class!(class Deep {\nfn f(a: %s);\n});\n' % ('N' * 20000), (2, 2)))
    out.append(('wide tuple', 'foreign_class!(class Deep {\nfn f() -> (%s);\n});\n' % ', '.join(['NoSuchType'] * 300), (2, 2)))
    out.append(('many unknown', 'foreign_class!(class Deep {\n%s});\n' % ''.join('fn f%d(a: NoSuch%d);\n' % (i, i) for i in range(n)), (2, n + 1)))
    out.append(('docs', '%sforeign_class!(class Deep {\nfn f(a: NoSuchType);\n});\n' % ('/// d\n' * 0 + '// c\n' * 5000), (5002, 5002)))
    return out


def outputs(lang, d, dst):
    fs = set(os.listdir(d))
    rs = open(dst).read() if os.path.exists(dst) else None
    return fs, rs


def check_complete(job, d, dst):
    """What is declared has an output."""
    fs, rs = outputs(job.lang, d, dst)
    if rs is None:
        return 'success is reported but no Rust file was written'
    for kind, name, members in job.decls:
        if name.startswith('r#'):
            continue
        if job.lang == 'cpp':
            need = {'foreign_class': [name + '.hpp', 'c_%s.h' % name], 'foreign_enum': [name + '.hpp', 'c_%s.h' % name], 'foreign_callback': [name + '.hpp', 'c_%s.h' % name]}[kind]
            miss = [x for x in need if x not in fs]
        elif job.lang == 'java':
            miss = [x for x in [name + '.java'] if x not in fs]
        else:
            miss = [] if re.search(r'\b%s\b' % re.escape(name), rs) else [name]
        if miss:
            return 'success is reported, but %s %s has no %s' % (kind, name, ', '.join(miss))
        text = rs if job.lang == 'python' else open('%s/%s' % (d, name + ('.java' if job.lang == 'java' else '.hpp'))).read()
        if job.lang != 'python':
            text = re.sub(r'//.*|/\*.*?\*/', '', text)
        text = set(re.findall(r'\w+', text))
        lost = [x for x in members if x not in text]
        if lost:
            return 'success is reported, but %s of %s %s is nowhere in the outputs' % (', '.join(lost), kind, name)
    return None


def main(ck):
    r = random.Random('g05-%d' % vlib.seed())
    thorough = vlib.tier() == 'thorough'
    exe = vlib.build_vgen()
    d, jobs = make(ck, r, 700 if thorough else 75, 40 if thorough else 14)
    ck.cov['rule'] = 'one distinct fault (kind of fault, place, language) whose diagnostic was compared with the place of the fault, or an accepted damaged program compared with its outputs'
    argv = []
    for k, j in enumerate(jobs):
        o = '%s/o%d' % (d, k)
        os.makedirs(o)
        j.out, j.dst = o, '%s/g%d.rs' % (d, k)
        a = ['--lang', j.lang, '--ns', NS[j.lang], '--out', o, '--dst', j.dst] + ['--fence', '8'] * (j.lang == 'java') + j.extra
        for f in j.files:
            a += ['--src', f]
        argv.append(a)
    res = vlib.vgen_jobs(argv, timeout=700)
    C = collections.Counter()
    texts = collections.Counter()
    died = [k for k in range(len(jobs)) if res[k][1].startswith('process died')]
    for k in died[:40]:
        # the process of the batch went away: which job did it?
        try:
            p = subprocess.run([exe] + argv[k], capture_output=True, text=True, timeout=60, env=vlib.base_env(), errors='replace')
        except subprocess.TimeoutExpired:
            ck.violation('hang ' + jobs[k].kind, 'the generator does not end within 60 s on %s' % jobs[k].files, jobs[k].files)
            continue
        m = re.search(r'^JOB 0 (ok|panic)(.*)$', p.stdout, re.M)
        if not m:
            ck.violation('abort ' + jobs[k].kind, 'the generator died (rc %s) on %s (%s)\n%s' % (p.returncode, jobs[k].files, jobs[k].name, p.stderr[-800:]), jobs[k].files)
        else:
            res[k] = (m.group(1) == 'ok', m.group(2).strip(), p.stderr)
    if len(died) > 40:
        raise vlib.Inconclusive('%d jobs had no outcome' % len(died))
    for k, j in enumerate(jobs):
        ok, msg, err = res[k]
        if msg.startswith('process died'):
            continue
        ck.count()
        text = '\n'.join('// %s\n%s' % (f, open(f, errors='replace').read()) for f in j.files if os.path.isfile(f))
        what = '%s, %s: %s\n' % (j.lang, j.kind, j.name)
        info = '%s\n---- stderr\n%s\n---- outcome %s %s' % (text[:6000], err[-1500:], 'ok' if ok else 'error', msg[:300])
        at = AT.findall(err)
        sig = '%s %s %s' % (j.lang, j.kind, j.name)
        if j.kind == 'mapfile':
            at = re.findall(r'^At (.*):(\d+):(\d+)$', err, re.M)
        if ok:
            C[(j.lang, j.kind, 'accepted')] += 1
            if j.kind not in ('mut', 'two'):
                ck.violation('accepted ' + sig, what + 'invalid input is accepted\n' + info, j.files + [j.dst])
                continue
            e = check_complete(j, j.out, j.dst)
            if e:
                ck.violation('incomplete %s %s' % (j.lang, j.kind), what + e + '\n' + info, j.files + [j.out])
            else:
                ck.nontrivial(('accepted', j.key))
            continue
        C[(j.lang, j.kind, 'rejected')] += 1
        if j.kind == 'unreadable':
            if j.want not in msg and j.want not in err:
                ck.violation('unreadable ' + j.name, what + 'the diagnostic does not name the file %s\n' % j.want + info)
            else:
                ck.nontrivial(j.key)
            continue
        if not at:
            ck.violation('no place ' + (sig if j.kind == 'bad' else '%s %s' % (j.kind, re.sub(r'\s*\|.*', '', msg)[-60:])), what + 'the diagnostic has no file and line\n' + info, j.files)
            continue
        if os.path.exists(j.dst):
            ck.violation('output on error', what + 'a Rust file was written in spite of the error\n' + info, j.files)
        if not re.search(r'^error: .*\w', err, re.M):
            ck.violation('no text ' + sig, what + 'the diagnostic does not say what is wrong\n' + info, j.files)
        for e in re.findall(r'^error: (.*\w.*)', err, re.M):
            texts[re.sub(r"'[^']*'|`[^`]*`|\d+|\w*NoSuch\w*", '_', e)[:60]] += 1
        f, line, col = at[0][0], int(at[0][1]), int(at[0][2])
        if j.want is None:
            want_f, spans, cascade = j.files[0], [(1, 10 ** 9)], False
        else:
            want_f, spans, cascade = j.want
            spans = spans if isinstance(spans, list) else [spans]
        if f != want_f and not (cascade and f in j.files):
            ck.violation('wrong file ' + sig, what + 'the diagnostic names %s, the fault is in %s\n' % (f, want_f) + info, j.files)
            continue
        if not cascade and not any(a <= line <= b for a, b in spans):
            ck.violation('wrong line ' + sig, what + 'the diagnostic names line %d, the fault is in lines %s\n' % (line, spans) + info, j.files)
            continue
        if os.path.isfile(f):
            ls = open(f).read().split('\n')
            if not (1 <= line <= len(ls) and col <= len(ls[line - 1])):
                ck.violation('place outside of file', what + 'line %d column %d do not exist\n' % (line, col) + info, j.files)
                continue
        ck.nontrivial(j.key)
        if len(ck.cov['samples']) < 6 and r.random() < 0.02:
            ck.sample('%s %s "%s" -> line %d in %s' % (j.lang, j.kind, j.name, line, spans))
    # unusual sizes: each alone, under limits of time, stack and memory
    bigs = [(lang, n, t, w) for n, t, w in big(r, d, thorough) for lang in LANGS]

    def one(x):
        lang, n, t, want = x
        k = bigs.index(x)
        f = '%s/b%d.rs.in' % (d, k)
        vlib.write(f, t)
        o = '%s/bo%d' % (d, k)
        os.makedirs(o)
        a = [exe, '--lang', lang, '--ns', NS[lang], '--out', o, '--dst', '%s/bg%d.rs' % (d, k), '--src', f]
        t0 = time.time()
        try:
            p = subprocess.run(['prlimit', '--as=%d' % (6 << 30), '--'] + a, capture_output=True, text=True, timeout=240, env=vlib.base_env(), errors='replace')
        except subprocess.TimeoutExpired:
            return (x, f, None, '', time.time() - t0, o)
        m = re.search(r'^JOB 0 (ok|panic)(.*)$', p.stdout, re.M)
        return (x, f, m, p.stderr + ('' if m else ' rc %s' % p.returncode), time.time() - t0, o)
    slow = 0
    for (lang, n, t, want), f, m, err, dt, o in vlib.pmap(one, bigs):
        ck.count()
        slow = max(slow, dt)
        if m is None:
            ck.violation('size ' + n + ' ' + lang, 'the generator %s on "%s" (%s)\n%s' % ('does not end' if dt > 230 else 'died', n, lang, err[-600:]), [f])
            continue
        if m.group(1) == 'ok':
            if want:
                ck.violation('size accepted ' + n + ' ' + lang, 'input with unknown types is accepted: ' + n, [f])
            else:
                j = Job('big', n, lang, [f], None, decls=scan_decls(t))
                e = check_complete(j, o, o.replace('/bo', '/bg') + '.rs')
                if e:
                    ck.violation('size incomplete ' + n + ' ' + lang, e, [f])
                else:
                    ck.nontrivial(('big', lang, n))
            continue
        at = AT.findall(err)
        if want is None:
            ck.violation('size rejected ' + n + ' ' + lang, 'valid input is rejected: %s\n%s' % (n, err[-800:]), [f])
        elif not at or at[0][0] != f or not want[0] <= int(at[0][1]) <= want[1]:
            ck.violation('size place ' + n + ' ' + lang, '%s: place of the fault is lines %s, the diagnostic says %s\n%s\n%s' % (n, want, at[:2], m.group(0)[:300], err[-800:]), [f])
        else:
            ck.nontrivial(('big', lang, n))
    ck.cov['outcomes'] = {' '.join(k): v for k, v in sorted(C.items())}
    ck.cov['distinct texts of diagnostics'] = len(texts)
    ck.cov['texts of diagnostics'] = dict(texts.most_common(120))
    ck.cov['oversized inputs'] = len(bigs)
    ck.cov['slowest oversized input, s'] = round(slow, 1)
    ck.assumptions = ['the place of a fault whose declaration other declarations refer to may be reported at such a reference (only for faults that make the type unknown)',
                      'random token damage that is still accepted is compared with the outputs by the names of the declarations only; G04 compares the members']
    if not ck.violations:
        subprocess.run(['rm', '-rf', d])


if __name__ == '__main__':
    vlib.main('G05', main)
