"""What generated C++ headers declare, read from clang's syntax tree."""
import json
import os
import re

import vlib


def dump(text, gen, ns, std):
    p = os.path.join(os.path.dirname(gen), 'decls.cpp')
    vlib.write(p, text)
    r = vlib.run(['clang++', std, '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + ns, '-I', gen, p])
    if r.returncode != 0:
        raise vlib.BuildFailure('generated C++ headers', r.stderr[:3000])
    d = json.JSONDecoder()
    s, i, out = r.stdout, 0, []
    while True:
        while i < len(s) and s[i].isspace():
            i += 1
        if i >= len(s):
            return out
        o, i = d.raw_decode(s, i)
        if o.get('kind') == 'NamespaceDecl' and o.get('name') == ns:
            out.append(o)


def off(n):
    b = n.get('range', {}).get('begin', {})
    return b.get('offset', b.get('expansionLoc', {}).get('offset'))


def docs_before(text, o):
    """Comment lines directly above the declaration at offset o (template headers between them do not count)."""
    start = text.rfind('\n', 0, o) + 1
    if text[start:o].strip():
        return []
    lines = text[:start].split('\n')[:-1]
    got = []
    for l in reversed(lines):
        s = l.strip()
        if s.startswith('//'):
            got.append(s.lstrip('/').strip())
        elif s == '' and not got or s.startswith('template'):
            continue
        else:
            break
    return got[::-1]


def members(rec, text):
    acc = 'private' if rec.get('tagUsed') == 'class' else 'public'
    for n in rec.get('inner', []):
        k = n.get('kind')
        if k == 'AccessSpecDecl':
            acc = n['access']
            continue
        if n.get('isImplicit') or k in ('FriendDecl', 'FullComment'):
            continue
        if k == 'FunctionTemplateDecl':
            inner = [x for x in n.get('inner', []) if x.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl')]
            if not inner:
                continue
            base, n = n, dict(inner[0])
            n['range'] = base.get('range', {})
            n['template'] = True
        t = n.get('type', {}).get('qualType', '')
        yield dict(kind=n.get('kind'), name=n.get('name', ''), access=acc, static=n.get('storageClass') == 'static',
                   const=bool(re.search(r'\)\s*const\b', t)), type=t, pure=bool(n.get('pure')), virtual=bool(n.get('virtual')),
                   deleted=bool(n.get('explicitlyDeleted')),
                   params=[(p['type']['qualType'], p.get('name', '')) for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl'],
                   docs=docs_before(text, off(n)) if off(n) is not None else [])


def parse(gen, ns, std, text, files):
    """{name: declaration}; files: name -> text of the header that declares it."""
    out, aliases, other = {}, {}, []
    for d in dump(text, gen, ns, std):
        for n in d.get('inner', []):
            k, name = n.get('kind'), n.get('name')
            if k == 'ClassTemplateDecl':
                rec = [x for x in n.get('inner', []) if x.get('kind') == 'CXXRecordDecl' and x.get('completeDefinition')]
                if rec:
                    out[name] = ('class', n, rec[0])
            elif k == 'CXXRecordDecl' and n.get('completeDefinition'):
                out[name] = ('class', n, n)
            elif k == 'EnumDecl':
                out[name] = ('enum', n, n)
            elif k in ('TypeAliasDecl', 'TypedefDecl'):
                aliases[name] = n.get('type', {}).get('qualType', '')
            elif k in ('FunctionDecl', 'VarDecl', 'FunctionTemplateDecl'):
                other.append(name)
    res = {}
    for name, src in files.items():
        target = name
        if name not in out and name in aliases:
            target = re.sub(r'<.*', '', aliases[name]).split('::')[-1].strip()
        if target not in out:
            continue
        what, node, rec = out[target]
        r = dict(what=what, docs=docs_before(src, off(node)) if off(node) is not None else [], alias=target)
        if what == 'enum':
            r['items'] = [(i['name'], docs_before(src, off(i))) for i in rec.get('inner', []) if i.get('kind') == 'EnumConstantDecl']
        else:
            r['members'] = list(members(rec, src))
        res[name] = r
    return res, set(out) | set(aliases) | set(other)
