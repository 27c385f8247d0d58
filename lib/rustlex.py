"""A lexer good enough to rewrite white space and comments of Rust text without touching tokens."""
import re

RAW = re.compile(r'(?:b|c)?r(#*)"')
WORD = re.compile(r'[A-Za-z_0-9]+')


def pieces(s):
    """[(kind, text)], kind one of ws, comment, doc, str, word, punct."""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            j = i
            while j < n and s[j].isspace():
                j += 1
            out.append(('ws', s[i:j]))
        elif s.startswith('//', i):
            j = s.find('\n', i)
            j = n if j < 0 else j
            t = s[i:j]
            doc = (t.startswith('///') and not t.startswith('////')) or t.startswith('//!')
            out.append(('doc' if doc else 'comment', t))
        elif s.startswith('/*', i):
            j, d = i + 2, 1
            while d:
                if s.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif s.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            t = s[i:j]
            doc = (t.startswith('/**') and not t.startswith('/***') and t != '/**/') or t.startswith('/*!')
            out.append(('doc' if doc else 'comment', t))
        elif RAW.match(s, i):
            m = RAW.match(s, i)
            e = '"' + m.group(1)
            j = s.index(e, m.end()) + len(e)
            out.append(('str', s[i:j]))
        elif c == '"' or (c in 'bc' and s.startswith('"', i + 1)):
            j = s.index('"', i) + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            j += 1
            out.append(('str', s[i:j]))
        elif c == "'" or (c == 'b' and s.startswith("'", i + 1)):
            q = i + (c == 'b')
            m = re.compile(r"'(\\u\{[0-9a-fA-F_]+\}|\\x..|\\.|[^\\'])'", re.S).match(s, q)
            if m:
                j = m.end()
                out.append(('str', s[i:j]))
            else:
                m = re.compile(r"'[A-Za-z_][A-Za-z_0-9]*").match(s, q)
                j = m.end()
                out.append(('word', s[i:j]))
        elif WORD.match(s, i):
            j = WORD.match(s, i).end()
            out.append(('word', s[i:j]))
        else:
            j = i + 1
            out.append(('punct', c))
        i = i + len(out[-1][1])
    return out


COMMENTS = ['/* c */', '/* foreign_class!(class No { self_type No; }) */', '/* nested /* in */ " \' */', '// line " comment\n',
            '//// not doc\n', '/**/', '// fn gone(&self); }}} )))\n', '/* ünïcode ✓ */']


def reformat(r, s, docattr=False):
    """Another layout of the same tokens (new lines, indentation, ordinary comments)."""
    ps = pieces(s)
    # merge white space and comments
    out, i = [], 0
    while i < len(ps):
        k, t = ps[i]
        if k not in ('ws', 'comment'):
            if k == 'doc' and docattr and t.startswith('///') and r.random() < 0.5:
                body = t[3:]
                out.append('#[doc = "%s"]' % body.replace('\\', '\\\\').replace('"', '\\"'))
            else:
                out.append(t)
                if k == 'doc' and t.startswith('//'):
                    out.append('\n')
            i += 1
            continue
        j = i
        while j < len(ps) and ps[j][0] in ('ws', 'comment'):
            j += 1
        prev = ps[i - 1][1] if i else '('
        nxt = ps[j][1] if j < len(ps) else ')'
        q = r.random()
        if q < 0.25 and i and j < len(ps) and ((len(prev) == 1 and prev in '([{}])') or nxt in '([{}])'):
            pass
        elif q < 0.5:
            out.append(' ')
        elif q < 0.85:
            out.append(''.join(r.choice(['\n', ' ', '\t', '\r\n', '    ', '\n\n\n']) for _ in range(r.randrange(1, 5))))
        else:
            out.append(' ' + r.choice(COMMENTS) + r.choice([' ', '\n', '\n\t']))
        i = j
    return ''.join(out)
