import json
import sys

sys.path.insert(0, __file__.rsplit('/', 1)[0])
from vpy import *

desc = json.load(open(sys.argv[1]))
seed, rounds = int(sys.argv[2]), int(sys.argv[3])
r = R(seed)
lib.vh_set_seed(seed * 77 + 5)
hostile = refused = 0


class Obj:
    pass


def message(e):
    return e.args[0] if len(e.args) == 1 else '!%r' % (e.args,)


def args_of(m):
    vs = [gen(a['d'], r) for a in m['args']]
    return vs, [c(a['d'], v) for a, v in zip(m['args'], vs)]


def pass_args(f, m, vs, first=()):
    """By position or by name, as Python allows."""
    k = r.randrange(len(vs) + 1) if r.randrange(3) == 0 else len(vs)
    kw = list(zip([a['name'] for a in m['args']], vs))[k:]
    r.shuffle(kw)
    return f(*first, *vs[:k], **dict(kw))


def bound(cls, m, x):
    if m['name'] == '__repr__':
        return lambda: repr(x.o)
    if m['kind'] == 'static':
        return getattr(cls if r.random() < 0.8 else x.o, m['name'])
    return getattr(x.o, m['name'])


def call(cls, m, x):
    vs, cs = args_of(m)
    who = []
    if m['kind'] == 'mut':
        x.n += 1
    if m['kind'] != 'static':
        who = ['@%d:%d' % (x.id, x.n)]
    log('> %d %s' % (m['id'], ' '.join(who + cs)))
    try:
        v = pass_args(bound(cls, m, x), m, vs)
        out = c(m['ret'], v, True)
        if m['res']:
            out = 'N' if m['ret'] == ['unit'] else 'O(%s)' % out
    except mod.Error as e:
        out = ('S(%s)' if m['ret'] == ['unit'] else 'E(%s)') % c(['str'], message(e)) if type(e) is mod.Error else '!%r' % e
    except Exception as e:
        out = '!exception %r' % e
    log('< %d %s | %s' % (m['id'], out, ' '.join(c(a['d'], v) for a, v in zip(m['args'], vs) if a['mut'])))
    for a, v, s in zip(m['args'], vs, cs):
        if not a['mut'] and c(a['d'], v) != s:
            log('! argument %s of method %d changed' % (a['name'], m['id']))


def make(cls, m, id):
    vs, cs = args_of(m)
    x = Obj()
    x.id, x.n = id, 0
    log('> %d @%d %s' % (m['id'], id, ' '.join(cs)))
    x.o = pass_args(cls, m, vs, [id])
    log('< %d %s |' % (m['id'], 'O' if type(x.o) is cls else '!%s' % type(x.o)))
    return x


def refuse(cls, m, x):
    """A call that Rust must not see."""
    global hostile
    if m['name'] == '__repr__':
        return
    vs = [gen(a['d'], r) for a in m['args']]
    f = bound(cls, m, x) if m['kind'] != 'ctor' else lambda *a, **k: cls(7, *a, **k)
    k = r.randrange(6)
    kw = {}
    if vs and k > 1:
        i = r.randrange(len(vs))
        vs[i] = spoil(m['args'][i]['d'], vs[i], r)
        if r.random() < 0.2:
            kw = {a['name']: v for a, v in zip(m['args'], vs)}
            vs = []
    elif vs and k == 1:
        vs.pop()
    elif k == 0:
        vs.append(r.choice([None, 1, 'x']))
    else:
        kw = {'nothing_of_that_name': 1}
    log('H %d' % m['id'])
    hostile += 1
    try:
        f(*vs, **kw)
        log('! method %d accepts %s %s' % (m['id'], ascii(vs)[:300], ascii(kw)[:300]))
    except Exception as e:
        log('h %d %s' % (m['id'], type(e).__name__))
        if type(e) is mod.Error:
            log('! method %d: error of Rust for an argument' % m['id'])


classes = [(getattr(mod, k['name']), k) for k in desc]
ids = 100
xs = {}
for rnd in range(rounds):
    for cls, k in classes:
        if rnd % 4 == 0:
            xs[k['name']] = [make(cls, k['ctor'], ids + i) for i in range(3)]
            ids += 3
        for m in k['ms']:
            x = r.choice(xs[k['name']])
            call(cls, m, x)
            if r.randrange(3) == 0:
                refuse(cls, m, x)
        refuse(cls, k['ctor'], None)
        lib.vh_pool_clear()
xs = x = None
lib.vh_pool_clear()
if lib.vh_alive():
    lib.vh_log_alive()
if lib.vh_over_dropped():
    bad('objects dropped more than once')
log('STAT hostile=%d' % hostile)
log('END')
lib.vh_flush()
