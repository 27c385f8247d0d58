"""Histories of sharing, mutation and release, checked against an ownership model after every step."""
import gc
import sys
import threading

sys.path.insert(0, __file__.rsplit('/', 1)[0])
from vpy import *

mode, seed, steps = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
r = R(seed)
SHARED, COPIED, OWNED = ('Am', 'Sh'), ('Foo', 'Bx'), ('Mx',)
LOCKED = ('Am', 'Foo', 'Mx')
cls = {k: getattr(mod, k) for k in SHARED + COPIED + OWNED}
reg = {k: getattr(mod, 'Reg' + k) for k in cls}
op = '?'
seen_ops = {}


class M:
    def __init__(self, k, val, ticket):
        self.k, self.val, self.ticket = k, val, ticket


handles = []                    # [wrapper, M]
held = {k: [] for k in cls}     # what the registries of Rust hold: M (shared) or values (copied)


def fail(s):
    bad('%s: %s' % (op, s))


def new(w, k, val=None):
    """A wrapper of an object that nothing else refers to."""
    if type(w) is not cls[k]:
        fail('got %r instead of %s' % (type(w), k))
        return
    m = M(k, w.get(), w.ticket())
    if val is not None and m.val != val:
        fail('new %s has %r instead of %r' % (k, m.val, val))
    if any(h[1].ticket == m.ticket for h in handles):
        fail('new %s is not a new object' % k)
    handles.append([w, m])


def shared(w, m):
    """A wrapper that must refer to the object m."""
    if type(w) is not cls[m.k]:
        fail('got %r instead of %s' % (type(w), m.k))
        return
    if w.ticket() != m.ticket or w.get() != m.val:
        fail('another object: %d=%d instead of %d=%d' % (w.ticket(), w.get(), m.ticket, m.val))
    if r.randrange(3):
        handles.append([w, m])


def pick(k):
    c = [h for h in handles if h[1].k == k]
    if not c or r.randrange(20) == 0:
        v = r.integer(-1 << 40, 1 << 40)
        new(cls[k](v, r.randrange(256)), k, v)
        c = [h for h in handles if h[1].k == k]
    return r.choice(c)


def refused(f, *a, exc=(TypeError, OverflowError, ValueError)):
    try:
        v = f(*a)
    except exc as e:
        return True
    fail('accepted %r' % (a,))


BAD = [256, -1, 'x', None, 1 << 70, 2.5, [], object()]


def basic(k):
    h = pick(k)
    w, m = h
    q = r.randrange(13)
    if q == 0:
        m.val = r.integer(-1 << 40, 1 << 40)
        w.set(m.val)
        return 'set'
    if q == 1:
        m.val += 1
        if w.incr() != m.val:
            fail('incr')
        return 'incr'
    if q == 2:
        refused(w.incr_bad, r.choice(BAD))
        return 'incr_bad'
    if q == 3:
        ok = r.random() < 0.5
        m.val += 1
        if ok:
            if w.incr_or_err(True) != m.val:
                fail('incr_or_err')
        else:
            refused(w.incr_or_err, False, exc=mod.Error)
        return 'incr_or_err'
    if q == 4:
        o = pick(k)
        if k in LOCKED and o[1] is m:
            return 'same'           # locks itself out, see the known findings
        if w.same(o[0]) != (o[1] is m):
            fail('same')
        return 'same'
    if q == 5:
        x = r.choice([None, 5, 'x', pick(r.choice([x for x in cls if x != k]))[0], cls[k]])
        refused(w.same, x)
        return 'same wrong'
    if q == 6:
        refused(cls[k], 1, r.choice(BAD))
        return 'constructor refuses'
    if q in (7, 8):
        handles.append([w, m])      # one more name
        return 'name'
    if q in (9, 10, 11):
        h[0] = w = None
        handles.remove(h)
        return 'drop'
    z = [w, {'a': w}, (w, (w,))]
    f = lambda w=w: w.get()
    if f() != m.val or z[1]['a'].get() != m.val:
        fail('through containers')
    return 'containers'


def share(k):
    R_, S = reg[k], held[k]
    q = r.randrange(25)
    w, m = pick(k)
    if q == 0:
        R_.keep(w); S.append(m)
        return 'keep'
    if q == 1:
        R_.keep_ref(w); S.append(m)
        return 'keep_ref'
    if q == 2:
        if r.random() < 0.3:
            R_.keep_opt(None)
        else:
            R_.keep_opt(w); S.append(m)
        return 'keep_opt'
    if q in (3, 4):
        hs = [pick(k) for _ in range(r.randrange(6))]
        a = [h[0] for h in hs]
        if r.random() < 0.3:
            a = tuple(a)
        [R_.keep_vec, R_.keep_slice][q - 3](a); S += [h[1] for h in hs]
        return 'keep_vec' if q == 3 else 'keep_slice'
    if q == 5:
        v = [None if r.randrange(3) == 0 else [pick(k) for _ in range(r.randrange(4))] for _ in range(r.randrange(4))]
        R_.keep_deep([None if x is None else [h[0] for h in x] for x in v])
        S += [h[1] for x in v if x for h in x]
        return 'keep_deep'
    if q == 6:
        o = r.choice([None, pick(k), [w, m]])
        if R_.keep_two(w, o and o[0]) != bool(o and o[1] is m):
            fail('identity')
        S.append(m)
        if o:
            S.append(o[1])
        return 'keep_two'
    if q == 7:
        n = len({id(h[0]) for h in handles if h[1] is m}) + sum(x is m for x in S) + 1
        if R_.let_go(w) != n:
            fail('reference count is not %d' % n)
        return 'let_go'
    if q == 8:
        refused(R_.fail_first, r.choice(BAD), w)
        return 'fail_first'
    if q == 9:
        refused(R_.fail_last, w, r.choice(BAD))
        return 'fail_last'
    if q == 10:
        a = [pick(k)[0] for _ in range(r.randrange(4))]
        a.insert(r.randrange(len(a) + 1), r.choice([None, 1, 'x', pick('Foo')[0], list(a)]))
        refused(r.choice([R_.keep_vec, R_.keep_slice, R_.back_vec]), a)
        refused(R_.keep_deep, [[w], None, a])
        return 'bad element'
    if q == 11:
        if r.random() < 0.5:
            w2 = R_.keep_or_err(w, True); S.append(m); shared(w2, m)
        else:
            refused(R_.keep_or_err, w, False, exc=mod.Error)
        return 'keep_or_err'
    if q == 12:
        shared(R_.back(w), m)
        return 'back'
    if q == 13:
        hs = [pick(k) for _ in range(r.randrange(6))]
        v = R_.back_vec([h[0] for h in hs])
        if len(v) != len(hs):
            fail('length')
        for x, h in zip(v, hs):
            shared(x, h[1])
        return 'back_vec'
    if q == 14:
        if R_.back_opt(None) is not None:
            fail('None')
        shared(R_.back_opt(w), m)
        return 'back_opt'
    n = len(S)
    i, j = r.randrange(n + 2), r.randrange(n + 2)
    if q == 15 and i < n:
        shared(R_.at(i), S[i])
        return 'at'
    if q == 16 and n < 40:
        v = R_.all()
        if len(v) != n:
            fail('length')
        for x, y in zip(v, S):
            shared(x, y)
        return 'all'
    if q == 17:
        x = R_.find(i)
        if (x is None) != (i >= n):
            fail('find')
        elif x is not None:
            shared(x, S[i])
        return 'find'
    if q == 18 and i < n:
        a, s, b = R_.pair(i, j)
        shared(a, S[i])
        if s != 7 or (b is None) != (j >= n):
            fail('pair')
        elif b is not None:
            shared(b, S[j])
        return 'pair'
    if q == 19 and n < 40:
        a, b, c_ = R_.deep()
        if a is not None or c_ != [] or len(b) != n:
            fail('deep')
        for x, y in zip(b, S):
            shared(x, y)
        return 'deep'
    if q == 20:
        if i < n:
            shared(R_.get_or_err(i), S[i])
        else:
            refused(R_.get_or_err, i, exc=mod.Error)
        return 'get_or_err'
    if q in (21, 22) and i < n:
        R_.drop_at(i); S.pop(i)
        return 'drop_at'
    if q == 23 and n > 20:
        R_.clear(); S.clear()
        return 'clear'
    if R_.held() != n:
        fail('held')
    return 'held'


def copy(k):
    R_, S = reg[k], held[k]
    q = r.randrange(19)
    w, m = pick(k)
    if q == 0:
        R_.keep(w); S.append(m.val)
        return 'keep'
    if q == 1:
        if r.random() < 0.3:
            R_.keep_opt(None)
        else:
            R_.keep_opt(w); S.append(m.val)
        return 'keep_opt'
    if q in (2, 3):
        hs = [pick(k) for _ in range(r.randrange(6))]
        [R_.keep_vec, R_.keep_slice][q - 2]([h[0] for h in hs]); S += [h[1].val for h in hs]
        return 'keep_vec' if q == 2 else 'keep_slice'
    if q == 4:
        if R_.let_go(w) != m.val:
            fail('value')
        return 'let_go'
    if q == 5:
        refused(R_.fail_first, r.choice(BAD), w)
        return 'fail_first'
    if q == 6:
        refused(R_.fail_last, w, r.choice(BAD))
        return 'fail_last'
    if q == 7:
        a = [pick(k)[0] for _ in range(r.randrange(4))]
        a.insert(r.randrange(len(a) + 1), r.choice([None, 1, 'x', pick('Am')[0], list(a)]))
        refused(r.choice([R_.keep_vec, R_.keep_slice, R_.back_vec]), a)
        return 'bad element'
    if q == 8:
        new(R_.back(w), k, m.val)
        return 'back'
    if q == 9:
        new(R_.back_ref(w), k, m.val)
        return 'back_ref'
    if q == 10:
        hs = [pick(k) for _ in range(r.randrange(6))]
        v = R_.back_vec([h[0] for h in hs])
        if len(v) != len(hs):
            fail('length')
        for x, h in zip(v, hs):
            new(x, k, h[1].val)
        return 'back_vec'
    if q in (11, 12):
        x = R_.pop()
        if x is None:
            if S:
                fail('nothing to pop')
        elif not S:
            fail('something to pop')
        else:
            new(x, k, S.pop())
        return 'pop'
    if q == 13:
        if S:
            new(R_.pop_or_err(), k, S.pop())
        else:
            refused(R_.pop_or_err, exc=mod.Error)
        return 'pop_or_err'
    if q == 14:
        v = R_.drain()
        if len(v) != len(S):
            fail('length')
        for x, y in zip(v, S):
            new(x, k, y)
        S.clear()
        return 'drain'
    if q == 15:
        x, v = R_.drain_pair()
        if (x is None) != (not S) or len(v) != max(0, len(S) - 1):
            fail('shape')
        if S:
            new(x, k, S.pop())
        for x, y in zip(v, S):
            new(x, k, y)
        S.clear()
        return 'drain_pair'
    if q == 16:
        o = pick(k)
        if not (k in LOCKED and o[1] is m) and R_.same(w, o[0]) != (m.val == o[1].val):
            fail('values')
        return 'same'
    if q == 17 and len(S) > 20:
        R_.clear(); S.clear()
        return 'clear'
    if R_.held() != len(S):
        fail('held')
    return 'held'


def own(k):
    R_ = reg[k]
    q = r.randrange(14)
    v = r.integer(-1 << 40, 1 << 40)
    w, m = pick(k)
    if q < 2:
        new([R_.make, R_.make_m][q](v), k, v)
        return 'make'
    if q < 4:
        n = r.randrange(6)
        x = [R_.make_vec, R_.make_mvec][q - 2](v, n)
        if len(x) != n:
            fail('length')
        for i, y in enumerate(x):
            new(y, k, v + i)
        return 'make_vec'
    if q == 4:
        x = R_.make_opt(v, True)
        new(x, k, v)
        if R_.make_opt(v, False) is not None:
            fail('None')
        return 'make_opt'
    if q == 5:
        new(R_.make_or_err(v, True), k, v)
        refused(R_.make_or_err, v, False, exc=mod.Error)
        return 'make_or_err'
    if q == 6:
        a, b, d = R_.make_tup(v)
        new(a, k, v)
        new(d, k, v + 1)
        if b != v:
            fail('value')
        return 'make_tup'
    if q < 9:
        if [R_.look, R_.look_m][q - 7](w) != m.val:
            fail('value')
        return 'look'
    if q == 9:
        if R_.poke(w, v) != m.val:
            fail('value')
        m.val = v
        return 'poke'
    if q == 10:
        o = pick(k)
        if o[1] is not m:
            R_.swap(w, o[0])
            m.val, o[1].val = o[1].val, m.val
        return 'swap'
    if q == 11:
        if r.random() < 0.5:
            m.val = v
            R_.poke_or_err(w, v, True)
        else:
            refused(R_.poke_or_err, w, v, False, exc=mod.Error)
        return 'poke_or_err'
    refused(R_.poke_bad, w, r.choice(BAD))
    return 'poke_bad'


def expected_alive():
    n = len({h[1].ticket for h in handles} | {m.ticket for k in SHARED for m in held[k]})
    return n + sum(len(held[k]) for k in COPIED)


def look(deep):
    if lib.vh_alive() != expected_alive():
        fail('%d objects live, %d expected' % (lib.vh_alive(), expected_alive()))
        lib.vh_log_alive()
        raise SystemExit(3)
    for h in (handles if deep else r.sample(handles, min(2, len(handles)))):
        w, m = h
        if w.get() != m.val or w.ticket() != m.ticket:
            fail('a name of %s %d sees %d=%d instead of %d' % (m.k, m.ticket, w.ticket(), w.get(), m.val))
            raise SystemExit(3)
    if deep:
        names = {}
        for h in handles:
            names[id(h[0])] = names.get(id(h[0]), 0) + 1
        for h in handles:
            w = h[0]
            n = sys.getrefcount(w) - 2
            if n != names[id(w)]:
                fail('%s has %d references instead of %d' % (h[1].k, n, names[id(w)]))
                raise SystemExit(3)
        w = None


def history(n, check=True):
    global op
    for i in range(n):
        k = r.choice(list(cls))
        before = set(h[1].ticket for h in handles) if i % 16 == 0 else None
        f = basic if r.random() < 0.4 else share if k in SHARED else copy if k in COPIED else own
        op = k + '.' + f.__name__
        if len(handles) > 60:
            r.shuffle(handles)
            del handles[20:]
        log('> ' + op)
        op = k + '.' + f(k)
        seen_ops[op] = seen_ops.get(op, 0) + 1
        if check:
            look(i % 20 == 0)


def clear():
    global op
    op = 'clear'
    handles.clear()
    for k in cls:
        held[k].clear()
        if k not in OWNED:
            reg[k].clear()
    gc.collect()
    if lib.vh_alive():
        fail('%d objects live after the last reference went away' % lib.vh_alive())
        lib.vh_log_alive()


def histories():
    for _ in range(6):
        history(steps)
        clear()


def leaks():
    """The same work again and again must not need more memory."""
    global r, op
    import random
    st = []
    lib.vh_set_seed(1)
    for i in range(8):
        r = R(seed)
        history(steps, False)
        clear()
        gc.collect()
        st.append((sys.getallocatedblocks(), lib.vh_live_bytes()))
    op = 'memory'
    print('blocks, bytes:', st)
    log('M %s' % st)
    d = [b[0] - a[0] for a, b in zip(st[2:], st[3:])]
    if min(d) > 20:
        fail('every repetition leaves at least %d more Python objects' % min(d))
    # the ledger of the harness itself grows by a bounded amount per object
    born = steps * 40
    d = [b[1] - a[1] for a, b in zip(st[2:], st[3:])]
    if min(d) > born * 100:
        fail('every repetition leaves at least %d bytes more' % min(d))


def threads():
    """Counters that every thread of Python and Rust increments: each value must come out exactly once."""
    global op
    sys.setswitchinterval(1e-6)
    for rnd in range(6):
        inter = 0
        for k in ('Am', 'Sh', 'Foo', 'Mx', 'Bx'):
            op = 'threads ' + k
            log('> ' + op)
            base = r.integer(-1 << 30, 1 << 30)
            w = cls[k](base, 0)
            per, nt = steps // 8, r.randrange(2, 7)
            got = [[] for _ in range(nt)]
            order = []
            if k in SHARED:
                reg[k].keep(w)
            total = per * nt

            def body(n):
                x = reg[k].at(0) if k in SHARED and n % 2 else w
                g = got[n]
                for i in range(per):
                    g.append(x.incr())
                    order.append(n)
                    if i % 8 == 0:
                        try:
                            x.incr_bad(999)
                        except OverflowError:
                            pass
                    if k in SHARED and i % 5 == 0:
                        y = reg[k].back_vec([x, x])[1]
                        y = None
                x = None
            ts = [threading.Thread(target=body, args=(n,)) for n in range(nt)]
            rust = r.randrange(1, 4) if k in SHARED else 0
            for n in range(rust):
                (mod.Work.sh if k == 'Sh' else mod.Work.am if n % 2 else mod.Work.am_ref)(w, per)
                total += per
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if rust:
                mod.Work.join()
            mine = sorted(sum(got, []) + list(mod.Work.seen()))
            if mine != list(range(base + 1, base + total + 1)):
                miss = len(set(range(base + 1, base + total + 1)) - set(mine))
                fail('%d of %d increments lost' % (miss, total))
            if w.get() != base + total:
                fail('ends at %d instead of %d' % (w.get(), base + total))
            if any(g != sorted(g) for g in got):
                fail('a thread saw the counter go back')
            py = sorted((v, n) for n, g in enumerate(got) for v in g)
            inter += sum(a[1] != b[1] or a[0] + 1 != b[0] for a, b in zip(py, py[1:]))
            ts = w = None
            if k in SHARED:
                if lib.vh_alive() != 1:
                    fail('the object went away, or stayed')
                reg[k].clear()
            gc.collect()
            if lib.vh_alive():
                fail('%d objects live after the last reference went away' % lib.vh_alive())
            log('C %d' % total)
        log('X %d %d' % (inter, hash(tuple(order)) & 0xffffffff))


def teardown():
    """Names of objects may be left when the interpreter goes down, also from threads' locals."""
    history(steps)
    clear()
    threads()
    history(steps // 4)
    globals()['left_%d' % seed] = [h[0] for h in handles]


def probe():
    """A locked object as its own argument."""
    k, f = sys.argv[4], sys.argv[5]
    log('> probe')
    lib.vh_flush()
    w = cls[k[3:] if k.startswith('Reg') else k](1, 0)
    if k.startswith('Reg'):
        getattr(getattr(mod, k), f)(w, w)
    else:
        getattr(w, f)(w)


globals()[mode]()
if lib.vh_over_dropped():
    bad('%d objects dropped more than once' % lib.vh_over_dropped())
for k, n in sorted(seen_ops.items()):
    log('O %s %d' % (k, n))
log('END')
lib.vh_flush()
