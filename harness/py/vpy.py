"""Monitoring runtime of the Python side: event log, seeded values, canonical forms (as harness/common/vh.rs)."""
import ctypes
import importlib
import math
import os
import random
import struct

mod = importlib.import_module(os.environ['VH_MODULE'])
lib = ctypes.CDLL(os.environ['VH_SO'])
for f in ('alive', 'born', 'over_dropped', 'live_bytes'):
    getattr(lib, 'vh_' + f).restype = ctypes.c_uint64
lib.vh_drops_of.argtypes = [ctypes.c_uint64]
lib.vh_set_seed.argtypes = [ctypes.c_uint64]
lib.vh_log.argtypes = [ctypes.c_char_p, ctypes.c_size_t]


def log(s):
    b = s.encode('utf-8', 'backslashreplace')
    lib.vh_log(b, len(b))


def bad(s):
    log('! ' + s)
    lib.vh_flush()


class R(random.Random):
    def integer(self, lo, hi):
        k = self.randrange(8)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2:
            return self.choice([lo + 1, hi - 1, 0, 1])
        if k == 3:
            return max(lo, min(hi, (1 << self.randrange(64)) - self.randrange(2)))
        if k == 4:
            return max(lo, -(1 << self.randrange(64)))
        return self.randint(lo, hi)

    def length(self):
        k = self.randrange(8)
        if k == 7 and not self.randrange(50):
            return self.randrange(60, 1100)
        return 0 if k == 0 else 1 if k == 1 else self.randrange(40) if k == 2 else self.randrange(7)

    def text(self):
        o = []
        for _ in range(self.length()):
            k = self.randrange(8)
            o.append(chr(0 if k == 0 else self.randrange(0x80) if k == 1 else self.randrange(0x80, 0x800) if k == 2 else
                         self.randrange(0x800, 0xD800) if k == 3 else self.randrange(0xE000, 0x10000) if k == 4 else
                         self.randrange(0x10000, 0x110000) if k == 5 else self.randrange(97, 123)))
        return ''.join(o)


def f32_of(bits):
    return struct.unpack('<f', struct.pack('<I', bits))[0]


def enums():
    c = mod.Color
    return {k: getattr(c, k) for k in ('GREEN', 'INFRA', 'BLUE', 'RED', 'ULTRA')}


MAKE = {
    'Foo': lambda r: mod.Foo(r.integer(-1 << 63, (1 << 63) - 1), r.text()),
    'Bx': lambda r: mod.Bx(r.integer(0, (1 << 32) - 1)),
    'Mx': lambda r: mod.Mx(r.integer(-1 << 15, (1 << 15) - 1)),
    'Sh': lambda r: mod.Sh(r.integer(-1 << 31, (1 << 31) - 1)),
    'Am_': lambda r: mod.Am_(r.integer(0, (1 << 32) - 1), r.text()),
}


def gen(d, r):
    k = d[0]
    if k == 'int':
        return r.integer(d[1], d[2])
    if k == 'bool':
        return r.random() < 0.5
    if k == 'f32':
        return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, f32_of(1), f32_of(0x7f7fffff), 1.5, f32_of(r.getrandbits(32)), f32_of(r.getrandbits(32))])
    if k == 'f64':
        return r.choice([0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, 1.7976931348623157e308, 0.1, r.random(),
                         struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]])
    if k == 'str':
        return r.text()
    if k == 'enum':
        return r.choice(list(enums().values()))
    if k == 'obj':
        return MAKE[d[1]](r)
    if k == 'opt':
        return None if r.randrange(3) == 0 else gen(d[1], r)
    if k == 'vec':
        v = [gen(d[1], r) for _ in range(r.length())]
        return tuple(v) if r.randrange(6) == 0 else v
    raise AssertionError(d)


def num(x):
    return '%d' % x if type(x) is int else '!%r' % (x,)


def c(d, x, out=False):
    """Canonical form; a value of another type than declared does not get one."""
    k = d[0]
    if k == 'int':
        return num(x)
    if k == 'bool':
        return {True: 'T', False: 'F'}[x] if type(x) is bool else '!%r' % (x,)
    if k in ('f32', 'f64'):
        if type(x) is not float:
            return '!%r' % (x,)
        if math.isnan(x):
            return 'nan'
        if k == 'f64':
            return 'd%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]
        try:
            b = struct.pack('<f', x)
        except OverflowError:
            return '!f32 %r' % x
        return 'f%08x' % struct.unpack('<I', b)[0] if struct.unpack('<f', b)[0] == x else '!f32 %r' % x
    if k == 'str':
        return '"%s"' % x.encode('utf-8').hex() if type(x) is str else '!%r' % (x,)
    if k == 'enum':
        for n, v in enums().items():
            if type(x) is int and v == x:
                return '#' + n
        return '!enum %r' % (x,)
    if k == 'obj':
        if type(x).__name__ != d[1]:
            return '!%s' % type(x)
        if d[1] == 'Foo':
            return 'Foo{%s:%s}' % (num(x.x()), c(['str'], x.name()))
        if d[1] == 'Am_':
            return 'Am_{%s:%s}' % (num(x.v()), c(['str'], x.s()))
        return '%s{%s}' % (d[1], num(x.v()))
    if k == 'opt':
        return 'N' if x is None else 'S(%s)' % c(d[1], x, out)
    if k == 'vec':
        if out and type(x) is not list:
            return '!%s' % type(x)
        return '[%s]' % ','.join(c(d[1], e, out) for e in x)
    if k == 'tup':
        if type(x) is not tuple or len(x) != len(d[1]):
            return '!%r' % (x,)
        return '(%s)' % ','.join(c(t, e, out) for t, e in zip(d[1], x))
    if k == 'unit':
        return '()' if x is None else '!%r' % (x,)
    raise AssertionError(d)


def spoil(d, x, r, top=True):
    """A value that the type does not have, close to x; None if there is no such place."""
    k = d[0]
    if k == 'int':
        return r.choice([d[1] - 1, d[2] + 1, 1 << 64, -(1 << 63) - 1, 1 << 200, -(1 << 200), 'x', '5', 1.5, 1e300, [], (), d[2] + 1, d[1] - 1, b'1', object()])
    if k == 'bool':
        return r.choice([1, 0, 'T', 1.0, [], 'False'])
    if k in ('f32', 'f64'):
        return r.choice(['x', '1.5', [], b'1', 1j, {}])
    if k == 'str':
        return r.choice([5, b'x', [], '\ud800', 'a\udfff\0', 1.5, object()])
    if k == 'enum':
        ok = set(enums().values())
        v = r.choice([v for v in [1, 3, 5, 6, 8, 99, 101, (1 << 32) - 1, 1 << 31, -1, -5, -2, 1 << 32, (1 << 32) + 2, (1 << 32) + 7] if v not in ok])
        return r.choice([v, v, v, 'RED', 2.0, []])
    if k == 'obj':
        o = r.choice([n for n in MAKE if n != d[1]])
        return r.choice([MAKE[o](r), 5, 'x', [], getattr(mod, d[1]), object()])
    if k == 'opt':
        return spoil(d[1], x, r, False)
    if k == 'vec':
        if not r.randrange(4):
            return r.choice([5, 1.5, True, object()])
        v = list(x) if type(x) in (list, tuple) else []
        v.insert(r.randrange(len(v) + 1), spoil(d[1], None, r, False))
        return v
    raise AssertionError(d)
