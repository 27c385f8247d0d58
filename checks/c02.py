"""C02: containers, slices and strings of the generated C++ behave as model sequences."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import vlib

CT = dict(i8='int8_t', u8='uint8_t', i16='int16_t', u16='uint16_t', i32='int32_t', u32='uint32_t', i64='int64_t',
          u64='uint64_t', isize='intptr_t', usize='uintptr_t', f32='float', f64='double')


def glue():
    o = [open(os.path.join(cpprun.H, 'cpp', 'objs.rs')).read(), cppgen.mk_glue()]
    for t in cppgen.VECP + cppgen.CLASSES:
        grow = ('v.extend(std::iter::repeat(x).take(k))' if t in CT else
                'v.push(x); if k % 2 == 0 { v.shrink_to_fit(); } else { v.reserve(k); }')
        o.append('''
#[derive(Default)]
pub struct Hold_T { v: Vec<T> }
foreign_class!(class Hold_T {
    self_type Hold_T;
    constructor new() -> Hold_T { Hold_T::default() }
    fn put(&mut self, v: Vec<T>) { this.v = v; }
    fn take(&mut self) -> Vec<T> { std::mem::take(&mut this.v) }
    fn all(&self) -> &[T] { &this.v }
    fn all_mut(&mut self) -> &mut [T] { &mut this.v }
    fn part(&self, i: usize, j: usize) -> &[T] { let n = this.v.len(); let i = i.min(n); &this.v[i..j.min(n).max(i)] }
    fn seen(&self) -> String { vh::c(&this.v) }
});
pub struct Ops_T;
foreign_class!(class Ops_T {
    fn rev(v: Vec<T>) -> Vec<T> { let mut v = v; v.reverse(); v }
    fn grow(v: Vec<T>, x: T, k: usize) -> Vec<T> { let mut v = v; GROW; v }
    fn seen(s: &[T]) -> String { vh::c(s) }
    fn poke(s: &mut [T], k: usize, x: T) { s[k] = x; }
});
'''.replace('Hold_T', 'Hold' + t).replace('Ops_T', 'Ops' + t).replace('GROW', grow)
                 .replace('<T>', '<%s>' % t).replace('[T]', '[%s]' % t).replace('x: T', 'x: ' + t))
    o.append('''
pub struct StrOps;
foreign_class!(class StrOps {
    fn make(s: &str, room: usize) -> String { let mut v = String::with_capacity(s.len() + room % 17); v.push_str(s); v }
});''')
    return '\n'.join(o)


def driver(p):
    files = []
    feats = ''.join('#define %s 1\n' % f for f in ('VH_SLICE', 'VH_VEC', 'VH_FVEC'))
    head = [p.prelude(), feats, '#include "objs.hpp"', '#include "c02.cpp"']
    fns = []
    for t in cppgen.VECP + cppgen.CLASSES:
        o = list(head)
        prim = t in CT
        o.append('struct E { using C = %s; using Holder = vns::Hold%s; static const char *name() { return "%s"; }'
                 % (CT.get(t, 'vns::' + t), t, t))
        if prim:
            o.append('using Vec = decltype(vns::Ops%s::rev(std::declval<decltype(vns::Mk::vec_%s(std::declval<vns::RustSlice<const C>>(), 0))>()));' % (t, t))
            o.append('static Vec make(vns::RustSlice<const C> s, size_t room) { return vns::Mk::vec_%s(std::move(s), room); }' % t)
        else:
            o.append('using Vec = vns::RustForeignVec%s; static bool counted() { return %s; }'
                     % (t, 'false' if t == 'Tiny' else 'true'))
        for f in ('rev', 'grow', 'seen', 'poke'):
            o.append('template <class... A> static auto %s(A &&...a) { return vns::Ops%s::%s(std::forward<A>(a)...); }' % (f, t, f))
        o.append('};')
        o.append('void fuzz_%s(int n) { vh::%s<E> f; f.run(n); }' % (t, 'PrimFuzz' if prim else 'ClassFuzz'))
        # every translation unit has its own E
        src = '\n'.join(o).replace('struct E ', 'struct E_%s ' % t).replace('<E>', '<E_%s>' % t)
        f = os.path.join(p.dir, 'fz_%s.cpp' % t)
        vlib.write(f, src)
        files.append(f)
        fns.append('fuzz_' + t)
    o = list(head)
    o += ['void %s(int n);' % f for f in fns]
    o.append('int main(int, char **v) { uint64_t seed = strtoull(v[1], 0, 10); int n = atoi(v[2]); vh_set_seed(seed * 7 + 1);'
             ' vh::mon().r = vh::Rng{ seed * 7919 };')
    o.append('using F = void (*)(int); F fs[] = { %s };' % ', '.join(fns))
    o.append('for (F f : fs) { f(50); uint64_t b = vh_live_bytes(); f(n); if (vh_live_bytes() != b) vh::log("! " + vh::mon().kind + ": leaked memory"); if (vh_alive() != 0) vh::log("! " + vh::mon().kind + ": leaked " + std::to_string(vh_alive()) + " objects"); }')
    o.append('{ { vh::StrFuzz f; f.run(50); } uint64_t b = vh_live_bytes(); { vh::StrFuzz f; f.run(n * 3); } if (vh_live_bytes() != b) vh::log("! strings: leaked memory"); }')
    o.append('if (vh_over_dropped()) vh::log("! objects dropped twice"); vh::mon().report(); vh::log("END"); vh_flush(); return 0; }')
    f = os.path.join(p.dir, 'main.cpp')
    vlib.write(f, '\n'.join(o))
    return files + [f]


def one_config(ck, boost, runs, n):
    tag = 'boost' if boost else 'std17'
    p = cpprun.Prog('c02', tag)
    p.boost = boost
    vlib.write(p.glue_in, glue())
    ok, msg, err = vlib.vgen(p.job())
    keep = [p.glue_in, p.gen]
    if not ok:
        ck.violation('%s: generator rejects a supported interface' % tag, msg + err, keep)
        return
    exe = cpprun.build_all(ck, p, tag, cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs), driver(p), keep)
    if not exe:
        return
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run(exe, [vlib.seed() * 1000 + k, n], log='log%d' % k, timeout=800), range(runs))):
        errs = [x[2:] for x in lines if x.startswith('! ')]
        for e in errs[:5]:
            what = e.split(' | ')[0].split(': got')[0]
            ck.violation('%s: %s' % (tag, what), '%s\nreplay: program built from the kept glue, arguments %d %d'
                         % (e, vlib.seed() * 1000 + k, n), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            rep = cpprun.sanitizer_report(r)
            ck.violation('%s: %s' % (tag, rep), r.stderr[-5000:], keep)
        for x in lines:
            if x.startswith('OPS '):
                _, op, c = x.split(' ')
                ck.count(int(c))
                d = ck.cov.setdefault('operations', {})
                d[op] = d.get(op, 0) + int(c)
            elif x.startswith('DISTINCT '):
                ck.extra_distinct += int(x.split(' ')[1])
    ck.cov['samples'] = ['%s x %d' % kv for kv in sorted(ck.cov.get('operations', {}).items())[:8]]
    p.cleanup()


def check(ck):
    ck.cov['rule'] = ('one evaluation is one container operation followed by a full comparison with the model; distinct = '
                      'distinct (container type, operation, content of the containers before it) within a run')
    th = vlib.tier() == 'thorough'
    probes(ck)
    for boost in (False, True):
        one_config(ck, boost, 16 if th else 8, 6000 if th else 1500)


PROBE_GLUE = """
pub struct Zst;
foreign_class!(class Zst { self_type Zst; constructor new() -> Zst { Zst } fn one(&self) -> i32 { 1 } });
pub struct ZOps;
foreign_class!(class ZOps { fn make(n: usize) -> Vec<Zst> { (0..n).map(|_| Zst).collect() } });
"""
PROBE_CPP = """
#include "Zst.hpp"
#include "ZOps.hpp"
#include <cstdio>
#include <cstdlib>
using namespace vns;
int main(int, char **v) {
  auto x = ZOps::make(5);
  int n = 0;
  switch (atoi(v[1])) {
  case 0: x.push(Zst()); x.remove(0); for (size_t i = 0; i < x.size(); ++i) n += x[i].one(); break;
  case 1: for (auto e : x) n += e.one(); break;
  }
  puts(n == 5 ? "good" : "bad");
  return 0;
}
"""
PROBES = {0: 'vector of a zero-sized class by index', 1: 'vector of a zero-sized class by iterator'}


def probes(ck):
    cpprun.probes(ck, 'c02', PROBE_GLUE, PROBE_CPP, PROBES)


if __name__ == '__main__':
    vlib.main('C02', check)
