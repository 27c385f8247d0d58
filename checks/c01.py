"""C01: values cross the C++ boundary unchanged."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import vlib

NT = 8  # translation units


def make(name, seed, boost, n_methods):
    p = cpprun.Prog('c01', name)
    p.boost = boost
    r = random.Random(seed)
    r.str_in = r.choice(['&str', 'String'])
    objs = open(os.path.join(cpprun.H, 'cpp', 'objs.rs')).read()
    p.classes = []
    mid = 0
    glue = [objs, cppgen.mk_glue()]
    for k in range(NT):
        ms = cppgen.methods(r, n_methods // NT, mid)
        mid += len(ms)
        ctors = []
        for _ in range(2):
            c = cppgen.Method(mid, 'static', [cppgen.ctor_arg(r) for _ in range(r.choice([2, 2, 3]))],
                              cppgen.T('Self'), False)
            # distinct arity, so that the overload is chosen by count
            if ctors and len(c.args) == len(ctors[0].args):
                c.args.append(cppgen.ctor_arg(r))
            c.names = cppgen.pnames(r, len(c.args))
            mid += 1
            ctors.append(c)
        p.classes.append(('VT%d' % k, ms, ctors))
        glue.append(cppgen.class_glue('VT%d' % k, ms, ctors, '#[derive(SmartPtrNone)]' if False else ''))
    vlib.write(p.glue_in, '\n'.join(glue))
    return p


def driver(p):
    files = []
    feats = ''.join('#define %s 1\n' % f for f in ('VH_SLICE', 'VH_VEC', 'VH_FVEC'))
    for name, ms, ctors in p.classes:
        o = [p.prelude([name + '.hpp']), feats, '#include "objs.hpp"', 'using namespace vns;', 'namespace {']
        o.append('struct Obj { %s o; uint32_t id; uint32_t n; };' % name)
        o.append('std::string who(const Obj &x, int d) { return " @" + std::to_string(x.id) + ":" + std::to_string(x.n + d); }')
        for m in ms:
            o.append('void f%d(vh::Rng &r, Obj &x) {' % m.id)
            if m.kind == 'static':
                o.append('  vh::call(%d, &%s::%s, r); }' % (m.id, name, m.name))
            elif m.kind == 'ref':
                o.append('  if (r.chance(3)) { auto y = x.o.as_rref(); vh::call_m(%d, y, &%sRef::%s, r, who(x, 0)); }' % (m.id, name, m.name))
                o.append('  else vh::call_m(%d, x.o, &%s::%s, r, who(x, 0)); }' % (m.id, name, m.name))
            else:
                o.append('  vh::call_m(%d, x.o, &%s::%s, r, who(x, 1)); ++x.n; }' % (m.id, name, m.name))
        for c in ctors:
            o.append('void k%d(vh::Rng &r, Obj &) {' % c.id)
            n = len(c.args)
            o.append('  vh::Arena a; std::string s[%d];' % n)
            # the caller's event is written after the callee's: the arguments are made in the call
            o.append('  %s o(%s);' % (name, ', '.join('vh::Conv{ &r, &a, &s[%d] }' % i for i in range(n))))
            o.append('  vh::log("* %d "%s); }' % (c.id, ''.join(' + s[%d] + " "' % i for i in range(n))))
        o.append('}')
        fs = ['f%d' % m.id for m in ms] + ['k%d' % c.id for c in ctors]
        o.append('void drive_%s(vh::Rng &r, int rounds) {' % name)
        o.append('  static void (*const fs[])(vh::Rng &, Obj &) = { %s };' % ', '.join(fs))
        o.append('  std::vector<Obj> objs; for (uint32_t i = 0; i < 3; ++i) objs.push_back(Obj{ %s(i + 100), i + 100, 0 });' % name)
        o.append('  for (int k = 0; k < rounds; ++k) { for (auto f : fs) { f(r, objs[r.below(3)]); vh::ret_arena().clear(); } vh_pool_clear(); }')
        o.append('}')
        f = os.path.join(p.dir, 'drv_%s.cpp' % name)
        vlib.write(f, '\n'.join(o))
        files.append(f)
    o = [p.prelude(), feats, '#include "objs.hpp"']
    for name, _, _ in p.classes:
        o.append('void drive_%s(vh::Rng &r, int rounds);' % name)
    o.append('int main(int, char **v) { uint64_t seed = strtoull(v[1], 0, 10); int n = atoi(v[2]); vh_set_seed(seed * 77 + 5);')
    o.append('vh::Rng r{ seed * 1000003 };')
    for name, _, _ in p.classes:
        o.append('drive_%s(r, 2); { uint64_t b = vh_live_bytes(); drive_%s(r, n); if (vh_live_bytes() != b) vh::log("! leaked memory: methods of class %s"); }' % (name, name, name))
    o.append('vh_pool_clear(); if (vh_alive() != 0) vh::log("! leaked " + std::to_string(vh_alive()) + " of " + std::to_string(vh_born()) + " objects");')
    o.append('vh::log("END"); vh_flush(); return 0; }')
    f = os.path.join(p.dir, 'main.cpp')
    vlib.write(f, '\n'.join(o))
    return files + [f]


def evaluate(ck, p, tag, runs, rounds):
    lib_rs = cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs)
    keep = [p.glue_in, p.gen]
    exe = cpprun.build_all(ck, p, tag, lib_rs, driver(p), keep)
    if not exe:
        return
    sig = {str(m.id): str(m) for _, ms, cs in p.classes for m in ms + cs}

    def one(k):
        return p.run(exe, [vlib.seed() * 100 + k, rounds], timeout=600, log='log%d' % k)

    for k, (r, lines) in enumerate(vlib.pmap(one, range(runs))):
        pr = cpprun.Pairing()
        last = None
        pend = {}
        for line in lines:
            # constructors: the callee's event precedes the caller's
            if line.startswith('* '):
                mid, _, data = line[2:].partition(' ')
                got = pend.pop(mid, None)
                if got is None:
                    pr.err(mid, 'constructor did not reach Rust')
                elif got != data.strip():
                    pr.err(mid, 'constructor arguments differ:\n  caller passed  %s\n  callee received %s' % (data.strip(), got))
                else:
                    pr.calls += 1
                    ck.nontrivial(sig[mid] + ' ' + data)
                continue
            if line.startswith('] ') and not pr.stack:
                mid, _, data = line[2:].partition(' ')
                pend[mid] = data.strip()
                continue
            if line.startswith('> '):
                last = line
            done = pr.feed(line)
            if done:
                mid = line[2:].partition(' ')[0]
                ck.nontrivial(sig[mid] + ' ' + done[0] + ' -> ' + done[1])
                if ck.cov['evaluations'] + pr.calls < 2000 and pr.calls % 97 == 5:
                    ck.sample('%s: %s -> %s' % (sig[mid], done[0][:150], done[1][:150]))
        ck.count(pr.calls)
        for mid, s in pr.errors[:10]:
            ck.violation('%s: %s' % (tag, sig.get(mid, mid)), '%s\n%s' % (sig.get(mid, mid), s), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            rep = cpprun.sanitizer_report(r)
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s in %s' % (tag, rep, sig.get(mid, mid)),
                         'last call: %s\n%s' % (last, r.stderr[-4000:]), keep)
    ck.cov.setdefault('signatures', 0)
    ck.cov['signatures'] += len(sig)


PROBE_GLUE = """
pub struct Probe;
foreign_class!(class Probe {
    fn len_of(s: &str) -> usize { s.len() }
    fn has(s: Option<&str>) -> bool { s.is_some() }
    fn sum(s: &[u32]) -> u32 { s.iter().sum() }
});
"""
PROBE_CPP = """
#include "Probe.hpp"
#include <cstdio>
#include <cstdlib>
using namespace vns;
int main(int, char **v) {
  switch (atoi(v[1])) {
  case 0: puts(Probe::len_of(std::string_view{""}) == 0 ? "good" : "bad"); break;
  case 1: puts(Probe::len_of(std::string_view{}) == 0 ? "good" : "bad"); break;
  case 2: puts(Probe::has(std::string_view{""}) ? "good" : "bad"); break;
  case 3: puts(Probe::has(std::string_view{}) ? "good" : "bad"); break;
  case 4: puts(!Probe::has(std::nullopt) ? "good" : "bad"); break;
  case 5: puts(Probe::sum(RustSlice<const uint32_t>(nullptr, 0)) == 0 ? "good" : "bad"); break;
  }
  return 0;
}
"""
PROBES = {0: "empty string_view with a pointer", 1: "default constructed string_view as &str",
          2: "empty string_view as Option<&str>", 3: "default constructed string_view as Option<&str>",
          4: "nullopt as Option<&str>", 5: "RustSlice(nullptr, 0) as &[u32]"}


def check(ck):
    # (the random workload makes no string_view without a pointer)
    cpprun.probes(ck, 'c01', PROBE_GLUE, PROBE_CPP, PROBES)
    ck.cov['rule'] = ('one evaluation is one call C++ -> Rust with random boundary-heavy arguments of a randomly '
                      'generated signature; distinct = distinct (signature, argument values, results)')
    th = vlib.tier() == 'thorough'
    confs = [(False, 240), (True, 160), (False, 160)] if not th else [(b, 240) for b in (False, True)] * 5
    progs = [make('p%d' % i, vlib.seed() * 1000 + i, b, n) for i, (b, n) in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])
    for i, (p, (ok, msg, err)) in enumerate(zip(progs, res)):
        tag = 'boost' if p.boost else 'std17'
        if not ok:
            ck.violation('%s: generator rejects a supported interface' % tag, msg + '\n' + err, [p.glue_in])
            continue
        evaluate(ck, p, tag, 4 if not th else 8, 25 if not th else 60)
        p.cleanup()


if __name__ == '__main__':
    vlib.main('C01', check)
