"""C05: calls of Rust on C++ implementations of foreign_callback, and the life of these objects."""
import os
import random
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cppgen
import cpprun
import vlib
from cppgen import T


def cb_arg(r):
    t = cppgen.ret(r)
    while t.rs == '()':
        t = cppgen.ret(r)
    return t


def cb_ret(r):
    k = r.randrange(12)
    if k < 2:
        return T('()')
    if k < 4:
        return T(r.choice(cppgen.PRIMS))
    if k == 4:
        return T('String')
    if k == 5:
        return T('Color')
    if k == 6:
        return T(r.choice(cppgen.CLASSES))
    if k == 7:
        return T('Vec<%s>' % r.choice(cppgen.VECP + cppgen.CLASSES))
    if k == 8:
        return T('&str')
    return cppgen.compound(r, r.choice([1, 1, 2, 3]), cppgen.leaf_in, 'in')


class Iface:
    def __init__(self, k, r, n, start):
        self.name = 'Cb%d' % k
        self.trait = 'Trait%d' % k
        self.ms = []
        for i in range(n):
            na = r.choice([0, 1, 1, 2, 2, 3, 5])
            m = cppgen.Method(start + i, r.choice(['ref', 'ref', 'mut']), [cb_arg(r) for _ in range(na)], cb_ret(r),
                              False, cppgen.pnames(r, na))
            self.ms.append(m)
        # the declared order, the order in the trait and the alphabetical order all differ
        self.order = list(self.ms)
        r.shuffle(self.order)
        self.send = r.random() < 0.5
        self.dyn = 'Box<dyn %s%s>' % (self.trait, ' + Send' if self.send else '')

    def glue(self, r):
        o = ['pub trait %s {' % self.trait, '    fn uid(&self) -> u64;']
        me = {'ref': '&self', 'mut': '&mut self'}
        for m in self.ms:
            o.append('    fn t%d(%s) -> %s;' % (m.id, ', '.join([me[m.kind]] + ['%s: %s' % x for x in zip(m.names, [a.rs for a in m.args])]), m.ret.rs))
        o.append('}')
        o.append('foreign_callback!(callback %s {' % self.name)
        o.append('    self_type %s%s;' % (self.trait, ' + Send' if self.send else ''))
        pos = r.randrange(len(self.order) + 1)
        for i, m in enumerate(self.order + [None]):
            if i == pos:
                o.append('    uid = %s::uid(&self) -> u64;' % self.trait)
            if m:
                o.append('    %s = %s::t%d(%s)%s;' % (m.name, self.trait, m.id, ', '.join(
                    [me[m.kind]] + ['%s: %s' % x for x in zip(m.names, [a.rs for a in m.args])]),
                    '' if m.ret.rs == '()' else ' -> ' + m.ret.rs))
        o.append('});')
        # the caller
        o.append('pub fn call_%s(cb: &mut dyn %s, k: usize) { let uid = cb.uid(); match k {' % (self.name, self.trait))
        for i, m in enumerate(self.ms):
            o.append('  %d => {' % i)
            for j, a in enumerate(m.args):
                o.append('    let mut a%d: %s = vh::with_rng(|r| vh::Gen::gen(r));' % (j, a.impl))
            o.append('    vh::log(&format!("> %d @{} {}", uid, [%s].join(" ")));'
                     % (m.id, ', '.join('vh::c(&a%d)' % j for j in range(len(m.args))) or 'String::new()'))
            post = [j for j, a in enumerate(m.args) if a.rs.startswith('&mut [') and a.rs[6:-1] in cppgen.VECP]
            o.append('    let ret = cb.t%d(%s);' % (m.id, ', '.join(('&mut *a%d' if j in post else 'a%d') % j for j in range(len(m.args)))))
            o.append('    vh::log(&format!("< %d {} | {}", vh::c(&ret), [%s].join(" ")));'
                     % (m.id, ', '.join('vh::c(&a%d)' % j for j in post) or 'String::new()'))
            o.append('  }')
        o.append('  _ => unreachable!() } }')
        N = self.name
        o.append('''
thread_local!(static KEEP_N: RefCell<Vec<Rc<RefCell<DYN>>>> = RefCell::new(vec![]));
fn drop_N(cb: Rc<RefCell<DYN>>) {
    if let Ok(c) = Rc::try_unwrap(cb) { let c = c.into_inner(); let u = c.uid(); vh::log(&format!("~ {}", u)); drop(c); vh::log(&format!("~~ {}", u)); }
}
pub struct Use_N { cb: Option<DYN> }
impl Drop for Use_N { fn drop(&mut self) { if let Some(c) = self.cb.take() { let u = c.uid(); vh::log(&format!("~ {}", u)); drop(c); vh::log(&format!("~~ {}", u)); } } }
foreign_class!(class Use_N {
    self_type Use_N;
    constructor new(pre: i32, cb: DYN, s: &str) -> Use_N { assert_eq!(pre as usize, s.len()); Use_N { cb: Some(cb) } }
    fn call(&mut self, k: usize) { call_N(&mut **this.cb.as_mut().unwrap(), k) }
    fn swap(&mut self, cb: DYN) { let c = this.cb.replace(cb).unwrap(); let u = c.uid(); vh::log(&format!("~ {}", u)); drop(c); vh::log(&format!("~~ {}", u)); }
    fn uid(&self) -> u64 { this.cb.as_ref().unwrap().uid() }
});
foreign_class!(class Drv_N {
    fn keep(cb: DYN) { KEEP_N.with(|v| v.borrow_mut().push(Rc::new(RefCell::new(cb)))) }
    fn keep3(a: DYN, x: i32, b: DYN, c: DYN) -> i32 { KEEP_N.with(|v| v.borrow_mut().extend([a, b, c].map(|c| Rc::new(RefCell::new(c))))); x + 1 }
    fn order(a: DYN, b: DYN) -> u64 { let r = a.uid() * 1000000 + b.uid(); for c in [b, a] { drop_N(Rc::new(RefCell::new(c))); } r }
    fn once(cb: DYN, k: usize) { let mut cb = cb; call_N(&mut *cb, k); drop_N(Rc::new(RefCell::new(cb))); }
    fn call(i: usize, k: usize) -> bool { callk_N(i, k) }
    fn forget(i: usize) -> u64 { forget_N(i) }
    fn kept() -> usize { KEEP_N.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { *v = Vec::new(); } v.len() }) }
    THREADS
});
fn callk_N(i: usize, k: usize) -> bool {
        let cb = KEEP_N.with(|v| { let v = v.borrow(); if v.is_empty() { None } else { Some(v[i % v.len()].clone()) } });
        // (a method may be called again while it runs, but only through another object)
        let Some(cb) = cb else { return false };
        let ok = if let Ok(mut c) = cb.try_borrow_mut() { call_N(&mut **c, k); true } else { false };
        drop_N(cb);
        ok
    }
fn forget_N(i: usize) -> u64 {
        let cb = KEEP_N.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { None } else { let n = v.len(); Some(v.swap_remove(i % n)) } });
        let Some(cb) = cb else { return 0 };
        if Rc::strong_count(&cb) > 1 { return 0 }
        let u = cb.borrow().uid();
        drop_N(cb);
        u
    }
pub struct Drv_N;
'''.replace('THREADS', '''fn thread_call(cb: DYN, k: usize) {
        let mut cb = cb;
        let t = vh::spawn(move || { call_N(&mut *cb, k); drop_N(Rc::new(RefCell::new(cb))); vh::pool_clear(); });
        t.join().unwrap();
    }''' if self.send else '').replace('DYN', self.dyn).replace('KEEP_N', 'KEEP_' + N).replace('_N', '_' + N))
        return '\n'.join(o)

    def impl(self, hdr):
        """C++ class with an override of every pure virtual method of the generated header."""
        o = ['namespace vns { struct Impl%s final : %s {' % (self.name, self.name), '  uint64_t id;',
             '  Impl%s() : id(++vh_next()) { ++vh_live(); }' % self.name,
             '  ~Impl%s() { --vh_live(); vh::log("X " + std::to_string(id)); }' % self.name,
             '  uint64_t uid() const noexcept override { return id; }']
        names = {m.name: m for m in self.ms}
        for mm in re.finditer(r'virtual\s+([^;{}~]*?)\s*\b(\w+)\s*\(([^;]*)\)\s*(const)?\s*(noexcept)?\s*=\s*0\s*;', hdr):
            ret, name, args, const, nx = mm.groups()
            m = names.get(name)
            if not m:
                continue
            o.append('  %s %s(%s) %s %s override { return vh::on_callback<%s>(%d, " @" + std::to_string(id)%s); }'
                     % (ret, name, args, const or '', nx or '', ret, m.id, ''.join(', ' + x for x in m.names)))
        o.append('}; }')
        return '\n'.join(o)


def make(name, seed, boost, n_if, n_m):
    p = cpprun.Prog('c05', name)
    p.boost = boost
    r = random.Random(seed)
    r.str_in = r.choice(['&str', 'String'])
    p.ifs = [Iface(k, r, n_m, k * n_m) for k in range(n_if)]
    glue = [open(os.path.join(cpprun.H, 'cpp', 'objs.rs')).read(), cppgen.mk_glue()] + [i.glue(r) for i in p.ifs]
    glue.append(THREADED.replace('Result<u64, String>', 'Result<u64, %s>' % r.str_in))
    vlib.write(p.glue_in, '\n'.join(glue))
    return p


# calls from several Rust threads at a time; each end checks on its own
THREADED = '''
pub trait Par { fn mix(&self, i: u64, s: &str, v: Vec<u32>, t: (i32, String)) -> Result<u64, String>; fn bump(&mut self) -> i64; }
foreign_callback!(callback ParCb { self_type Par + Send; bump = Par::bump(&mut self) -> i64;
    mix = Par::mix(&self, i: u64, s: &str, v: Vec<u32>, t: (i32, String)) -> Result<u64, String>; });
pub struct ParDrv;
fn par_one(mut cb: Box<dyn Par + Send>, n: u64, salt: u64) -> u64 {
    let mut bad = 0;
    for i in 0..n {
        let s = format!("{}é{}", i, salt);
        let v: Vec<u32> = (0..(i % 7) as u32).collect();
        let h = s.bytes().fold(i.wrapping_mul(31), |h, b| h.wrapping_mul(131).wrapping_add(b as u64)).wrapping_add(v.iter().map(|x| *x as u64).sum::<u64>()).wrapping_add(salt);
        match cb.mix(i, &s, v, (salt as i32, s.clone())) {
            Ok(x) => if x != h || i % 5 == 4 { bad += 1 },
            Err(e) => if e != s || i % 5 != 4 { bad += 1 },
        }
        if cb.bump() != i as i64 + 1 { bad += 1 }
    }
    bad
}
foreign_class!(class ParDrv {
    fn run(a: Box<dyn Par + Send>, b: Box<dyn Par + Send>, c: Box<dyn Par + Send>, n: u64) -> u64 {
        let mut k = 0;
        let hs: Vec<_> = [a, b, c].into_iter().map(|cb| { k += 1; let s = k; vh::spawn(move || par_one(cb, n, s)) }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).sum()
    }
});
'''
PAR_CPP = '''
namespace vns { struct ImplPar final : ParCb {
  int64_t n = 0; ImplPar() { ++vh_live(); } ~ImplPar() { --vh_live(); }
  int64_t bump() noexcept override { return ++n; }
  vh::Var<uint64_t, RustString> %s
  static uint64_t h(uint64_t i, vh::Sv s, const RustVecu32 &v, int32_t salt) { uint64_t h = i * 31; for (char c : s) h = h * 131 + (unsigned char)c; for (uint32_t x : v) h += x; return h + salt; }
}; }
'''


def driver(p):
    feats = ''.join('#define %s 1\n' % f for f in ('VH_SLICE', 'VH_VEC', 'VH_FVEC'))
    head = [p.prelude(), feats, '#include "objs.hpp"', '#include <atomic>', '#include <thread>',
            'std::atomic<long> &vh_live(); std::atomic<uint64_t> &vh_next();']
    files = []
    for i in p.ifs:
        hdr = open(os.path.join(p.gen, i.name + '.hpp')).read()
        o = head + [i.impl(hdr), '''
void again_N(vh::Rng &r) { vns::Drv_N::call(r.below(1000), r.below(NM)); }
void forget_N(vh::Rng &r) { vns::Drv_N::forget(r.below(1000)); }
void drive_N(vh::Rng &r, int n) {
  using namespace vns;
  auto mk = [] { return std::make_unique<ImplN>(); };
  for (int k = 0; k < n; ++k) {
    long live = vh_live();
    switch (r.below(10)) {
    case 0: Drv_N::keep(mk()); if (vh_live() != live + 1) vh::log("! keep: objects alive"); break;
    case 1: { int32_t x = (int32_t)r.below(99); if (Drv_N::keep3(mk(), x, mk(), mk()) != x + 1) vh::log("! keep3: value"); if (vh_live() != live + 3) vh::log("! keep3: objects alive"); break; }
    case 2: Drv_N::once(mk(), r.below(NM)); if (vh_live() > live) vh::log("! once: objects alive"); break;
    case 3: { auto a = mk(); auto b = mk(); uint64_t w = a->id * 1000000 + b->id; if (Drv_N::order(std::move(a), std::move(b)) != w) vh::log("! two callbacks were exchanged");
        if (vh_live() != live) vh::log("! order: objects alive"); break; }
    case 4: { size_t had = Drv_N::kept(); if (had > 6 || r.chance(3)) { uint64_t u = Drv_N::forget(r.below(1000)); if (vh_live() != live - (u ? 1 : 0)) vh::log("! forget: objects alive"); } break; }
    case 5: { auto a = mk(); uint64_t id = a->id; std::string s(r.below(9), 'x'); Use_N u((int32_t)s.size(), std::move(a), s); if (u.uid() != id) vh::log("! another object");
        for (int j = 0; j < 3; ++j) u.call(r.below(NM)); if (r.chance(2)) u.swap(mk()); break; }
    case 6: THREAD break;
    default: Drv_N::call(r.below(1000), r.below(NM));
    }
    vh::ret_arena().clear(); vh_pool_clear();
  }
  while (Drv_N::kept()) Drv_N::forget(0);
}'''.replace('_N', '_' + i.name).replace('ImplN', 'Impl' + i.name).replace('NM', str(len(i.ms)))
            .replace('THREAD', 'Drv_%s::thread_call(mk(), r.below(%d)); if (vh_live() != live) vh::log("! thread: objects alive");' % (i.name, len(i.ms)) if i.send else '')]
        f = os.path.join(p.dir, 'cb_%s.cpp' % i.name)
        vlib.write(f, '\n'.join(o))
        files.append(f)
    hdr = open(os.path.join(p.gen, 'ParCb.hpp')).read()
    mm = re.search(r'virtual\s+[^;]*?\b(mix\s*\([^;]*\)[^;]*?)=\s*0\s*;', hdr)
    mix = (mm.group(1) if mm else '') + ' override { if (i % 5 == 4) return RustString(std::move(t.second)); if (t.second.to_std_string() != std::string(s.data(), s.size())) return uint64_t(0); return h(i, s, v, t.first); }'
    mix = mix.replace('return RustString(std::move(t.second))', 'return vh::Var<uint64_t, RustString>(std::move(t.second))')
    if mm:
        # Err is a string on its way into Rust
        ret = re.search(r'virtual\s+([^;]*?)\s*\bmix\s*\(', hdr).group(1)
        par = PAR_CPP.replace('vh::Var<uint64_t, RustString> %s', ret + ' ' + mix.replace('vh::Var<uint64_t, RustString>(std::move(t.second))', '%s(s)' % ret))
    else:
        par = PAR_CPP % mix
    o = head + [par, 'std::atomic<long> &vh_live() { static std::atomic<long> n{0}; return n; }',
                'std::atomic<uint64_t> &vh_next() { static std::atomic<uint64_t> n{0}; return n; }']
    for i in p.ifs:
        o.append('void again_N(vh::Rng &); void forget_N(vh::Rng &); void drive_N(vh::Rng &r, int n);'.replace('_N', '_' + i.name))
    o.append('static int depth = 0; static vh::Rng hr{ 5 }; static std::thread::id main_id;')
    o.append('static void hook() { if (std::this_thread::get_id() != main_id || depth > 2 || !hr.chance(6)) return; ++depth; switch (hr.below(%d)) {' % (2 * len(p.ifs)))
    for k, i in enumerate(p.ifs):
        o.append('case %d: again_%s(hr); break; case %d: if (hr.chance(3)) forget_%s(hr); break;' % (2 * k, i.name, 2 * k + 1, i.name))
    o.append('} --depth; }')
    o.append('int main(int, char **v) { uint64_t seed = strtoull(v[1], 0, 10); int n = atoi(v[2]); vh_set_seed(seed * 77 + 5); vh::Rng r{ seed * 1000003 }; vh::rng() = vh::Rng{ seed + 9 };')
    o.append('main_id = std::this_thread::get_id(); vh::cb_hook() = hook;')
    for i in p.ifs:
        o.append('drive_N(r, 20); { uint64_t b = vh_live_bytes(); drive_N(r, n); if (vh_live_bytes() != b) vh::log("! leaked memory: callback N"); }'.replace('_N', '_' + i.name).replace('callback N', 'callback ' + i.name))
    o.append('uint64_t bad = vns::ParDrv::run(std::make_unique<vns::ImplPar>(), std::make_unique<vns::ImplPar>(), std::make_unique<vns::ImplPar>(), n); if (bad) vh::log("! concurrent callbacks: wrong values in " + std::to_string(bad) + " calls");')
    o.append('if (vh_live() != 0) vh::log("! callback objects alive at the end: " + std::to_string(vh_live()));')
    o.append('vh_pool_clear(); if (vh_alive() != 0) vh::log("! leaked " + std::to_string(vh_alive()) + " of " + std::to_string(vh_born()) + " objects"); if (vh_over_dropped()) vh::log("! objects dropped twice");')
    o.append('vh::log("PAR " + std::to_string(3 * n)); vh::log("END"); vh_flush(); return 0; }')
    f = os.path.join(p.dir, 'main.cpp')
    vlib.write(f, '\n'.join(o))
    return files + [f]


def evaluate(ck, p, tag, runs, rounds, san='asan'):
    lib_rs = cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs)
    keep = [p.glue_in, p.gen]
    exe = cpprun.build_all(ck, p, tag, lib_rs, driver(p), keep, san=san)
    if not exe:
        return
    sig = {str(m.id): '%s.%s' % (i.name, m) for i in p.ifs for m in i.ms}
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run(exe, [vlib.seed() * 100 + k, rounds], timeout=600, log='log%d' % k), range(runs))):
        pr = cpprun.Pairing()
        last, dying, dead, par = None, [], set(), 0
        for line in lines:
            if line.startswith('> '):
                last = line
            if line.startswith('~~ '):
                u = line[3:]
                if not dying or dying.pop() != u:
                    pr.err('life', 'C++ object %s was not destroyed when Rust dropped the callback' % u)
                    dying = []
                elif u not in dead:
                    pr.err('life', 'C++ object %s outlived the callback' % u)
            elif line.startswith('~ '):
                dying.append(line[2:])
            elif line.startswith('X '):
                u = line[2:]
                if u in dead:
                    pr.err('life', 'C++ object %s destroyed twice' % u)
                elif not dying or dying[-1] != u:
                    pr.err('life', 'C++ object %s destroyed while Rust holds the callback' % u)
                dead.add(u)
            elif line.startswith('PAR '):
                par = int(line[4:])
            else:
                done = pr.feed(line)
                if done:
                    mid = line[2:].partition(' ')[0]
                    ck.nontrivial(sig[mid] + ' ' + done[0] + ' -> ' + done[1])
                    if pr.calls % 397 == 5:
                        ck.sample('%s: %s -> %s' % (sig[mid], done[0][:150], done[1][:150]))
        ck.count(pr.calls + par)
        ck.cov['objects_destroyed'] = ck.cov.get('objects_destroyed', 0) + len(dead)
        for mid, s in pr.errors[:10]:
            ck.violation('%s: %s' % (tag, sig.get(mid, mid + ' ' + re.sub(r'\d+', '#', s))), '%s\n%s' % (sig.get(mid, mid), s), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s in %s' % (tag, cpprun.sanitizer_report(r), sig.get(mid, mid)), 'last call: %s\n%s' % (last, r.stderr[-4000:]), keep)
    ck.cov['signatures'] = ck.cov.get('signatures', 0) + len(sig)


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call Rust -> C++ through a randomly generated callback trait, paired with the override that ran; '
                      'distinct = distinct (signature, object and argument values, results)')
    th = vlib.tier() == 'thorough'
    confs = [(False, 'asan'), (True, 'asan'), (False, 'tsan')] if not th else [(b, s) for s in ('asan', 'tsan', 'asan', 'asan') for b in (False, True)]
    progs = [make('p%d' % i, vlib.seed() * 1000 + i, b, 6, 14) for i, (b, _) in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])
    for i, (p, (ok, msg, err)) in enumerate(zip(progs, res)):
        tag = ('boost' if p.boost else 'std17') + ('' if confs[i][1] == 'asan' else ' tsan')
        if not ok:
            ck.violation('%s: generator rejects a supported interface' % tag, msg + '\n' + err, [p.glue_in])
            continue
        evaluate(ck, p, tag, 4 if not th else 8, 250 if not th else 800, confs[i][1])
        p.cleanup()


if __name__ == '__main__':
    vlib.main('C05', check)
