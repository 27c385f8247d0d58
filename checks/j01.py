"""J01: values cross the Java boundary unchanged."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cpprun
import javagen
import javarun
import vlib
from javagen import T, Method

NC = 4  # classes of a program


def make(name, seed, pkg, n, opts=()):
    p = javarun.JProg('j01', name, pkg=pkg)
    p.opts = list(opts)
    r = random.Random(seed)
    glue = [open(os.path.join(javarun.H, 'java', 'objs.rs')).read()]
    p.classes = []
    mid = 0
    for k in range(NC):
        ms = javagen.methods(r, n // NC, mid)
        mid += len(ms)
        ctors = []
        for j in range(2):
            c = Method(mid, 'static', [javagen.arg(r) for _ in range(2 + j)], T('Self'), False)
            c.names = javagen.pnames(r, len(c.args))
            mid += 1
            ctors.append(c)
        cname = r.choice(['VT%d', 'V_T%d', 'VT_%d_', 'V1_T%d']) % k
        p.classes.append((cname, ms, ctors))
        glue.append(javagen.class_glue(cname, ms, ctors))
    vlib.write(p.glue_in, '\n'.join(glue))
    return p


def driver(p):
    files = {'Objs.java': javagen.OBJS % dict(pkg=p.pkg)}
    mains = []
    for cname, ms, ctors in p.classes:
        o = ['package %s;' % p.pkg, 'import vh.VH;', 'final class Drv%s {' % cname,
             'static final class Obj { %s o; long id; int n; Obj(long i) { id = i; o = new %s(i); } }' % (cname, cname)]
        for m in ms:
            o.append(javagen.call_java(cname, m))
        for c in ctors:
            o.append('static void f%d(VH.R r, Obj x) throws Exception {' % c.id)
            for i, a in enumerate(c.args):
                o.append('  final %s a%d = %s;' % ((javagen.jin(a.rs)[0], i, javagen.jin(a.rs)[1])))
            o.append('  VH.log("> %d "%s);' % (c.id, ' + " "'.join(' + ' + javagen.jcanon(a.rs, 'a%d' % i) for i, a in enumerate(c.args))))
            o.append('  %s v = new %s(%s);' % (cname, cname, ', '.join('a%d' % i for i in range(len(c.args)))))
            o.append('  VH.log("< %d O |");' % c.id)
            o.append('}')
        o.append('interface Fn { void run(VH.R r, Obj x) throws Exception; }')
        o.append('static void drive(VH.R r, int rounds) throws Exception {')
        o.append('  Fn[] fs = { %s };' % ', '.join('Drv%s::f%d' % (cname, m.id) for m in ms + ctors))
        o.append('  Obj[] xs = { new Obj(100), new Obj(101), new Obj(102) };')
        o.append('  for (int k = 0; k < rounds; ++k) { for (Fn f : fs) f.run(r, xs[r.below(3)]); VH.poolClear(); }')
        o.append('} }')
        files['Drv%s.java' % cname] = '\n'.join(o)
        mains.append('Drv%s.drive(r, n);' % cname)
    files['Main.java'] = '''package %s;
import vh.VH;
public final class Main {
  public static void main(String[] a) throws Throwable {
    System.load(System.getenv("VH_LIB"));
    long seed = Long.parseLong(a[0]); int n = Integer.parseInt(a[1]);
    VH.setSeed(seed * 77 + 5);
    VH.R r = new VH.R(seed * 1000003);
    try { %s VH.log("END"); } finally { VH.flush(); }
  }
}
''' % (p.pkg, ' '.join(mains))
    return files


ANN = 'package org.ann;\npublic @interface %s {}\n'


def evaluate(ck, p, tag, runs, rounds):
    keep = [p.glue_in, p.gen]
    files = driver(p)
    if '--null-ann' in p.opts:
        for n in ('NonNull', 'Nullable'):
            vlib.write(os.path.join(p.src, 'org', 'ann', n + '.java'), ANN % n)
    if not p.build(ck, tag, files, keep):
        return
    sig = {str(m.id): '%s [%s]' % (m, getattr(m, 'jname', 'new')) for _, ms, cs in p.classes for m in ms + cs}

    def one(k):
        jvm = [['-Xint'], ['-Xcomp', '-XX:TieredStopAtLevel=1'], [], ['-XX:+UseSerialGC', '-Xmn1m']][k % 4]
        return p.run('Main', [vlib.seed() * 100 + k, rounds], timeout=600, log='log%d' % k, jvm=jvm)

    for k, (r, lines) in enumerate(vlib.pmap(one, range(runs))):
        pr = cpprun.Pairing()
        last = None
        for line in lines:
            if line.startswith('> '):
                last = line
            done = pr.feed(line)
            if done:
                mid = line[2:].partition(' ')[0]
                ck.nontrivial(sig[mid] + ' ' + done[0] + ' -> ' + done[1])
                if pr.calls % 997 == 5:
                    ck.sample('%s: %s -> %s' % (sig[mid], done[0][:150], done[1][:150]))
        ck.count(pr.calls)
        for mid, s in pr.errors[:10]:
            ck.violation('%s: %s' % (tag, sig.get(mid, mid)), '%s\n%s' % (sig.get(mid, mid), s), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END' or javarun.complaint(r):
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s in %s' % (tag, javarun.report(r), sig.get(mid, mid)),
                         'last call: %s\n%s\n%s' % (last, r.stdout[-3000:], r.stderr[-4000:]), keep)
    ck.cov['signatures'] = ck.cov.get('signatures', 0) + len(sig)


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call Java -> Rust in a real JVM with random boundary-heavy arguments of a '
                      'randomly generated signature; distinct = distinct (signature, argument values, results)')
    th = vlib.tier() == 'thorough'
    confs = [('vns', 120, []), ('com.ver_if.x1', 120, ['--null-ann', 'org.ann']), ('a.b_.c__d', 100, ['--fence', 'std', '--optional-pkg', 'org.opt.x']),
             ('org.e', 100, ['--fence', '8', '--null-ann', 'org.ann'])]
    if th:
        confs = [(p, 200, o) for p, _, o in confs] * 4
    progs = [make('p%d' % i, vlib.seed() * 1000 + i, *c) for i, c in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])

    def one(i):
        p, (ok, msg, err) = progs[i], res[i]
        tag = 'config %d' % (i % 4)
        if not ok:
            ck.violation('%s: generator rejects a supported interface' % tag, msg + '\n' + err, [p.glue_in])
            return
        evaluate(ck, p, tag, 4 if not th else 8, 25 if not th else 80)
        p.cleanup()
    vlib.pmap(one, range(len(progs)), 2)


if __name__ == '__main__':
    vlib.main('J01', check)
