"""P02: wrapped objects share, live and die with their references (Python)."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cpprun
import pyrun
import vlib

sys.path.insert(0, os.path.join(pyrun.H, 'py'))
import p02_gen


def check(ck):
    ck.cov['rule'] = ('one evaluation is one step of a random history of create, name, share, mutate, return, refuse, drop (or one increment by one '
                      'of several Python and Rust threads), after which the set of living Rust objects, their states seen through every name and '
                      'the reference counts are compared with a model; distinct = distinct (kind of step, seed) and interleavings of the threads')
    th = vlib.tier() == 'thorough'
    p = pyrun.PProg('p02', 'p', module='vmod')
    vlib.write(p.glue_in, p02_gen.glue())
    ok, msg, err = vlib.vgen_jobs([p.job()])[0]
    keep = [p.glue_in, p.glue_rs]
    if not ok:
        ck.violation('generator rejects a supported interface', msg + '\n' + err, [p.glue_in])
        return
    if not p.build(ck, 'p02', keep):
        return
    script = os.path.join(pyrun.H, 'py', 'p02.py')
    n = 8 if not th else 60
    jobs = [('histories', 400 if not th else 2000, k) for k in range(n)] + [('threads', 4000 if not th else 24000, k) for k in range(n // 2)]
    jobs += [('leaks', 1500 if not th else 5000, k) for k in range(max(2, n // 10))] + [('teardown', 200, k) for k in range(2)]
    res = vlib.pmap(lambda j: p.run(script, [j[0], vlib.seed() * 1000 + j[2], j[1]], timeout=240 if not th else 800, log='log-%s-%d' % (j[0], j[2])), jobs)
    steps = {}
    for (mode, _, k), (r, lines) in zip(jobs, res):
        last, errors = '', []
        for line in lines:
            if line.startswith('> '):
                last = line[2:]
                ck.count()
            elif line.startswith('C '):
                ck.count(int(line[2:]))
            elif line.startswith('X '):
                ck.nontrivial(line)
                ck.cov['thread switches'] = ck.cov.get('thread switches', 0) + int(line.split()[1])
            elif line.startswith('!'):
                errors.append(line)
            elif line.startswith('O '):
                name, cnt = line[2:].rsplit(' ', 1)[0], int(line.rsplit(' ', 1)[1])
                steps[name] = steps.get(name, 0) + cnt
                ck.nontrivial('%s %d' % (name, k))
        for e in errors[:4]:
            ck.violation('%s: %s' % (mode, re.sub(r'-?\d+', '#', e[2:])), '\n'.join(errors[:40]), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            if not errors:
                ck.violation('%s: %s in %s' % (mode, pyrun.report(r), last), 'last step: %s\n%s\n%s' % (last, r.stdout[-3000:], r.stderr[-4000:]), keep)
    ck.cov['steps'] = dict(sorted(steps.items()))
    ck.sample('steps by kind: %s' % ck.cov['steps'])
    # an object as its own argument: known to lock itself out
    probes = [(k, f) for k in ('Foo', 'Mx', 'Am') for f in ('same',)] + [('RegFoo', 'same'), ('RegMx', 'swap')]

    def probe(kf):
        k, f = kf
        r, lines = p.run(script, ['probe', 1, 1, k, f], timeout=15, log='probe-%s-%s' % kf)
        return kf, r, lines
    for kf, r, lines in vlib.pmap(probe, probes):
        ck.count()
        if r.returncode != 0:
            ck.violation('%s.%s with one object twice: %s' % (kf[0], kf[1], 'never returns' if 'timeout' in str(r.returncode) else pyrun.report(r)),
                         r.stdout[-2000:] + r.stderr[-2000:], keep)
    p.cleanup()


if __name__ == '__main__':
    vlib.main('P02', check)
