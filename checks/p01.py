"""P01: values and errors cross the Python boundary unchanged."""
import json
import os
import random
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import cpprun
import pygen
import pyrun
import vlib


def make(name, seed, module, n):
    p = pyrun.PProg('p01', name, module=module)
    r = random.Random(seed)
    glue = [open(os.path.join(pyrun.H, 'py', 'objs.rs')).read()]
    p.classes = []
    for k, store in enumerate(['T', 'ArcMutex', 'Mutex', 'Arc', 'Box']):
        c = pygen.Class(r, r.choice(['Vt%d', 'V_t%d', 'VT%d', 'Vt%dName']) % k, store, n, 1000 * k)
        p.classes.append(c)
        glue.append(c.glue())
    vlib.write(p.glue_in, '\n'.join(glue))
    p.desc = os.path.join(p.dir, 'desc.json')
    vlib.write(p.desc, json.dumps([c.desc() for c in p.classes]))
    return p


def evaluate(ck, p, tag, runs, rounds):
    keep = [p.glue_in, p.glue_rs, p.desc]
    if not p.build(ck, tag, keep):
        return
    sig = {str(m.id): '%s.%s' % (c.name, m) for c in p.classes for m in c.ms + [c.ctor, c.rep]}
    script = os.path.join(pyrun.H, 'py', 'p01.py')
    res = vlib.pmap(lambda k: p.run(script, [p.desc, vlib.seed() * 100 + k, rounds], timeout=400, log='log%d' % k), range(runs))
    for r, lines in res:
        pr = cpprun.Pairing()
        last, hostile = None, None
        for line in lines:
            if line[:2] in ('> ', 'H '):
                last = line
            if line.startswith('H '):
                hostile = line[2:]
            elif line.startswith('h '):
                hostile = None
                ck.count()
                ck.cov['refused'] = ck.cov.get('refused', 0) + 1
                ck.nontrivial('refused ' + line)
            elif line.startswith('] ') and hostile is not None:
                pr.err(hostile, 'a call with an argument that the type does not have reached Rust: ' + line)
                hostile = None
                pr.stack = []
                continue
            elif line.startswith('[ ') and not pr.stack:
                continue
            elif line.startswith('!'):
                m = re.search(r'method (\d+)', line)
                hostile = None
                pr.err(m.group(1) if m else 'ledger', line)
                continue
            done = pr.feed(line)
            if done:
                mid = line[2:].partition(' ')[0]
                ck.nontrivial(sig[mid] + ' ' + done[0] + ' -> ' + done[1])
                if pr.calls % 997 == 5:
                    ck.sample('%s: %s -> %s' % (sig[mid], done[0][:150], done[1][:150]))
        ck.count(pr.calls)
        for mid, s in pr.errors[:8]:
            ck.violation('%s: %s' % (tag, sig.get(mid, mid + ' ' + re.sub(r'\d+', '#', s))), '%s\n%s' % (sig.get(mid, mid), s), keep)
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            mid = last[2:].split(' ')[0] if last else ''
            ck.violation('%s: %s in %s' % (tag, pyrun.report(r), sig.get(mid, mid)), 'last call: %s\n%s\n%s' % (last, r.stdout[-3000:], r.stderr[-4000:]), keep)
    ck.cov['signatures'] = ck.cov.get('signatures', 0) + len(sig)


def check(ck):
    ck.cov['rule'] = ('one evaluation is one call Python -> Rust of a randomly generated signature with random boundary-heavy '
                      'arguments, or one refused call with an argument the Rust type does not have; distinct = distinct (signature, values, results)')
    th = vlib.tier() == 'thorough'
    confs = [('vmod', 24), ('v_Mod2', 24)] * (2 if not th else 10)
    progs = [make('p%d' % i, vlib.seed() * 1000 + i, *c) for i, c in enumerate(confs)]
    res = vlib.vgen_jobs([p.job() for p in progs])

    def one(i):
        p, (ok, msg, err) = progs[i], res[i]
        tag = 'config %d' % (i % 2)
        if not ok:
            ck.violation('%s: generator rejects a supported interface' % tag, msg + '\n' + err, [p.glue_in])
            return
        evaluate(ck, p, tag, 4 if not th else 8, 60 if not th else 300)
        p.cleanup()
    vlib.pmap(one, range(len(progs)), 2)


if __name__ == '__main__':
    vlib.main('P01', check)
