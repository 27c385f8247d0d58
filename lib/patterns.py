"""User typemaps of the kinds the documentation shows for C++ (C structures, C functions, futures, indexed access)."""
import os
import re

import cppgen
import cpprun
import vlib

# the text of the C structure of a future is made from the intermediate type of its value
STD = '''#include <optional>
#include <variant>
#define VH_OPT std::optional
#define VH_GET std::get_if
'''
BOOST = '''#include <boost/optional.hpp>
#include <boost/variant.hpp>
#define VH_OPT boost::optional
#define VH_GET boost::get
'''


def glue(ck, p, tag):
    t = open(os.path.join(cpprun.H, 'cpp', 'patterns.rs.in')).read()
    vlib.write(p.glue_in, t.replace('SEND_IMPLS', ''))
    ok, msg, err = vlib.vgen(p.job())
    if not ok:
        ck.violation('%s: rules of the documented kinds are rejected' % tag, msg + err, [p.glue_in])
        return False
    # as the documentation says, the user declares that his structure may be sent to another thread
    names = sorted(set(re.findall(r'struct\s+(CFnOnce\w+)', open(p.glue_rs).read())))
    ck.cov['future_structures'] = len(names)
    with open(p.glue_rs, 'a') as f:
        f.write('\n' + '\n'.join('unsafe impl Send for %s {}' % n for n in names))
    return True


def run(ck, boost, runs, n):
    tag = 'patterns ' + ('boost' if boost else 'std17')
    p = cpprun.Prog('g07', tag.replace(' ', '_'))
    p.boost = boost
    keep = [p.glue_in, p.gen, p.glue_rs]
    if not glue(ck, p, tag):
        return
    src = p.dir + '/main.cpp'
    vlib.write(src, '%s\n%s\n#include "vh.hpp"\n#include <map>\n#include <set>\n#include <vector>\n#include "patterns.cpp"\n' % (p.prelude(), BOOST if boost else STD))
    exe = cpprun.build_all(ck, p, tag, cppgen.LIB_RS % dict(common=os.path.join(cpprun.H, 'common'), glue=p.glue_rs), [src], keep)
    if not exe:
        return
    for k, (r, lines) in enumerate(vlib.pmap(lambda k: p.run(exe, [vlib.seed() * 100 + k, n], log='log%d' % k, timeout=300), range(runs))):
        where = 'arguments %d %d' % (vlib.seed() * 100 + k, n)
        for e in [x[2:] for x in lines if x.startswith('! ')][:5]:
            ck.violation('%s: %s' % (tag, e.split(': got')[0]), '%s\nreplay: program built from the kept glue, %s' % (e, where), keep + [src])
        if r.returncode != 0 or not lines or lines[-1] != 'END':
            ck.violation('%s: %s' % (tag, cpprun.sanitizer_report(r)), '%s\n%s' % (where, r.stderr[-5000:]), keep + [src])
        for x in lines:
            if x.startswith('OPS '):
                _, c, op = x.split(' ', 2)
                ck.count(int(c))
                d = ck.cov.setdefault('pattern_operations', {})
                d[op] = d.get(op, 0) + int(c)
                ck.nontrivial('%s %s' % (tag, op))
    p.cleanup()
