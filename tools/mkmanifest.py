"""Writes MANIFEST.json (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('paired call/callee event log oracle on randomly generated interfaces, ASan+UBSan on both sides, allocation monitor',
         'runtime monitoring of generated programs: every call logs what caller and callee saw; decided by comparing them'),
 'C02': ('model-based operation sequences on the container types, ASan+UBSan, drop ledger',
         'every operation is followed by a comparison with a model sequence'),
 'C03': ('drop ledger and owner-count model over random ownership histories, ASan+UBSan, allocation layout and leak monitor',
         'every operation is followed by a check of the ledger against the owner model'),
 'C04': ('TSan stress with conservation and exclusion monitors, ASan histories over shared handles with an owner-count model',
         'schedules are sampled by stress and injected delays, not enumerated'),
 'C05': ('paired event log of callback calls with random signatures, threads and drop points, ASan+UBSan and TSan',
         'every callback call logs what Rust passed and what C++ received, and the reverse for results'),
 'J01': ('paired call/callee event log oracle on randomly generated interfaces in a JVM with -Xcheck:jni', ''),
 'J02': ('exception-state monitor over random failing and succeeding call histories in a JVM with -Xcheck:jni', ''),
 'J03': ('drop ledger under random ownership histories with forced and concurrent GC, -Xcheck:jni', ''),
 'J04': ('paired event log of callback calls from many threads, reachability monitor, -Xcheck:jni', ''),
 'P01': ('paired call/callee event log oracle on randomly generated Python modules, hostile values', ''),
 'P02': ('drop ledger, reference-count and conservation monitors over random histories and threads', ''),
 'G01': ('differential runs of the generator under perturbed environment, comparing all output bytes', ''),
 'G02': ('file-system event and content monitor over random regeneration histories', ''),
 'G03': ('token-level monitor of pass-through of random Rust items', ''),
 'G04': ('API reflection monitor: random declarations compared with what the target compilers see', ''),
 'G05': ('diagnostics monitor over mutated interfaces: no output, located error, no crash', ''),
 'G06': ('exactly-once monitor of attribute callbacks over random interfaces', ''),
 'G07': ('event monitor of which conversion ran, over random user typemaps', ''),
}
checks = []
NA = []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)['id']
    f = 'checks/%s.py' % p.lower()
    if os.path.exists(V + '/' + f):
        t, n = T[p]
        checks.append(dict(property=p, quick_cmd='VERIF_TIER=quick python3 ' + f, thorough_cmd='VERIF_TIER=thorough python3 ' + f,
                           technique=t, level='exploration',
                           level_note=n or 'oracle over executions of randomly generated inputs and histories; reach is by sampling'))
    else:
        NA.append(dict(property=p, reason='no check has been built for it yet'))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=NA)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'missing')
