"""Writes /verif/MANIFEST.json from the check modules."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C04': 'exhaustive enumeration of truncation points, field corruptions and chunk orders against the real loaders',
 'C05': 'exhaustive enumeration of write-fault points (device refuses byte n, for every n) on the real writers',
 'C11': 'stateless model checking of the real code: all query histories to a depth and all two-thread schedules to a preemption bound',
 'C17': 'explicit-state exploration of all conversion chains to a depth on the real commands, with independent decoders',
 'C21': 'explicit-state exploration of all load/modify/write/replace histories to a depth on the real code, plus fault enumeration for open files',
}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    src = open(os.path.join(V, 'checks', p.lower() + '.py')).read()
    ns = {}
    level = re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)
    ass = eval(re.search(r'^ASSUMPTIONS = (\[.*?\])\n', src, re.S | re.M).group(1), ns)
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique=TECH.get(p, 'exhaustive bounded exploration (explicit-state model checking) of the real code against a reference model'),
        level=level,
        level_note='Every case within the stated bounds (see "suites" in the evidence file and DESIGN.md) is executed on the code '
                   'built from the working tree and compared with an independent reference; nothing is claimed beyond the bounds. Assumes: ' + '; '.join(ass) + '.'))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
    notes='No hooks in /repo. check.py <id> --replay <file> re-runs one recorded case.'),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
