"""Writes MANIFEST.json from the property list and the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')) and pid in NOTE:
        checks.append(dict(property=pid, quick_cmd='./run_check.sh %s' % pid,
                           thorough_cmd='./run_check.sh %s --tier thorough' % pid,
                           technique=NOTE[pid][0], level='exploration', level_note=NOTE[pid][1]))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Known findings and repaired defects: known_findings.json. No hooks are needed in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
