"""addfix.py PROPERTY COMMIT WHAT: records a repaired defect."""
import json, os, sys
p = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
d = json.load(open(p))
line = 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])
if line not in d['fixed']:
    d['fixed'].append(line)
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
