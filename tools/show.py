"""Prints a replay file compactly."""
import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    s = d['spec']
    m = s.pop('model', None) if isinstance(s, dict) else None
    print(json.dumps(s))
    if m:
        for c in m['comps']:
            print('  ', json.dumps(c))
        print('  ', json.dumps(m['tree']), m.get('gain'))
    print(d.get('message', d.get('what')))
