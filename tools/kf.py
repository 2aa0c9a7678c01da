"""python3 tools/kf.py add '<json>' : append an entry to known_findings.json (used by hand only)."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
for a in sys.argv[1:]:
    k.append(json.loads(a))
with open(p, 'w') as f:
    f.write('[\n' + ',\n'.join(' ' + json.dumps(x) for x in k) + '\n]\n')
