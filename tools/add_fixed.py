"""add_fixed.py PROPERTY COMMIT TEXT: append a fixed entry."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
d['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
with open(p, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
