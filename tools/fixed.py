#!/opt/venv/bin/python
"""fixed.py PROP [what]: record /repo's HEAD commit as the repair of a defect (development tool)."""
import json
import os
import subprocess
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
rev = sys.argv[2] if len(sys.argv) > 2 else 'HEAD'
h, s = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', rev], text=True).strip().split(' ', 1)
assert s.startswith('fix: ')
e = 'fixed: property=%s %s %s' % (sys.argv[1], h, s[5:])
if e not in d['fixed']:
    d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1)
print(e)
