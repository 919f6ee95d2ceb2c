#!/opt/venv/bin/python
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique=None, level='model_checking',
      note='', state=None, observe=None, na=None):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    PROPS.append(({'id': id, 'title': title, 'statement': statement,
                   'quantifier': {'over': over, 'text': qtext},
                   'why_tests_cant': why, 'anchors': a},
                  {'technique': technique, 'level': level, 'level_note': note, 'na': na}))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in PROPS:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p, m in PROPS:
    built = os.path.exists(os.path.join(HERE, 'mc', 'checks', p['id'] + '.py'))
    if m['na'] or not built:
        na.append({'property': p['id'], 'reason': m['na'] or 'its exploration is not built yet'})
        continue
    cmd = '/opt/venv/bin/python run.py %s %%s' % p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd % 'quick', 'thorough_cmd': cmd % 'thorough',
                   'technique': m['technique'], 'level': m['level'], 'level_note': m['level_note']})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks,
               'not_applicable': na,
               'notes': 'No hooks in /repo are needed: every check drives the public API of the working tree.'},
              f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

# ---------------------------------------------------------------- DESIGN.md
import ast
import glob


def consts(pid):
    out = {}
    t = ast.parse(open(os.path.join(HERE, 'mc', 'checks', pid + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) in ('RULE', 'BOUNDS', 'MODES', 'ASSUMPTIONS'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


parts = ['## Properties and how each is decided\n']
for p, m in PROPS:
    built = os.path.exists(os.path.join(HERE, 'mc', 'checks', p['id'] + '.py'))
    parts.append('### %s  %s\n' % (p['id'], p['title']))
    parts.append(p['statement'] + '\n')
    if m['na'] or not built:
        parts.append('Not claimed: %s.\n' % (m['na'] or 'its exploration is not built yet'))
        continue
    c = consts(p['id'])
    parts.append('* Method: %s.' % m['technique'])
    parts.append('* Quantified over: %s.' % p['quantifier']['text'])
    if 'RULE' in c:
        parts.append('* What is run and counted: %s.' % c['RULE'])
    if 'BOUNDS' in c:
        for t in ('quick', 'thorough'):
            parts.append('* Bounds, %s: %s.' % (t, '; '.join('%s: %s' % kv for kv in c['BOUNDS'][t].items())))
    for x in c.get('ASSUMPTIONS', []):
        parts.append('* Assumes: %s' % x)
    parts.append('* Why tests cannot settle it: %s' % p['why_tests_cant'])
    parts.append('* Strength: %s\n' % m['level_note'])
kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
fixes = ['* ' + x for x in kf['fixed']]
if kf['known']:
    fixes += ['', 'Recorded, not repaired (each is reported as KNOWN-FINDING):', '']
    fixes += ['* %s %s: %s' % (k['property'], k['key'], k['what']) for k in kf['known']]
res = {}
rp = os.path.join(HERE, 'tools', 'seed_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
rows = ['| planted bug | property | caught by (quick) | what it breaks | needs |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s | %s |' % (i, m['property'], ', '.join(sorted(c for c, v in res.get(i, {}).items() if v)) or '-',
                                              m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
t = t.replace('@@PROPS@@', '\n'.join(parts)).replace('@@FIXES@@', '\n'.join(fixes)).replace('@@SEEDS@@', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)
