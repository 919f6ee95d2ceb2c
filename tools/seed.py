#!/opt/venv/bin/python
"""Planting bugs (development tool, used by no check).

seed.py make SPEC.py     SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new[, nth])], demo, needs, breaks)]
seed.py verify ID...     in a scratch copy of /repo: apply, build, stable tests, demo with and without
seed.py catch ID... [--tier T] [--all]
                         run the property's check (or every check) against the patched copy
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PRE = ('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n')
SH = ('#!/bin/bash\nd="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONHASHSEED=0 LC_ALL=C.UTF-8\n'
      'exec timeout -k 5 200 /opt/venv/bin/python "$d/demo.py"\n')


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(d):
    r = os.path.join(d, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', r])
    subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
    return r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns['SEEDS']:
        with tempfile.TemporaryDirectory() as d:
            r = copy(d)
            for e in s['edits']:
                f, old, new = e[:3]
                nth = e[3] if len(e) > 3 else None
                p = os.path.join(r, f)
                t = open(p).read()
                n = t.count(old)
                if nth is None:
                    assert n == 1, (s['id'], f, 'count', n)
                    nth = 0
                parts = t.split(old)
                t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
                open(p, 'w').write(t)
            diff = sh(['git', '-C', r, 'diff']).stdout
        o = os.path.join(SEEDED, s['id'])
        os.makedirs(o, exist_ok=True)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        open(os.path.join(o, 'demo.py'), 'w').write(PRE + s['demo'])
        open(os.path.join(o, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(o, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])
    return [s['id'] for s in ns['SEEDS']]


def verify(i):
    with tempfile.TemporaryDirectory() as d:
        r = copy(d)
        vp = os.path.join(d, 'vp')
        shutil.copytree('/opt/vp', vp)
        for f in os.listdir(vp):
            p = os.path.join(vp, f)
            t = open(p).read().replace('/opt/vp', vp).replace('/repo', r)
            open(p, 'w').write(t)
        demo = os.path.join(d, 'demo')
        shutil.copytree(os.path.join(SEEDED, i), demo)
        b = sh(['bash', vp + '/build.sh'])
        if b.returncode:
            return i, 'BUILD on clean failed ' + b.stderr[-300:]
        a = sh(['bash', demo + '/demo.sh'], cwd=r)
        if a.returncode != 0:
            return i, 'DEMO fails on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        ap = sh(['git', '-C', r, 'apply', os.path.join(SEEDED, i, 'patch.diff')])
        if ap.returncode:
            return i, 'patch does not apply ' + ap.stderr
        b = sh(['bash', vp + '/build.sh'])
        if b.returncode:
            return i, 'BUILD failed ' + b.stderr[-300:]
        a = sh(['bash', demo + '/demo.sh'], cwd=r)
        if a.returncode == 0:
            return i, 'DEMO passes with the patch'
        t = sh(['bash', vp + '/test.sh', d + '/o.json'])
        o = json.load(open(d + '/o.json'))
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed', []) or [])
        failed = list(o['failed'])
        if failed:
            return i, 'TESTS fail: %d %s' % (len(failed), failed[:3])
        return i, 'ok (%d passed); demo said: %s' % (len(o['passed']), (a.stdout + a.stderr).strip()[-150:])


def catch(i, tier, which):
    meta = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
    with tempfile.TemporaryDirectory() as d:
        os.chmod(d, 0o755)      # some checks run the code as another user
        r = copy(d)
        subprocess.check_call(['git', '-C', r, 'apply', os.path.join(SEEDED, i, 'patch.diff')])
        for c in which or [meta['property']]:
            o = sh(['/opt/venv/bin/python', os.path.join(HERE, 'run.py'), c, tier],
                   env=dict(os.environ, MC_REPO=r), cwd=HERE)
            lines = (o.stdout + o.stderr).strip().split('\n')
            hit = o.returncode == 1 and any(x.startswith('VIOLATION property=' + c) for x in lines)
            rp = os.path.join(HERE, 'tools', 'seed_results.json')
            res = json.load(open(rp)) if os.path.exists(rp) else {}
            res.setdefault(i, {})[c] = hit
            json.dump(res, open(rp, 'w'), indent=0, sort_keys=True)
            print('%-28s %s %s %s' % (i, c, 'CAUGHT' if hit else 'rc %d' % o.returncode,
                                      lines[0][:60] + ' | ' + ' '.join(x.strip()[:140] for x in lines[1:3]) if hit else ''), flush=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for spec in args:
            make(spec)
    elif cmd == 'verify':
        ids = args or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(verify, ids):
                print('%-28s %s' % (i, m), flush=True)
    elif cmd == 'catch':
        tier = 'quick'
        which = None
        ids = []
        it = iter(args)
        for a in it:
            if a == '--tier':
                tier = next(it)
            elif a == '--checks':
                which = next(it).split(',')
            else:
                ids.append(a)
        for i in ids or sorted(os.listdir(SEEDED)):
            catch(i, tier, which)
