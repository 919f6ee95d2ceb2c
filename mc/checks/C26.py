"""A compiled template run as a script: all short command lines, in-process on the real interface and as a real process."""
import contextlib
import io
import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one command line for one template; states are the stacks of namespaces after every option, transitions are options; every command line is run on the real interface, those of up to 1 option '
        'also as a process of its own')
BOUNDS = {'quick': {'options': 'all sequences of up to 3 of 17 spellings', 'templates': 4, 'process runs': 'all command lines of up to 1 option'},
          'thorough': {'options': 'all sequences of up to 4 of 17 spellings', 'templates': 4, 'process runs': 'all command lines of up to 2 options'}}
ASSUMPTIONS = ['the files named exist, hold a dictionary and do not change; standard input is read by one option only']

DATA = {'P1': {'a': 'p1a', 'b': 'p1b'}, 'P2': {'b': 'p2b', 'c': ['p2c']}, 'J1': {'a': 'j1a', 'c': 3}, 'J2': {'d': {'k': 'j2k'}, 'b': 'ж'}, 'E': {'a': 'env-a', 'd': 'env-d'}, 'IP': {'a': 'ipa', 'x': 'ipx'}, 'IJ': {'c': 'ijc', 'x': 'ijx'}}
# words, what it does
OPTS = [(['--env'], 'E'), (['--pickle', 'P1'], 'P1'), (['--pickle=P1'], 'P1'), (['--pickle', 'P2'], 'P2'), (['--pick=P2'], 'P2'), (['--json', 'J1'], 'J1'), (['--json=J1'], 'J1'), (['--json', 'J2'], 'J2'), (['--js', 'J2'], 'J2'),
        (['--pickle', '-'], 'IP'), (['--json=-'], 'IJ'), (['--json', '-'], 'IJ'), (['-h'], 'help'), (['--help'], 'help'), (['--nonsense'], 'bad'), (['-x'], 'bad'), (['--e'], 'E')]
TEMPLATES = [
    ('plain', "$getVar('a', '-') $getVar('b', '-') $getVar('c', '-') $getVar('d', '-') $getVar('x', '-')", {}),
    ('attrs', "#attr $a = 'A'\n#attr $b = 'B'\n$a $b $getVar('c', '-') $getVar('d', '-') $getVar('x', '-')\n", {'a': 'A', 'b': 'B'}),
    ('method', "#def b\nM#slurp\n#end def\n$getVar('a', '-') $b $getVar('c', '-') $getVar('d', '-') $getVar('x', '-')\n", {'b': 'M'}),
    ('loop', "#for $i in (1, 2)\n$getVar('a', '-') $getVar('b', '-')\n#end for\n$getVar('c', '-') $getVar('d', '-') $getVar('x', '-')", {}),
]
WORK = None
CLASSES = {}


def init(mode, tier):
    pass


def enum(tier, mode):
    n = 3 if tier == 'quick' else 4
    for k in range(n + 1):
        for seq in itertools.product(range(len(OPTS)), repeat=k):
            if sum(OPTS[i][1] in ('IP', 'IJ') for i in seq) > 1:
                continue
            for t in range(len(TEMPLATES)):
                if k > 2 and t != sum(seq) % len(TEMPLATES):
                    continue
                yield ['line', t, list(seq)]
                if k <= (1 if tier == 'quick' else 2) and t < 2:
                    yield ['process', t, list(seq)]


def work():
    global WORK
    if WORK is None or WORK[0] != os.getpid():
        d = tempfile.mkdtemp(prefix='c26')
        for n in ('P1', 'P2'):
            with open(os.path.join(d, n), 'wb') as f:
                pickle.dump(DATA[n], f)
        for n in ('J1', 'J2'):
            with open(os.path.join(d, n), 'w') as f:
                json.dump(DATA[n], f)
        WORK = (os.getpid(), d)
        import atexit
        import shutil
        atexit.register(shutil.rmtree, d, True)
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(d, True), exitpriority=10)
    return WORK[1]


def model(case, ctx):
    """(exit code, output or None for the usage text)"""
    _, t, seq = case
    name, src, own = TEMPLATES[t]
    if any(OPTS[i][1] == 'bad' for i in seq):
        return 2, None
    stack = []
    for i in seq:
        what = OPTS[i][1]
        ctx.trans()
        if what == 'help':
            return 0, None
        stack.insert(0, what)
        ctx.state(name, tuple(stack))
    spaces = [DATA[s] for s in stack] + [own]

    def get(n):
        for s in spaces:
            if n in s:
                return str(s[n])
        return '-'
    a, b, c, d, x = (get(n) for n in 'abcdx')
    if name == 'loop':
        return 0, ('%s %s\n' % (a, b)) * 2 + '%s %s %s' % (c, d, x) + '\n'
    return 0, '%s %s %s %s %s' % (a, b, c, d, x) + ('\n' if src.endswith('\n') else '') + '\n'


def check(case, ctx):
    from Cheetah.Template import Template
    from Cheetah.TemplateCmdLineIface import CmdLineIface
    ctx.evals += 1
    kind, t, seq = case
    d = work()
    code, want = model(case, ctx)
    words = [w for i in seq for w in OPTS[i][0]]
    stdin = b''
    for i in seq:
        if OPTS[i][1] == 'IP':
            stdin = pickle.dumps(DATA['IP'])
        elif OPTS[i][1] == 'IJ':
            stdin = json.dumps(DATA['IJ']).encode()
    argv = [w.replace('P1', d + '/P1').replace('P2', d + '/P2').replace('J1', d + '/J1').replace('J2', d + '/J2') for w in words]
    if t not in CLASSES:
        CLASSES[t] = Template.compile(TEMPLATES[t][1], useCache=False)
    if kind == 'line':
        out = io.StringIO()
        old = sys.stdin, dict(os.environ)
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), 'utf-8')
        for k in list('abcdx'):
            os.environ.pop(k, None)
        os.environ.update(DATA['E'])
        try:
            with contextlib.redirect_stdout(out):
                try:
                    CmdLineIface(CLASSES[t](), scriptName='script', cmdLineArgs=argv).run()
                    rc = 0
                except SystemExit as e:
                    rc = e.code or 0
                except Exception as e:
                    rc = '%s: %s' % (type(e).__name__, e)
        finally:
            sys.stdin = old[0]
            os.environ.clear()
            os.environ.update(old[1])
        got = out.getvalue()
        # a template made afterwards sees nothing of it
        again = str(CLASSES[t]())
        fresh = model(['line', t, []], ctx)[1]
        if again + '\n' != fresh:
            ctx.fail('leak', 'after the command line %r another instance of template %r renders %r' % (words, TEMPLATES[t][1], again))
    else:
        path = os.path.join(d, 'script%d.py' % t)
        if not os.path.exists(path):
            code_ = Template.compile(TEMPLATES[t][1], moduleName='script%d' % t, className='script%d' % t, returnAClass=False, useCache=False)
            with open(path, 'wb') as f:
                f.write(code_ if isinstance(code_, bytes) else code_.encode('utf-8'))
        env = {k: v for k, v in os.environ.items() if k not in 'abcdx'}
        env.update(DATA['E'], PYTHONPATH=os.environ.get('MC_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1', PYTHONIOENCODING='utf-8')
        p = subprocess.run([sys.executable, path] + argv, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=d)
        rc, got = p.returncode, p.stdout.decode('utf-8')
    ctx.outcome('%s %s%s' % (kind, rc if isinstance(rc, int) else 'error', ' usage' if want is None else ''))
    if rc != code or (want is not None and got != want) or (want is None and 'Usage' not in got):
        ctx.fail(kind, 'template %r run with %r gives exit %r, output %r; expected exit %r, output %r' % (TEMPLATES[t][1], words, rc, got[:200], code, want or '(usage)'))
