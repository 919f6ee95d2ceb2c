"""Importing templates: all short histories of writing, replacing, deleting, importing and forgetting a template and its compiled forms, all torn writes, and the shapes of import statements."""
import fcntl
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile

LEVEL = 'fault_enumeration'
MODES = ['c']
RULE = ('one case = one history of file operations and imports, one write cut short at one length, or one import statement in one directory layout; the real hooks run in a forked process in a scratch '
        'directory; states are the distinct (files, loaded module) states of the model reached, transitions are its steps')
BOUNDS = {'quick': {'histories': 'length 5 over 13 operations and 2 ways of loading, ending with a load', 'torn writes': 'at every 97th byte, failing and killing the process', 'layouts': '11 x 25 statements', 'similar file names': 'every pair of 18 files x 4 names', 'extensions': '15 lists x 16 sets of files', 'cache directory': 'histories of 3 over 7 operations'},
          'thorough': {'histories': 'length 6', 'torn writes': 'at every 7th byte', 'layouts': 'the same, all pairs of statements'}}
ASSUMPTIONS = ['imports from one thread', 'a source replaced by one of the same size within the same second cannot be told from it (as in Python itself)', 'packages are directories with an __init__.py',
               'relative imports of one level']

# ---------------------------------------------------------------- histories
# t1 t2  write the template;  tb: one that fails when executed;  ts: one that does not compile
# p1 p2  write a module;      pb: one that fails when executed
# T P C  delete the template, the module, the byte code
# tick   a second passes;     back: the module is set back to an old version with its old time
# I      import;   F: forget the imported module;   L: loadTemplateModule;   N: a new process
OPS = ['t1', 't2', 'tb', 'ts', 'p1', 'p2', 'pb', 'T', 'P', 'C', 'back', 'N', 'F']
LOADS = ['I', 'L']
TEXT = {'t1': 'one $(1+1)\n', 't2': 'second $(1+1)\n', 'tb': '#import nothing_of_that_name\nx\n', 'ts': '#if\n'}
VALUE = {'t1': 'one 2\n', 't2': 'second 2\n'}
MODS = {'p1': 'class a(object):\n    def __str__(self): return "mod1"\n',
        'p2': 'class a(object):\n    def __str__(self): return "mod22"\n',
        'p0': 'class a(object):\n    def __str__(self): return "mod0"\n',
        'pb': 'import nothing_of_that_name\n'}
VALUE.update(p1='mod1', p2='mod22', p0='mod0')


def histories(n):
    """all histories with a load at the end and nothing that does nothing"""
    def go(prefix, files, loaded, left):
        # files: (template, module, byte code) present or not, as far as needed to cut useless steps
        for op in OPS + LOADS:
            t, p, c = files
            last = prefix[-1] if prefix else None
            if op == 'T' and not t or op == 'P' and not p or op == 'C' and not c or op == 'F' and not loaded or op == last and op not in LOADS:
                continue
            if op == 'N' and (not prefix or last in ('N', 'F')):
                continue
            if op[0] == 't' and last and last[0] == 't' or op[0] in 'p' and last and last[0] == 'p' or op in ('back',) and last in ('p1', 'p2', 'pb', 'back'):
                continue  # overwritten before anything read it
            if op == 'F' and last == 'N':
                continue
            nf = {'t': (1, p, c), 'p': (t, 1, c), 'b': (t, 1, c), 'T': (0, p, c), 'P': (t, 0, c), 'C': (t, p, 0)}.get(op[0], files)
            nl = loaded
            if op in LOADS:
                if not (t or p or c) and prefix and last != 'T':
                    continue
                nf = (t, 1 if t or p else p, 1 if t or p or c else c)
                nl = 1
            elif op in ('F', 'N'):
                nl = 0
            h = prefix + [op]
            if op in LOADS:
                yield h
            if left > 1:
                for x in go(h, nf, nl, left - 1):
                    yield x
    return go([], (0, 0, 0), 0, n)


def enum(tier, mode):
    n = 5 if tier == 'quick' else 6
    batch = []
    for h in histories(n):
        if len(h) < n and len(h) > 1 and len(h) != n:
            continue
        batch.append(h)
        if len(batch) == 40:
            yield ['hist', batch]
            batch = []
    if batch:
        yield ['hist', batch]
    step = 97 if tier == 'quick' else 7
    for size in range(0, 4200, step):
        for how in ('error', 'kill'):
            for what in ('tmpl', 'py'):
                yield ['torn', size, how, what]
    for size in range(0, 400, 13 if tier == 'quick' else 3):
        for with_py in (0, 1):
            yield ['pyc', size, with_py]
    sts = STATEMENTS
    for layout in sorted(LAYOUTS):
        for i in range(len(sts)):
            yield ['layout', layout, [i]]
        if tier == 'thorough':
            for i, j in itertools.permutations(range(len(sts)), 2):
                yield ['layout', layout, [i, j]]
    for n in range(1, 5 if tier == 'quick' else 7):
        for seq in itertools.product(('install', 'uninstall', 'import', 'stdlib', 'missing'), repeat=n):
            yield ['onoff', list(seq)]
    for i in range(len(PLAIN)):
        yield ['plain', i]
    for n in range(1, 3 if tier == 'quick' else 4):
        for fs in itertools.combinations(range(len(NEAR)), n):
            yield ['near', list(fs)]
    for n in (1, 2, 3):
        for exts in itertools.permutations(EXTS, n):
            for k in range(5):
                for fs in itertools.combinations(EXTS + ['.py'], k):
                    yield ['exts', list(exts), list(fs)]
    for n in range(1, 4 if tier == 'quick' else 6):
        for seq in itertools.product(CDIR, repeat=n):
            if seq[-1][0] == 'I':
                yield ['cdir', list(seq)]


# ---------------------------------------------------------------- running in a child
def child(fn, *args, **kw):
    """The value of fn(*args) in a forked process, or how it ended."""
    limit = kw.pop('limit', None)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            w = fcntl.fcntl(w, fcntl.F_DUPFD, 10)
            null = fcntl.fcntl(os.open(os.devnull, os.O_RDWR), fcntl.F_DUPFD, 10)
            os.dup2(null, 1)
            os.dup2(null, 2)
            sys.dont_write_bytecode = False
            if limit:
                size, how = limit
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if how == 'error' else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (size, size))
            try:
                val = ('ok', fn(*args))
            except Exception as e:
                val = ('exc', type(e).__name__, str(e)[-200:])
            os.write(w, pickle.dumps(val))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        data += x
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('dead',)


class Files:
    """The real files, with explicit times."""

    def __init__(self, root):
        self.root = root
        self.now = 1500000000

    def path(self, n):
        return os.path.join(self.root, n)

    def write(self, n, text, t=None):
        with open(self.path(n), 'w') as f:
            f.write(text)
        t = self.now if t is None else t
        os.utime(self.path(n), (t, t))

    def remove(self, n):
        if os.path.exists(self.path(n)):
            os.remove(self.path(n))


def pyc(root, name='a'):
    from importlib.util import cache_from_source
    return cache_from_source(os.path.join(root, name + '.py'))


def load(op, root):
    """('value', text) or ('failed', exception)"""
    try:
        if op == 'I':
            ns = {'__name__': 'c22_user'}
            exec('import a', ns)
            mod = ns['a']
        else:
            from Cheetah.LoadTemplate import loadTemplateModule
            mod = loadTemplateModule(os.path.join(root, 'a'))
        if mod is not sys.modules.get('a'):
            return ('failed', 'not the module in sys.modules')
        if mod.__name__ != 'a':
            return ('failed', 'name %s' % mod.__name__)
        return ('value', str(mod.a()))
    except ImportError as e:
        return ('failed', 'ImportError')
    except Exception as e:
        return ('failed', type(e).__name__)


def play(root, h, start):
    """Play a part of a history in this process; the results of the loads."""
    from Cheetah import ImportHooks
    ImportHooks.install()
    if root not in sys.path:
        sys.path.insert(0, root)
    files = Files(root)
    files.now += start
    res = []
    for op in h:
        if op in LOADS:
            old = sys.modules.get('a')
            got = load(op, root)
            if got[0] == 'failed' and sys.modules.get('a') is not old:
                got = ('failed', 'and left %r behind' % (sys.modules.get('a'),))
            res.append(got)
        elif op == 'F':
            sys.modules.pop('a', None)
        elif op[0] == 't':
            files.write('a.tmpl', TEXT[op])
        elif op[0] == 'p':
            files.write('a.py', MODS[op])
        elif op == 'back':
            files.write('a.py', MODS['p0'], 1400000000)
        elif op == 'T':
            files.remove('a.tmpl')
        elif op == 'P':
            files.remove('a.py')
        elif op == 'C':
            files.remove(pyc(root))
    return res


def expect(h):
    """The model: what each load gives."""
    tmpl = mod = code = loaded = None
    res, states = [], set()
    for op in h:
        if op in ('F', 'N'):
            loaded = None
        elif op[0] == 't':
            tmpl = op
        elif op[0] == 'p':
            mod = op
        elif op == 'back':
            mod = 'p0'
        elif op == 'T':
            tmpl = None
        elif op == 'P':
            mod = None
        elif op == 'C':
            code = None
        elif op in LOADS:
            if op == 'I' and loaded:
                res.append(('value', VALUE[loaded]))
                continue
            if mod:
                src = code = mod
            elif code:
                src = code
            elif tmpl == 'ts':
                src = None
            elif tmpl:
                src = mod = code = tmpl
            else:
                src = None
            if src and src[1] != 'b':
                loaded = src
                res.append(('value', VALUE[src]))
            else:
                res.append(('failed', 'ImportError'))
        states.add((tmpl, mod, code, loaded))
    return res, states


def scratch():
    return os.path.realpath(tempfile.mkdtemp(prefix='c22-'))


def history(root, h):
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    parts, cur = [], []
    for op in h:
        if op == 'N':
            parts.append(cur)
            cur = []
        else:
            cur.append(op)
    parts.append(cur)
    if len(parts) == 1:
        return play(root, h, 0)
    res = []
    for n, part in enumerate(parts):
        r = child(play, root, part, 0)
        if r[0] != 'ok':
            return r
        res += r[1]
    return res


def many(root, hs):
    out = []
    base = set(sys.modules)
    for n, h in enumerate(hs):
        sub = os.path.join(root, 'h%d' % n)
        try:
            out.append(history(sub, h))
        except Exception as e:
            out.append('harness %r' % e)
        for m in set(sys.modules) - base:
            if m in ('a', 'nothing_of_that_name'):
                sys.modules.pop(m)
        sys.path[:] = [p for p in sys.path if not p.startswith(root)]
        shutil.rmtree(sub, ignore_errors=True)
    return out


# ---------------------------------------------------------------- layouts
LAY = 'T %s $(1+1)'
LAYOUTS = {
    'flat': {'x.tmpl': LAY % 'x', 'y.tmpl': LAY % 'y'},
    'pkg': {'pk/__init__.py': 'here = 1\n', 'pk/x.tmpl': LAY % 'pk.x', 'pk/y.tmpl': LAY % 'pk.y'},
    'both': {'x.tmpl': LAY % 'x', 'pk/__init__.py': '', 'pk/x.tmpl': LAY % 'pk.x', 'y.tmpl': LAY % 'y'},
    'deep': {'pk/__init__.py': '', 'pk/sub/__init__.py': '', 'pk/sub/x.tmpl': LAY % 'pk.sub.x', 'pk/x.tmpl': LAY % 'pk.x'},
    'dirs': {'one/x.tmpl': LAY % 'one.x', 'two/x.tmpl': LAY % 'two.x', 'two/y.tmpl': LAY % 'two.y'},
    'shadow': {'x/__init__.py': 'class x(object):\n    def __str__(self): return "package"\n', 'x.tmpl': LAY % 'x', 'y.py': 'class y(object):\n    def __str__(self): return "module"\n', 'y.tmpl': LAY % 'y'},
    'extends': {'x.tmpl': '#extends y\n#implements respond\nT x [$who]', 'y.tmpl': '#def who: base\nT y'},
    'pkgextends': {'pk/__init__.py': '', 'pk/x.tmpl': '#extends pk.y\n#implements respond\nT pk.x [$who]', 'pk/y.tmpl': '#def who: base\nT pk.y'},
    'fromimport': {'x.tmpl': '#from y import y\nT x [$y()]', 'y.tmpl': 'T y', 'pk/__init__.py': 'from pk.x import x as klass\n', 'pk/x.tmpl': 'T pk.x'},
    'broken': {'x.tmpl': '#if\n', 'y.tmpl': '#import not_there_at_all\nT y', 'pk/__init__.py': '', 'pk/x.tmpl': '#if\n', 'pk/y.tmpl': '#import not_there_at_all\n'},
    'relative': {'pk/__init__.py': 'from . import x\nfrom .y import y as other\n', 'pk/x.tmpl': LAY % 'pk.x', 'pk/y.tmpl': LAY % 'pk.y', 'x.tmpl': LAY % 'x'},
}
STATEMENTS = ['import x; r = x.x', 'from x import x as r', 'import x as m; r = m.x', 'import y; r = y.y', 'import x, y; r = y.y', 'import pk.x; r = pk.x.x', 'from pk import x; r = x.x',
              'from pk.x import x as r', 'import pk.x as m; r = m.x', 'import pk; r = pk.x.x', 'import pk.y; r = pk.y.y', 'from pk import y; r = y.y', 'from pk import x, y; r = x.x', 'import pk.sub.x; r = pk.sub.x.x',
              'from pk.sub import x; r = x.x', 'from pk.sub.x import x as r', 'import pk.x, pk.sub.x; r = pk.x.x', 'import z; r = z.z', 'import pk.z; r = pk.z.z', 'from pk import z; r = z.z', 'from x import *; r = x',
              'import pk.x.x; r = pk.x.x', 'm = __import__("pk.x", {}, {}, ["x"]); r = m.x', 'm = __import__("x"); r = m.x', 'import pk; r = pk.other']


def layout_model(layout, st, seen):
    """What statement st gives, or None where it must fail. seen: submodules imported so far."""
    files = LAYOUTS[layout]

    def find(mod):
        """the text of a module, 'pkg', 'fail' or None"""
        rel = mod.replace('.', '/')
        if '.' in mod and find(mod.rsplit('.', 1)[0]) != 'pkg':
            return None
        if layout == 'dirs':
            for d in ('one/', 'two/'):
                if d + rel + '.tmpl' in files:
                    return files[d + rel + '.tmpl']
            return None
        if rel + '/__init__.py' in files:
            return 'pkg'
        if rel + '.py' in files:
            return 'mod'
        t = files.get(rel + '.tmpl')
        if t is None:
            return None
        return 'fail' if '#if' in t or 'not_there' in t else t

    def text(mod):
        t = find(mod)
        base = {'extends': 'base', 'pkgextends': 'base', 'fromimport': 'T y'}.get(layout)
        if t == 'mod':
            return 'module'
        if t == 'pkg':
            return 'package'
        if '[' in t:
            return t[t.index('T '):].split('[')[0] + '[%s]' % base
        if '#def' in t:
            return t[t.index('T '):]
        return t.replace('$(1+1)', '2')
    need = {0: ['x'], 1: ['x'], 2: ['x'], 3: ['y'], 4: ['x', 'y'], 5: ['pk.x'], 6: ['pk.x'], 7: ['pk.x'], 8: ['pk.x'], 9: ['pk'], 10: ['pk.y'], 11: ['pk.y'], 12: ['pk.x', 'pk.y'], 13: ['pk.sub.x'],
            14: ['pk.sub.x'], 15: ['pk.sub.x'], 16: ['pk.x', 'pk.sub.x'], 17: ['z'], 18: ['pk.z'], 19: ['pk.z'], 20: ['x'], 21: ['pk.x.x'], 22: ['pk.x'], 23: ['x'], 24: ['pk']}[st]
    if st == 21:
        return Ellipsis if find('pk.x') else None
    for m in need:
        if find(m) in (None, 'fail'):
            return None
        seen.add(m)
    if st == 9:
        return text('pk.x') if 'pk.x' in seen or layout == 'relative' else text('pk.x') if layout == 'fromimport' else None
    if st == 24:
        return text('pk.y') if layout == 'relative' else None
    if st == 20:
        return Ellipsis
    last = {4: 'y', 12: 'pk.x', 16: 'pk.x'}.get(st, need[-1])
    if layout == 'shadow' and last == 'x':
        return 'package'
    return text(last)


def layout_run(root, layout, sts):
    from Cheetah import ImportHooks
    sys.path[:0] = [os.path.join(root, d) for d in ('one', 'two')] if layout == 'dirs' else [root]
    ImportHooks.install()
    res = []
    for st in sts:
        ns = {'__name__': 'c22_user'}
        try:
            exec(STATEMENTS[st], ns)
            r = ns['r']
            res.append(('ok', str(r()) if callable(r) else 'not a class: %r' % (r,)))
        except ImportError as e:
            res.append(('exc', 'ImportError'))
        except Exception as e:
            res.append(('exc', type(e).__name__))
    # nothing half initialised is left
    left = [m for m in sys.modules if m.split('.')[0] in ('x', 'y', 'z', 'pk') and sys.modules[m] is None]
    return res, left


# ---------------------------------------------------------------- files whose names are nearly the one wanted
NEAR = ['Xa.tmpl', 'xa.tmpl', 'XA.tmpl', 'Xa.TMPL', 'Xa.tmpl~', 'Xa.tmpl.bak', 'Xa', 'Xa.txt', 'Xab.tmpl', 'aXa.tmpl', 'Xa .tmpl', '.Xa.tmpl', 'Xatmpl', 'Xa.html', 'Xa.tmpl.py', 'xa.py', 'X.tmpl', 'a.tmpl']
WANTED = ['Xa', 'xa', 'XA', 'Xab']


def near_run(root, names, hows):
    from Cheetah import ImportHooks
    from Cheetah.LoadTemplate import loadTemplateModule
    sys.path[:0] = [root]
    ImportHooks.install()
    res = []
    for name in names:
        for how in hows:
            try:
                sys.modules.pop(name, None)
                if how == 'I':
                    ns = {'__name__': 'c22_user'}
                    exec('import %s as m' % name, ns)
                    m = ns['m']
                else:
                    m = loadTemplateModule(os.path.join(root, name))
                res.append(('ok', str(getattr(m, name)())))
            except ImportError:
                res.append(('exc', 'ImportError'))
            except Exception as e:
                res.append(('exc', type(e).__name__ + str(e)))
    return res


def near_expect(files, name):
    if name + '.py' in files:       # a module hides the template, as documented
        return ('ok', 'module')
    if name + '.tmpl' in files:
        return ('ok', 'T ' + name)
    return ('exc', 'ImportError')


# ---------------------------------------------------------------- other file extensions, a directory for the modules
EXTS = ['.tmpl', '.html', '.t']


def exts_run(root, exts):
    from Cheetah import ImportHooks
    sys.path[:0] = [root]
    ImportHooks.install(templateFileExtensions=tuple(exts))
    res = []
    for n in range(2):
        sys.modules.pop('Xe', None)
        try:
            ns = {'__name__': 'c22_user'}
            exec('import Xe as m', ns)
            res.append(str(ns['m'].Xe()))
        except ImportError:
            res.append('ImportError')
        except Exception as e:
            res.append(type(e).__name__ + str(e))
    return res


# I1 I2: import a from the first or second directory;  Ip: import pk.a;  w1 w2 wp: write the template anew;  N: a new process
CDIR = ['I1', 'I2', 'Ip', 'w1', 'w2', 'wp', 'N']
CPLACE = {'1': 'd1', '2': 'd2', 'p': os.path.join('top', 'pk')}


def cdir_write(root, place, n):
    with open(os.path.join(root, CPLACE[place], 'a.tmpl'), 'w') as f:
        f.write('%s %d$(n)\n#attr $n = 7\n' % (place, n))


def cdir_run(root, seq, start):
    from Cheetah import ImportHooks
    ImportHooks.setCacheDir(os.path.join(root, 'cache'))
    ImportHooks.install()
    path = list(sys.path)
    res = []
    for i, op in enumerate(seq):
        if op[0] == 'w':
            cdir_write(root, op[1], start + i)
            continue
        for m in ('a', 'pk.a', 'pk'):
            sys.modules.pop(m, None)
        sys.path[:] = [os.path.join(root, {'p': 'top'}.get(op[1], CPLACE[op[1]]))] + path
        try:
            ns = {'__name__': 'c22_user'}
            exec('import pk.a; m = pk.a' if op[1] == 'p' else 'import a as m', ns)
            m = ns['m']
            res.append([str(m.a()), m.__name__, os.path.relpath(m.__orig_file__, root)])
        except Exception as e:
            res.append([type(e).__name__ + str(e)])
    return res


def cdir_model(seq):
    now = {'1': 100, '2': 100, 'p': 100}
    res = []
    for i, op in enumerate(seq):
        if op[0] == 'w':
            now[op[1]] = i
        elif op[0] == 'I':
            res.append(['%s %d7\n' % (op[1], now[op[1]]), 'pk.a' if op[1] == 'p' else 'a', os.path.join(CPLACE[op[1]], 'a.tmpl')])
    return res


def do_cdir(root, seq):
    for d in ('d1', 'd2', 'top', os.path.join('top', 'pk'), 'cache'):
        os.mkdir(os.path.join(root, d))
    open(os.path.join(root, 'top', 'pk', '__init__.py'), 'w').close()
    for k in CPLACE:
        cdir_write(root, k, 100)
    res, start = [], 0
    parts = [[]]
    for op in seq:
        if op == 'N':
            parts.append([])
        else:
            parts[-1].append(op)
    for part in parts:
        r = child(cdir_run, root, part, start)
        if r[0] != 'ok':
            return r
        res += r[1]
        start += len(part) + 1
    for k in CPLACE.values():
        left = sorted(f for f in os.listdir(os.path.join(root, k)) if f not in ('__pycache__', '__init__.py'))
        if left != ['a.tmpl']:
            return ['files in the directory of the template', left]
    return res


# ---------------------------------------------------------------- the rest
PLAIN = ['import os.path as r', 'import xml.dom.minidom; r = xml.dom.minidom.Document', 'from email.mime.text import MIMEText as r', 'import json.tool as r', 'from collections import abc as r', 'import concurrent.futures; r = concurrent.futures.Future',
         'from xml.etree.ElementTree import *; r = XML', 'import logging.handlers; r = logging.handlers.SocketHandler', 'import unicodedata; r = unicodedata.name("a")', 'import wsgiref.util as r', 'import csv, string; r = string.ascii_letters', 'from os import nothing_there',
         'import nothing_there_at_all', 'import os.nothing_there', 'import importlib.util as r', 'import colorsys; r = colorsys.rgb_to_hls(0.5, 0.25, 1)', 'import curses.ascii; r = curses.ascii.isalpha(65)', 'import encodings.rot_13 as r',
         'from encodings import punycode as r', 'import html.entities; r = len(html.entities.entitydefs)']


def plain_run(i, hooks):
    if hooks:
        from Cheetah import ImportHooks
        ImportHooks.install()
    ns = {'__name__': 'c22_user'}
    try:
        exec(PLAIN[i], ns)
    except ImportError:
        return 'ImportError'
    r = ns['r']
    import types
    if isinstance(r, types.ModuleType):
        return ['module', r.__name__, sorted(k for k in vars(r) if not k.startswith('__'))]
    if isinstance(r, type) or callable(r):
        return ['class', r.__module__, r.__name__]
    return repr(r)


def onoff_run(root, seq):
    import builtins
    from Cheetah import ImportHooks
    sys.path.insert(0, root)
    orig = builtins.__import__
    res = []
    for op in seq:
        if op == 'install':
            ImportHooks.install()
            res.append(builtins.__import__ != orig)
        elif op == 'uninstall':
            ImportHooks.uninstall()
            res.append(builtins.__import__ is orig)
        else:
            sys.modules.pop('q', None)
            sys.modules.pop('colorsys', None)
            ns = {}
            try:
                exec({'import': 'import q; r = str(q.q())', 'stdlib': 'import colorsys; r = colorsys.__name__', 'missing': 'import no_such_thing'}[op], ns)
                res.append(ns['r'])
            except ImportError:
                res.append('ImportError')
    return res


def onoff_model(seq):
    on = made = False
    res = []
    for op in seq:
        if op == 'install':
            on = True
            res.append(True)
        elif op == 'uninstall':
            on = False
            res.append(True)
        elif op == 'import':
            if on:
                made = True
            res.append('Q 2' if on or made else 'ImportError')
        else:
            res.append('colorsys' if op == 'stdlib' else 'ImportError')
    return res


def torn_setup(root, what):
    files = Files(root)
    files.write('a.tmpl', 'torn $(1+1)\n#def m\n' + 'text\n' * 30 + '#end def\n$(40+2)\n')
    if what == 'py':
        files.write('a.py', MODS['p1'])


def check(case, ctx):
    kind = case[0]
    root = scratch()
    try:
        if kind == 'hist':
            r = child(many, root, case[1])
            if r[0] != 'ok':
                return ctx.fail('the process of the histories died', repr(r))
            for h, got in zip(case[1], r[1]):
                want, states = expect(h)
                for s in states:
                    ctx.state(s)
                ctx.trans(len(h))
                ctx.evals += 1
                got = [tuple(x) for x in got] if isinstance(got, list) else got
                if got != want:
                    return ctx.fail('history: a load does not give what the files say', 'history %r: loads gave %r, the model says %r' % (h, got, want))
            ctx.outcome('histories agree')
        elif kind == 'torn':
            _, size, how, what = case
            torn_setup(root, what)
            first = child(play, root, ['L'], 0, limit=(size, how))
            ctx.state()
            ctx.trans(2)
            ctx.evals += 2
            ctx.outcome(first[0])
            want = ('value', 'mod1' if what == 'py' else 'torn 2\n42\n')
            if first[0] == 'exc' or first[0] == 'ok' and tuple(first[1][0]) != want:
                return ctx.fail('a write that fails breaks the import', repr(first))
            if first[0] == 'dead' and how == 'error':
                return ctx.fail('a write that fails ends the process', repr(first))
            for op in LOADS:
                again = child(play, root, [op], 0)
                if again[0] != 'ok' or tuple(again[1][0]) != want:
                    return ctx.fail('after a write cut short the import does not give the template', 'cut at %d (%s), then %s: %r' % (size, how, op, again))
        elif kind == 'near':
            files = [NEAR[i] for i in case[1]]
            for f in files:
                with open(os.path.join(root, f), 'w') as o:
                    o.write('class xa(object):\n    def __str__(self): return "module"\n' if f.endswith('.py') else 'T ' + f.split('.tmpl')[0])
            for name in WANTED:     # one process each: an import leaves a module behind
                got = child(near_run, root, [name], LOADS)
                want = [near_expect(files, name)] * 2
                ctx.state(files, name)
                ctx.trans(2)
                ctx.evals += 2
                if got[0] != 'ok' or [tuple(x) for x in got[1]] != want:
                    return ctx.fail('import with files of similar names', 'files %r, name %s: %r, expected %r' % (files, name, got, want))
            ctx.outcome('near')
        elif kind == 'exts':
            for x in case[2]:
                with open(os.path.join(root, 'Xe' + x), 'w') as o:
                    o.write('class Xe(object):\n    def __str__(self): return "module"\n' if x == '.py' else 'T ' + x)
            got = child(exts_run, root, case[1])
            want = 'module' if '.py' in case[2] else (['T ' + x for x in case[1] if x in case[2]] + ['ImportError'])[0]
            ctx.state(case[1:])
            ctx.trans(2)
            ctx.evals += 2
            if got != ['ok', [want, want]] and got != ('ok', [want, want]):
                return ctx.fail('import with other extensions', 'install(%r), files %r: %r, expected %r' % (case[1], case[2], got, want))
            ctx.outcome('extensions')
        elif kind == 'cdir':
            got = do_cdir(root, case[1])
            want = cdir_model(case[1])
            ctx.state(want)
            ctx.trans(len(case[1]))
            ctx.evals += 1
            if got != want:
                return ctx.fail('import with a directory for modules', 'history %r: %r, expected %r' % (case[1], got, want))
            ctx.outcome('cache directory')
        elif kind == 'pyc':
            _, size, with_py = case
            torn_setup(root, 'tmpl')
            r = child(play, root, ['L'], 0)
            p = pyc(root)
            data = open(p, 'rb').read()
            ctx.state()
            ctx.trans(2)
            ctx.evals += 2
            if r[0] != 'ok':
                return ctx.fail('loading a template fails', repr(r))
            if size >= len(data):
                return
            st = os.stat(p)
            with open(p, 'wb') as f:
                f.write(data[:size])
            os.utime(p, (st.st_atime, st.st_mtime))
            if not with_py:
                os.remove(os.path.join(root, 'a.py'))
            for op in LOADS:
                again = child(play, root, [op], 0)
                if again[0] != 'ok' or tuple(again[1][0]) != ('value', 'torn 2\n42\n'):
                    return ctx.fail('truncated byte code breaks the import', 'first %d bytes, then %s: %r' % (size, op, again))
        elif kind == 'layout':
            _, layout, sts = case
            for n, t in LAYOUTS[layout].items():
                p = os.path.join(root, n)
                if not os.path.isdir(os.path.dirname(p)):
                    os.makedirs(os.path.dirname(p))
                with open(p, 'w') as f:
                    f.write(t)
            seen = set()
            want = [layout_model(layout, st, seen) for st in sts]
            for rnd in ('from the templates', 'from the compiled modules'):
                r = child(layout_run, root, layout, sts)
                ctx.state()
                ctx.trans(len(sts))
                ctx.evals += 1
                if r[0] != 'ok':
                    return ctx.fail('layout: process died', repr(r))
                got, left = r[1]
                for st, g, w in zip(sts, got, want):
                    ctx.outcome(g[0])
                    if w is Ellipsis:
                        continue
                    if w is None and g[0] != 'exc' or w is not None and tuple(g) != ('ok', w):
                        return ctx.fail('layout %s: wrong result of an import' % layout, '%s (%s): got %r, the model says %r' % (STATEMENTS[st], rnd, g, w))
                if left:
                    return ctx.fail('layout: a failed import leaves an entry in sys.modules', repr(left))
        elif kind == 'onoff':
            with open(os.path.join(root, 'q.tmpl'), 'w') as f:
                f.write('Q $(1+1)')
            r = child(onoff_run, root, case[1])
            ctx.state()
            ctx.trans(len(case[1]))
            ctx.evals += 1
            if r[0] != 'ok' or r[1] != onoff_model(case[1]):
                return ctx.fail('installing and uninstalling', '%r: %r, the model says %r' % (case[1], r, onoff_model(case[1])))
        elif kind == 'plain':
            a, b = child(plain_run, case[1], False), child(plain_run, case[1], True)
            ctx.state()
            ctx.trans(2)
            ctx.evals += 2
            if a != b:
                return ctx.fail('an import of another module differs with the hooks installed', '%s: %r, %r' % (PLAIN[case[1]], a, b))
    finally:
        shutil.rmtree(root, ignore_errors=True)
