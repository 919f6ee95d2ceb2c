"""The command line: cheetah compile and cheetah fill on every small tree, option set, prior content and failing source, against a model of the files they leave behind."""
import fcntl
import itertools
import json
import os
import pickle
import shutil
import sys
import tempfile

LEVEL = 'fault_enumeration'
MODES = ['c']
RULE = ('one case = one command line (command, sources, options), one set of files present before and one failing source; the real command runs in a forked process in a scratch directory as an '
        'unprivileged user and the whole directory afterwards is compared with the model; states are the distinct (command line, prior tree), transitions are the files written or kept')
BOUNDS = {'quick': {'paths': '2 commands x 20 source lists x 6 input and 6 output directories x extensions x flat; prior outputs absent and present; 21 odd names, alone and all together, x 5 x 6 directories',
                    'faults': '5 kinds of failure x each position of up to 3 sources x 3 prior contents x backup, stdout and 1 or 2 processes; another process making the directory at each mkdir'},
          'thorough': {'paths': 'the same with absolute directories, every combination of extensions, 4 prior contents', 'faults': 'the same with two failing sources and 3 processes'}}
ASSUMPTIONS = ['the files are read and written by one command at a time', 'the operating system itself does not fail', 'a template with characters beyond ASCII and no #encoding cannot be compiled to a module (the documented default is ASCII)', 'source files not in the encoding of the locale name theirs with the encoding setting']

# the tree: what is there, and what it renders to; X is a name that compile refuses
FILES = ['a.tmpl', 'b.tmpl', 'in/a.tmpl', 'in/b.tmpl', 'in/deep/c.tmpl', 'in/t.txt', 'in/d.tm.tmpl', 'plain']
ODD = ['a.tmpl', 'a.tmpl.tmpl', 'x.tmpl.d/a.tmpl', 'x.tmpl.d/y.tmpl/b.tmpl', 'tmpl.tmpl', 'in.tmpl/in.tmpl/e.tmpl', 'outx/f.tmpl', 'out/g.tmpl', 'in/in/h.tmpl', 'inin/h.tmpl', 'in/inin.tmpl', 'a b/c.tmpl',
       'a.html.tmpl', 'e', 'xtmpl', '.hid/k.tmpl', 'x.y/z.tmpl', 'caf\u00e9/m.tmpl', 'html/a.tmpl', 'bak.tmpl', 'n.bak/p.tmpl']
ODDIDIRS = ['', 'in.tmpl', 'in', 'x.tmpl.d', '.']
ODDODIRS = ['', 'out', 'in', 'x.tmpl.d/o', 'in.tmpl', 'html']
BODY = 'file %s $v\n#set $q = 1 + 1\n=$q\n'
WANT = 'file %s V\n=2\n'
BAD = {'syntax': '#if\n', 'name': BODY, 'eval': 'text $nope_not_there\n', 'kill': 'text $die()\n', 'encode': 'caf\u00e9 %s $v\n', 'exit': 'text $leave()\n'}



def tag(f):
    """what a file says about itself, in ASCII"""
    return f.encode('ascii', 'replace').decode('ascii')


class Die(object):
    """picklable: what the search list file gives"""

    def __call__(self):
        os.kill(os.getpid(), 9)
        return ''


class Leave(object):
    def __call__(self):
        raise KeyError('no')


SRCS = [['a'], ['a.tmpl'], ['a', 'b'], ['b.tmpl', 'a.tmpl'], ['in/a'], ['a', 'in/a'], ['in/deep/c'], ['a', 'a.tmpl'], ['nope', 'a'], ['plain'], ['./a', 'in/../b'], ['in'], ['deep'],
        ['deep/c'], ['in/a', 'in/b'], [], ['.'], ['a', 'in'], ['t.txt'], ['t']]
IDIRS = ['', 'in', './in', 'in/', 'in/../in', 'in/deep/..']
ODIRS = ['', 'out', 'out/', './out', 'in', 'p/q']
EXTS = [(None, None), ('txt', None), (None, 'out'), ('.txt', '.out')]


def enum(tier, mode):
    th = tier == 'thorough'
    idirs, odirs, exts = list(IDIRS), list(ODIRS), list(EXTS)
    if th:
        idirs += ['@/in', '@/in/']
        odirs += ['@/out', '@/in', '.']
        exts += [('tmpl', 'x.y'), ('.tm.tmpl', None)]
    # paths
    for cmd in ('fill', 'compile'):
        for si, idir, odir in itertools.product(range(len(SRCS)), idirs, odirs):
            for e, flat in itertools.product(exts, (False, True)):
                if not th and e != EXTS[0] and (idir, odir) not in (('', ''), ('in', 'out'), ('', 'out')):
                    continue
                if not th and flat and (idir not in ('', 'in', './in') or odir not in ('', 'out')):
                    continue
                for R in (False, True):
                    for prior in ((0, 2) if not th else (0, 1, 2)):
                        if prior and not th and (idir, odir) not in (('', ''), ('in', 'out'), ('', 'out'), ('', 'in')):
                            continue
                        yield ['path', cmd, SRCS[si], idir, odir, list(e), flat, R, prior]
    # names that contain extensions and each other
    for cmd, idir, odir, flat, e in itertools.product(('fill', 'compile'), ODDIDIRS, ODDODIRS, (False, True), ((None, None), ('.tmpl', '.tmpl.x')) if not th else EXTS + [('.tmpl', '.tmpl.x'), ('l', 'html')]):
        yield ['odd', cmd, [], idir, odir, list(e), flat, True]
        if flat:
            continue
        for f in ODD:
            if (idir in ('', '.') or f.startswith(idir + '/')) and (th or e[0] is None):
                g = f[len(idir) + 1:] if idir not in ('', '.') else f
                yield ['odd', cmd, [g], idir, odir, list(e), flat, False]
                if f.endswith('.tmpl'):
                    yield ['odd', cmd, [g[:-5]], idir, odir, list(e), flat, False]
    # absolute sources
    for cmd in ('fill', 'compile'):
        for srcs in (['@/a.tmpl'], ['@/in/a'], ['@/in/a', '@/in/deep/c'], ['@/a', '@/in/a'], ['@/in']):
            for idir, odir in (('', ''), ('', 'out'), ('', '@/out'), ('@/in', 'out'), ('@/in', '@/out'), ('', '@/in'), ('', '@/i'), ('', '@/in/dee'), ('', '@/a'), ('@', 'out'), ('', '@/in/a')):
                for flat in (False, True):
                    yield ['path', cmd, srcs, idir, odir, [None, None], flat, '@/in' in srcs, 0]
    # faults
    lists = [['a'], ['a', 'b'], ['a', 'b', 'in/a'], ['in/b', 'a', 'in/deep/c'], []]
    for cmd, srcs in itertools.product(('fill', 'compile'), lists):
        names = srcs or ['a', 'b', 'in/a', 'in/b', 'in/deep/c', 'in/d.tm']
        bads = [()] + [((n, k),) for n in names for k in BAD if k != 'name' and (cmd == 'fill' or k not in ('eval', 'kill', 'exit'))] + ([(('x-y', 'name'),)] if cmd == 'compile' else [])
        if th:
            bads += [((n, 'syntax'), (m, 'encode' if cmd == 'fill' else 'syntax')) for n, m in itertools.combinations(names, 2)]
        for bad, prior, nobackup, stdout, par, odir in itertools.product(bads, (0, 1, 2, 3), (False, True), (False, True), (1, 2) if not th else (1, 2, 3), ('', 'out', 'o/p')):
            if not th and (prior == 1 or (len(names) > 3 and bad and bad[0][0] not in ('a', 'in/b'))):
                continue
            for enc in (None, 'ascii', 'latin-1') if any(k == 'encode' for _, k in bad) else (None, 'utf-8') if not bad and th else (None,):
                yield ['fault', cmd, srcs, [list(b) for b in bad], prior, nobackup, stdout, par, odir, enc]
    # another process makes the same directory
    for cmd, srcs, odir, k in itertools.product(('fill', 'compile'), lists, ('out', 'o/p', 'o/p/q', 'in/new'), range(1, 7)):
        yield ['race', cmd, srcs, odir, k]
    # standard input, abbreviations, search list options, settings, encodings
    for cmd in ('fill', 'f', 'compile', 'c'):
        for body in ('ok', 'latin', 'syntax'):
            yield ['stdin', cmd, body]
        for opts in itertools.product((0, 1), repeat=3):
            yield ['space', cmd, list(opts)]
        for body, enc, stdout in itertools.product(('latin', 'utf'), (None, 'utf-8', 'latin-1'), (False, True)):
            yield ['enc', cmd, body, enc, stdout]
        for s in ('useNameMapper=False', 'cheetahVarStartToken="@"', 'nonsense=1', 'bad syntax', 'commentStartToken="%%",useFilters=False'):
            yield ['settings', cmd, s]
    for argv in ([], ['bogus'], ['version'], ['v'], ['--version'], ['help'], ['h'], ['fill'], ['compile'], ['options']):
        yield ['misc', argv]


def init(mode, tier):
    t = tempfile.gettempdir()
    if os.path.basename(t).startswith('mc-'):
        os.chmod(t, 0o711)  # the scratch directory of this run: the unprivileged command has to get through


def put(root, path, text):
    p = os.path.join(root, path)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'wb') as f:
        f.write(text if isinstance(text, bytes) else text.encode('utf-8'))


def snapshot(root):
    got, dirs = {}, set()
    for r, ds, fs in os.walk(root):
        rel = os.path.relpath(r, root)
        for d in ds:
            dirs.add(os.path.normpath(os.path.join(rel, d)))
        for f in fs:
            p = os.path.normpath(os.path.join(rel, f))
            with open(os.path.join(r, f), 'rb') as h:
                got[p] = h.read()
    return got, dirs


def drop(root):
    """the command runs as nobody: a wrong path reaches nothing real"""
    if os.getuid() == 0:
        for r, ds, fs in os.walk(root):
            for n in [r] + [os.path.join(r, f) for f in fs]:
                os.chown(n, 65534, 65534)


def preempt(k, isCompile):
    """Just before the k-th mkdir of this process another one makes the same directory."""
    real, n = os.mkdir, [0]

    def mkdir(path, *a, **kw):
        n[0] += 1
        if n[0] == k:
            real(path)
            if isCompile:
                open(os.path.join(path, '__init__.py'), 'w').close()
        return real(path, *a, **kw)
    os.mkdir = mkdir


def run(root, argv, stdin=b'', race=0):
    """Exit status, standard output and standard error of the real command."""
    from Cheetah import CheetahWrapper, ImportHooks  # noqa: loaded before the fork
    ImportHooks
    drop(root)
    out, err, inp = [tempfile.TemporaryFile() for _ in range(3)]
    inp.write(stdin)
    inp.flush()
    inp.seek(0)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if not pid:
        code = 99
        try:
            if os.getuid() == 0:
                try:
                    os.setgroups([])
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    pass
            os.chdir(root)
            high = [fcntl.fcntl(f.fileno(), fcntl.F_DUPFD, 10) for f in (inp, out, err)]
            for fd in (0, 1, 2):
                os.dup2(high[fd], fd)
            sys.stdin = open(0, 'r', encoding='utf-8', closefd=False)
            sys.stdout = open(1, 'w', encoding='utf-8', closefd=False)
            sys.stderr = open(2, 'w', encoding='utf-8', closefd=False)
            CheetahWrapper.usage.__defaults__ = ('', sys.stderr)
            os.environ['v'] = 'E'
            sys.argv = ['cheetah'] + argv
            if race:
                preempt(race, argv[0][0] == 'c')
            try:
                CheetahWrapper.CheetahWrapper().main()
                code = 0
            except SystemExit as e:
                code = e.code
                if code is not None and not isinstance(code, int):
                    sys.stderr.write('%s\n' % code)
                    code = 1
                code = code or 0
            except BaseException as e:
                sys.stderr.write('%s: %s\n' % (type(e).__name__, e))
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException as e:
            os.write(2, ('harness: %r' % e).encode())
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    out.seek(0)
    err.seek(0)
    return (os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)), out.read(), err.read()


class Opts:
    def __init__(self, cmd, srcs, idir='', odir='', ext=(None, None), flat=False, R=False, nobackup=False, stdout=False, par=1, enc=None):
        self.__dict__.update(locals())
        self.iext = self.dot(ext[0]) or '.tmpl'
        self.oext = self.dot(ext[1]) or ('.py' if cmd[0] == 'c' else '.html')

    def dot(self, e):
        return e and (e if e.startswith('.') else '.' + e)

    def argv(self, extra=()):
        a = [self.cmd]
        for n, v in (('idir', self.idir), ('odir', self.odir), ('iext', self.ext[0]), ('oext', self.ext[1]), ('encoding', self.enc)):
            if v:
                a += ['--' + n, v]
        for n, v in (('--flat', self.flat), ('-R', self.R), ('--nobackup', self.nobackup), ('--stdout', self.stdout)):
            if v:
                a.append(n)
        if self.par > 1:
            a.append('--parallel=%d' % self.par)
        return a + list(extra) + self.srcs


def model(o, files, root):
    """('usage' | 'refused' | 'go', {destination: source}) in terms of paths relative to the scratch directory"""
    dirs = {''}
    for f in files:
        while '/' in f:
            f = f.rsplit('/', 1)[0]
            dirs.add(f)

    def rel(p):
        p = os.path.normpath(os.path.join(root, p))
        assert p == root or p.startswith(root + '/'), p
        return p[len(root) + 1:]

    def under(d):
        return [f for f in sorted(files) if (not d or f.startswith(d + '/')) and f.endswith(o.iext)]
    absolute = [False]
    found = []
    if not o.srcs:
        if not o.R:
            return 'usage', {}
        found = [(f, o.idir.startswith('/')) for f in under(rel(o.idir))] if rel(o.idir) in dirs else []
    for s in o.srcs:
        p = os.path.join(o.idir, s)
        isabs = p.startswith('/')
        r = rel(p)
        parts = os.path.relpath(p, root).split('/') if isabs else p.split('/')
        if any(part == '..' and rel('/'.join(parts[:n])) not in dirs for n, part in enumerate(parts)):
            continue  # a way through a directory that does not exist
        if r in dirs:
            if not o.R:
                return 'refused', {}
            found += [(f, isabs) for f in under(r)]
        elif r in files:
            found.append((r, isabs))
        elif not p.endswith(o.iext) and r + o.iext in files:
            found.append((r + o.iext, isabs))
    out, clash = {}, False
    i = rel(o.idir) if o.idir else None
    odir = rel(o.odir) if o.odir else None
    for f, isabs in dict((k, None) for k in found):
        base = f
        inside = False
        if o.idir and isabs == o.idir.startswith('/'):
            if i == '':
                inside = isabs
            elif f.startswith(i + '/'):
                base = f[len(i) + 1:]
                inside = True
        if base.endswith(o.iext):
            base = base[:-len(o.iext)]
        name = os.path.basename(base)
        if o.flat:
            dst = os.path.join(odir or '', name)
        elif isabs and not inside and odir is not None:
            if o.odir.startswith('/'):
                # the part of the path below the deepest directory that contains both
                common = odir
                while common and not base.startswith(common + '/'):
                    common = os.path.dirname(common)
                dst = os.path.join(odir, base[len(common) + 1:] if common else base)
            else:
                dst = os.path.join(odir, name)
        elif odir is None and isabs and inside:
            dst = base
        else:
            dst = os.path.join(odir or '', base)
        dst = rel(dst + o.oext)
        if dst in out:
            clash = True
        out[dst] = f
    if clash:
        return 'refused', {}
    return 'go', out


NS = {}


def runmodule(text, cls):
    """What the compiled module renders."""
    ns = {'__name__': 'c21_generated'}
    exec(compile(text, cls + '.py', 'exec'), ns)
    return str(ns[cls](searchList=[{'v': 'V'}]))


def matches(o, text, f, bad, want=None):
    """Is this the output for source f?"""
    want = WANT % tag(f) if want is None else want
    if bad == 'encode':
        want = 'caf\u00e9 %s V\n' % f
    if o.cmd[0] == 'c':
        cls = os.path.basename(f)
        if cls.endswith(o.iext):
            cls = cls[:-len(o.iext)]
        if not text.startswith(b'#!/usr/bin/env python\n'):
            return False
        if bad in ('eval', 'kill', 'exit'):
            return True
        try:
            return runmodule(text, cls) == want
        except Exception:
            return False
    return text == want.encode(o.enc or 'utf-8')


def scenario(ctx, case, o, bads, prior, key, race=0, tree=None):
    root = tempfile.mkdtemp(prefix='c21-')
    root = os.path.realpath(root)
    try:
        os.chmod(root, 0o755)
        o.idir, o.odir = [x.replace('@', root) for x in (o.idir, o.odir)]
        o.srcs = [x.replace('@', root) for x in o.srcs]
        files = {}
        for f in tree or FILES:
            files[f] = BODY % tag(f)
        for n, k in bads:
            f = n + '.tmpl'
            files[f] = BAD[k] % f if '%' in BAD[k] else BAD[k]
        if any(k == 'name' for _, k in bads):
            o.srcs = o.srcs + ['x-y'] if o.srcs else []
        badof = {n + '.tmpl': k for n, k in bads}
        verdict, outs = model(o, files, root)
        fails = [k for k, v in badof.items() if k in outs.values() and
                 (v in ('syntax', 'name') or o.cmd[0] == 'c' and v == 'encode' or o.cmd[0] == 'f' and (v in ('eval', 'kill', 'exit') or (v == 'encode' and o.enc == 'ascii' and not o.stdout)))]
        if o.cmd[0] == 'c' and verdict == 'go':
            fails += [f for f in outs.values() if '.' in os.path.basename(f)[:-len(o.iext)] or not os.path.basename(f).endswith(o.iext) and '.' in f]
        # what is there before: 1 the outputs, 2 the outputs and their backups, 3 the backups alone
        for d in list(outs):
            if d in files:
                continue
            if prior in (1, 2):
                files[d] = 'OLD ' + d
            if prior in (2, 3):
                files[d + '.bak'] = 'OLDER ' + d
        for f, t in files.items():
            put(root, f, t)
        with open(os.path.join(root, 'space.pkl'), 'wb') as h:
            pickle.dump({'v': 'V', 'die': Die(), 'leave': Leave()}, h)
        before, bdirs = snapshot(root)
        code, sout, serr = run(root, o.argv(['--pickle', 'space.pkl'] if o.cmd[0] == 'f' else []), race=race)
        after, adirs = snapshot(root)
        ctx.state()
        ctx.evals += 1

        def fail(what, **kw):
            ctx.fail(key + what, repr(dict(kw, argv=o.argv(), exit=code, stderr=serr[-300:].decode('utf-8', 'replace'), outputs=outs)).replace(root, '@'))
        ok = verdict == 'go' and not fails
        if verdict != 'go':
            ctx.outcome(verdict)
            if code == 0 and verdict == 'refused':
                return fail('a command that must be refused succeeds')
            if after != before or adirs != bdirs:
                return fail('a refused command changed files', changed=sorted(set(after) ^ set(before))[:6])
            return
        if (code == 0) != (not fails):
            return fail('exit status %s, though %s' % ('0' if code == 0 else 'not 0', 'a source fails' if fails else 'no source fails'))
        ctx.outcome('fails' if fails else 'done')
        expect = dict(before)
        pending = []
        for d, f in sorted(outs.items()):
            ctx.trans(1)
            if o.stdout or f in fails:
                continue
            b = d + '.bak'
            done = d in after and matches(o, after[d], f, badof.get(f)) and (d not in before or o.nobackup or after.get(b) == before[d])
            if not done and not fails:
                return fail('wrong or missing output or backup', dst=d, got=repr(after.get(d))[:120], bak=repr(after.get(b))[:60], files=sorted(after))
            if done:
                expect[d] = after[d]
                if d in before and not o.nobackup:
                    expect[b] = before[d]
                pending.append(d)
        extra = {}
        if o.cmd[0] == 'c':
            for d in adirs - bdirs:
                extra[os.path.join(d, '__init__.py')] = b''
        for p, t in extra.items():
            if after.get(p) != t:
                return fail('directory without __init__.py', path=p)
        expect.update(extra)
        if after != expect:
            diff = sorted(p for p in set(after) | set(expect) if after.get(p) != expect.get(p))
            return fail('files other than the outputs changed' if not fails else 'files changed by a source that fails', diff=diff[:6], got=repr([after.get(p) for p in diff])[:200])
        for d in adirs - bdirs:
            if not any(p.startswith(d + '/') for p in pending) and not (fails and any(p.startswith(d + '/') for p in outs)):
                return fail('needless directory', dir=d)
        if o.stdout and ok:
            ds = sorted(outs)
            if o.cmd[0] == 'f':
                texts = [WANT % tag(outs[d]) if badof.get(outs[d]) != 'encode' else 'caf\u00e9 %s V\n' % outs[d] for d in ds]
                cands = [''.join(p).encode('utf-8') for p in itertools.permutations(texts)] if len(ds) <= 4 else None
                if cands and sout not in cands or not cands and sorted(sout.splitlines()) != sorted(''.join(texts).encode('utf-8').splitlines()):
                    return fail('wrong standard output', out=repr(sout[:200]))
            elif len(ds) == 1:
                if not matches(o, sout, outs[ds[0]], badof.get(outs[ds[0]])):
                    return fail('wrong module on standard output', out=repr(sout[:80]))
            elif sout.count(b'#!/usr/bin/env python\n') != len(ds):
                return fail('wrong number of modules on standard output', n=sout.count(b'#!/usr/bin'))
        if ok and not o.stdout and len(outs) > 1:
            ctx.interesting('several outputs')
    finally:
        shutil.rmtree(root, ignore_errors=True)


def check(case, ctx):
    kind = case[0]
    if kind == 'path':
        _, cmd, srcs, idir, odir, ext, flat, R, prior = case
        scenario(ctx, case, Opts(cmd, srcs, idir, odir, tuple(ext), flat, R), [], prior, 'paths: ')
    elif kind == 'odd':
        _, cmd, srcs, idir, odir, ext, flat, R = case
        scenario(ctx, case, Opts(cmd, srcs, idir, odir, tuple(ext), flat, R), [], 0, 'odd names: ', tree=ODD)
    elif kind == 'fault':
        _, cmd, srcs, bads, prior, nobackup, stdout, par, odir, enc = case
        scenario(ctx, case, Opts(cmd, srcs, '', odir, R=not srcs, nobackup=nobackup, stdout=stdout, par=par, enc=enc), bads, prior, 'faults: ')
    elif kind == 'race':
        _, cmd, srcs, odir, k = case
        scenario(ctx, case, Opts(cmd, srcs, '', odir, R=not srcs), [], 0, 'two processes: ', race=k)
    else:
        small(case, ctx)


def small(case, ctx):
    root = os.path.realpath(tempfile.mkdtemp(prefix='c21-'))
    try:
        os.chmod(root, 0o755)
        ctx.state()
        ctx.trans(1)
        ctx.evals += 1
        kind = case[0]
        cmd = case[1]

        def fail(what, **kw):
            ctx.fail('%s: %s' % (kind, what), repr(kw))
        if kind == 'misc':
            argv = case[1]
            code, out, err = run(root, argv)
            bad = not argv or argv[0] in ('bogus', 'fill', 'compile')
            if (code != 0) != bad or (not bad and not out) or (bad and b'USAGE' not in err):
                fail('wrong exit status or no message', code=code, out=repr(out[:80]), err=repr(err[-200:]))
            return
        if kind == 'stdin':
            body = {'ok': 'x $(1+1)\n', 'latin': '#encoding utf-8\nx \u00e9\n', 'syntax': '#if\n'}[case[2]]
            code, out, err = run(root, [cmd, '-'], body.encode('utf-8'))
            files = snapshot(root)[0]
            if (code != 0) != (case[2] == 'syntax') or files:
                return fail('wrong exit status or files written', code=code, err=repr(err[-200:]), files=sorted(files))
            if not code:
                want = {'ok': 'x 2\n', 'latin': 'x \u00e9\n'}[case[2]]
                if cmd[0] == 'f' and out != want.encode('utf-8'):
                    fail('wrong output', out=repr(out))
                if cmd[0] == 'c':
                    ns = {'__name__': 'c21_stdin'}
                    exec(compile(out, 'x', 'exec'), ns)
                    cls = ns[ns['__CHEETAH_docstring__'] and 'x'] if False else [v for k, v in ns.items() if isinstance(v, type) and v.__module__ == 'c21_stdin']
                    if not cls or str(cls[0]()) != want:
                        fail('wrong module', out=repr(out[:100]))
            return
        if kind == 'space':
            env, pk, js = case[2]
            put(root, 'a.tmpl', '$v\n')
            put(root, 's.json', json.dumps({'v': 'J'}))
            put(root, 's.pkl', pickle.dumps({'v': 'P'}))
            argv = [cmd] + (['--env'] if env else []) + (['--pickle', 's.pkl'] if pk else []) + (['--json', 's.json'] if js else []) + ['a']
            code, out, err = run(root, argv)
            files = snapshot(root)[0]
            if cmd[0] == 'c':
                if code or 'a.py' not in files:
                    fail('fails', err=repr(err[-200:]))
                return
            ok = {c for c, on in (('E', env), ('P', pk), ('J', js)) if on}
            if ok and (code or files.get('a.html', b'')[:1].decode() not in ok) or not ok and (not code or 'a.html' in files):
                fail('the search list options are not used', code=code, got=repr(files.get('a.html')), err=repr(err[-200:]))
            return
        if kind == 'enc':
            body, enc, stdout = case[2:]
            e = {'latin': 'latin-1', 'utf': 'utf-8'}[body]
            put(root, 'a.tmpl', ('#encoding %s\nx \u00e9 $v\n' % e).encode(e))
            put(root, 's.json', json.dumps({'v': 'J'}))
            code, out, err = run(root, [cmd, '--json', 's.json'] + (['--encoding', enc] if enc else []) + (['--stdout'] if stdout else []) +
                                 (['--settings', 'encoding="latin-1"'] if body == 'latin' else []) + ['a'])
            files = snapshot(root)[0]
            if code:
                return fail('fails', err=repr(err[-200:]))
            dst = 'a.py' if cmd[0] == 'c' else 'a.html'
            if (dst in files) == stdout:
                return fail('output in the wrong place', files=sorted(files))
            text = out if stdout else files[dst]
            if cmd[0] == 'f':
                if text != 'x \u00e9 J\n'.encode('utf-8' if stdout else enc or 'utf-8'):
                    fail('wrong text', got=repr(text))
            else:
                ns = {'__name__': 'c21_enc'}
                exec(compile(text, 'a.py', 'exec'), ns)
                if str(ns['a'](searchList=[{'v': 'J'}])) != 'x \u00e9 J\n':
                    fail('wrong module', got=repr(text[:80]))
            return
        if kind == 'settings':
            s = case[2]
            put(root, 'a.tmpl', '$v @v %% c\n')
            put(root, 's.json', json.dumps({'v': 'J'}))
            code, out, err = run(root, [cmd, '--json', 's.json', '--settings', s, 'a'])
            files = snapshot(root)[0]
            bad = 'nonsense' in s or 'bad' in s or (cmd[0] == 'f' and 'NameMapper' in s)
            dst = 'a.py' if cmd[0] == 'c' else 'a.html'
            if (code != 0) != bad or (dst in files) == bad:
                return fail('wrong exit status', code=code, err=repr(err[-200:]), files=sorted(files))
            if not bad and cmd[0] == 'f':
                want = {'c': 'J @v \n', '@': '$v J %% c\n'}['@' if '"@"' in s else 'c']
                if files[dst].decode() not in (want, want.rstrip('\n')):
                    fail('settings not used', got=repr(files[dst]))
            if not bad and cmd[0] == 'c':
                ns = {'__name__': 'c21_set'}
                exec(compile(files[dst], 'a.py', 'exec'), ns)
    finally:
        shutil.rmtree(root, ignore_errors=True)
