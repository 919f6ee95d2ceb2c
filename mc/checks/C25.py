"""Compiler settings inside a template: all short histories of settings switched by every route, the whole language probed after every switch."""
import ast
import contextlib
import io
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('a switch case = one history of settings changes (by #compiler, #compiler-settings in both syntaxes, resets) in one position of a template; states are the settings in force, '
        'transitions are switches, and in every state each construct is written in every token style; a conv case = one value text; a merge case = one sequence of nested updates')
BOUNDS = {'quick': {'switches': '18 settings values x 3 routes + 2 resets', 'history': 'all of 2 switches in 4 positions, all of 3 with the routes alternating', 'start states': 6,
                    'value texts': 'all strings up to 4 over 9 characters and 40 words', 'merges': 'all sequences of 3 of 12 nested dictionaries x merge or not'},
          'thorough': {'switches': '18 settings values x 3 routes + 2 resets', 'history': 'all of 2 switches in 4 positions, all of 3 by every route', 'start states': 6,
                       'value texts': 'all strings up to 5 over 9 characters and 40 words', 'merges': 'all sequences of 3 of 12 nested dictionaries x merge or not'}}
ASSUMPTIONS = ['no token contains another one that is in force, but for the default ones', 'reset reverts to the default settings, not to the ones given to compile()']

DEF = {'var': '$', 'dir': ('#', '#'), 'com': '##', 'mlc': ('#*', '*#'), 'psp': ('<%', '%>'), 'slurp': '#', 'ac': True, 'fl': True, 'nm': True}
ALT = {'var': ['$', '@'], 'dir': [('#', '#'), ('%', '%'), ('<!--', '-->')], 'com': ['##', '//'], 'mlc': [('#*', '*#'), ('/*', '*/')], 'psp': [('<%', '%>'), ('<?', '?>')],
       'slurp': ['#', '^', None], 'ac': [True, False], 'fl': [True, False]}
NAMES = {'var': ['cheetahVarStartToken'], 'dir': ['directiveStartToken', 'directiveEndToken'], 'com': ['commentStartToken'], 'mlc': ['multiLineCommentStartToken', 'multiLineCommentEndToken'],
         'psp': ['PSPStartToken', 'PSPEndToken'], 'slurp': ['EOLSlurpToken'], 'ac': ['useAutocalling'], 'fl': ['useFilters'], 'nm': ['useNameMapper']}
ALT['nm'] = [True, False]
VALUES = [[d, i] for d in ALT for i in range(len(ALT[d]))]
ROUTES = ['d', 'c', 'p']
RESETS = [['reset', 'd'], ['reset', 'c']]
MOVES = [['set'] + v + [r] for v in VALUES for r in ROUTES] + RESETS
POSITIONS = ['top', 'def', 'if', 'for']
STARTS = [None, ['var', 1], ['dir', 1], ['dir', 2], ['com', 1], ['slurp', 1]]
CHARS = '10-+.ejx '
WORDS = ['None', 'none', 'NONE', 'True', 'true', 'TRUE', 'False', 'false', 'FALSE', 'python: [1, 2]', 'python:{"a": 1}', 'Python:1', 'PYTHON: "x"', 'python:None', 'python: 1 < 2', 'nonesuch', 'truely', 'a python: 1', '%', '50%', '% d',
         '#', '##', '//', 'a # b', 'a ; b', 'a = b', 'a:b', '"q"', "'q'", '<%', '%>', '<!--', '', '0x1f', '0b11', '0o7', '1_000', '1e400', "u'x'"]
DICTS = [{'a': 1}, {'a': 2}, {'a': {'x': 1}}, {'a': {'x': 2}}, {'a': {'y': 3}}, {'a': {'x': {'p': 1}}}, {'a': {'x': {'q': 2}}}, {'b': 1}, {'b': {'x': 1}}, {'a': {}}, {}, {'a': {'x': 1}, 'b': {'y': 2}}]


def enum(tier, mode):
    for st in STARTS:
        for pos in POSITIONS:
            for m in MOVES:
                yield ['switch', st, pos, [m]]
    for st in STARTS[:1] if tier == 'quick' else STARTS:
        for i, (m1, m2) in enumerate(itertools.product(MOVES, repeat=2)):
            for pos in POSITIONS if tier == 'thorough' else [POSITIONS[i % 4]] if st else POSITIONS:
                yield ['switch', st, pos, [m1, m2]]
    if tier == 'thorough':
        for t in itertools.product(MOVES, repeat=3):
            yield ['switch', None, 'top', list(t)]
    else:
        for i, t in enumerate(itertools.product([['set'] + v for v in VALUES] + [['reset']], repeat=3)):
            yield ['switch', None, 'top', [m + [ROUTES[(i + k) % 3] if m[0] == 'set' else 'dc'[(i + k) % 2]] for k, m in enumerate(t)]]
    for n in range(0, 5 if tier == 'quick' else 6):
        for t in itertools.product(CHARS, repeat=n):
            yield ['conv', ''.join(t)]
    for w in WORDS:
        yield ['conv', w]
    for t in itertools.product(range(len(DICTS)), repeat=3):
        for merge in itertools.product((True, False), repeat=2):
            yield ['merge', list(t), list(merge)]
    for a in range(len(DICTS)):
        for kind in ('python', 'subclass'):
            yield ['alias', a, kind]


def F():
    return 'F'


class D(dict):
    k = 'attr'


def lit(v):
    return repr(v)


def conf(v):
    return '' if v is None else str(v)


def switch(state, m):
    """(source of the switch in the state, state after it)"""
    S, E = state['dir']
    if m[0] == 'reset':
        return (S + 'compiler reset\n' if m[1] == 'd' else S + 'compiler-settings reset\n'), dict(DEF)
    _, d, i, route = m
    v = ALT[d][i]
    vals = list(v) if isinstance(v, tuple) else [v]
    new = dict(state)
    new[d] = v
    if route == 'd':
        src = S + 'compiler %s = %s\n' % (NAMES[d][0], lit(vals[0]))
        if len(vals) == 2:
            src += (vals[0] if d == 'dir' else S) + 'compiler %s=%s\n' % (NAMES[d][1], lit(vals[1]))
    elif route == 'c':
        src = S + 'compiler-settings\n' + ''.join('%s = %s\n' % (n, conf(x)) for n, x in zip(NAMES[d], vals)) + S + 'end compiler-settings\n'
    else:
        src = S + 'compiler-settings python\n' + ''.join('%s = %s\n' % (n, lit(x)) for n, x in zip(NAMES[d], vals)) + S + 'end compiler-settings\n'
    return src, new


def probe(state):
    """(source, output) of every construct in every style"""
    src, out = [], []

    def add(s, o):
        src.append(s)
        out.append(o)
    fl = (lambda x: '<%s>' % x) if state['fl'] else (lambda x: x)
    for tok in ALT['var']:
        on = tok == state['var']
        for name, val in (('{v}', 'V'), ('v', 'V'), ('{f}', 'F' if state['ac'] and state['nm'] else str(F)), ('d.k', 'item' if state['nm'] else 'attr'), ('(v)', 'V')):
            s = 'A %s%s B\n' % (tok, name)
            add(s, 'A %s B\n' % fl(val) if on else s)
        s = 'Q \\%s{v}\n' % tok
        add(s, 'Q %s{v}\n' % tok if on else s)
    for S, E in ALT['dir']:
        on = (S, E) == state['dir']
        s = 'C %sif 1%sy%send if%s D\n' % (S, E, S, E)
        add(s, 'C y D\n' if on else s)
        s = '%sif 0\nno\n%selse\nyes\n%send if\n' % (S, S, S)
        add(s, 'yes\n' if on else s)
        s = 'R \\%sif 1\n' % S
        add(s, 'R %sif 1\n' % S if on else s)
    for tok in ALT['com']:
        s = 'E x %s zz\n' % tok
        add(s, 'E x \n' if tok == state['com'] else s)
    for a, b in ALT['mlc']:
        s = 'F %s z %s G\n' % (a, b)
        add(s, 'F  G\n' if (a, b) == state['mlc'] else s)
    for a, b in ALT['psp']:
        s = 'H %s=1+1%s I\n' % (a, b)
        add(s, 'H %s I\n' % fl('2') if (a, b) == state['psp'] else s)
    for tok in ALT['slurp']:
        if tok:
            s = 'J %s\nK\n' % tok
            add(s, 'J K\n' if tok == state['slurp'] else s)
    return ''.join(src), ''.join(out)


def key(state):
    return tuple(sorted((k, str(v)) for k, v in state.items()))


def build(case, ctx):
    _, st, pos, moves = case
    state = dict(DEF)
    settings = {}
    if st:
        d, i = st
        v = ALT[d][i]
        state[d] = v
        settings = dict(zip(NAMES[d], v if isinstance(v, tuple) else [v]))
    src, out = [], []
    S0 = state['dir'][0]
    if pos == 'def':
        src.append(S0 + 'def m\n')
    src.append(''.join('%sset %s%s = self.t%s\n' % (S0, state['var'], n, n) for n in 'vfd'))
    if pos == 'if':
        src.append(S0 + 'if 1\n')
    elif pos == 'for':
        src.append(S0 + 'for i in (1, 2)\n')
    s, o = probe(state)
    src.append(s)
    out.append(o)
    ctx.state(key(state))
    for m in moves:
        s, state = switch(state, m)
        src.append(s)
        s, o = probe(state)
        src.append(s)
        out.append(o)
        ctx.trans()
        ctx.state(key(state))
    S, E = state['dir']
    res = ''.join(out)
    if pos == 'if':
        src.append(S + 'end if\n')
    elif pos == 'for':
        src.append(S + 'end for\n')
        res = res * 2
    elif pos == 'def':
        src.append(S + 'end def\n[%sself.m()]\n' % state['var'])
        res = '[%s]\n' % ('<%s>' % res if state['fl'] else res)
    return ''.join(src), settings, res


def number(s):
    s = s.strip()
    try:
        v = ast.literal_eval(s)
    except (ValueError, SyntaxError, TypeError, MemoryError):
        return None
    return v if isinstance(v, (int, float, complex)) and not isinstance(v, bool) else None


def check(case, ctx):
    from Cheetah.Template import Template
    from Cheetah.Filters import Filter
    from Cheetah.SettingsManager import SettingsManager
    ctx.evals += 1
    if case[0] == 'switch':
        class Fil(Filter):
            def filter(self, val, **kw):
                return '<%s>' % val
        src, settings, want = build(case, ctx)
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                t = Template.compile(src, compilerSettings=dict(settings), useCache=False)(filter=Fil)
                t.tv, t.tf, t.td = 'V', F, D(k='item')
                got = str(t)
        except Exception as e:
            got = tutil.excname(e) if hasattr(tutil, 'excname') else '%s: %s' % (type(e).__name__, str(e).strip()[:200])
        ctx.outcome('same' if got == want else 'other')
        if got != want:
            a, b = got.split('\n'), want.split('\n')
            first = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            ctx.fail('switch', 'settings %r, source %r: line %d of the output is %r, not %r' % (settings, src, first + 1, a[first:first + 1], b[first:first + 1]))
            return
        got = str(Template.compile('A ${v} ## c\n#if 1#x#end if#@v', useCache=False)(searchList=[{'v': 'V'}]))
        if got != 'A V \nx@v':
            ctx.fail('leak', 'after %r a template without settings renders %r' % (src, got))
    elif case[0] == 'conv':
        s = case[1]
        n = number(s)
        low = s.strip().lower()
        if low.startswith('python:'):
            want = eval(s.strip()[7:].strip())
        elif low in ('none', 'true', 'false'):
            want = {'none': None, 'true': True, 'false': False}[low]
        elif any(c in s.strip().lstrip('+- ').replace('e-', '').replace('e+', '') for c in '+-'):
            ctx.outcome('sum')              # no literal
            return
        elif n is not None:
            want = n
        else:
            want = s.strip()
        for line in ('aKey = %s', 'aKey=%s', 'aKey : %s'):
            m = SettingsManager()
            try:
                m.updateSettingsFromConfigStr((line % s) + '\nother = x\n')
                got = m.settings()
            except Exception as e:
                got = '%s: %s' % (type(e).__name__, str(e)[:100])
            ctx.trans()
            ctx.state(type(want).__name__)
            if not isinstance(got, dict) or set(got) != {'aKey', 'other'} or got['other'] != 'x' or type(got['aKey']) is not type(want) or repr(got['aKey']) != repr(want):
                ctx.fail('conv', 'settings text %r gives %r, not %r' % (line % s, got, want))
                return
        ctx.outcome(type(want).__name__)
    elif case[0] == 'merge':
        import copy
        idx, merges = case[1], case[2]
        ds = [copy.deepcopy(DICTS[i]) for i in idx]
        m = SettingsManager()
        model = {}

        def merge(a, b):
            r = dict(a)
            for k, v in b.items():
                r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(r.get(k), dict) else v
            return r
        for k, d in enumerate(ds):
            how = k == 0 or merges[k - 1]
            m.updateSettings(d, merge=how)
            model = merge(model, d) if how else dict(model, **d)
            ctx.trans()
            ctx.state(repr(model))
            if m.settings() != model:
                ctx.fail('merge', 'updating with %r gives %r, not %r' % (ds[:k + 1], m.settings(), model))
                return
        if ds != [DICTS[i] for i in idx]:
            ctx.fail('merge alias', 'updating with %r changed the dictionaries given to %r' % ([DICTS[i] for i in idx], ds))
        ctx.outcome('merged')
    else:
        import copy
        base = {'nested': copy.deepcopy(DICTS[case[1]]), 'cheetahVarStartToken': '@'}
        before = copy.deepcopy(base)
        src = '#compiler-settings python\nnested = {"z": 1, "a": {"zz": 1}}\ncheetahVarStartToken = "^"\n#end compiler-settings\n^v'
        if case[2] == 'python':
            got = str(Template.compile(src, compilerSettings=base, useCache=False)(searchList=[{'v': 'V'}]))
        else:
            class Sub(Template):
                _CHEETAH_compilerSettings = base
            got = str(Sub.compile(src, useCache=False)(searchList=[{'v': 'V'}]))
        ctx.trans()
        ctx.state(case[2])
        if got != 'V' or base != before:
            ctx.fail('alias', 'compiling %r gave %r and changed the settings given from %r to %r' % (src, got, before, base))
        ctx.outcome('alias')
