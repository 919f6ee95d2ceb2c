"""Compile cache: all ordered pairs and triples of compile requests, each result compared with an uncached compile."""
import copy
import itertools
import os
import re
import shutil
import sys
import tempfile

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one history of compile requests with caching on, starting from sources not compiled before; the class (or module text) of every '
        'request is rendered and compared in name, module, main method, bases, globals and output with one compiled without the cache; '
        'states are (set of requests made, request), transitions are compilations')
BOUNDS = {'quick': {'histories': 'all ordered pairs of 75 requests; all triples of 14; file histories of length 4 over 8 operations'},
          'thorough': {'histories': 'all ordered pairs of 75 requests; all triples of 34; file histories of length 5 over 8 operations'}}
ASSUMPTIONS = ['a change of a template file changes its modification time']


def hookA(parser, expr, exprType, rawExpr=None, startPos=None):
    return expr.replace('"x"', '"y"')


def hookB(parser, expr, exprType, rawExpr=None, startPos=None):
    return expr


def pre1(source, file):
    return source.replace('one', 'ONE') if source else source, file


def pre2(source, file):
    return source.replace('one', 'TWO') if source else source, file


def mac1(src, **kw):
    return 'm1' + src


def mac2(src, **kw):
    return 'm2' + src


def prepare():
    from Cheetah.Template import Template
    from Cheetah.Compiler import Compiler

    class B1(Template):
        bb = 'B1'

    class B2(Template):
        bb = 'B2'

    class B3(object):
        bb = 'B3'
    B1b = type('B1', (Template,), {'bb': 'B1b'})

    class Comp1(Compiler):
        pass

    class Comp2(Compiler):
        def getModuleCode(self):
            return Compiler.getModuleCode(self).replace("one", "COMP2")

    class T1(Template):
        _CHEETAH_compilerSettings = {'useNameMapper': True, 'cheetahVarStartToken': '@'}

    class T2(Template):
        _CHEETAH_defaultClassNameForTemplates = 'T2Class'
        _CHEETAH_defaultMainMethodNameForTemplates = 'run'

    S = 'one $x @x %x $!g $!bb #def q#Q#end def#$q'
    S2 = 'two $x'
    R = [('base', {}), ('source', {'source': S2}), ('sourcews', {'source': S + ' '}), ('sourceuni', {'source': S + 'é'}), ('sourceuni2', {'source': S + 'è'})]

    def add(n, **kw):
        R.append((n, kw))
    # settings: names and values of several kinds
    for i, cs in enumerate([{'cheetahVarStartToken': '@'}, {'cheetahVarStartToken': '%'}, {'cheetahVarStartToken': '$'}, {'useNameMapper': False}, {'useNameMapper': True},
                            {'expressionFilterHooks': [hookA]}, {'expressionFilterHooks': [hookB]}, {'expressionFilterHooks': []}, {'expressionFilterHooks': [hookA, hookB]},
                            {'macroDirectives': {'mm': mac1}}, {'macroDirectives': {'mm': mac2}}, {'macroDirectives': {}}, {'disabledDirectives': ['def']}, {'disabledDirectives': ['set']},
                            {'enabledDirectives': ['def', 'end']}, {'commentOffset': 1}, {'commentOffset': 2}, {'reprShortStrConstants': -1}, {'useSearchList': False}, {'mainMethodName': 'go'}, {'mainMethodName': 'went'},
                            {'initialMethIndentLevel': 2}, {'initialMethIndentLevel': 3}, {'useFilters': False}, {'useFilters': True}, {'directiveStartToken': '%'}, {'directiveStartToken': '%', 'directiveEndToken': '%'},
                            {'allowNestedDefScopes': False}, {}]):
        add('settings%d' % i, compilerSettings=cs)
    add('macro1', source='#mm#one#end mm#', compilerSettings={'macroDirectives': {'mm': mac1}})
    add('macro2', source='#mm#one#end mm#', compilerSettings={'macroDirectives': {'mm': mac2}})
    # names that concatenate alike
    for c, m, mm in [('ab', 'c', None), ('a', 'bc', None), ('abc', '', None), ('a', 'b', 'c'), ('a', 'b', 'cd'), ('ab', 'c', 'd'), ('a', 'bc', 'd'), ('aNone', 'b', None), ('K', 'aN', 'one'), ('K', 'a', 'None'), ('K', 'a', None), ('_K', 'a', None), ('K1', '1a', None), ('K', '11a', None)]:
        kw = {}
        if c:
            kw['className'] = c
        if m:
            kw['moduleName'] = m
        if mm:
            kw['mainMethodName'] = mm
        add('names %s %s %s' % (c, m, mm), **kw)
    for n, b in [('B1', B1), ('B2', B2), ('B3', B3), ('B1b', B1b), ('dict', dict), ('str', 'Template')]:
        add('baseclass ' + n, baseclass=b)
    for v in (-1, -2, 1, True, 1.0, 0, False, None, '1', '', (1,), [1], [1.0], [True], {'k': 1}, {'k': True}, {1, 2}, 0.0, -0.0):
        add('globals %r' % (v,), moduleGlobals={'g': v})
    add('globals other', moduleGlobals={'h': 1})
    add('globals two', moduleGlobals={'g': 1, 'h': 2})
    add('compiler1', compilerClass=Comp1)
    add('compiler2', compilerClass=Comp2)
    add('pre1', preprocessors=pre1)
    add('pre2', preprocessors=[pre2])
    add('pre12', preprocessors=[pre1, pre2])
    add('pretok', preprocessors=[{'tokens': '@ %', 'searchList': [{'x': 'PX'}]}])
    add('pretok2', preprocessors=[{'tokens': '@ %', 'searchList': [{'x': 'PY'}]}])
    add('preset', preprocessors=[{'tokens': '@ &', 'compilerSettings': {'useNameMapper': True}, 'templateInitArgs': {'searchList': [{'x': 'IA'}]}}])
    add('T1', _via=T1)
    add('T2', _via=T2)
    add('code', returnAClass=False)
    add('codeuni', returnAClass=False, source='#encoding utf-8\n' + S + 'é')
    add('classuni', source='#encoding utf-8\n' + S + 'é')
    add('codelat', returnAClass=False, source='#encoding latin-1\n' + S + 'é')
    add('classlat', source='#encoding latin-1\n' + S + 'é')
    add('keep', keepRefToGeneratedCode=True)
    add('nocache', useCache=False)
    add('nostore', cacheCompilationResults=False)
    add('bad', source=S + '#if 1')
    return S, R


S, R, NAMES = None, None, None


def init(mode, tier):
    global S, R, NAMES
    S, R = prepare()
    NAMES = [n for n, _ in R]


TRIPLE = ['base', 'settings0', 'settings5', 'settings9', 'names ab c None', 'names a bc None', 'baseclass B1', 'baseclass B1b', 'globals -1', 'globals -2', 'code', 'pretok', 'nocache', 'T1']


def enum(tier, mode):
    if R is None:
        init(mode, tier)
    for a in NAMES:
        for b in NAMES:
            yield ['seq', [a, b]]
    t = TRIPLE if tier == 'quick' else TRIPLE + [n for n in NAMES if n not in TRIPLE][::4][:20]
    for a in itertools.product(t, repeat=3):
        if len(set(a)) > 1:
            yield ['seq', list(a)]
    for h in itertools.product(FILEOPS, repeat=4 if tier == 'quick' else 5):
        if sum(o in 'CDSX' for o in h) >= 2 and h[-1] in 'CDSX':
            yield ['file', list(h)]


FILEOPS = ['C', 'D', 'S', '1', '2', 'T', 'N', 'X']
_case = [0]


def clean_code(code):
    if isinstance(code, bytes):
        code = code.decode('latin-1')
    code = re.sub(r"__CHEETAH_gen(Time|Timestamp)__ = .*", '', code)
    code = re.sub(r'_\d{8}\b', '_ID', code)
    return code


def args(kw, tag):
    kw = dict(kw)
    via = kw.pop('_via', tutil.T())
    kw['source'] = kw.get('source', S) + '\n## ' + tag
    return via, kw


def fingerprint(x, tag):
    """Everything observable about a compilation result."""
    if isinstance(x, (bytes, str)):
        return ['code', clean_code(x).replace(tag, 'TAG'), type(x).__name__]
    mod = sys.modules.get(x.__module__)
    name = x.__name__
    main = getattr(x, '_mainCheetahMethod_for_' + name, None)
    out = tutil.outcome(lambda: str(x(searchList=[{'x': 'X', 'y': 'Y'}]) if not issubclass(x, dict) else main))
    return ['class', name, re.sub(r'^cheetah_|_\d+_\d+_\d+$', '', x.__module__), main, [(b.__module__ if not hasattr(sys.modules.get(b.__module__), '__CHEETAH_version__') else 'tmpl', b.__name__, getattr(b, 'bb', None)) for b in x.__mro__[1:]],
            repr([(g, getattr(mod, g, 'absent')) for g in 'gh']), out, sorted(n for n in x.__dict__ if not n.startswith('_')), hasattr(x, 'q')]


def call(kw, tag, **extra):
    via, kw = args(kw, tag)
    kw.update(extra)
    return via.compile(**kw)


def clear():
    T = tutil.T()
    c = getattr(T, '_CHEETAH_compileCache', None)
    if hasattr(c, 'clear'):
        c.clear()
    for n in [n for n in sys.modules if n.startswith('cheetah_') or re.search(r'_\d+_\d+_\d+$', n)]:
        del sys.modules[n]


def snapshot(kw):
    """A comparable picture of the caller's arguments."""
    def pic(v):
        if isinstance(v, dict):
            return ('d', sorted(((repr(k), pic(x)) for k, x in v.items())))
        if isinstance(v, (list, tuple)):
            return (type(v).__name__, [pic(x) for x in v])
        return repr(v)
    return pic(kw)


_fresh = {}


def fresh(name, tag):
    if name not in _fresh:
        kw = R[NAMES.index(name)][1]
        r = tutil.outcome(lambda: fingerprint(call(kw, 'fresh', cacheCompilationResults=False, useCache=False), 'fresh'))
        _fresh[name] = r
    return _fresh[name]


def check(case, ctx):
    _case[0] += 1
    ctx.trace()
    if case[0] == 'file':
        return do_file(case, ctx)
    tag = 'q%d' % _case[0]
    results = []
    try:
        for k, name in enumerate(case[1]):
            kw = R[NAMES.index(name)][1]
            want = fresh(name, tag)
            pic = snapshot(kw)
            extra = {} if name in ('nocache', 'nostore') else {'cacheCompilationResults': True, 'useCache': True}
            got = tutil.outcome(lambda: call(kw, tag, **extra))
            if snapshot(kw) != pic:
                ctx.fail('arguments modified', 'request %s: arguments %s became %s' % (name, pic, snapshot(kw)))
                return
            ctx.trans()
            ctx.evals += 1
            ctx.outcome(got[0])
            ctx.state(sorted(case[1][:k]), name)
            results.append((name, got))
            # results of all requests so far, including earlier ones
            for n2, g2 in results:
                f2 = ('ok', fingerprint(g2[1], tag)) if g2[0] == 'ok' else g2
                w2 = fresh(n2, tag)
                if f2 != w2:
                    diff = [(a, b) for a, b in zip(f2[1], w2[1]) if a != b] if f2[0] == w2[0] == 'ok' else [(f2, w2)]
                    ctx.fail('wrong class', 'history %s: request %s gives something else than compiling it afresh: %s' % (case[1][:k + 1], n2, str(diff)[:600]))
                    return
        if case[1][0] != case[1][-1] and results[0][1][0] == 'ok':
            ctx.interesting(case[1][0], case[1][-1])
    finally:
        if _case[0] % 20 == 0:
            clear()


def do_file(case, ctx):
    """Histories over one file name: C compile file, D compile with other settings, S compile its text, X instance from file, 1/2 write, T touch, N other name."""
    h = case[1]
    T = tutil.T()
    d = tempfile.mkdtemp(prefix='c12')
    tag = 'f%d' % _case[0]
    try:
        path = os.path.join(d, 'a.tmpl')
        content, stamp = 'one-' + tag, 1000000
        oldest = stamp

        def put():
            with open(path, 'w') as f:
                f.write(content + ' $x @x')
            os.utime(path, (stamp, stamp))
        put()
        cur = path
        for k, op in enumerate(h):
            ctx.trans()
            if op in '12':
                content = {'1': 'one-', '2': 'two-'}[op] + tag
                # a moment later, or an older version put back
                stamp = stamp + 0.25 if op == '1' else oldest - 0.5
                oldest = min(oldest, stamp)
                put()
            elif op == 'T':
                stamp += 10
                os.utime(path, (stamp, stamp))
            elif op == 'N':
                # the same content under another path
                path = os.path.join(d, 'sub%d.tmpl' % k)
                content = content + 'n'
                put()
            else:
                text = content + ' $x @x'
                want = text.replace('$x' if op != 'D' else '@x', 'X')
                if op == 'C':
                    f = lambda: str(T.compile(file=path)(searchList=[{'x': 'X'}]))
                elif op == 'D':
                    f = lambda: str(T.compile(file=path, compilerSettings={'cheetahVarStartToken': '@'})(searchList=[{'x': 'X'}]))
                elif op == 'S':
                    f = lambda: str(T.compile(source=text)(searchList=[{'x': 'X'}]))
                else:
                    f = lambda: str(T(file=path, searchList=[{'x': 'X'}]))
                got = tutil.outcome(f)
                ctx.evals += 1
                ctx.outcome('file ' + got[0])
                if got != ('ok', want):
                    ctx.fail('stale file', 'history %s: operation %d (%s) gives %r, expected %r' % (' '.join(h), k, op, got, want))
                    return
            ctx.state('file', content[:3], k, op)
    finally:
        shutil.rmtree(d)
        if _case[0] % 20 == 0:
            clear()
