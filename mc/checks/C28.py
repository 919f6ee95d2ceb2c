"""Signatures: every #def, #block and #closure is called like the Python function with the same signature, defaults and decorators."""
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one definition (kind, signature, spelling, layout, decorators); every call of the bounded set is made from Python and from within the template, and must give what the Python function with that signature gives, '
        'or raise TypeError where that function does; states are the results of calls, transitions are calls')
BOUNDS = {'quick': {'signatures': '0-3 plain, 0-2 defaulted, * and ** parameters', 'calls': '0..n+1 positional arguments x subsets of the keywords, * and ** arguments', 'decorators': '14 stacks', 'layouts': 7, 'defaults': 45},
          'thorough': {'signatures': 'as quick', 'calls': 'as quick', 'decorators': 'all stacks with all layouts and spellings', 'layouts': 7, 'defaults': 'pairs'}}
ASSUMPTIONS = ['keywords that no parameter takes are accepted and ignored (the hidden **KWS of every template method), so they are not among the calls',
               'keyword-only parameters, annotations and unparenthesised lambdas as defaults are rejected by the parser and are not among the signatures',
               'what a #block shows in its place when a decorator changes its result (or makes it static) is not judged, nor are blocks with a ** parameter, which takes the transaction']

G = [5, 6]
LOG = []


def f(*a, **k):
    return (a, sorted(k.items()))


def wrap(n):
    def deco(fn):
        LOG.append('w%s' % n)

        def inner(*a, **k):
            return '<%s%s>' % (n, fn(*a, **k) or '')
        return inner
    return deco


def mark(n):
    def deco(fn):
        LOG.append('m%s' % n)
        return fn
    return deco


ENV = {'G': G, 'f': f, 'wrap': wrap, 'mark': mark}

STACKS = [[], ['staticmethod'], ['classmethod'], ['wrap(1)'], ['mark(1)'], ['mark(1)', 'staticmethod'], ['mark(1)', 'classmethod'], ['staticmethod', 'wrap(1)'], ['classmethod', 'wrap(1)'], ['mark(1)', 'wrap(2)'],
          ['wrap(1)', 'wrap(2)'], ['mark(1)', 'mark(2)', 'staticmethod'], ['mark(1)', 'classmethod', 'wrap(2)'], ['wrap(1)', 'mark(2)']]
LAYOUTS = ['long', 'colon', 'short', 'lines', 'self', 'tight', 'spaced']
SPELL = ['$', '', 'mix']
DSPELL = ['@%s', '@%s  ', '@%s\t', '@%s ## x']
DEFAULTS = ["1", "'x,y)'", "(1, 2)", "{'k': [1]}", "$G", "$G[0:1]", "G[0:1]", "[1,2][0]", '"a" + \'b\'', "1 if 0 else 2", "$f(1)", "f(1, x=2)", "not 1", "-1", "None", "'='", "G == 1", "$G != 1", "G is None", "1>=1", "1==1",
            "f(x=1==2)", "[i for i in (1, 2)]", "{1: 2, 3: 4}", "{1, 2}", "'''a\nb'''", "1e5", "0x1F", "f\n(2)", "(1,)", "()", "'%s'", "'$x'", "u'a'", "r'\\d'", "$f($G)", "f(1)[0]", "$f(1)[0]", "(lambda: 1)()", "(lambda x=1: x)(2)",
            "1 or 2", "2**3", "1//2", "'a' 'b'", "1 <2", "f(*[1])", "'#'", "1<=2==True", "'a' == \"b\"", "$len($G)", "'\\n'"]


def sigs():
    for n, d, s, k in itertools.product(range(4), range(3), (0, 1), (0, 1)):
        yield [n, d, s, k]


def params(sig, defs):
    n, d, s, k = sig
    return [('abc'[i], None) for i in range(n)] + [('de'[i], defs[i]) for i in range(d)] + ([('*r', None)] if s else []) + ([('**k', None)] if k else [])


def enum(tier, mode):
    full = tier == 'thorough'
    for kind in ('def', 'block', 'closure', 'nested'):
        for sig in sigs():
            if kind == 'block' and (sig[0] or sig[3]):
                continue
            for st in range(len(STACKS)):
                if kind == 'block' and any('mark' not in x for x in STACKS[st]):
                    continue            # the place of a decorated block
                if kind in ('closure', 'nested') and any('method' in x for x in STACKS[st]):
                    continue
                for lay in LAYOUTS:
                    if lay == 'self' and (any('method' in x for x in STACKS[st]) or kind in ('closure', 'nested')):
                        continue
                    for sp in SPELL:
                        if full or (LAYOUTS.index(lay) + st + SPELL.index(sp) + sum(sig)) % 2 == 0 or st < 3 and lay == 'long':
                            yield ['sig', kind, sig, ['1', "'q'"], st, lay, sp, 0]
                for ds in range(1, len(DSPELL)):
                    if STACKS[st]:
                        yield ['sig', kind, sig, ['1', "'q'"], st, 'long', '', ds]
    for kind in ('def', 'block', 'closure', 'nested'):
        for i, j in itertools.product(range(len(DEFAULTS)), repeat=2):
            if full or i == 0 or j == 0 or i == j:
                for lay in ('long', 'short', 'tight'):
                    if '\n' in DEFAULTS[i] + DEFAULTS[j] and lay == 'short':
                        continue
                    for st in (0, 1) if kind == 'def' else (0,):
                        yield ['sig', kind, [0, 2, 0, 0], [DEFAULTS[i], DEFAULTS[j]], st, lay, '', 0]


    for name in ('searchList', 'SL'):
        for n, at in itertools.product(range(4), range(4)):
            if at <= n:
                for st in range(3):
                    for lay in ('long', 'short'):
                        for v in range(4):
                            yield ['searchList', name, n, at, st, lay, v]


def check_sl(case, ctx):
    # a parameter called searchList (or SL) is where the method looks names up
    _, name, n, at, st, lay, v = case
    names = list('abc'[:n])
    names.insert(at, name)
    body = '[$v|%s]' % '|'.join('$%s' % x for x in 'abc'[:n])
    deco = ''.join('#@%s\n' % s for s in STACKS[st])
    args = ', '.join(names)
    src = deco + ('#def m(%s): %s\n' % (args, body) if lay == 'short' else '#def m(%s)\n%s#slurp\n#end def\n' % (args, body))
    lists = ['[{"v": 1}]', '[{"w": 1}, {"v": 2}]', '[{"v": 3}, {"v": 4}]', '[{"w": 1}]']
    vals = [str(i) for i in range(n)]
    vals.insert(at, lists[v])
    src += '#try#$m(%s)#except NotFound#NotFound#end try#' % ', '.join(vals)
    want = 'NotFound' if v == 3 else '[%s|%s]' % ([1, 2, 3][v], '|'.join(str(i) for i in range(n)))
    from Cheetah.NameMapper import NotFound
    c = tutil.outcome(tutil.compile_, src, moduleGlobals={'NotFound': NotFound})
    if c[0] != 'ok':
        return ctx.fail('compile', '%r does not compile: %s' % (src, c[1]))
    try:
        for own in ({}, {'v': 'own'}):
            if v == 3 and own:
                continue
            g = tutil.outcome(str, c[1](searchList=[own]))
            ctx.evals += 1
            ctx.trans(1)
            ctx.outcome(g[0])
            ctx.state(g)
            if g != ('ok', want):
                return ctx.fail('search list', '%r with %r gives %r, not %r' % (src, own, g, want))
        ctx.interesting(True)
    finally:
        tutil._cleanup(c[1])


def pyfunc(ps, stack):
    names = [p[0].lstrip('*') for p in ps]
    src = 'def m(%s):\n    return "[%%s]" %% "|".join([%s])\n' % (', '.join(p + ('=' + d.replace('$G', 'G').replace('$f', 'f').replace('$len', 'len') if d is not None else '') for p, d in ps),
                                                                ', '.join('repr(%s)' % n if n != 'k' else 'repr(sorted(k.items()))' for n in names))
    ns = dict(ENV)
    exec(src, ns)
    m = ns['m']
    del LOG[:]
    for s in reversed(stack):
        if 'method' not in s:
            m = eval(s, ns)(m)
    return m, LOG[:]


def template(kind, ps, stack, lay, sp, ds, calls):
    def spell(i, p):
        if p.startswith('*'):
            return p
        return '$' + p if sp == '$' or sp == 'mix' and i % 2 else p
    tight = lay == 'tight'
    args = [spell(i, p) + ((('=%s' if tight else ' = %s' if lay == 'spaced' else '=%s') % d) if d is not None else '') for i, (p, d) in enumerate(ps)]
    if lay == 'self':
        args = ['self'] + args
    al = '(%s)' % (',' if tight else ' , ' if lay == 'spaced' else ',\n    ' if lay == 'lines' else ', ').join(args)
    if lay == 'lines':
        al = '(\n ' + al[1:-1] + '\n)'
    if not args and tight:
        al = ''
    body = '[%s]' % '|'.join('$repr($%s)' % n if n != 'k' else '$repr($sorted($k.items()))' for n in (p.lstrip('*') for p, d in ps))
    word = 'def' if kind == 'nested' else kind
    deco = ''.join('#' + DSPELL[ds] % s + '\n' for s in stack)
    if lay == 'short':
        d = '%s#%s m%s: %s\n' % (deco, word, al, body)
    else:
        d = '%s#%s %sm%s%s\n%s#slurp\n#end %s\n' % (deco, word, '$' if sp == '$' else '', al, ':' if lay == 'colon' else '', body, word)
    ctext = ''.join('#try#~%s#except TypeError#TypeError#end try#' % c for c in calls) + '\n'
    if kind == 'nested':
        return '#def outer\n' + d + '=' + ctext + '#end def\n$outer#slurp\n'
    return d + '=' + ctext


def make_calls(ps):
    plain = [p for p, d in ps if not p.startswith('*')]
    n = len(plain)
    haskw = any(p == '**k' for p, d in ps)
    out = []
    for np in range(n + 2):
        for mask in range(1 << n):
            kws = [plain[i] for i in range(n) if mask >> i & 1]
            if len(kws) > 2 and len(kws) != n:
                continue
            out.append((np, kws))
            if haskw and len(kws) < 2:
                out.append((np, kws + ['z']))
    return out


def ctext(np, kws, form):
    pos = [str(10 + i) for i in range(np)]
    kw = ["%s='%s%d'" % (w, w, i) for i, w in enumerate(kws)]
    if form == 'plain':
        return '(%s)' % ', '.join(pos + kw)
    if form == 'star':
        return '(*[%s])' % ', '.join(pos) if not kw else '(*[%s], **dict(%s))' % (', '.join(pos), ', '.join(kw))
    if form == 'mixstar':
        return '(%s*[%s]%s)' % (pos[0] + ', ' if pos else '', ', '.join(pos[1:]), ''.join(', ' + w for w in kw))
    return None


def check(case, ctx):
    if case[0] == 'searchList':
        return check_sl(case, ctx)
    _, kind, sig, defs, st, lay, sp, ds = case
    ps = params(sig, defs)
    stack = STACKS[st]
    fn, log = pyfunc(ps, stack)
    calls = make_calls(ps)
    want, texts = [], []
    for i, (np, kws) in enumerate(calls):
        a, k = [10 + x for x in range(np)], {w: '%s%d' % (w, x) for x, w in enumerate(kws)}
        o = tutil.outcome(fn, *a, **k)
        ctx.outcome(o[0] if o[0] == 'ok' else o[1])
        want.append(o)
        form = ('plain', 'star', 'mixstar')[(i + sum(sig)) % 3]
        pre = ('$m%s', '${m%s}', '$self.m%s')[i % 3] if kind in ('def', 'block') else ('$m%s', '${m%s}')[i % 2]
        texts.append(pre % ctext(np, kws, form))
    src = template(kind, ps, stack, lay, sp, ds, texts)
    del LOG[:]
    c = tutil.outcome(tutil.compile_, src, moduleGlobals=dict(ENV))
    if c[0] != 'ok':
        return ctx.fail('compile', '%r does not compile: %s' % (src, c[1]))
    klass = c[1]
    try:
        glog = LOG[:]
        t = klass()
        out = tutil.outcome(str, t)
        ctx.trans(len(texts))
        ctx.evals += len(texts)
        glog = LOG[:] if kind in ('closure', 'nested') else glog
        if glog != log:
            return ctx.fail('decorators', '%r applies the decorators %r, not %r' % (src, glog, log))
        if out[0] != 'ok':
            return ctx.fail('render', '%r raises %s' % (src, out[1]))
        ctx.state((tuple(sig), out[1]))
        ctx.interesting(True)
        marks = ''.join('<' + s[5] for s in stack if s.startswith('wrap'))
        exp = '='
        for o in want:
            r = o[1]
            if kind in ('closure', 'nested') and marks and o[0] == 'ok':
                # the body writes straight to the output, and its wrappers' result follows it
                r = r[len(marks):len(r) - len(marks) // 2] + marks + '>' * (len(marks) // 2)
            exp += '~' + (r if o[0] == 'ok' else 'TypeError')
        if kind == 'block':
            exp = fn() + exp
        text = out[1].replace('\n', '')          # values are written by repr(), so line ends are the template's own
        if text != exp:
            g, e = text.split('~'), exp.split('~')
            for i, (x, y) in enumerate(zip(g[1:], e[1:])):
                if x != y:
                    return ctx.fail('template call', '%r in %r gives %r, the Python function %r' % (texts[i], src, x, y))
            return ctx.fail('template text', '%r gives %r, expected %r' % (src, text, exp))
        if kind in ('def', 'block'):
            for (np, kws), o in zip(calls, want):
                a, k = [10 + x for x in range(np)], {w: '%s%d' % (w, x) for x, w in enumerate(kws)}
                objs = [t, klass] if any('method' in s for s in stack) else [t]
                for obj in objs:
                    g = tutil.outcome(obj.m, *a, **k)
                    ctx.evals += 1
                    ctx.trans(1)
                    if g[0] == 'ok':
                        g = ('ok', str(g[1]).replace('\n', ''))
                    if g != o:
                        return ctx.fail('python call', 'm(*%r, **%r) of %r gives %r, the Python function %r' % (a, k, src, g, o))
    finally:
        tutil._cleanup(klass)
