"""Preprocessors: all short sequences of constructs of one, two or three syntaxes, piped through preprocessors written in every accepted form, against the text each
stage has to produce."""
import io
import itertools
import os
import tempfile

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one pipe case = one sequence of constructs, each in the syntax of one stage, compiled through the preprocessors of one form; the model gives the source after each stage, and the '
        'template must render as the final source compiled alone; one error case = a malformed stage or preprocessor; states are the intermediate sources, transitions are stages')
BOUNDS = {'quick': {'constructs': '23 of the preprocess syntax, 6 of the final syntax', 'one preprocessor': 'sequences of 2 in 18 forms, of 3 in 1 form; 3 pairs of tokens; from a source, a path, a file',
                    'pipelines': 'all sequences of 2 over two and three stages', 'final arguments': '4'},
          'thorough': {'one preprocessor': 'sequences of 3 in 18 forms, of 4 in 1 form', 'pipelines': 'sequences of 3'}}
ASSUMPTIONS = ['constructs are separated so that no construct continues the one before it']

TOKENS = [('@', '%'), ('~', '^'), ('@:', '%:'), ('?', '|')]


# (source, output, needs the namespace); {P} and {D} are the tokens, {n} the number of the stage
SEGS = [
    ('x ', 'x ', 0), ('{P}a ', 'va{n} ', 1), ('{P}{{a}}y', 'va{n}y', 1), ('{P}d.k ', 'vk{n} ', 1), ('{P}c ', '$b ', 1),
    ('{D}if {P}t{D}{P}a{D}else{D}n{D}end if{D} ', 'va{n} ', 1), ('{D}for {P}i in {P}L{D}{P}i.$b {D}end for{D} ', '1.$b 2.$b  ', 1), ('p{D}set {P}q = 5{D} ', 'p ', 0),
    ('p\n{D}set {P}q = 5\n{P}q\n', 'p\n5\n', 0), ('p\n{D}{D} comment {P}a $b\n', 'p\n', 0), ('z{D}* c {P}zz *{D}y', 'zy', 0), ('\\{P}a ', '{P}a ', 0), ('k{D}\nl', 'kl', 0),
    ('{D}if 1 then "$b" else "n"{D} ', '$b ', 0), ('\\$b ', '\\$b ', 0), ('{D}def g(x){D}<{P}x>{D}end def{D} {P}g(3) ', ' <3> ', 0), ('\\{D}if ', '{D}if ', 0),
    ('{P}up("b") ', '$B ', 1), ('{D}silent 1{D}s ', 's ', 0), ('{P}n ', ' ', 1), ('{P}{{c}}[0] ', '$b[0] ', 1), ('p\n{D}raw\n{P}a {D}if\n{D}end raw\n', 'p\n{P}a {D}if\n', 0),
    ('{P}u ', '\u00e9\u4e00 ', 1),
]
FINAL = [('$b ', 0), ('#if $t#{P}a $b#end if# ', 1), ('#set $w = "{P}a "#$w ', 1), ('p\n## c {P}a \n', 1), ('#def m(x)#[{P}a $x]#end def#$m(2) ', 1), ('p\n#for $i in [1, 2]\n$i\n#end for\n', 0)]
NSEG = len(SEGS)
ONE = list(range(NSEG + len(FINAL)))
FEW = [1, 4, 6, 8, 9, 11, 12, 14, 15, 21, NSEG + 1, NSEG + 3, NSEG + 5]


def ns(n, nxt=None):
    """The namespace of stage n; nxt: the tokens of the next stage."""
    d = {'a': 'va%d' % n, 'd': {'k': 'vk%d' % n}, 'c': '$b', 't': True, 'L': [1, 2], 'up': lambda s: '$' + s.upper(), 'n': None, 'u': '\u00e9\u4e00'}
    d['e'] = (nxt[0] + 'a ') if nxt else '$b '
    return d


def put(s, n, tok):
    return s.replace('{P}', tok[0]).replace('{D}', tok[1]).replace('{n}', str(n)).replace('{{', '{').replace('}}', '}')


FINALNS = {'b': 'vb', 't': 1, 'B': 'vB'}


def seg(i, n, tok, names):
    """(source, output) of construct i in the syntax of stage n, or None."""
    if i < NSEG:
        s, o, need = SEGS[i]
    else:
        s, need = FINAL[i - NSEG]
        o = s.replace('{P}a', 'va{n}')
    if need and not names:
        return None
    return put(s, n, tok), put(o, n, tok)


FORMS = ['str', 'liststr', 'tuple', 'list', 'dict', 'dicttuple', 'notlist', 'namespaces', 'init', 'initone', 'object', 'two', 'settings', 'setinit', 'initboth', 'transformer', 'api', 'globals', 'callable', 'method']
NAMELESS = ('str', 'liststr', 'tuple', 'list')


def spec(form, tok, n, nxt, src, inter):
    """(preprocessors item, whole argument?, dictionaries that belong to the caller)"""
    P, D = tok
    space = ns(n, nxt)
    st = P + ' ' + D
    if form == 'str':
        return st
    if form == 'liststr':
        return st
    if form == 'tuple':
        return (P, D)
    if form == 'list':
        return [P, D]
    if form == 'dict':
        return {'tokens': st, 'searchList': [{'zzz': 1}, space]}
    if form == 'dicttuple':
        return {'tokens': (P, D), 'searchList': [space, {'a': 'second'}]}
    if form == 'notlist':
        return {'tokens': st, 'searchList': space}
    if form == 'namespaces':
        return {'tokens': st, 'namespaces': [space]}
    if form == 'init':
        return {'tokens': [P, D], 'templateInitArgs': {'searchList': [space]}}
    if form == 'initone':
        return {'tokens': st, 'templateInitArgs': {'searchList': space}}
    if form == 'object':
        class S(object):
            tokens = st
            searchList = [space]
        return S()
    if form == 'two':
        return {'placeholderToken': P, 'directiveToken': D, 'searchList': [space]}
    if form == 'settings':
        return {'compilerSettings': {'cheetahVarStartToken': P, 'directiveStartToken': D, 'directiveEndToken': D, 'commentStartToken': D + D, 'multiLineCommentStartToken': D + '*',
                                     'multiLineCommentEndToken': '*' + D, 'EOLSlurpToken': D}, 'searchList': [space]}
    if form == 'setinit':
        return {'compilerSettings': {'cheetahVarStartToken': P, 'directiveStartToken': D, 'directiveEndToken': D, 'commentStartToken': D + D, 'multiLineCommentStartToken': D + '*',
                                     'multiLineCommentEndToken': '*' + D, 'EOLSlurpToken': D}, 'templateInitArgs': {'searchList': (space,), 'errorCatcher': None}}
    if form == 'initboth':
        return {'tokens': st, 'templateInitArgs': {'searchList': [space]}, 'compilerSettings': {'useStackFrames': False}, 'keepRefToGeneratedCode': False}
    if form == 'transformer':
        return {'tokens': st, 'searchList': [space], 'outputTransformer': lambda t: str(t).replace('va', 'VA') + '!'}
    if form == 'api':
        class Sub(tutil.T()):
            pass
        return {'tokens': st, 'searchList': [space], 'templateAPIClass': Sub}
    if form == 'globals':
        return {'tokens': st, 'moduleGlobals': space, 'className': 'Stage', 'mainMethodName': 'go'}

    def run(source, file):
        if source is None and isinstance(file, str):
            with io.open(file, encoding='utf-8', newline='') as f:
                source = f.read()
        elif source is None:
            source = file.read()
        return (inter if source == src else 'got the wrong source', None)
    if form == 'callable':
        return run

    class M(object):
        def preprocess(self, source, file):
            return run(source, file)
    return M()


FINALARGS = [{}, {'compilerSettings': {'cheetahVarStartToken': '&'}}, {'className': 'Foo'}, {'mainMethodName': 'doIt', 'baseclass': None}]


def enum(tier, mode):
    t = tier == 'thorough'
    for form in FORMS:
        for k in ((1, 2, 3) if t else (1, 2)):
            for s in itertools.product(ONE, repeat=k):
                yield ['pipe', [form], [[0, i] for i in s], 'source', 0]
    for k in ((3, 4) if t else (3,)):
        for s in itertools.product(ONE if k == 3 else FEW, repeat=k):
            yield ['pipe', ['dict'], [[0, i] for i in s], 'source', 0]
    for form in FORMS:
        for i in ONE:
            for d in ('path', 'file', 'class', 'twice', 'cached'):
                yield ['pipe', [form], [[0, i]], d, 0]
            for a in range(1, len(FINALARGS)):
                yield ['pipe', [form], [[0, i]], 'source', a]
    for tok in (1, 2, 3):
        for s in itertools.product(ONE, repeat=2 if t else 1):
            yield ['pipe', ['dict'], [[0, i] for i in s], 'source', 0, tok]
        for s in itertools.product(FEW, repeat=2):
            yield ['pipe', ['dict'], [[0, i] for i in s], 'source', 0, tok]
    for forms in (['dict', 'dict'], ['dict', 'callable'], ['callable', 'dict'], ['transformer', 'object'], ['liststr', 'init']):
        for s in itertools.product([[x, i] for x in (0, 1) for i in FEW] + [[0, 'e']], repeat=2):
            yield ['pipe', forms, list(s), 'source', 0]
            if t:
                for d in ('path', 'class'):
                    yield ['pipe', forms, list(s), d, 0]
    for s in itertools.product([[x, i] for x in (0, 1, 2) for i in (1, 4, 8, 9, 11, NSEG + 1)] + [[0, 'e'], [1, 'e']], repeat=3 if t else 2):
        yield ['pipe', ['dict', 'object', 'dict'], list(s), 'source', 0]
    for i in range(len(BAD)):
        yield ['bad', i]
    for i in range(len(MALFORMED)):
        for d in ('source', 'path'):
            yield ['malformed', i, d]


def model(forms, segs, toks):
    """The source before and after each stage; None when the sequence does not apply."""
    parts = []
    for st, i in segs:
        nxt = toks[st + 1] if st + 1 < len(forms) else None
        names = forms[st] not in NAMELESS
        if i == 'e':
            if not names or not nxt:
                return None
            x = seg(1, st + 1, nxt, forms[st + 1] not in NAMELESS)
            if x is None:
                return None
            parts.append([st, put('{P}e ', st, toks[st]), nxt[0] + 'a  '])
        else:
            x = seg(i, st, toks[st], names)
            if x is None:
                return None
            parts.append([st, x[0], x[1]])
    srcs = [''.join(p[1] for p in parts)]
    for n in range(len(forms)):
        for p in parts:
            if p[0] == n:
                p[1] = p[2]
                if p[1] == (toks[n + 1][0] if n + 1 < len(forms) else '') + 'a  ':
                    p[0], p[2] = n + 1, 'va%d  ' % (n + 1)
            if forms[n] == 'transformer':
                # works on the whole text; constructs of later stages hold no 'va'
                p[1] = p[1].replace('va', 'VA')
                p[2] = p[2]
        s = ''.join(p[1] for p in parts)
        if forms[n] == 'transformer':
            parts.append([99, '!', '!'])
            s += '!'
        srcs.append(s)
    return srcs


def frozen(o):
    """What a preprocessor given by the caller looks like."""
    if isinstance(o, dict):
        return ('dict', id(o), sorted((k, frozen(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [frozen(x) for x in o])
    return id(o)


def do_pipe(case, ctx):
    forms, segs, how, arg = case[1], case[2], case[3], case[4]
    toks = [TOKENS[(0, 1, 3)[n]] for n in range(len(forms))]
    if len(case) > 5:
        toks = [TOKENS[case[5]]]
    srcs = model(forms, segs, toks)
    if srcs is None:
        ctx.outcome('not applicable')
        return
    ctx.state(*srcs)
    ctx.trans(len(forms))
    fin = dict(FINALARGS[arg])
    if 'compilerSettings' in fin:
        fin['compilerSettings'] = dict(fin['compilerSettings'])
    T = tutil.T()
    specs = [spec(f, toks[n], n, toks[n + 1] if n + 1 < len(forms) else None, srcs[n], srcs[n + 1]) for n, f in enumerate(forms)]
    before = frozen(specs)
    whole = specs[0] if len(specs) == 1 and forms[0] not in ('liststr', 'tuple', 'list') else specs
    want = outcome(lambda: T.compile(source=srcs[-1], cacheCompilationResults=False, **fin))
    if how in ('source', 'twice'):
        got = outcome(lambda: T.compile(source=srcs[0], preprocessors=whole, cacheCompilationResults=False, **fin))
        if how == 'twice' and got == want:
            got = outcome(lambda: T.compile(source=srcs[0], preprocessors=whole, cacheCompilationResults=False, **fin))
    elif how == 'cached':
        got = outcome(lambda: T.compile(source=srcs[0], preprocessors=whole, cacheCompilationResults=True, useCache=True, **fin))
        if got == want:
            got = outcome(lambda: T.compile(source=srcs[0], preprocessors=whole, cacheCompilationResults=True, useCache=True, **fin))
    elif how == 'class':
        class Sub(T):
            _CHEETAH_preprocessors = whole
        got = outcome(lambda: Sub.compile(source=srcs[0], cacheCompilationResults=False, **fin))
    else:
        fd, path = tempfile.mkstemp(suffix='.tmpl')
        os.close(fd)
        try:
            with io.open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(srcs[0])
            if how == 'path':
                got = outcome(lambda: T.compile(file=path, preprocessors=whole, cacheCompilationResults=False, **fin))
            else:
                with io.open(path, encoding='utf-8', newline='') as f:
                    got = outcome(lambda: T.compile(file=f, preprocessors=whole, cacheCompilationResults=False, **fin))
        finally:
            os.remove(path)
    ctx.outcome('%s %s' % (how, want[0]))
    if got != want:
        ctx.fail('pipe %s %s' % ('+'.join(forms), how), '%r through %s (%s) gives %r, but the last source %r gives %r' % (srcs[0], '+'.join(forms), how, got, srcs[-1], want))
        return
    if frozen(specs) != before:
        ctx.fail('pipe changes', '%r through %s: compiling changed the preprocessors given' % (srcs[0], '+'.join(forms)))


def outcome(fn):
    def run():
        k = fn()
        try:
            t = k(searchList=[FINALNS])
            name = k.__name__
            if name != 'Foo':
                name = ''
            return [name, str(t), hasattr(k, 'doIt')]
        finally:
            tutil._cleanup(k)
    return tutil.outcome(run)


BAD = [5, {}, {'searchList': []}, {'tokens': 5}, {'tokens': '@'}, {'tokens': '@ % ^'}, '@', {'templateInitArgs': {}}, object()]
# (source, namespace, exception)
MALFORMED = [('@a[', {'a': 1}, 'ParseError'), ('%if 1\nx', {}, 'ParseError'), ('@zzz', {}, 'NotFound'), ('%raise ValueError\n', {}, 'ValueError'), ('@a', {'a': '#if 1'}, 'ParseError'),
             ('@a', {'a': '$b['}, 'ParseError'), ('%end if', {}, 'ParseError'), ('#end if', {}, 'ParseError'), ('%include "no such file"\n', {}, 'OSError'), ('$b@a[', {}, 'ParseError'),
             ('%for @i in 5\nx\n%end for\n', {}, 'TypeError')]


def do_bad(case, ctx):
    b = BAD[case[1]]
    r = tutil.outcome(lambda: tutil.T().compile(source='x', preprocessors=[b], cacheCompilationResults=False))
    ctx.state(r[0], repr(b) if not type(b) is object else 'object')
    ctx.outcome('bad ' + r[0])
    if r[0] != 'exc':
        ctx.fail('bad', 'the preprocessor %r is accepted' % (b,))


def do_malformed(case, ctx):
    src, space, want = MALFORMED[case[1]]
    p = {'tokens': '@ %', 'searchList': [space]}
    fd, path = tempfile.mkstemp(suffix='.tmpl')
    os.close(fd)
    try:
        with io.open(path, 'w', encoding='utf-8') as f:
            f.write(src)
        kw = {'source': src} if case[2] == 'source' else {'file': path}
        try:
            k = tutil.T().compile(preprocessors=p, cacheCompilationResults=False, **kw)
            got = 'no error'
        except OSError:
            got = 'OSError'
        except Exception as e:
            got = tutil.exc_name(e)
    finally:
        os.remove(path)
    ctx.state(got, src)
    ctx.outcome('malformed ' + got)
    if got != want:
        ctx.fail('malformed', '%r preprocessed with %r: %s, expected %s' % (src, space, got, want))
        return
    # nothing is left behind: the same stage with a good source works
    r = outcome(lambda: tutil.T().compile(source='@a $b', preprocessors={'tokens': '@ %', 'searchList': [{'a': 'q'}]}, cacheCompilationResults=False))
    if r != ('ok', ['', 'q vb', False]):
        ctx.fail('malformed next', 'after %r: %r' % (src, r))


def check(case, ctx):
    ctx.trace()
    ctx.evals += 1
    return globals()['do_' + case[0]](case, ctx)
