"""Placeholders: all suffix chains, argument lists and expressions in every spelling and text context,
against direct evaluation on objects that record every access."""
import itertools
import re

from mc import tutil

LEVEL = 'exploration'
MODES = ['c', 'pure']
WEIGHT = {'c': 5, 'pure': 3}
RULE = ('one evaluation = one placeholder (expression x spelling x surrounding text) rendered twice by the real engine on objects that '
        'log every access and call; output, exception and access log are compared with direct evaluation of the expression; '
        'states are (prefix of the expression, value), transitions are evaluation steps')
BOUNDS = {'quick': {'chains': 'all suffix chains up to length 3 over 14 suffixes and 5 first names', 'spellings': '20', 'text contexts': '11 x 18', 'directives': '46 with 66 expressions each'},
          'thorough': {'chains': 'up to length 4', 'spellings': '20', 'text contexts': '11 x 18', 'directives': '46 with 66 expressions each'}}

LOG = []


class Node(object):
    def __init__(self, path):
        self.__dict__['_p'] = path

    def __getattr__(self, name):
        if name in ('x', 'y'):
            LOG.append(self._p + '.' + name)
            return Node(self._p + '.' + name)
        if name == 'd':
            LOG.append(self._p + '.d')
            return {'k': Node(self._p + '.d.k'), 'keys': Node(self._p + '.d.keys'), 'x': Node(self._p + '.d.x'), 0: Node(self._p + '.d0')}
        if name == 'c':
            LOG.append(self._p + '.c')
            return Node
        if name == 's':
            LOG.append(self._p + '.s')
            return "S'"
        if name == 'prop':
            LOG.append(self._p + '.prop')
            raise ValueError('prop')
        raise AttributeError(name)

    def m(self, *a, **k):
        p = '%s.m(%s)' % (self._p, args(a, k))
        LOG.append(p)
        return Node(p)

    def __getitem__(self, i):
        if isinstance(i, str) and i not in ('K', 'bad', ']'):
            raise KeyError(i)       # the C NameMapper probes names on anything subscriptable
        p = '%s[%r]' % (self._p, i)
        LOG.append(p)
        if i == 'bad':
            raise KeyError('bad')
        return Node(p)

    def __call__(self, *a, **k):
        p = '%s(%s)' % (self._p, args(a, k))
        LOG.append(p)
        return Node(p)

    def __str__(self):
        return '<' + self._p + '>'

    def __repr__(self):
        return '<<' + self._p + '>>'

    def __add__(self, o):
        return Node('%s+%s' % (self._p, o._p if isinstance(o, Node) else o))

    def __radd__(self, o):
        return Node('%s+%s' % (o, self._p))

    def __bool__(self):
        LOG.append('bool ' + self._p)
        return True

    def __iter__(self):
        LOG.append('iter ' + self._p)
        return iter([1, 2])

    __hash__ = object.__hash__

    def __eq__(self, o):
        return isinstance(o, Node) and o._p == self._p


def args(a, k):
    return ','.join([repr(x) for x in a] + ['%s=%r' % kv for kv in sorted(k.items())])


def fun(*a, **k):
    p = 'f(%s)' % args(a, k)
    LOG.append(p)
    return Node(p)


def world():
    return {'a': Node('a'), 'b': Node('b'), 'f': fun, 'd': {'x': Node('dx'), 'k': Node('dk'), 'f': fun, 'keys': 'DK'},
            't': (1, 2), 'n': 7, 'z': None, 'st': 'te"x\'t', 'kw': {'p': 1}}


class RefNF(Exception):
    pass


def step(obj, name, auto):
    if isinstance(obj, dict) and name in obj:
        v = obj[name]
    else:
        try:
            v = getattr(obj, name)
        except AttributeError:
            raise RefNF(name)
    import types
    if auto and isinstance(v, (types.FunctionType, types.MethodType, types.BuiltinFunctionType)):
        v = v()
    return v


class Ref(object):
    """Evaluates a chain: first name and suffixes."""

    def __init__(self, w, auto):
        self.w = w
        self.auto = auto

    def V(self, dotted, call=False):
        names = dotted.split('.')
        obj = self.w
        for i, n in enumerate(names):
            last = i == len(names) - 1
            obj = step(obj, n, self.auto and not (last and call))
        return obj

    def env(self):
        return {'V': self.V, 'W': lambda n: self.V(n, True), 'at': lambda o, n: step(o, n, self.auto), 'atc': lambda o, n: step(o, n, False)}

    def chain(self, base, suffixes, ctx):
        nxt = suffixes[0] if suffixes else ''
        obj = step(self.w, base, self.auto and not nxt.startswith('('))
        plain = False
        for i, s in enumerate(suffixes):
            ctx.trans()
            nxt = suffixes[i + 1] if i + 1 < len(suffixes) else ''
            j = i
            while j and suffixes[j - 1][0] in '([':
                j -= 1
            if j < i and suffixes[j][0] == '(' and s[0] in '([':
                plain = True        # the placeholder has ended after the call, Python takes over
            if s.startswith('.') and plain:
                obj = getattr(obj, s[1:])
            elif s.startswith('.'):
                obj = step(obj, s[1:], self.auto and not nxt.startswith('('))
            else:
                obj = eval('obj' + SUFFIX_PY[s], self.env(), {'obj': obj})
        return obj


SUFFIX_PY = {"['K']": "['K']", '[0]': '[0]', '[1:2]': '[1:2]', '()': '()', '(1)': '(1)', '($b)': '(V("b"))', "(q='z')": "(q='z')",
             '($b.m, *$t)': '(V("b.m"), *V("t"))', '[$b.x]': '[V("b.x")]', '["]"]': '["]"]'}
SUFFIXES = ['.x', '.m', '.d', '.k', '.no'] + list(SUFFIX_PY)[:9]
BASES = ['a', 'f', 'd', 'n', 'missing']

# (source text, python text over V/W): evaluated on both sides
ARGS = [('', ''), ('1', '1'), ("'q'", "'q'"), ('"a.b"', '"a.b"'), ('$b', 'V("b")'), ('$b.x', 'V("b.x")'), ('$b.m', 'V("b.m")'),
        ('$b.m()', 'W("b.m")()'), ('$f', 'V("f")'), ('$f()', 'W("f")()'), ('$f(1)', 'W("f")(1)'), ('$f($f($b))', 'W("f")(W("f")(V("b")))'),
        ('k=1', 'k=1'), ('k=$b', 'k=V("b")'), ('1, k=$b, j=2', '1, k=V("b"), j=2'), ('*$t', '*V("t")'), ('**$kw', '**V("kw")'),
        ('[1, $b]', '[1, V("b")]'), ("{'k': $b}", "{'k': V('b')}"), ('($b)', '(V("b"))'), ('(1, 2)', '(1, 2)'), ("')'", "')'"),
        ('"]}"', '"]}"'), ("'\\''", "'\\''"), ('"#"', '"#"'), ("'##'", "'##'"), ("'#* *#'", "'#* *#'"), ("'$'", "'$'"), ("'$b'", "'$b'"), ("'''a\"b'''", "'''a\"b'''"),
        ('""', '""'), ('1,\n 2', '1,\n 2'), (' 1 ', ' 1 '), ('1 ,2', '1 ,2'), ('-1', '-1'), ('1.5', '1.5'), ('1e3', '1e3'), ('0x1f', '0x1f'),
        ('$n + 1', 'V("n") + 1'), ('$n*2', 'V("n")*2'), ('$n if $n else 0', 'V("n") if V("n") else 0'), ('not $n', 'not V("n")'),
        ('$n == 7', 'V("n") == 7'), ('$n and $b', 'V("n") and V("b")'), ('lambda: 1', None), ('[x for x in $t]', '[x for x in V("t")]'),
        ('[x+$n for x in [1]]', '[x+V("n") for x in [1]]'), ('$t[0]', 'V("t")[0]'), ('$t[-1:]', 'V("t")[-1:]'), ("$d['x']", 'V("d")["x"]'), ('$d.x', 'V("d.x")'),
        ('$b.x.y', 'V("b.x.y")'), ('$b.m(1).x', 'at(W("b.m")(1), "x")'), ('$b[0].m', 'at(V("b")[0], "m")'), ('len($t)', 'len(V("t"))'), ('str(1)', 'str(1)'),
        ('None', 'None'), ('True, False', 'True, False'), ("u'x'", "u'x'"), ("r'\\d'", "r'\\d'"), ("'a' 'b'", "'a' 'b'"), ("'%s' % $n", "'%s' % V('n')"),
        ('{}', '{}'), ('[]', '[]'), ('()', '()'), ('$z', 'V("z")'), ('$b, $b.x, $b.m', 'V("b"), V("b.x"), V("b.m")'), ("{'a':{'b':$n}}['a']['b']", "{'a':{'b':V('n')}}['a']['b']"),
        ('$missing', 'V("missing")'), ('$b.no', 'V("b.no")'), ("'\\\\'", "'\\\\'"), ("'\\n'", "'\\n'"), ('"\'"', '"\'"'), ('$st', 'V("st")'), ("'{'", "'{'"), ("'('", "'('"), ("']'", "']'"),
        ('$(1)', None), ('k="}"', 'k="}"'), ('1 < 2', '1 < 2'), ('1 if 0 else $b', '1 if 0 else V("b")'), ('0 and $b', '0 and V("b")'), ('$b or $f', 'V("b") or V("f")')]
ARGS = [x for x in ARGS if x[1] is not None]

# whole expressions for enclosed placeholders
EXPRS = [('a', 'V("a")'), ('a.x', 'V("a.x")'), ('a.m', 'V("a.m")'), ('a + 1', 'V("a") + 1'), ('a.x+ $b.x', 'V("a.x")+ V("b.x")'), ('n * 2', 'V("n") * 2'), ('n*2+1', 'V("n")*2+1'),
         ('$n', 'V("n")'), ('$n + $n', 'V("n") + V("n")'), ('1 + $n', '1 + V("n")'), ("'q'", "'q'"), ('"q" + "r"', '"q" + "r"'), ('a or $b', 'V("a") or V("b")'), ('n and $b.m', 'V("n") and V("b.m")'),
         ('n if $n else $b', 'V("n") if V("n") else V("b")'), ('1 if 0 else $b.x', '1 if 0 else V("b.x")'), ('[1, 2][1]', '[1, 2][1]'), ('f(1) + $f(2)', 'W("f")(1) + W("f")(2)'),
         ("'%s-%s' % ($n, $b.x)", "'%s-%s' % (V('n'), V('b.x'))"), ("'}'", "'}'"), ("')'", "')'"), ("']'", "']'"), ("'#'", "'#'"), ("'##'", "'##'"), ("'$n'", "'$n'"), ('d["x"]', 'V("d")["x"]'), ("d['k'].x", 'at(V("d")["k"], "x")'),
         ('-$n', '-V("n")'), ('n == 7', 'V("n") == 7'), ('n > 6 and "y" or "w"', 'V("n") > 6 and "y" or "w"'), ('n\n+ 1', 'V("n")\n+ 1'), ('(1, 2)[0]', '(1, 2)[0]'), ('len($t)', None),
         ('t[0]', 'V("t")[0]'), ('t[0:1]', 'V("t")[0:1]'), ('z', 'V("z")'), ('a.no', 'V("a.no")'), ('missing', 'V("missing")'), ('a.prop', 'V("a.prop")'), ('st', 'V("st")'), ('1', '1'), ('1.5', '1.5'), ('0', '0'), ("''", "''"),
         ("'é'", "'é'"), ('{"k": $n}["k"]', '{"k": V("n")}["k"]'), ('$a.x.y', 'V("a.x.y")'), ('a.c', None), ('a["bad"]', 'V("a")["bad"]'), ('a.x if $a.y else $b', 'V("a.x") if V("a.y") else V("b")'), ('a.s', 'V("a.s")'),
         ('[x for x in $t]', '[x for x in V("t")]'), ("'a' 'b'", "'a' 'b'"), ('a.m($b).x + $b', 'at(W("a.m")(V("b")), "x") + V("b")'), ("'''q'''", "'''q'''"), ('$f($n)', 'W("f")(V("n"))'), ('n, ', None)]
EXPRS = [x for x in EXPRS if x[1] is not None]

ENCLOSED = {'brace': ('${', '}'), 'paren': ('$(', ')'), 'bracket': ('$[', ']'), 'braces': ('${ ', ' }'), 'bracet': ('${\t', '\t}')}
SILENT = {'silent': ('$!', ''), 'silentbrace': ('$!{', '}'), 'silentparen': ('$!(', ')')}
CACHED = {'star': ('$*', ''), 'starbrace': ('$*{', '}'), 'timed': ('$*5m*', ''), 'timedbrace': ('$*1.5h*{', '}'), 'starparen': ('$*(', ')')}
DIRECTIVES = {'echo': ('#echo $', '#'), 'set': ('#set $q = $', '#$q'), 'silentd': ('#silent $', '#'), 'arg': ('$ident($', ')'), 'forin': ('#for $i in [$', ']#$i#end for#'),
              'if': ('#if [$', ']#T#end if#'), 'kwarg': ('$ident(x=$', ')'), 'setglobal': ('#set global q = $', '#$q'), 'index': ("$look[$", ']'), 'ternary': ('#if 1 then $', ' else 0#'),
              'nested': ('${ident($', ')}'), 'retd': ('#def r#x#return $', '##end def#$r')}
PRE = ['', 'x', ' ', '$', '{', '(', '"', "'", '\\\\', '%', '\n']
POST = ['', ' ', ',', ')', ']', '}', '.', '. ', '.5', '..', '-', '!', '\n', '"', "'", '$', ':', '\\']


# expressions in every directive that takes one; S == x is true and records x
LITS = ["'else if'", "'else \\tif'", '"else if"', "'then'", "'else'", "' in '", "'in'", "':'", "'a: b'", "'#'", "'##'", "'#* *#'", "'if'", "'='", "'=='", "'$b'", "'end if'", "'%>'", "'<%='", "'it\\'s'",
        "'''t'q'''", "'not'", "'return'", "'yield'", "'pass'", "'import'", "'as'", "'del'", "'c'", "'\\n'", "'\\\\'", "'(['", "')'", "','", "'a,b'", "'.'", "'$'", "'é'", "u'x'", "r'\\d'", "{'a: b': 1}", "[1, 2, 3][0:2]", "{'k': ':'}['k']",
        "(lambda x: x)(3)", "(lambda: ':')()", '$n', '$b.x', '($n if 0 else 2)', "('else if' if 1 else 'if')", '(1)', '-1', '(1 == 1)', "'a' 'b'", "('then', 'else')[1]", "[x for x in 'in']", "'%s' % 'else if'", "$f('else if')",
        "$f(':')", "$d['x']", "$st", "'\\x41'", "'{}'", "''", '1.5', '1e3', '$f(q=1)', '(not 1)', 'None', "'elif'", "'else  if  x'"]
LITDIR = {'echo': '#echo @#', 'set': '#set $q = @#$q', 'setg': '#set global $q = @#$q', 'setl': '#set $q = [@]#$q[0]', 'if': '#if $S == (@)#y#end if#', 'if2': '#if $S == @#y#end if#', 'elif': '#if 0#n#elif $S == @#y#end if#',
          'elseif': '#if 0#n#else if $S == @#y#end if#', 'elifl': '#if 0\nn\n#elif $S == @\ny\n#end if\n', 'elseifl': '#if 0\nn\n#else if $S == @\ny\n#end if\n', 'elsif3': '#if 0#n#elif 0#n#else if $S == @#y#end if#',
          'unless': '#unless not ($S == @)#y#end unless#', 'while': '#set $i = 0##while $i < ($S == @)#y#set $i = 1##end while#', 'for': '#for $i in [@]#$i#end for#', 'repeat': '#repeat ($S == @) * 1#y#end repeat#',
          'silent': '#silent $S == @#', 'assert': '#assert $S == @#', 'return': '#def r#x#return @##end def#$r', 'raise': '#try##raise $Boom(@)##except $Boom as e#$e.args[0]#end try#', 'then': '#if 1 then @ else 0#',
          'else': '#if 0 then 0 else @#', 'cond': '#if $S == @ then "y" else "n"#', 'one': '#if $S == @: y\n', 'unl': '#unless not ($S == @): y\n', 'fors': '#for $i in [@]: $i\n', 'default': '#def r($q=@)#$q#end def#$r',
          'attr': '#attr $q = @\n$q', 'callarg': '#call $kwx x=@##end call#', 'cache': '#cache test=($S == @)#y#end cache#', 'braces': '${ident(@)}', 'bare': '$ident(@)', 'kw': '$ident(x=@)', 'idx': '$look[@]',
          'forif': '#for $i in [1]##if 0#n#elif $S == @#y#end if##end for#', 'super': '#def r#$ident(@)#end def#$r()', 'psp': '<%= @ %>', 'capture': '#capture c#${ident(@)}#end capture#$c', 'module': '#set module $q = @\n$q',
          'slash': '#set $q = \\\n@#$q', 'setop': '#set $q = []\n#silent $q.append(@)\n$q[0]', 'augment': '#set $q = [0]\n#set $q += [@]\n$q[1]', 'index': '#set $q = {}\n#set $q["="] = @\n$q["="]', 'mitem': '#set global $q = {}\n#set global $q["a.b"] = @\n$q["a.b"]'}
NODOLLAR = {'psp', 'module', 'attr', 'default'}


class Same(object):
    """S == x records x and is true."""

    def __eq__(self, o):
        LOG.append('saw %r' % (o,))
        return True

    __hash__ = None


def litpy(e):
    e = re.sub(r'\$f\(', 'W("f")(', e)
    e = re.sub(r"\$(n|st|b\.x|d)(?![\w'])", r'V("\1")', e)
    return e


def lit(case, ctx):
    _, d, i = case
    e, src = LITS[i], LITDIR[d].replace('@', LITS[i])
    if '$' in e.replace("'$b'", '').replace("'$'", '') and d in NODOLLAR or '%>' in e and d == 'psp':
        return
    w = world()
    w.update(kwx=lambda text='', x=0: x, ident=lambda x='': x, look=Look(), S=Same(), Boom=KeyError)
    del LOG[:]
    v = eval(litpy(e), Ref(w, 1).env())
    log = list(LOG)
    seen = '$S' in src
    text = '' if v is None else str(v)
    nl = '\n' if d in ('elifl', 'elseifl', 'one', 'unl', 'fors') else ''
    want = {'silent': '', 'assert': ''}.get(d, 'y' if seen else text) + nl
    if seen:
        log.append('saw %r' % (v,))
    if d == 'while':
        log *= 2
    ctx.state(d, e)
    ctx.trans()
    ctx.evals += 1
    del LOG[:]
    got = tutil.outcome(tutil.render, src, [w])
    gotlog = list(LOG)
    if got != ('ok', want):
        return ctx.fail('directive', '%r: engine %r, expected %r' % (src, got, want))
    if gotlog != log:
        return ctx.fail('directive', '%r: evaluated to %r, expected %r' % (src, gotlog, log))
    ctx.outcome('ok')


def spellings():
    yield 'bare'
    for d in (ENCLOSED, SILENT, CACHED, DIRECTIVES):
        for k in d:
            yield k


def chains(n):
    for k in range(0, n + 1):
        for base in BASES:
            for suf in itertools.product(SUFFIXES, repeat=k):
                yield base, list(suf)


def enum(tier, mode):
    for base, suf in chains(2):
        for sp in spellings():
            yield ['chain', base, suf, sp, 1]
        yield ['chain', base, suf, 'bare', 0]
        yield ['chain', base, suf, 'brace', 0]
    for base, suf in chains(3 if tier == 'quick' else 4):
        if len(suf) > 2:
            if base in ('missing', 'n') or mode == 'pure' and tier == 'quick' and base != 'a':
                continue
            for sp in ('bare', 'brace', 'echo', 'arg', 'silent') if len(suf) == 3 else ('bare', 'arg'):
                yield ['chain', base, suf, sp, 1]
    for i in range(len(ARGS)):
        for fn in ('f', 'a.m', 'a', 'd.f', 'a.x.m', "d['f']"):
            for sp in spellings():
                yield ['args', fn, i, sp]
    for i in range(len(EXPRS)):
        for sp in list(ENCLOSED) + list(SILENT)[1:] + ['starbrace', 'timedbrace']:
            yield ['expr', i, sp]
    for d in LITDIR:
        for i in range(len(LITS)):
            yield ['lit', d, i]
    for sp in ['bare'] + list(ENCLOSED) + list(SILENT) + list(CACHED):
        for pre in PRE:
            for post in POST:
                for e in ('a', 'a.x', 'f(1)', 'a[0]'):
                    yield ['text', e, sp, pre, post]
                if post == '':
                    for e in ('f(1)', 'a[0]', 'a.m(1)', 'a.x[0]'):
                        for word in ('x', 'b.x', '_', '1', 'm(1)', 'x ', '\u00e9'):
                            if sp in ENCLOSED or pre in ('', 'x', ' '):
                                yield ['text', e, sp, pre, word]


def spell(sp, e):
    if sp == 'bare':
        return '$' + e
    for d in (ENCLOSED, SILENT, CACHED, DIRECTIVES):
        if sp in d:
            return d[sp][0] + e + d[sp][1]
    raise AssertionError(sp)


def insert(sp, v):
    """What the spelling outputs for the value."""
    s = '' if v is None else str(v)
    if sp in ('silentd',):
        return ''
    if sp == 'if':
        return 'T'
    if sp == 'retd':
        return s
    if sp == 'arg' or sp == 'kwarg' or sp == 'nested':
        return s
    if sp == 'index':
        return s
    return s


class Look(object):
    def __getitem__(self, k):
        return k


def norm(exc):
    n = type(exc).__name__
    return 'NotFound' if isinstance(exc, RefNF) else n


def check(case, ctx):
    kind = case[0]
    if kind == 'lit':
        return lit(case, ctx)
    auto = 1
    if kind == 'chain':
        _, base, suf, sp, auto = case
        e = base + ''.join(suf)
        if sp in ('bare', 'silent', 'star', 'timed') and any(x[0] == '(' and y[0] in '([' for x, y in zip(suf, suf[1:])):
            return              # an unenclosed placeholder ends after a call that no name follows
        ref = lambda r: r.chain(base, suf, ctx)     # noqa: E731
        pre = post = ''
    elif kind == 'args':
        _, fn, i, sp = case
        a = ARGS[i]
        e = '%s(%s)' % (fn, a[0])
        py = {"d['f']": "V('d')['f']"}.get(fn, 'W("%s")' % fn) + '(%s)' % a[1]
        ref = lambda r: eval(py, r.env())           # noqa: E731
        pre = post = ''
    elif kind == 'expr':
        _, i, sp = case
        e = EXPRS[i][0]
        ref = lambda r: eval('(%s)' % EXPRS[i][1], r.env())     # noqa: E731
        if sp == 'bracket' and e in ("']'",) or sp == 'paren' and 0:
            return
        if sp in SILENT and not re.match('[a-z]', e) or sp in CACHED and e.startswith('$'):
            return              # only names may follow the silent marker
        pre = post = ''
    else:
        _, e, sp, pre, post = case
        py = {'a': 'V("a")', 'a.x': 'V("a.x")', 'f(1)': 'W("f")(1)', 'a[0]': 'V("a")[0]', 'a.m(1)': 'W("a.m")(1)', 'a.x[0]': 'V("a.x")[0]'}[e]
        ref = lambda r: eval(py, r.env())           # noqa: E731
    src = pre + spell(sp, e) + post
    w = world()
    w['ident'] = lambda x: x
    w['look'] = Look()
    # reference
    del LOG[:]
    ctx.state(kind, e, auto)
    try:
        v = ref(Ref(w, auto))
        out = ('ok', pre + insert(sp, v) + post)
        reflog = list(LOG)
    except Exception as exc:
        reflog = list(LOG)
        out = ('exc', norm(exc))
        if sp in SILENT and norm(exc) == 'NotFound':
            out = ('ok', pre + post)
    if out[0] == 'ok' and '\\$' in src:
        return
    tutil.outcome(lambda: None)
    klass = None
    try:
        try:
            klass = tutil.compile_(src, compilerSettings={'useAutocalling': bool(auto)})
        except Exception as exc:
            ctx.fail('compile', '%r does not compile: %s %s' % (src, type(exc).__name__, str(exc).strip()[:200]))
            return
        t = klass(searchList=[w])
        for rnd in (0, 1):
            del LOG[:]
            got = tutil.outcome(lambda: str(t))
            gotlog = list(LOG)
            ctx.evals += 1
            ctx.trace()
            want, wantlog = out, reflog
            if rnd and sp in CACHED and out[0] == 'ok':
                wantlog = []
            if got != want:
                ctx.fail('output', '%r, rendering %d: engine %r, expected %r' % (src, rnd, got, want))
                return
            if gotlog != wantlog:
                ctx.fail('evaluation', '%r, rendering %d: accesses %r, expected %r' % (src, rnd, gotlog, wantlog))
                return
            if out[0] == 'exc':
                break
    finally:
        if klass is not None:
            tutil._cleanup(klass)
    ctx.outcome(out[0] if out[0] == 'ok' else out[1])
    ctx.interesting(src, auto)
    ctx.sample(src)
