"""One-line forms and macros: every one-line directive against its long form, every macro call against the template with the macro's output written in its place."""
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one short case = one directive with one body in one position, in its one-line and in its long form; one macro case = one call of one macro on one source in one position; '
        'both templates of the pair are rendered twice with two data sets and must agree; states are the rendered outputs, transitions are renderings')
BOUNDS = {'quick': {'one-line': '16 directives x 16 bodies x 12 positions, and pairs of directives', 'macros': '11 macros x 20 sources x 10 positions, nested calls, arguments, #defmacro'},
          'thorough': {'one-line': 'also pairs of bodies and nested positions', 'macros': 'also pairs of sources'}}

# name -> (one-line opener, long opener, long closer, does the body keep the line end)
SHORT = {
    'if': ('#if $y', '#if $y#', '#end if#', True), 'unless': ('#unless $n', '#unless $n#', '#end unless#', True), 'for': ('#for $i in $two', '#for $i in $two#', '#end for#', True),
    'for if': ('#for $i in [j for j in $two if j > 1]', '#for $i in [j for j in $two if j > 1]#', '#end for#', True), 'repeat': ('#repeat 2', '#repeat 2#', '#end repeat#', True),
    'dict if': ('#if {1: 2}[1] == 2', '#if {1: 2}[1] == 2#', '#end if#', True), 'slice if': ('#if $two[0:1]', '#if $two[0:1]#', '#end if#', True),
    'lambda if': ('#if (lambda: 1)()', '#if (lambda: 1)()#', '#end if#', True), 'str if': ('#if ":" in ":"', '#if ":" in ":"#', '#end if#', True),
    'filter': ('#filter WebSafe', '#filter WebSafe#', '#end filter#', False), 'call': ('#call $ident', '#call $ident#', '#end call#', False), 'capture': ('#capture cc', '#capture cc#', '#end capture#', False),
    'block': ('#block bb', '#block bb#', '#end block#', False), 'def': ('#def dd', '#def dd#', '#end def#', False), 'def args': ('#def da($q=1, r={2: 3})', '#def da($q=1, r={2: 3})#', '#end def#', False),
    'closure': ('#closure kk', '#closure kk#', '#end closure#', False), 'cache': ('#cache', '#cache#', '#end cache#', True), 'raw': ('#raw', '#raw#', '#end raw#', False),
    'if else': ('#if $n', '#if $n#', '#end if#', True),
}
USE = {'capture': '<$cc>', 'def': '<$dd>', 'def args': '<$da(2)>', 'closure': '<$kk()>'}
BODIES = ['t', '$v', 't$v', '$v t', '${v}<', ' t', '#if $y then 1 else 2#', '#set $z = 5#$z', '#silent 1#t', '#if $y#q#end if#', '#for $k in $two#$k#end for#r', '\\$v', '"\'\'\'', 'a:b', '#filter WebSafe#<$v#end filter#',
          '#slurp', 't#slurp', '$v$n']
POSITIONS = {
    'top': 'A\n%s\nB', 'start': '%s\nB', 'if': 'A\n#if 1\n%s\n#end if\nB', 'else': 'A\n#if 0\nx\n#else\n%s\n#end if\nB', 'for': 'A\n#for $o in $two\n%s\n#end for\nB', 'def': '#def pp\nA\n%s\nB\n#end def\n$pp|$pp',
    'block': '#block pp\nA\n%s\nB\n#end block\n', 'call': '#call $ident\nA\n%s\nB\n#end call\n', 'capture': '#capture pc\nA\n%s\nB\n#end capture\n$pc', 'closure': '#closure pk\nA\n%s\nB\n#end closure\n$pk()',
    'filter': '#filter WebSafe\nA\n%s\nB\n#end filter\n$v', 'try': '#try\nA\n%s\nB\n#finally\nF\n#end try\n', 'eof': 'A\n%s', 'cache': '#cache\nA\n%s\nB\n#end cache\n',
}
NS = [{'v': '<V>', 'y': 1, 'n': None, 'two': [1, 2], 'ident': lambda x: x}, {'v': 'w', 'y': 0, 'n': '', 'two': [3], 'ident': lambda x: '(%s)' % x}]


def pair(d, body, follow=''):
    op, lop, lcl, keep = SHORT[d]
    s = '%s: %s\n' % (op, body)
    lf = lop + body + ('\n' + lcl if keep else lcl)
    if d in ('call', 'capture', 'filter', 'raw'):
        lf += '\n'                  # the line end is text behind the region
    if d == 'if else':
        s += '#else: e$v\n'
        lf = lop + body + '\n#else#e$v\n#end if#'
    u = USE.get(d, '')
    return s + u + follow, lf + u + follow


def ok_in(d, body, pos):
    if pos in ('closure',) or d == 'closure':
        # names inside closures are plain Python names
        if '$' in body.replace('\\$', '').replace('$z', '').replace('$k', ''):
            return False
        if d in ('if', 'unless', 'for', 'for if', 'slice if', 'call', 'if else'):
            return False
    if d == 'closure' and pos in ('cache', 'closure', 'call'):
        return False
    if pos == 'closure' and d in ('filter', 'capture', 'def', 'def args'):
        return False                # regions inside closures: known finding of C09; names are plain Python names
    if d in ('def', 'def args') and pos == 'def' and '$' in body:
        return False                # a #def inside a #def is a closure
    if d == 'cache' and pos in ('cache', 'closure'):
        return False                # nested cache regions share nothing; see C09
    if d == 'raw' and ('#end' in body or '#slurp' in body):
        return False
    if 'slurp' in body:
        return False                # #slurp takes the rest of the line, which is the closer in the long form
    if d in ('def', 'def args', 'block') and pos in ('def', 'block') and '$z' in body:
        return True
    return True


def enum(tier, mode):
    for d in SHORT:
        for b in BODIES:
            for p in POSITIONS:
                if ok_in(d, b, p):
                    yield ['short', [[d, b]], p]
    for d in SHORT:
        for d2 in SHORT:
            for b, b2 in itertools.product(BODIES[:4] if tier == 'quick' else BODIES, repeat=2):
                for p in ('top', 'def', 'if') if tier == 'quick' else ('top', 'def', 'if', 'for', 'call', 'block'):
                    if d != d2 and ok_in(d, b, p) and ok_in(d2, b2, p):
                        yield ['short', [[d, b], [d2, b2]], p]
    for m in MACROS:
        for i in range(len(SRCS)):
            for p in MPOS:
                yield ['macro', [[m, i]], p, 'long']
                if SRCS[i]:
                    yield ['macro', [[m, i]], p, 'short']
    for m, m2 in itertools.product(MACROS, repeat=2):
        for i in range(len(SRCS)) if tier == 'thorough' else range(6):
            for p in ('mid', 'if', 'def'):
                for j in range(len(SRCS)) if tier == 'thorough' else (1,):
                    yield ['macro', [[m, i], [m2, j]], p, 'long']
    for m, m2 in itertools.product(MACROS, repeat=2):
        for i in range(6):
            yield ['nestedmacro', m, m2, i]
    for i in range(len(ARGS)):
        for f in ('long', 'short'):
            yield ['args', i, f]
    for i in range(len(DEFM)):
        for j in range(8):
            for p in MPOS:
                yield ['defmacro', i, j, p]


def outputs(src, ctx, **kw):
    out = []
    k = tutil.outcome(tutil.compile_, src, **kw)
    if k[0] != 'ok':
        return k
    try:
        t = k[1](searchList=[{}])
        for ns in NS:
            ctx.trans()
            try:
                t = k[1](searchList=[ns])
            except Exception as e:
                return ('exc', str(e))
            out.append([tutil.outcome(str, t), tutil.outcome(str, t)])
    finally:
        tutil._cleanup(k[1])
    return ('ok', out)


def do_short(case, ctx):
    _, ds, pos = case
    a = b = ''
    for d, body in ds:
        s, lf = pair(d, body)
        a += s + ('\n' if USE.get(d) else '')
        b += lf + ('\n' if USE.get(d) else '')
    sa, sb = POSITIONS[pos] % a, POSITIONS[pos] % b
    ra, rb = outputs(sa, ctx), outputs(sb, ctx)
    ctx.state(rb)
    ctx.outcome(rb[0])
    if rb[0] != 'ok' or any(x[0] != 'ok' for y in rb[1] for x in y):
        ctx.fail('long form', '%r: %r' % (sb, rb))
    if ra != rb:
        ctx.fail('short ' + ds[0][0], 'one-line %r gives %r, long %r gives %r' % (sa, ra, sb, rb))


# ------------------------------------------------------------------ macros
MACROS = {
    'ident': lambda src: src, 'upper': lambda src: src.replace('t', 'TTT'), 'twice': lambda src: src + src, 'wrap': lambda src: '#if 1#[' + src + ']#end if#', 'loop': lambda src: '#for $mi in $two#' + src + '#end for#',
    'const': lambda src: '$v{#set $mz = 3#$mz}', 'empty': lambda src: '', 'long': lambda src: src + 'x' * 500, 'rawm': lambda src: '#raw#' + src.replace('#end raw#', '') + '#end raw#', 'drop': lambda src: src[:0] + '-',
    'lines': lambda src: src + '\n' + 'k\n$v',
    'ident2': lambda src: '2' + src, 'ident_': lambda src: src + '_', 'ide': lambda src: 'e' + src,
}
SRCS = ['t', 'a$v', '$v', '', ' t ', '#if $y#q#end if#', '#set $z = 1#$z', '#for $i in $two#$i#end for#', '\\$v', '${v}t', '#raw#$q#end raw#', '"\'', 't' * 80, '\u00e9', '#silent $v#', '$n', '#filter WebSafe#$v#end filter#',
        '#call $ident#c$v#end call#', '#capture mc#$v#end capture#$mc', '#cache#$v#end cache#']
MPOS = {'mid': 'A-%s-B', 'start': '%s-B', 'end': 'A-%s', 'if': '#if 1#A-%s-B#end if#', 'for': '#for $o in $two#(%s)#end for#', 'def': '#def mp#<%s>#end def#$mp-$mp', 'block': '#block mp#<%s>#end block#',
        'call': '#call $ident#<%s>#end call#', 'capture': '#capture mq#<%s>#end capture#$mq', 'twice': '%s-$v-%s', 'line': 'A\n%s\n#if 1\nB\n#end if', 'lines': '  %s\n  #silent 1\nB'}


def mkw():
    return {'compilerSettings': {'macroDirectives': dict(('m' + k, v) for k, v in MACROS.items())}}


def do_macro(case, ctx):
    _, ms, pos, form = case
    la, lb = [], []
    for m, i in ms:
        src = SRCS[i]
        if m == 'upper' and '#' in src:
            return                  # would rewrite the directives in the source
        if pos == 'lines' and src.startswith('#'):
            return                  # whether a directive has its line to itself is decided within the macro's output
        la.append('#m%s#%s#end m%s#' % (m, src, m) if form == 'long' else '\n#m%s: %s\n' % (m, src))
        lb.append(('\n' if form == 'short' else '') + MACROS[m](src))
    sa, sb = MPOS[pos].replace('%s', '-'.join(la)), MPOS[pos].replace('%s', '-'.join(lb))
    ra, rb = outputs(sa, ctx, **mkw()), outputs(sb, ctx)
    ctx.state(rb)
    ctx.outcome(rb[0])
    if ra != rb:
        ctx.fail('macro ' + form, 'with macros %r gives %r, written out %r gives %r' % (sa, ra, sb, rb))


def do_nestedmacro(case, ctx):
    _, m, m2, i = case
    a = '<#m%s#a-#m%s#%s#end m%s#-b#end m%s#>' % (m, m2, SRCS[i], m2, m)
    inner = 'a-#m%s#%s#end m%s#-b' % (m2, SRCS[i], m2)
    if m == 'upper' or m == m2 or (m2 == 'upper' and '#' in SRCS[i]):
        return                      # rewrites the inner macro's name; a macro's own #end closes the outer one
    once = MACROS[m](inner)
    b = '<' + (once if m == 'rawm' else once.replace('#m%s#%s#end m%s#' % (m2, SRCS[i], m2), MACROS[m2](SRCS[i]))) + '>'
    ra, rb = outputs(a, ctx, **mkw()), outputs(b, ctx)
    ctx.state(rb)
    if ra != rb:
        ctx.fail('nested macro', '%r gives %r, written out %r gives %r' % (a, ra, b, rb))


# arguments of a macro are Python expressions without placeholders
ARGS = [('', {}), ('x=1', {'x': 1}), ('x="a"', {'x': 'a'}), ("x='a#b'", {'x': 'a#b'}), ('x="a:b"', {'x': 'a:b'}), ('x={1: 2}', {'x': {1: 2}}), ('x=[1, (2, 3)], y=None', {'x': [1, (2, 3)], 'y': None}),
        ('y=1 + 2, x="$v"', {'y': 3, 'x': '$v'}), ('x=(\n1)', {'x': 1}), ('x=","', {'x': ','}), ('x=[0, 1][0:1]', {'x': [0]})]


def do_args(case, ctx):
    _, i, form = case
    text, want = ARGS[i]
    seen = []

    def macro(src, x=None, y=None, parser=None, macros=None, isShortForm=None, EOLCharsInShortForm=None, startPos=None, endPos=None, compilerSettings=None):
        seen.append((src, x, y, isShortForm, EOLCharsInShortForm, parser is not None and parser.src()[startPos:endPos], sorted(macros)[:0], compilerSettings is not None))
        return '(%s)' % src
    a = '<#mm %s#t$v#end mm#>' % text if form == 'long' else 'q\n#mm %s: t$v\r\n>' % text
    r = outputs(a, ctx, compilerSettings={'macroDirectives': {'mm': macro}})
    exp = ('ok', [[('ok', ('<(t%s)>' if form == 'long' else 'q\n(t%s)>') % ns['v'])] * 2 for ns in NS])
    call = ('t$v', want.get('x'), want.get('y'), form == 'short', None if form == 'long' else '\r\n', a[1:-1] if form == 'long' else a[2:-1], [], True)
    ctx.state(i, form)
    if r != exp or seen != [call]:
        ctx.fail('macro arguments', '%r gives %r (expected %r), macro called with %r, expected %r' % (a, r, exp, seen, call))


# (definition, call opener, function of the source)
DEFM = [('#defmacro dm: [@src]\n', '#dm', lambda s: '[' + s + ']'), ('#defmacro dm\n[@src]\n#end defmacro\n', '#dm', lambda s: '[' + s + ']\n'),
        ('#defmacro dm(a="1", b=2)\n@a@src@b\n#end defmacro\n', '#dm b=5', lambda s: '1' + s + '5\n'), ('#defmacro dm\n%for @i in range(2)\n@i@src;\n%end for\n#end defmacro\n', '#dm', lambda s: '0%s;\n1%s;\n' % (s, s)),
        ('#defmacro dm\n#if $y#@src#else#no#end if#\n#end defmacro\n', '#dm', lambda s: '#if $y#' + s + '#else#no#end if#\n'),
        ('#defmacro dm(a)\n%if @a\n@src\n%else\n-\n%end if\n#end defmacro\n', '#dm a=0', lambda s: '-\n'),
        ('#defmacro dm: [@src]\n#defmacro d2: {@src}\n', '#d2', lambda s: '{' + s + '}')]


def do_defmacro(case, ctx):
    _, i, j, pos = case
    d, op, f = DEFM[i]
    src = SRCS[j]
    name = op.split()[0][1:]
    a = d + MPOS[pos].replace('%s', '%s#%s#end %s#' % (op, src, name))
    b = MPOS[pos].replace('%s', f(src))
    ra, rb = outputs(a, ctx), outputs(b, ctx)
    ctx.state(rb)
    if ra != rb:
        ctx.fail('defmacro', '%r gives %r, written out %r gives %r' % (a, ra, b, rb))


def check(case, ctx):
    ctx.trace()
    ctx.evals += 1
    return globals()['do_' + case[0]](case, ctx)
