"""Sizes: the properties at every boundary size of one dimension (lengths, counts, depths), the others small.

Bugs that need many items or long texts do not show in the small scopes of the checks; here one
dimension at a time runs through all sizes around the powers of two and ten.  A family is
(largest size, function of the size giving a list of (what, got, want))."""
T = {}


def sizes(top):
    s = set(range(0, 41))
    for k in range(5, 18):
        s.update((2 ** k - 1, 2 ** k, 2 ** k + 1))
    s.update((50, 99, 100, 101, 200, 999, 1000, 1001, 1999, 2000, 5000, 9999, 10000, 10001, 99999, 100000, 100001))
    return sorted(x for x in s if x <= top)


def family(pid, top, low=0):
    def deco(f):
        T.setdefault(pid, {})[f.__name__] = (low, top, f)
        return f
    return deco


def tmpl(src, *sl, **kw):
    from Cheetah.Template import Template
    cs = kw.pop('settings', {})
    return Template.compile(src, useCache=False, cacheCompilationResults=False, compilerSettings=cs)(searchList=list(sl), **kw)


def r(src, *sl, **kw):
    return str(tmpl(src, *sl, **kw))


# ---------------------------------------------------------------- C01
@family('C01', 5000, 1)
def name_length(n):
    k = 'a' * n
    yield 'name', r('$%s ${%s.%s} $getVar("%s")' % (k, k, k, k), {k: {k: 1}}), "{'%s': 1} 1 {'%s': 1}" % (k, k)


@family('C01', 1100, 1)
def search_list_length(n):
    ns = [{'x%d' % i: i, 'all': i} for i in range(n)]
    for i in sorted({0, n // 2, n - 1}):
        yield 'entry %d' % i, r('$x%d $all' % i, *ns), '%d 0' % i


@family('C01', 13, 1)
def dotted_depth(n):
    def call(v):
        return lambda: v
    d = c = 'V'
    for i in range(n):
        d = {'k%d' % (n - 1 - i): d}
    for i in range(n):
        c = {'k%d' % (n - 1 - i): call(c)}
    name = '.'.join('k%d' % i for i in range(n))
    yield 'dicts', r('$' + name, d), 'V'
    yield 'calls', r('$' + name, c), 'V'


@family('C01', 2100)
def namespace_size(n):
    ns = {'x%d' % i: i for i in range(n)}
    yield 'all names', r(''.join('$x%d ' % i for i in range(n)), ns), ''.join('%d ' % i for i in range(n))


# ---------------------------------------------------------------- C03
@family('C03', 10001)
def iterations(n):
    yield 'for', r('#for $i in range($n)#$i,#end for#', {'n': n}), ''.join('%d,' % i for i in range(n))
    yield 'while', r('#set $i = 0##while $i < $n##set $i += 1#.#end while#$i', {'n': n}), '.' * n + str(n)
    yield 'repeat', r('#repeat $n#.#end repeat#', {'n': n}), '.' * n
    yield 'break', r('#for $i in range(100002)##if $i == $n##break##end if#.#end for#', {'n': n}), '.' * n
    yield 'continue', r('#for $i in range($n + 1)##if $i != $n##continue##end if#$i#end for#', {'n': n}), str(n)


@family('C03', 520)
def directive_count(n):
    yield 'ifs', r(''.join('#if $v == %d#%d#else#-#end if#' % (i, i) for i in range(n)), {'v': n - 1}), '-' * (n - 1) + (str(n - 1) if n else '')
    yield 'elif', r('#if 0#no' + ''.join('#elif $v == %d#%d' % (i, i) for i in range(n)) + '#else#else#end if#', {'v': n - 1}), str(n - 1) if n else 'else'
    yield 'fors', r(''.join('#for $i in (1, 2)#$i#end for#' for i in range(n))), '12' * n


@family('C03', 17, 1)
def nesting(n):
    yield 'if', r('#if 1#' * n + 'x' + '#end if#' * n), 'x'
    yield 'else', r('#if 0#n#else#' * n + 'x' + '#end if#' * n), 'x'
    yield 'for', r(''.join('#for $i%d in (1,)#' % i for i in range(n)) + 'x' + '#end for#' * n), 'x'
    yield 'repeat', r('#repeat 1#' * n + 'x' + '#end repeat#' * n), 'x'
    yield 'try', r('#try#' * n + '#if 1##raise ValueError()##end if#x' + '#except#c#end try#' * n), 'c'


# ---------------------------------------------------------------- C04
@family('C04', 12, 1)
def region_depth(n):
    ns = {'f': lambda x: '(%s)' % x}
    yield 'call', r('#call $f#' * n + 'x' + '#end call#' * n, ns), '(' * n + 'x' + ')' * n
    yield 'capture', r('<' + ''.join('#capture c%d#%d' % (i, i) for i in range(n)) + ''.join('#end capture#$c%d.' % i for i in range(n - 1, -1, -1)) + '>', ns), None


@family('C04', 520)
def region_count(n):
    ns = {'f': lambda x: '(%s)' % x, 'g': lambda **kw: ''.join('%s=%s;' % i for i in sorted(kw.items()))}
    yield 'calls', r(''.join('#call $f#%d#end call#' % i for i in range(n)), ns), ''.join('(%d)' % i for i in range(n))
    yield 'captures', r(''.join('#capture c%d#%d#end capture#' % (i, i) for i in range(n)) + ''.join('$c%d.' % i for i in range(n)), ns), ''.join('%d.' % i for i in range(n))
    if n:
        yield 'args', r('#call $g#' + ''.join('#arg a%04d#%d' % (i, i) for i in range(n)) + '#end call#', ns), ''.join('a%04d=%d;' % (i, i) for i in range(n))


@family('C04', 66000)
def region_length(n):
    ns = {'f': lambda x: '(%s)' % x, 'n': n}
    yield 'call', r('#call $f#' + 'x' * n + '$n#end call#', ns), '(' + 'x' * n + '%d)' % n
    yield 'capture', r('#capture c#' + 'x' * n + '$n#end capture#[$c]', ns), '[' + 'x' * n + '%d]' % n


# ---------------------------------------------------------------- C05
@family('C05', 100001)
def text_length(n):
    for what, unit in (('letters', 'x'), ('wide', '\u0436'), ('spaces', ' ')):
        t = unit * n
        yield what, r(t + '${v}' + t, {'v': 'V'}), t + 'V' + t
    t = ('0123456789' * (n // 10 + 1))[:n]
    yield 'digits', r(t), t


@family('C05', 2100)
def text_lines(n):
    for what, unit in (('lines', 'line\n'), ('blank', '\n'), ('crlf', 'a\r\n'), ('quotes', '"'), ('single', "'"), ('triple', '"""\n'), ('backslashes', '\\'), ('hash', '# '), ('dollar', '$ '), ('percent', '%s %'), ('braces', '{}')):
        t = unit * n
        yield what, r('[' + t + ' $v', {'v': 'V'}), '[' + t + ' V'


# ---------------------------------------------------------------- C06
@family('C06', 2100)
def white_space(n):
    yield 'indent', r('a\n' + ' ' * n + '#if 1\nb\n' + '\t' * n + '#end if\nc\n'), 'a\nb\nc\n'
    yield 'trailing', r('a\n#if 1' + ' ' * n + '\nb\n#end if' + ' ' * n + '\nc\n'), 'a\nb\nc\n'
    yield 'blank lines', r('\n' * n + '#if 1\n' + '\n' * (n + 1) + '#end if\n' + '\n' * n), '\n' * (3 * n + 1)
    yield 'comment', r('a\n##' + 'x' * n + '\nb ##' + 'x' * n + '\nc'), 'a\nb \nc'
    yield 'multi-line comment', r('a\n#*' + 'x\n' * n + '*#\nb'), 'a\nb'
    yield 'slurp', r('a #slurp\n' * n + 'b'), 'a ' * n + 'b'
    yield 'slurp token', r('a #\n' * n + 'b'), 'a ' * n + 'b'


@family('C06', 520)
def line_count(n):
    yield 'comments', r('a\n' + '## x\n' * n + 'b\n'), 'a\nb\n'
    yield 'sets', r('a\n' + '#set $x = 1\n' * n + 'b\n'), 'a\nb\n'
    yield 'ifs', r('#if 1\nx\n#end if\n' * n), 'x\n' * n


# ---------------------------------------------------------------- C07
@family('C07', 1100)
def placeholder_count(n):
    ns = {'v': 'V', 'f': lambda *a, **k: len(a) + len(k)}
    yield 'bare', r('$v' * n, ns), 'V' * n
    yield 'braced', r('${v}x' * n, ns), 'Vx' * n
    yield 'mixed', r('$v$(v)$[v]${v}' * n, ns), 'VVVV' * n
    yield 'args', r('$f(%s)' % ', '.join(str(i) for i in range(n)), ns), str(n)
    yield 'kwargs', r('$f(%s)' % ', '.join('a%d=$v' % i for i in range(min(n, 250))), ns), str(min(n, 250))


@family('C07', 5000)
def expression_length(n):
    ns = {'v': 'V', 'l': len}
    yield 'string', r("$l('%s')" % ('x' * n), ns), str(n)
    yield 'spaces', r('${ v' + ' ' * n + '}', ns), 'V'
    yield 'sum', r('${1%s}' % ('+1' * min(n, 900)), ns), str(1 + min(n, 900))
    yield 'lines', r("$l(''' %s''')" % ('\n' * n), ns), str(n + 1)


@family('C07', 40, 1)
def bracket_depth(n):
    ns = {'v': 'V', 'f': lambda x: x}
    yield 'parentheses', r('${' + '(' * n + '$v' + ')' * n + '}', ns), 'V'
    yield 'calls', r('$f(' * n + '$v' + ')' * n, ns), 'V'
    yield 'lists', r('${len(' + '[' * n + ']' * n + ')}', ns), '1' if n > 1 else '0'
    yield 'subscripts', r('$d' + "['k']" * n, {'d': __import__('functools').reduce(lambda a, _: {'k': a}, range(n), 'V')}), 'V'


# ---------------------------------------------------------------- C08
@family('C08', 1100)
def variable_count(n):
    yield 'locals', r(''.join('#set $x%d = %d#' % (i, i) for i in range(n)) + ''.join('$x%d,' % i for i in range(n))), ''.join('%d,' % i for i in range(n))
    yield 'globals', r(''.join('#set global $x%d = %d#' % (i, i) for i in range(n)) + '#def m#' + ''.join('$x%d,' % i for i in range(n)) + '#end def#$m'), ''.join('%d,' % i for i in range(n))
    yield 'again', r('#set $x = 0#' + '#set $x = $x + 1#' * n + '$x'), str(n)
    yield 'augmented', r('#set $x = 0#' + '#set $x += 1#' * n + '$x'), str(n)


@family('C08', 260)
def method_count(n):
    yield 'methods', r('#set $x = 0#' + ''.join('#def m%d##set $x = %d#$x,#end def#' % (i, i) for i in range(n)) + ''.join('$m%d' % i for i in range(n)) + '$x'), ''.join('%d,' % i for i in range(n)) + '0'


# ---------------------------------------------------------------- C09
@family('C09', 1100)
def cache_items(n):
    ns = {'n': n, 'log': [], 'f': lambda i: ns['log'].append(i) or i}
    t = tmpl('#for $i in range($n)##cache id="a", varyBy=$i#$f($i),#end cache##end for#', ns)
    want = ''.join('%d,' % i for i in range(n))
    yield 'first', str(t), want
    yield 'second', str(t), want
    yield 'evaluations', len(ns['log']), n
    ns['log'][:] = []
    t.refreshCache()
    yield 'refreshed', str(t), want
    yield 'evaluations', len(ns['log']), n


@family('C09', 260)
def cache_regions(n):
    ns = {'log': [], 'f': lambda i: ns['log'].append(i) or i}
    t = tmpl(''.join('#cache#$f(%d),#end cache#$*f(%d)' % (i, i) for i in range(n)), ns)
    want = ''.join('%d,%d' % (i, i) for i in range(n))
    for k in range(3):
        yield 'rendering %d' % k, str(t), want
    yield 'evaluations', len(ns['log']), 2 * n


@family('C09', 100001)
def cached_length(n):
    ns = {'x': 'x' * n, 'v': 1}
    t = tmpl('#cache#$x$v#end cache#', ns)
    a = str(t)
    ns['v'] = 2
    yield 'first', a, 'x' * n + '1'
    yield 'second', str(t), 'x' * n + '1'


# ---------------------------------------------------------------- C10
@family('C10', 10001)
def store_keys(n):
    from Cheetah.CacheStore import MemoryCacheStore
    s = MemoryCacheStore()
    for i in range(n):
        s.set('k%d' % i, i)

    def get(k):
        try:
            return s.get(k)
        except KeyError:
            return None
    yield 'all', [get('k%d' % i) for i in range(n)], list(range(n))
    for i in range(0, n, 2):
        s.delete('k%d' % i)
    yield 'after deleting every other', [get('k%d' % i) for i in range(n)], [i if i % 2 else None for i in range(n)]
    s.clear()
    yield 'after clear', [get('k%d' % i) for i in range(n)], [None] * n


@family('C10', 100001)
def store_values(n):
    from Cheetah.CacheStore import MemoryCacheStore
    s = MemoryCacheStore()
    k = 'k' * n
    s.set(k, 'x' * n)
    s.set(k + 'k', 'y')
    yield 'value', s.get(k), 'x' * n
    s.set(k, 'z')
    yield 'again', (s.get(k), s.get(k + 'k')), ('z', 'y')


# ---------------------------------------------------------------- C11
@family('C11', 25, 1)
def hierarchy_depth(n):
    from Cheetah.Template import Template
    K = Template.compile('#def m#0#end def##block b#b0#end block#[$m]', useCache=False)
    for i in range(1, n):
        K = K.subclass('#implements dummy%d\n#def m#%d#super##end def#' % (i, i) if i % 2 else '#implements dummy%d\n#def b#b%d#end def#' % (i, i), useCache=False)
    odd = [i for i in range(1, n) if i % 2]
    even = [i for i in range(2, n) if i % 2 == 0]
    yield 'chain', K().respond(), 'b%d[%s0]' % (even[-1] if even else 0, ''.join(str(i) for i in reversed(odd)))


@family('C11', 260)
def members(n):
    from Cheetah.Template import Template
    B = Template.compile(''.join('#attr $a%d = %d\n#def m%d#%d#end def##block b%d#x#end block##slurp\n' % (i, i, i, i, i) for i in range(n)) + ''.join('$m%d' % i for i in range(n)) + ''.join('$a%d,' % i for i in range(n)), useCache=False)
    want = 'x' * n + ''.join(str(i) for i in range(n)) + ''.join('%d,' % i for i in range(n))
    yield 'base', str(B()), want
    K = B.subclass('#implements dummy\n' + ''.join('#def b%d#y#end def#' % i for i in range(n)), useCache=False)
    yield 'derived', K().respond(), 'y' * n + want[n:]


@family('C11', 16, 1)
def block_depth(n):
    yield 'blocks', r(''.join('#block b%d#%d' % (i, i) for i in range(n)) + '.' + '#end block#' * n), ''.join(str(i) for i in range(n)) + '.'


# ---------------------------------------------------------------- C12
@family('C12', 520)
def compile_history(n):
    from Cheetah.Template import Template
    srcs = ['text %d $v' % i for i in range(n)]
    for rnd in range(2):
        yield 'round %d' % rnd, [str(Template.compile(s)(searchList=[{'v': rnd}])) for s in srcs], ['text %d %d' % (i, rnd) for i in range(n)]


@family('C12', 66000)
def source_length(n):
    from Cheetah.Template import Template
    a, b = 'x' * n + 'a', 'x' * n + 'b'
    yield 'same prefix', [str(Template.compile(s)()) for s in (a, b, a)], [a, b, a]
    a, b = 'a' + 'x' * n, 'b' + 'x' * n
    yield 'same suffix', [str(Template.compile(s)()) for s in (a, b, a)], [a, b, a]


# ---------------------------------------------------------------- C14
@family('C14', 100001)
def include_length(n):
    import os
    import tempfile
    t = ('line %d\n' % n) * (n // 8 + 1)
    t = t[:n]
    yield 'source', r('[#include source=$t#$v]', {'t': t + '$v', 'v': 1}), '[' + t + '11]'
    yield 'raw source', r('[#include raw source=$t#$v]', {'t': t + '$v', 'v': 1}), '[' + t + '$v1]'
    d = tempfile.mkdtemp()
    p = os.path.join(d, 'x')
    try:
        with open(p, 'w') as f:
            f.write(t + '$v')
        yield 'file', r('[#include $p#$v]', {'p': p, 'v': 1}), '[' + t + '11]'
        yield 'raw file', r('[#include raw $p#$v]', {'p': p, 'v': 1}), '[' + t + '$v1]'
    finally:
        os.remove(p)
        os.rmdir(d)


@family('C14', 260)
def include_count(n):
    yield 'includes', r(''.join('#include source=$t%d#' % i for i in range(n)), {'t%d' % i: '%d$v,' % i for i in range(n)}, {'v': 'V'}), ''.join('%dV,' % i for i in range(n))
    yield 'loop', r('#for $t in $ts##include source=$t##end for#', {'ts': ['%d$v,' % i for i in range(n)], 'v': 'V'}), ''.join('%dV,' % i for i in range(n)) if n < 0 else None


@family('C14', 16, 1)
def include_depth(n):
    ns = {'t%d' % i: '%d#include source=$t%d#%d' % (i, i + 1, i) for i in range(n)}
    ns['t%d' % n] = '$v'
    ns['v'] = 'V'
    yield 'depth', r('#include source=$t0', ns), ''.join(str(i) for i in range(n)) + 'V' + ''.join(str(i) for i in reversed(range(n)))


# ---------------------------------------------------------------- C15
@family('C15', 66000)
def value_length(n):
    ns = {'v': '<' * n, 'w': ' a' * n, 'x': 'x' * n, 'n': n}
    yield 'WebSafe', r('#filter WebSafe#$v#end filter#', ns), '&lt;' * n
    yield 'StripSqueeze', r('#filter StripSqueeze#$w#end filter#', ns), ' '.join('a' * n)
    yield 'Strip', r('#filter Strip#$w#end filter#', ns), (' a' * n).strip()
    yield 'MaxLen', r('#filter MaxLen#${x, maxlen=100}${x, maxlen=$n}#end filter#', ns), 'x' * min(n, 100) + 'x' * n


@family('C15', 520)
def filtered_count(n):
    ns = {'v': '<'}
    yield 'values', r('#filter WebSafe#' + '$v<' * n + '#end filter#$v', ns), '&lt;<' * n + '<'
    yield 'regions', r('#filter WebSafe#$v#end filter#$v' * n, ns), '&lt;<' * n


@family('C15', 9, 1)
def filter_depth(n):
    yield 'nested', r('#filter WebSafe#$v#filter Filter#$v' * n + '#end filter#$v#end filter#$v' * n, {'v': '<'}), '&lt;<' * n + '&lt;<' * n


# ---------------------------------------------------------------- C16
@family('C16', 260)
def wrong_at_depth(n):
    from Cheetah.Parser import ParseError

    def verdict(s):
        try:
            r(s)
            return 'ok'
        except ParseError as e:
            return 'ParseError'
    yield 'closed', verdict('#if 1\nx\n#end if\n' * n), 'ok'
    yield 'unclosed', verdict('#if 1\nx\n#end if\n' * n + '#if 1\nx\n'), 'ParseError'
    yield 'unopened', verdict('#if 1\nx\n#end if\n' * n + '#end if\n'), 'ParseError'
    yield 'wrong', verdict('#if 1\nx\n#end if\n' * n + '#if 1\n#end for\n'), 'ParseError'
    if 0 < n <= 16:
        yield 'nested', verdict('#if 1\n' * n + 'x\n' + '#end if\n' * n), 'ok'
        yield 'nested unclosed', verdict('#if 1\n' * n + '#end if\n' * (n - 1)), 'ParseError'
        yield 'nested unopened', verdict('#if 1\n' * n + '#end if\n' * (n + 1)), 'ParseError'


@family('C16', 2100)
def error_row(n):
    from Cheetah.Parser import ParseError
    try:
        r('line\n' * n + '$f(\n')
        got = None
    except ParseError as e:
        got = str(e).split('Line ')[1].split(',')[0]
    yield 'row', got, str(n + 1)


# ---------------------------------------------------------------- C17
@family('C17', 5000)
def forbidden_behind(n):
    def verdict(s, cs):
        try:
            r(s, settings=cs)
            return 'ok'
        except Exception as e:
            return type(e).__name__
    for what, pre in (('text', 'x' * n), ('lines', 'x\n' * n)):
        yield what, verdict(pre + '#set $a = 1#', {'disabledDirectives': ['set']}), 'ForbiddenDirective'
        yield what + ' allowed', verdict(pre + '#set $a = 1#', {'disabledDirectives': ['import']}), 'ok'
    m = min(n, 200)
    yield 'many disabled', verdict('#set $a = 1#', {'disabledDirectives': ['x%d' % i for i in range(n)] + ['set']}), 'ForbiddenDirective'
    yield 'many directives', verdict('#if 1#x#end if#' * m + '#set $a = 1#', {'enabledDirectives': ['if']}), 'ForbiddenDirective'


# ---------------------------------------------------------------- C19
@family('C19', 1100)
def renderings(n):
    ns = {'v': 'V', 'l': [1, 2], 'f': lambda x: x}
    t = tmpl('#set $x = 0##for $i in $l##set $x += 1#$i$v#end for#$x#call $f#c$v#end call##filter WebSafe#$v#end filter#', ns)
    yield 'each', {str(t) for i in range(n)}, {'1V2V2cVV'} if n else set()
    ts = [tmpl('$v', {'v': i}) for i in range(min(n, 130))]
    yield 'instances', [str(x) for x in ts], [str(i) for i in range(min(n, 130))]


# ---------------------------------------------------------------- C20
@family('C20', 100001)
def output_length(n):
    t = tmpl('[$x#for $i in (1, 2)#$x#end for#]', {'x': 'x' * n})
    want = '[' + 'x' * n * 3 + ']'

    class Resp(object):
        def __init__(self):
            self.chunks = []

        def write(self, s):
            self.chunks.append(s)

    class Trans(object):
        def __init__(self):
            self.r = Resp()

        def response(self):
            return self.r
    tr = Trans()
    yield 'str', str(t), want
    yield 'respond', t.respond(), want
    t.respond(trans=tr)
    yield 'transaction', ''.join(tr.r.chunks), want


@family('C20', 5000)
def output_chunks(n):
    t = tmpl('#for $i in range($n)#$i.#end for#', {'n': n})
    want = ''.join('%d.' % i for i in range(n))
    yield 'str', str(t), want
    yield 'respond', t.respond(), want


# ---------------------------------------------------------------- C23
@family('C23', 520)
def one_line_count(n):
    yield 'if', r('#if 1: x\n' * n), 'x\n' * n
    yield 'for', r('#for $i in (1, 2): $i\n' * n), '1\n2\n' * n
    yield 'def', r(''.join('#def m%d: %d\n' % (i, i) for i in range(n)) + ''.join('$m%d,' % i for i in range(n))), ''.join('%d,' % i for i in range(n))
    cs = {'macroDirectives': {'mac': lambda src: '<%s>' % src}}
    yield 'macro', r('#mac: $v\n' * n, {'v': 1}, settings=cs), '<1>' * n
    yield 'macro region', r('#mac#$v#end mac#' * n, {'v': 1}, settings=cs), '<1>' * n


@family('C23', 66000)
def one_line_length(n):
    yield 'if', r('#if 1: ' + 'x' * n + 'y\n'), 'x' * n + 'y\n'
    cs = {'macroDirectives': {'mac': lambda src: src * 2 + ' '}}
    yield 'macro', r('a#mac#' + 'x' * n + '${v}#end mac#b$v', {'v': 1}, settings=cs), 'a' + 'x' * n + '1' + 'x' * n + '1 b1'


# ---------------------------------------------------------------- C24
@family('C24', 520)
def caught_count(n):
    src = '#errorCatcher Echo\n' + ''.join('$q%d $v%d ' % (i, i) for i in range(n))
    ns = {'v%d' % i: i for i in range(n)}
    want = ''.join('$q%d %d ' % (i, i) for i in range(n))
    yield 'distinct', r(src, ns), want
    yield 'same', r('#errorCatcher Echo\n' + '$q $v ' * n, {'v': 1}), '$q 1 ' * n
    t = tmpl(src.replace('Echo', 'ListErrors'), ns)
    yield 'listed', str(t), want
    yield 'errors', [e['rawCode'] for e in t._CHEETAH__errorCatcher.listErrors()] if n else [], ['$q%d' % i for i in range(n)]


# ---------------------------------------------------------------- C25
@family('C25', 130)
def switches(n):
    yield 'tokens', r('#compiler cheetahVarStartToken = "@"\n@v$v\n#compiler cheetahVarStartToken = "$"\n@v$v\n' * n, {'v': 1}), '1$v\n@v1\n' * n
    yield 'resets', r('#compiler cheetahVarStartToken = "@"\n@v$v\n#compiler reset\n@v$v\n' * n, {'v': 1}), '1$v\n@v1\n' * n
    tok = '@' * n
    if 0 < n:
        yield 'token length', r('#compiler cheetahVarStartToken = "%s"\n%sv$v\n' % (tok, tok), {'v': 1}), '1$v\n'


# ----------------------------------------------------------------
def enum(pid, tier):
    for name in sorted(T.get(pid, ())):
        low, top, _ = T[pid][name]
        for n in sizes(top if tier == 'thorough' else min(top, 70000)):
            if n >= low:
                yield ['~size', name, n]


def check(pid, case, ctx):
    _, name, n = case
    ctx.evals += 1
    for what, got, want in T[pid][name][2](n):
        ctx.state('size', name, n, what)
        ctx.trans()
        if want is not None and got != want:
            g, w = str(got), str(want)
            i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
            ctx.fail('size ' + name, '%s, %s, size %d: the result (length %d) is not the expected one (length %d), first difference at %d: %r instead of %r'
                     % (name, what, n, len(g), len(w), i, g[max(0, i - 20):i + 40], w[max(0, i - 20):i + 40]))
    ctx.outcome('size')


def wrap(pid, mod):
    """Add the sizes to the cases of a check."""
    if pid not in T or getattr(mod, '_sized', False):
        return mod
    mod._sized = True
    enum0, check0 = mod.enum, mod.check
    first = mod.MODES[0]

    def enum1(tier, mode):
        if mode == first or tier == 'thorough':
            for c in enum(pid, tier):
                yield c
        for c in enum0(tier, mode):
            yield c

    def check1(case, ctx):
        if isinstance(case, (list, tuple)) and len(case) == 3 and case[0] == '~size':
            return check(pid, case, ctx)
        return check0(case, ctx)
    mod.enum, mod.check = enum1, check1
    text = '; '.join('%s up to %d' % (k.replace('_', ' '), v[1]) for k, v in sorted(T[pid].items()))
    for t in mod.BOUNDS:
        mod.BOUNDS[t] = dict(mod.BOUNDS[t], sizes='all up to 40 and around the powers of 2 and 10: ' + text)
    return mod
