"""Output filters: all short values through all filters, and all nestings of filter regions, against reference filters and a region model."""
import html
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 3}
RULE = ('one value case = one string pushed through every filter and argument, directly and as a placeholder; one region case = one tree of filter '
        'regions, texts, placeholders, methods and early exits, rendered three times on one instance; states are (active filter stack, output so far), '
        'transitions are filter applications and region entries and exits')
BOUNDS = {'quick': {'value length': '4 over 9 characters, 3 over 14', 'region trees': 'depth 3, up to 4 nodes in sequence', 'renderings per tree': 3},
          'thorough': {'value length': '5 over 9 characters, 4 over 14', 'region trees': 'depth 4', 'renderings per tree': 3}}

ALPHA9 = '&<>" \na;#'
ALPHA14 = '&<>" \n\ta;#\'\r1\u00e9'
ALSO = ['', '"', ' ', '"\'', ' "', ';', '#', '&', '<', 'a', '1', '&#1;', ';a', '\u00e9']
LENS = [0, 1, 2, 3, 5]


def values(tier):
    a, b = (4, 3) if tier == 'quick' else (5, 4)
    for n in range(a + 1):
        for t in itertools.product(ALPHA9, repeat=n):
            yield ''.join(t)
    for n in range(1, b + 1):
        for t in itertools.product(ALPHA14, repeat=n):
            if any(c not in ALPHA9 for c in t):
                yield ''.join(t)


# ------------------------------------------------------------------ reference filters
def plain(v):
    return '' if v is None else str(v)


def r_websafe(v, also=None):
    ent = {'&': '&amp;', '<': '&lt;', '>': '&gt;'}
    for k in also or '':
        if k not in '&<>':
            ent[k] = {' ': '&nbsp;', '"': '&quot;'}.get(k) or '&#%d;' % ord(k)
    return ''.join(ent.get(c, c) for c in plain(v))


def r_maxlen(v, maxlen=None):
    s = plain(v)
    return s if maxlen is None else s[:maxlen]


def r_strip(v):
    return '\n'.join(x.strip() for x in plain(v).split('\n'))


def r_squeeze(v):
    return ' '.join(plain(v).split())


REF = {'Filter': plain, 'RawOrEncodedUnicode': plain, 'EncodeUnicode': plain, 'WebSafe': r_websafe, 'MaxLen': r_maxlen, 'Strip': r_strip,
       'StripSqueeze': r_squeeze}


# ------------------------------------------------------------------ region programs
# items: 't' text  'v' value  'n' None  'k' value with an argument  'm' method with a placeholder  'M' method with its own region  'e' #echo  's' #silent
#        'p' captured placeholder  'c' call region  'l' loop  'i' inline if  'I' include with a placeholder  'J' include with its own region
#        (f, ...) region of filter f in A B W N; ('b', ...) the same left by #break; ('x', ...) left by an exception
LEAVES = ['t', 'v', 'n', 'k', 'm', 'M', 'e', 's', 'p', 'c', 'i', 'l', 'I', 'J']
FILT = ['A', 'B', 'W', 'N']
OPEN = {'A': '#filter $A#', 'B': '#filter $ns.B#', 'W': '#filter WebSafe#', 'N': '#filter None#'}
SRC = {'t': '<', 'v': '$v', 'n': '$n', 'k': '${v, also="v"}', 'm': '$m()', 'M': '$M', 'e': '#echo $v#', 's': '#silent $v#', 'i': '#if $v then $v else 1#',
       'p': '#capture p#>$v#end capture#$p', 'c': '#call $ident#"$v#end call#', 'l': '#for $i in $two#$i#end for#', 'I': '#include source=$inc#', 'J': '#include source=$inc2#'}
INC = {'inc': '($v)', 'inc2': '(#filter $B#$v#end filter#$v)'}
HEAD = '#def m#[$v]#end def##def M#{#filter $B#$v#end filter#$v}#end def#'


def src_of(items):
    out = []
    for it in items:
        if isinstance(it, str):
            out.append(SRC[it])
        elif it[0] == 'b':
            out.append('#for $j in $two#' + OPEN[it[1]] + src_of(it[2]) + '#break##end filter##end for#')
        elif it[0] == 'o':
            out.append('#for $j in $two#' + OPEN[it[1]] + src_of(it[2]) + '#continue##end filter##end for#')
        elif it[0] == 'x':
            out.append('#try#' + OPEN[it[1]] + src_of(it[2]) + '$boom()#end filter##except#!#end try#')
        elif it[0] == 'r':
            out.append(OPEN[it[1]] + src_of(it[2]) + '#stop##end filter#')
        elif it[0] == 'w':
            out.append('\n#filter ' + OPEN[it[1]][8:-1] + ': ' + src_of(it[2]) + '\n')
        else:
            out.append(OPEN[it[0]] + src_of(it[1]) + '#end filter#')
    return ''.join(out)


class Return(Exception):
    pass


class Model(object):
    def __init__(self, initial, v, ctx):
        self.cur, self.initial, self.v, self.ctx = initial, initial, v, ctx
        self.out = []
        self.count = []

    def apply(self, f, val, also=None):
        self.ctx.trans()
        if val is None:
            return ''
        if f in 'AB':
            self.count.append(f)
            return '%s(%s%s)' % (f.lower(), plain(val), also or '')
        if f == 'W':
            return r_websafe(val, also)
        return plain(val)

    def write(self, s):
        self.out.append(s)

    def ins(self, val, also=None):
        self.write(self.apply(self.cur, val, also))

    def sub(self, fn):
        saved, self.out = self.out, []
        try:
            fn()
            return ''.join(self.out)
        finally:
            self.out = saved

    def region(self, f, items, end=None):
        saved, self.cur = self.cur, self.initial if f == 'N' else f
        self.ctx.state(self.cur, saved, len(self.out))
        try:
            self.run(items)
        finally:
            self.cur = saved

    def run(self, items):
        for it in items:
            if it == 't':
                self.write('<')
            elif it in ('v', 'e', 'i'):
                self.ins(self.v)
            elif it == 'n':
                self.ins(None)
            elif it == 'k':
                self.ins(self.v, 'v')
            elif it == 's':
                pass
            elif it == 'm':
                self.ins(self.sub(lambda: (self.write('['), self.ins(self.v), self.write(']'))))
            elif it == 'M':
                self.ins(self.sub(lambda: (self.write('{'), self.region('B', ['v']), self.ins(self.v), self.write('}'))))
            elif it == 'p':
                self.ins(self.sub(lambda: (self.write('>'), self.ins(self.v))))
            elif it == 'c':
                self.ins(self.sub(lambda: (self.write('"'), self.ins(self.v))))
            elif it in ('I', 'J'):
                self.write('(')
                saved, self.cur = self.cur, self.initial
                if it == 'J':
                    self.region('B', ['v'])
                self.ins(self.v)
                self.cur = saved
                self.write(')')
            elif it == 'l':
                self.ins(1)
                self.ins(2)
            elif it[0] == 'b':
                self.region(it[1], it[2])
            elif it[0] == 'o':
                self.region(it[1], it[2])
                self.region(it[1], it[2])
            elif it[0] == 'x':
                self.region(it[1], it[2])
                self.write('!')
            elif it[0] == 'r':
                self.region(it[1], it[2])
                raise Return()
            elif it[0] == 'w':
                self.write('\n')
                self.region(it[1], it[2])
                self.write('\n')
            else:
                self.region(it[0], it[1])


def trees(tier):
    two = [[x] for x in LEAVES] + [[x, y] for x in LEAVES for y in ('t', 'v')]
    d1 = [[f, b] for f in FILT for b in two]
    for r in d1:
        yield [r, 'v']
        yield ['v', r, 'm', 'v']
    for x in LEAVES:
        for y in LEAVES:
            for f in FILT:
                yield [x, [f, [y]], x]
    small = ['v', 'n', 'm', 'k', 't', 'M', 'p'] if tier == 'thorough' else ['v', 'm', 'k', 'M']
    # nested
    for f in FILT:
        for g in FILT:
            for x in small:
                for y in small:
                    for z in small:
                        yield [[f, [x, [g, [y]], z]], 'v', 'm']
    # in sequence
    for f in FILT:
        for g in FILT:
            for h in FILT:
                for x in small:
                    yield [[f, [x]], [g, ['v']], x, [h, [x]], x]
                    yield [[f, ['v', [g, [x, [h, [x]], x]], x]], x]
    # left early
    kinds = ['b', 'o', 'x', 'r']
    for k in kinds:
        for f in FILT:
            for x in LEAVES:
                for y in small:
                    yield [[k, f, [x]], y]
                    for g in FILT:
                        yield [[g, [[k, f, [x]], y]], y]
                        if tier == 'thorough' or x in small:
                            yield [[k, f, [[g, [x]], y]], x]
                            yield [[k, f, ['v', [g, [x]]]], [g, [y]], 'v']
    for k in kinds:
        for l in kinds:
            for f in FILT:
                for g in FILT:
                    for x in small:
                        if not (k in 'bo' and l in 'bo' and tier == 'quick'):
                            yield [[k, f, [x, [l, g, [x]], 'v']], x]
    for f in FILT:
        for x in LEAVES:
            yield [['w', f, [x, 'v']], 'v']
            for g in FILT:
                yield [['w', f, ['v', [g, [x]], 'v']], x]
    if tier == 'thorough':
        for f in itertools.product(FILT, repeat=4):
            for x in small:
                yield [[f[0], ['v', [f[1], [x, [f[2], ['v', [f[3], [x]], 'v']], x]], 'v']], x]


def enum(tier, mode):
    if mode == 'c':
        for s in values(tier):
            if len(s) < 4 or tier == 'thorough' or True:
                yield ['val', s]
    for i, t in enumerate(trees(tier)):
        if mode == 'pure' and i % 1 and tier == 'quick':
            continue
        yield ['tree', t]
    for k in range(len(OBJ())):
        for f in REF:
            yield ['obj', k, f]
    for init in ('WebSafe', 'class', 'lib'):
        for x in LEAVES:
            for f in FILT:
                yield ['init', init, [x, [f, [x, 'v']], x]]
    for st in SETTINGS:
        for x in LEAVES:
            for f in FILT:
                yield ['set', st, [x, [f, [x, 'v']], x]]
    for e in RAW:
        yield ['raw', e]


SETTINGS = ['alwaysFilterNone', 'includeRawExprInFilterArgs', 'useFilters', 'useStackFrames']
RAW = ['$v', '${v}', '${v, a=1}', '$v.upper()', '${ v }', '$ident($v)', '$(v)', '$[v]', '#echo $v#', '${v + 1}', '${ident("a\\n")}', '${ident(\'"\')}', '$*v', '$*1d*v', '$!v']


class Weird(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    __repr__ = __str__


def OBJ():
    return [0, 1, -5, 2.5, True, False, '', None, [], [None, '<'], ('&', 1), {'<': '>'}, Weird('<&>'), Weird(''), b'<&\xff>', b'', ValueError('<x>'), 10 ** 30, 1j,
            '\u0000', '\ud7ff', '\U0001f600<', '\u00a0 a \u2003', '\x1c<\x85', range(2)]


def filters():
    from Cheetah.Filters import Filter
    calls = []

    class A(Filter):
        N = 'a'

        def filter(self, val, also=None, **kw):
            calls.append((self.N, val, kw.get('rawExpr')))
            if val is None:
                return ''
            return '%s(%s%s)' % (self.N, val, also or '')

    class B(A):
        N = 'b'
    return A, B, calls


class NS(object):
    pass


def boom():
    raise KeyError('boom')


def check(case, ctx):
    ctx.trace()
    ctx.evals += 1
    return globals()['do_' + case[0]](case, ctx)


VAL_SRC = ('${v}\x01#filter WebSafe#${v}\x01${v, also=$q}#end filter#\x01#filter MaxLen#${v, maxlen=2}\x01$v#end filter#\x01'
           '#filter Strip#$v#end filter#\x01#filter StripSqueeze#$v#end filter#')
KLASS = []


def do_val(case, ctx):
    from Cheetah import Filters
    from Cheetah.Utils.htmlEncode import htmlEncode
    from Cheetah.Utils.htmlDecode import htmlDecode
    s = case[1]
    for name in REF:
        f = getattr(Filters, name)().filter
        runs = [({}, None)]
        if name == 'WebSafe':
            runs += [({'also': a}, a) for a in ALSO]
        if name == 'MaxLen':
            runs += [({'maxlen': n}, n) for n in LENS]
        for kw, arg in runs:
            ctx.trans()
            want = REF[name](s, *([arg] if kw else []))
            r = tutil.outcome(f, s, **kw)
            if not ctx.state(name, kw, r):
                pass
            if r != ('ok', want):
                ctx.fail('%s%s' % (name, sorted(kw)), 'filter(%r, %r) = %r, expected %r' % (s, kw, r, want))
                continue
            if name == 'WebSafe':
                # independent of the reference: nothing raw is left, and it decodes back
                raw = [c for c in '<>' + ''.join(c for c in (arg or '') if c not in '&#;' and not c.isalnum() and c != '\u00e9') if c in r[1]]
                if raw:
                    ctx.fail('WebSafe raw', 'filter(%r, %r) = %r keeps %r' % (s, kw, r[1], raw))
                back = html.unescape(r[1]).replace('\u00a0', ' ')
                if '&' in r[1] and back != s and '\u00a0' not in s:
                    ctx.fail('WebSafe decode', 'filter(%r, %r) = %r decodes to %r' % (s, kw, r[1], back))
    e = htmlEncode(s)
    if e != r_websafe(s, '"') or htmlDecode(e) != s:
        ctx.fail('html', 'htmlEncode(%r) = %r, decoded %r' % (s, e, htmlDecode(e)))
    if not KLASS:
        KLASS.append(tutil.compile_(VAL_SRC))
    t = KLASS[0](searchList=[{'v': s, 'q': '" '}])
    want = '\x01'.join([s, r_websafe(s), r_websafe(s, '" '), r_maxlen(s, 2), s, r_strip(s), r_squeeze(s)])
    for i in range(2):
        got = tutil.outcome(str, t)
        if got != ('ok', want):
            ctx.fail('rendered', 'value %r renders %r, expected %r (rendering %d)' % (s, got, want, i + 1))



def do_obj(case, ctx):
    from Cheetah import Filters
    v = OBJ()[case[1]]
    name = case[2]
    want = REF[name](v)
    got = tutil.outcome(getattr(Filters, name)().filter, v)
    if got != ('ok', want):
        ctx.fail('obj ' + name, 'filter(%r) = %r, expected %r' % (v, got, want))
    got = tutil.outcome(tutil.render, '<$v>#filter %s#<$v>#end filter#<${v}>' % name, [{'v': v}])
    want = '<%s><%s><%s>' % (plain(v), want, plain(v))
    ctx.state(name, want)
    if got != ('ok', want):
        ctx.fail('obj rendered ' + name, 'value %r renders %r, expected %r' % (v, got, want))


def run(items, ctx, initial='N', key='region', **kw):
    src = HEAD + src_of(items)
    ckw = kw.pop('compile_kw', {})
    A, B, calls = filters()
    ns = {'n': None, 'two': [1, 2], 'boom': boom, 'ident': lambda x: x, 'A': A, 'B': B, 'ns': {'B': B}, 'v': 'v', **INC}
    if kw.get('filter') == 'class':
        kw['filter'] = A
    elif kw.get('filter') == 'lib':
        import types
        from Cheetah.Filters import WebSafe
        lib = types.ModuleType('c15lib')
        lib.Q, lib.WebSafe = A, WebSafe
        kw['filter'] = 'Q'
        kw['filtersLib'] = lib
    klass = tutil.outcome(tutil.compile_, src, **ckw)
    if klass[0] != 'ok':
        ctx.fail(key + ' compile', '%r does not compile: %r' % (src, klass))
        return
    klass = klass[1]
    try:
        t = klass(searchList=[ns], **kw)
        for v in ('v', '<v"', 'v'):
            ns['v'] = v
            m = Model(initial, v, ctx)
            m.useNone = False
            try:
                m.run(items)
            except Return:
                pass
            want = ''.join(m.out)
            del calls[:]
            got = tutil.outcome(str, t)
            if got != ('ok', want):
                ctx.fail(key, '%r renders %r, expected %r' % (src, got, want))
                break
            n = [c[0].upper() for c in calls if c[1] is not None]
            if n != m.count:
                ctx.fail(key + ' calls', '%r called the filters %r, expected %r' % (src, n, m.count))
                break
            ctx.outcome(len(m.count) > 0)
    finally:
        tutil._cleanup(klass)


def do_tree(case, ctx):
    run(case[1], ctx)


def do_init(case, ctx):
    init = {'WebSafe': 'W', 'class': 'A', 'lib': 'A'}[case[1]]
    run(case[2], ctx, initial=init, key='init ' + case[1], filter=case[1])


def do_set(case, ctx):
    st = case[1]
    if st == 'useFilters':
        if 'J' in case[2]:
            return          # an included template has settings of its own
        # without filters nothing is filtered, whatever the regions say
        items = [x if isinstance(x, str) else [x[0], x[1]] for x in case[2]]
        src = HEAD.replace('#filter $B#', '').replace('#end filter#', '') + src_of([y for x in items for y in ([x] if isinstance(x, str) else x[1])])
        src = src.replace(', also="v"', '')
        ns = {'n': None, 'two': [1, 2], 'boom': boom, 'ident': lambda x: x, 'v': '<v"', **INC}
        m = Model('N', '<v"', ctx)
        m.region = lambda f, items: m.run(items)
        m.run([y for x in items for y in ([x] if isinstance(x, str) else x[1])])
        got = tutil.outcome(tutil.render, src, [ns], {'compilerSettings': {'useFilters': False}})
        if got != ('ok', ''.join(m.out)):
            ctx.fail('useFilters', '%r renders %r, expected %r' % (src, got, ''.join(m.out)))
        return
    run(case[2], ctx, key=st, compile_kw={'compilerSettings': {st: False}})


def do_raw(case, ctx):
    """The filter is told the placeholder as written."""
    e = case[1]
    A, B, calls = filters()
    ns = {'v': 'v', 'ident': lambda x: x}
    src = '<%s>' % e.replace('${v + 1}', '${v + "1"}')
    got = tutil.outcome(tutil.render, src, [ns], None, filter=A)
    raws = [c[2] for c in calls]
    e2 = src[1:-1]
    want = [e2] if not e.startswith('#') else [None]
    if e.startswith(('$(v', '$[v', '$*', '$!')):
        if len(calls) != 1:
            ctx.fail('raw calls', '%r: %r %r' % (src, calls, got))
        want = raws
    ctx.state(e, raws)
    if got[0] != 'ok' or raws != want:
        ctx.fail('raw', '%r renders %r and passes rawExpr %r, expected %r' % (src, got, raws, want))
