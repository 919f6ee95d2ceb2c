"""Error catchers: all short sequences of placeholders that can, cannot be found or fail, in every position inside and outside of catcher regions."""
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 3}
RULE = ('one case = one sequence of placeholders with one catcher in one position, rendered twice on one instance and once on a second one with other data; '
        'states are (position in the sequence, catcher, what the placeholders before did), transitions are placeholders')
BOUNDS = {'quick': {'placeholders': 'all sequences of up to 2 out of 35 spellings, 3 out of 8', 'positions': 14, 'catchers': 5},
          'thorough': {'placeholders': 'all sequences of up to 2 out of 35 spellings, 3 out of 16', 'positions': 14, 'catchers': 5}}
ASSUMPTIONS = ['catcher regions are not nested and not opened inside a branch or loop without being closed there',
               'a catcher is switched on for the method it stands in, as in the documentation of #errorCatcher']

NF, DIV, KEY, TYP = ('NotFound',), ('ZeroDivisionError',), ('KeyError',), ('TypeError',)
# text, outcome (a function of the data v, or an exception)
PH = [
    ('$v', lambda v: v), ('$q', NF), ('$boom()', DIV), ("${f('x')}", lambda v: '<x>'), ('$f($q)', NF), ('$d.k', lambda v: '1'), ('$d.z', NF), ('${v}', lambda v: v),
    ("$f('a\\n')", lambda v: '<a\n>'), ('$f("""a""")', lambda v: '<a>'), ("$f('''a''')", lambda v: '<a>'), ("$f('\\\\')", lambda v: '<\\>'), ("$f('\\'')", lambda v: "<'>"),
    ('$f("\'")', lambda v: "<'>"), ('$(q)', NF), ('$[q]', NF), ('${q}', NF), ('$q.a.b', NF), ('$q()', NF), ("$q('a\\n')", NF), ("${q('''x''')}", NF), ("$d['k']", lambda v: '1'), ("$d['z']", KEY),
    ('$f(any(x == $v for x in $l))', lambda v: '<%s>' % (v == 1)), ('$f([x for x in $l])', lambda v: '<[1, 2]>'), ('$f((lambda: $v)())', lambda v: '<%s>' % v), ('$f(list(x for x in $q))', NF),
    ('$n', lambda v: ''), ('$f($f($v))', lambda v: '<<%s>>' % v), ('$d.k.upper()', NF), ('$f(1, 2)', TYP), ('$loc', lambda v: 'L'), ('$f($loc)', lambda v: '<L>'),
    ('${ q }', NF), ('$self.q', NF),
]
SMALL = ['$v', '$q', '$boom()', '$f($q)', '$d.z', "$f('a\\n')", '$n', "$q('a\\n')"]
MORE = SMALL + ['$f($loc)', '${q}', "$d['z']", '$f((lambda: $v)())', '$(q)', '$q.a.b', "$f('''a''')", '$loc']
TEXTS = [p[0] for p in PH]
OUT = dict(PH)
CATCHERS = ['Echo', 'ErrorCatcher', 'BigEcho', 'ListErrors', 'KeyError']
SET = "#set $loc = 'L'#"
# the catcher's opener %o, its closer %c, the placeholders %s; the third: does the catcher cover the sequence, the fourth: how often it is rendered
POS = {
    'line': ('#errorCatcher %(n)s\n' + SET + '%(s)s', True, 1), 'region': (SET + '#errorCatcher %(n)s#%(s)s#end errorCatcher#.$v', True, 1), 'after': (SET + '#errorCatcher %(n)s#.#end errorCatcher#%(s)s', False, 1),
    'before': (SET + '%(s)s#errorCatcher %(n)s#.#end errorCatcher#', False, 1), 'method': ('#def m#' + SET + '#errorCatcher %(n)s#%(s)s#end def#[$m]', True, 1),
    'other method': ('#def m#' + SET + '%(s)s#end def##errorCatcher %(n)s#[$v]#end errorCatcher#$m', False, 1), 'for': ('#errorCatcher %(n)s#' + SET + '#for $i in $l#%(s)s;#end for#', True, 2),
    'if': ('#errorCatcher %(n)s#' + SET + '#if $v#%(s)s#end if#', True, 1), 'call': ('#errorCatcher %(n)s#' + SET + '#call $f#%(s)s#end call#', True, 1),
    'capture': ('#errorCatcher %(n)s#' + SET + '#capture c#%(s)s#end capture#($c)', True, 1), 'filter': ('#errorCatcher %(n)s#' + SET + '#filter WebSafe#%(s)s#end filter#', True, 1),
    'block': ('#block b##errorCatcher %(n)s#' + SET + '%(s)s#end block#', True, 1), 'try': ('#errorCatcher %(n)s#' + SET + '#try#%(s)s#finally#!#end try#', True, 1),
    'in for': (SET + '#for $i in $l##errorCatcher %(n)s#%(s)s#end errorCatcher#;#end for#', True, 2),
}


def enum(tier, mode):
    small = SMALL if tier == 'quick' else MORE
    for n in CATCHERS:
        for pos in POS:
            for k in (1, 2):
                for s in itertools.product(TEXTS, repeat=k):
                    if k == 2 and tier == 'quick' and (pos not in ('line', 'region', 'after') or n not in ('Echo', 'ListErrors')) and not set(s) & set(SMALL):
                        continue
                    yield [n, pos, list(s)]
            if mode == 'c' or tier == 'thorough':
                for s in itertools.product(small, repeat=3):
                    yield [n, pos, list(s)]


def websafe(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def model(case, v, ctx):
    """(outcome, texts of the placeholders replaced)"""
    n, pos, seq = case
    _, covered, times = POS[pos]
    out, errors = [], []
    for rnd in range(times):
        for k, t in enumerate(seq):
            o = OUT[t]
            ctx.trans()
            ctx.state(pos, n, k, rnd, len(errors), str(o))
            if o is NF and covered:
                if n == 'KeyError':
                    return ('exc', 'KeyError'), errors
                errors.append(t)
                r = '=' * 15 + '&lt;' + t + ' could not be found&gt;' + '=' * 15 if n == 'BigEcho' else t
            elif isinstance(o, tuple):
                return ('exc', o[0]), errors
            else:
                r = o(v)
            out.append(websafe(r) if pos == 'filter' else r)
            out.append('|')
        if times > 1:
            out.append(';')
    s = ''.join(out)
    s = {'line': '%s', 'region': '%s.' + v, 'after': '.%s', 'before': '%s.', 'method': '[%s]', 'other method': '[' + v + ']%s', 'call': '<%s>', 'capture': '(%s)', 'try': '%s!'}.get(pos, '%s').replace('%s', s)
    return ('ok', s), errors


def check(case, ctx):
    n, pos, seq = case
    src = POS[pos][0] % {'n': n, 's': ''.join(t + '|' for t in seq)}
    ctx.sample(src)
    ctx.trace()

    def ns(v):
        return {'v': v, 'f': lambda x: '<%s>' % (x,), 'd': {'k': 1}, 'l': [1, 2], 'boom': lambda: 1 // 0, 'n': None}
    klass = tutil.outcome(tutil.compile_, src)
    if klass[0] != 'ok':
        ctx.fail('compile', '%r does not compile: %r' % (src, klass))
        return
    klass = klass[1]
    try:
        for v, times in (('V', 2), ('&w', 1)):
            t = klass(searchList=[ns(v)])
            seen = 0
            for rnd in range(times):
                want, errors = model(case, v, ctx)
                got = tutil.outcome(lambda: str(t))
                ctx.evals += 1
                ctx.outcome(want[0] if want[0] == 'ok' else want[1])
                if got != want:
                    ctx.fail('output', '%r, rendering %d with %r: engine %r, expected %r' % (src, rnd, v, got, want))
                    return
                if n == 'ListErrors' and errors:
                    log = t.errorCatcher().listErrors()[seen:]
                    seen += len(log)
                    if [e['rawCode'] for e in log] != errors or any(type(e['exc_val']).__name__ != 'NotFound' or not e['code'] or len(e['lineCol']) != 2 for e in log):
                        ctx.fail('list', '%r: recorded %r, expected %r' % (src, log, errors))
                        return
        ctx.interesting(n, pos, len(seq))
    finally:
        tutil._cleanup(klass)
