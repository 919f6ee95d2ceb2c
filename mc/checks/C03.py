"""Control flow: all small template programs against the reference interpreter."""
import itertools

from mc import tutil, prog

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 7, 'pure': 1}
RULE = ('all programs of the control-flow grammar up to the node bound, printed in block, inline and one-line '
        'form, each rendered for all truth assignments and loop sequences; states are (statement, environment, '
        'output tail), transitions are reference-interpreter steps, every run is validated against the real engine')
BOUNDS = {'quick': {'nodes': '3 over all statements, 4 over core statements', 'spelling': '22 templates, each gap and all gaps x 6 kinds of white space'},
          'thorough': {'nodes': '4 over most statements, 5 over core statements'}}


def leaves(loop, level):
    out = [['T', 'A'], ['P', 'x'], ['S', 'x', '$x + 1'], ['P', 'i']]
    if loop:
        out += [['B'], ['C']]
    if level <= 2:
        out += [['X'], ['N', 'ValueError'], ['Z']]
    if level <= 1:
        out += [['E', '"R"'], ['A', '$a'], ['Q', '$boom'], ['O', '$x * 2'], ['J', '$b', '$x', '"n"'], ['P', 'boom'],
                ['S', 'y', '$i'], ['P', 'y'], ['P', 'none'], ['Q', '$x']]
    return out


def compounds1(level):
    """Compounds with one body; (name, wrap, is_loop)."""
    out = [('if', lambda b: ['I', [['$a', b]], None], 0),
           ('for', lambda b: ['F', 'i', '$s', b, None], 1),
           ('try', lambda b: ['Y', b, [['', [['T', 'H']]]], None, None], 0),
           ('while', lambda b: ['W', 'n', 2, b, None], 1)]
    if level <= 2:
        out += [('unless', lambda b: ['U', '$b', b, None], 0),
                ('repeat', lambda b: ['R', '2', b], 1),
                ('fin', lambda b: ['Y', b, [], None, [['T', 'F']]], 0),
                ('else', lambda b: ['I', [['$a and $b', [['T', 'T']]]], b], 0)]
    if level <= 1:
        out += [('ifn', lambda b: ['I', [['not $a or $i == 2', b]], None], 0),
                ('repeatv', lambda b: ['R', '$a + $b', b], 1),
                ('tryv', lambda b: ['Y', b, [['ValueError', [['T', 'V']]]], None, None], 0),
                ('tryas', lambda b: ['Y', b, [['(KeyError, ValueError) as e', [['P', 'e']]]], [['T', 'L']], None], 0),
                ('try2', lambda b: ['Y', b, [['KeyError', [['T', 'K']]], ['Exception', [['T', 'G']]]],
                                    None, [['T', 'F']]], 0),
                ('exc', lambda b: ['Y', [['N', 'ValueError']], [['ValueError', b]], None, [['T', 'F']]], 0),
                ('finb', lambda b: ['Y', [['P', 'x']], [], None, b], 0),
                ('forelse', lambda b: ['F', 'j', '[1]', b, [['T', 'L']]], 1),
                ('forlit', lambda b: ['F', 'i', 'range(2)', b, None], 1),
                ('elif', lambda b: ['I', [['$a', [['T', 'T']]], ['$b', b]], [['T', 'E']]], 0),
                ('whileelse', lambda b: ['W', 'n', 1, b, [['T', 'L']]], 1),
                ('unlesselse', lambda b: ['U', '$a', [['T', 'U']], b], 0)]
    return out


def compounds2(level):
    out = [('ifelse', lambda b, c: ['I', [['$a', b]], c], 0)]
    if level <= 2:
        out += [('trybc', lambda b, c: ['Y', b, [['', c]], None, None], 0),
                ('ifelif', lambda b, c: ['I', [['$a', b], ['$b', c]], None], 0)]
    if level <= 1:
        out += [('forelse2', lambda b, c: ['F', 'i', '$s', b, c], 1),
                ('unless2', lambda b, c: ['U', '$a', b, c], 0),
                ('tryfin', lambda b, c: ['Y', b, [['ValueError', [['T', 'V']]]], None, c], 0),
                ('tryelse', lambda b, c: ['Y', b, [['', [['T', 'V']]]], c, None], 0)]
    return out


_memo = {}


def bodies(size, loop, level):
    """All statement lists of exactly `size` nodes."""
    key = (size, loop, level)
    if key in _memo:
        return _memo[key]
    if size == 0:
        r = [[]]
    else:
        r = []
        for s1 in range(1, size + 1):
            for st in stmts(s1, loop, level):
                for rest in bodies(size - s1, loop, level):
                    r.append([st] + rest)
    _memo[key] = r
    return r


def stmts(size, loop, level):
    if size == 1:
        return leaves(loop, level)
    out = []
    for name, mk, isl in compounds1(level):
        for b in bodies(size - 1, loop or isl, level):
            out.append(mk(b))
    for name, mk, isl in compounds2(level):
        for k in range(1, size - 1):
            for b in bodies(k, loop or isl, level):
                for c in bodies(size - 1 - k, loop, level):
                    out.append(mk(b, c))
    return out


def rename(body, depth=0):
    """Give nested counted loops their own counters."""
    out = []
    for n in body:
        n = list(n)
        if n[0] == 'W':
            n[1] = 'n%d' % depth
        for i, x in enumerate(n):
            if isinstance(x, list) and x:
                if isinstance(x[0], list) and x[0] and isinstance(x[0][0], str) and len(x[0]) == 2 \
                        and isinstance(x[0][1], list):
                    n[i] = [[c, rename(b, depth + 1)] for c, b in x]
                else:
                    n[i] = rename(x, depth + 1)
        out.append(n)
    return out


CONDS = ['$a', 'not $a', '$a and not $b', '$a or $b', '$x == 1', '$x != $a', '$x in $s', '($a or $b)', '$s',
         'len($s) > 1', '$s[0:1]', '{"k": $a}["k"]', '[y for y in $s if y > 1]', 'True', 'False', 'None', '0',
         '($x if $a else $b)', '"a" == "a"', "$d['k']", '$d.k', '$f($a)', '$f($f($b))', 'not ($a and $b)',
         '$a < $b', '$a <= $b <= 1', '$x is None', '$none is None', '"#" == "#"', "'$x' == '$' + 'x'", '-$a + 1', '$a == $b == 1',
         '$x not in $s', '"x:y"', '$s == []', '($a, $b) == (1, 0)', '$a and $s or $b', '~$a', '$a ^ $b', '$a | $b', '1 if $b else 0',
         '$a == 1 and $b == 0 or $x', 'all([$a, $b])', 'any([$a, $b])', '$d.get("q", $a)', "'it''s'", '""', '$x % 2', '$x // 2',
         '$x ** 2 > 4', 'sum($s)', 'max([$a, $b])', '(lambda q: q)($a)', '$s[-1:]', "$d['k'] + $a", '$f(0) or $f($b)']
SEQS = [('i', '$s'), ('i', '[]'), ('i', '[3]'), ('i', 'range(3)'), ('i', '"xyz"'), ('i', '(1, 2)'), ('i', '$s + [$a]'),
        ('i', '$s[1:]'), ('i', 'sorted($d.keys())'), ('i', '$d'), ('i', 'reversed($s)'), ('i', '[q for q in $s]'),
        ('i', 'iter($s)'), ('i', '[[1], []]'), ('i, j', '[(1, 2), (3, 4)]'), ('i, j', '$d.items()'),
        ('(i, j)', '[(1, 2)]'), ('i, (j, x)', '[(1, (2, 3))]'), ('i', 'zip($s, $s)'), ('i, j', 'enumerate($s)'), ('i', 'set([1])')]


def forms(tier):
    for c in CONDS:
        A, B, D = [['T', 'A']], [['T', 'B']], [['P', 'x'], ['S', 'x', '$x + 1'], ['T', 'D']]
        yield [['I', [[c, A]], None], ['T', 'z']]
        yield [['I', [[c, A]], B]]
        yield [['I', [['$b', D], [c, A]], B], ['P', 'x']]
        yield [['I', [['$b', D], [c, A], ['$a', D]], None], ['P', 'x']]
        yield [['U', c, A, None]]
        yield [['U', c, A, B]]
        yield [['A', c], ['T', 'ok']]
        yield [['S', 'y', c], ['I', [['$y', A]], B]]
        yield [['R', '1 if (%s) else 2' % c, A]]
        yield [['F', 'i', '[1, 2, 3]', [['I', [[c, [['B']]]], None], ['P', 'i']], [['T', 'L']]]]
        yield [['F', 'i', '[1, 2, 3]', [['I', [[c, [['C']]]], None], ['P', 'i']], [['T', 'L']]]]
        if not any(w in c for w in (' if ', 'lambda', "'it''s'", ':')):
            yield [['J', c, '"p"', '$x']]
            yield [['T', 'q'], ['J', c, '$x + 1', '"r" + "s"'], ['T', 'q']]
        yield [['Q', c], ['T', 'q']]
    for v, q in SEQS:
        names = [x for x in 'ijx' if x in v]
        show = [['P', n] for n in names] + [['T', ';']]
        yield [['F', v, q, show, None]]
        yield [['F', v, q, show, None]] + show
        yield [['F', v, q, [['T', 'A']], [['T', 'L']]]]
        yield [['F', v, q, [['I', [['$a', [['B']]]], [['C']]], ['T', 'no']], [['T', 'L']]]]
        yield [['F', v, q, [['F', 'i', '$s', [['P', 'i']], None]] + show, None]]
        yield [['S', 'i', '9'], ['F', v, q, show, None], ['P', 'i']]
    for n in ('0', '1', '3', '$x', '$a', 'len($s)', '$x + 1', '$a + $b', 'int("2")', '$s.__len__()', '-1'):
        yield [['R', n, [['T', 'A']]], ['T', 'z']]
        yield [['R', n, [['R', n, [['T', 'A']]], ['T', 'B']]]]
        yield [['R', n, [['S', 'x', '$x + 1'], ['P', 'x'], ['I', [['$x > 2', [['B']]]], None]]], ['P', 'x']]


def nests(tier):
    """Compounds nested three and more deep, and pairs of compounds inside another one."""
    c2 = [c[1] for c in compounds1(2)]
    c1 = [c[1] for c in compounds1(1)]
    inner = [['T', 'A'], ['P', 'i'], ['S', 'x', '$x + 1']]
    for depth, alpha, styles in ((3, c1 if tier == 'thorough' else c2, ('block', 'inline')),
                                 (4, c2, ('block', 'inline') if tier == 'thorough' else ('block',))):
        for mks in itertools.product(alpha, repeat=depth):
            b = inner
            for k, mk in enumerate(mks):
                b = [['T', 'abcd'[k]], mk(b), ['P', 'x']]
            for st in styles:
                yield [st, rename(b)]
    for outer in c2:
        for m1 in c1:
            for m2 in (c1 if tier == 'thorough' else c2):
                b = [outer([m1([['T', 'A'], ['P', 'i']]), ['T', '-'], m2([['P', 'x'], ['T', 'B']])]), ['T', 'z']]
                yield ['block', rename(b)]


# the words of a directive may be separated by any white space of the line; the second item is the number of worlds it depends on
SPELL = ['#if_$t\nA\n#else_if_$u\nB\n#else\nC\n#end_if\n', '#if_$t\nA\n#elif_$u\nB\n#else\nC\n#end_if\n', 'x #if_$t#A#else_if_$u#B#else#C#end_if# y', '#for_$i_in_$L\n$i\n#end_for\n', '#while_$n.go\nw\n#end_while\n',
         '#repeat_$k\nr\n#end_repeat\n', '#unless_$t\nA\n#else\nB\n#end_unless\n', '#unless_$t\nA\n#else_if_$u\nB\n#end_unless\n', '#try\n$zz\n#except_NotFound\nE\n#end_try\n',
         '#try\n$zz\n#except_NotFound_as_e\nE\n#finally\nF\n#end_try\n', '#try\n$t\n#except_KeyError\nE\n#else\nL\n#end_try\n', '#if_$t_then_$k_else_2\n', 'x #if_$t_then_"p"_else_$k# y', '#set_$x_=_1\n$x\n', '#for_$i,_$j_in_$P\n$i$j\n#end_for\n',
         'x #for_$i_in_$L#$i#if_$i==1#c#continue##end_if##end_for# y', '#for_$i_in_$L\n#if_$i_==_$k\n#break\n#end_if\n$i\n#end_for\n', '#if_not_$t_and_$u\nA\n#end_if\n', '#assert_$k_==_2\n', '#set_$x_=_$t_or_$u\n$x\n', '#silent_$n.go\nx', '#raise_KeyError\n']
WHITE = ['  ', '\t', ' \t', '\f', ' \f ', '\t\t\t']


class Counter(object):
    n = 0

    @property
    def go(self):
        self.n += 1
        return self.n < 3


def spell(case, ctx):
    text = SPELL[case[1]]
    parts = text.split('_')
    src = parts[0]
    for n, x in enumerate(parts[1:]):
        src += (case[3] if case[2] in (n, -1) else ' ') + x
    for t, u in ((0, 0), (0, 1), (1, 0), (1, 1)):
        want, got = [tutil.outcome(lambda: tutil.render(s, [{'t': t, 'u': u, 'L': [1, 2], 'n': Counter(), 'k': 2, 'P': [(1, 2), (3, 4)]}])) for s in (text.replace('_', ' '), src)]
        ctx.evals += 1
        ctx.trace()
        ctx.trans()
        ctx.state(got)
        ctx.outcome('spelling')
        if got != want:
            ctx.fail('spelling', '%r with t=%d, u=%d: %r, with single spaces %r' % (src, t, u, got, want))
            return


def enum(tier, mode):
    if mode == 'c':
        for i, t in enumerate(SPELL):
            for slot in range(-1, t.count('_')):
                for w in WHITE:
                    yield ['spell', i, slot, w]
    for body in forms(tier):
        for style in ('block', 'inline', 'colon'):
            yield [style, body]
    if mode == 'c':
        for c in nests(tier):
            yield c
    plan = [(1, 1), (2, 1)] + ([(3, 1), (4, 3)] if mode == 'c' or tier == 'thorough' else [(3, 3)])
    if tier == 'thorough':
        plan += [(4, 2), (5, 3)] if mode == 'c' else []
    for size, level in plan:
        for body in bodies(size, 0, level):
            for style in ('block', 'inline', 'colon'):
                if tier == 'quick' and size == 4 and style != 'block' or style == 'colon' and size > 3:
                    continue
                yield [style, rename(body)]
        _memo.clear()


PRINT = {'block': prog.to_block, 'inline': prog.to_inline, 'colon': prog.to_colon}


def F1(v):
    return v


def boom():
    raise KeyError('boom')


def refboom():
    raise KeyError('boom')


def has_compound(body):
    return any(n[0] not in prog.SIMPLE for n in body)


def check(case, ctx):
    if case[0] == 'spell':
        return spell(case, ctx)
    style, body = case
    if style == 'colon' and not has_compound(body):
        return
    src = PRINT[style](body)
    ctx.sample(src)
    worlds = [dict(a=a, b=b, s=s, x=1, i=0, none=None, d={'k': 0, 'm': 5}, f=F1) for a in (0, 1) for b in (0, 1) for s in ([], [1, 2])
              if not (s == [] and (a, b) != (1, 1) and 0)]
    try:
        klass = tutil.compile_(src)
    except Exception as e:
        ctx.fail('compile', '%r does not compile: %s: %s' % (src, type(e).__name__, e))
        return
    try:
        for w in worlds:
            it = prog.Interp(style, dict(w, boom=refboom), ctx)
            ref = it.result(body)
            real = tutil.outcome(lambda: str(klass(searchList=[dict(w, boom=boom)])))
            ctx.evals += 1
            ctx.trace()
            ctx.outcome(ref[0] if ref[0] == 'ok' else 'exc:' + ref[1])
            if real != ref:
                ctx.fail('output', '%r with %r: engine %r, reference %r' % (src, w, real, ref))
                return
    finally:
        tutil._cleanup(klass)
