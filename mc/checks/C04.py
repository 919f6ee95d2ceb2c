"""Output regions: all nestings against an interpreter with a collector stack."""
from mc import tutil, prog

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('all programs of output regions (#call, #call with #arg, #capture, #cache, #filter, #block, #def) mixed with '
        'conditionals, loops, #try, failures and early exits up to the node bound, in block, inline and one-line form, '
        'each rendered to a string, twice on one instance, and through a transaction; states are (statement, collector '
        'depth, locals, output tail)')
BOUNDS = {'quick': {'nodes': '3 over all statements, 4 over core statements'},
          'thorough': {'nodes': '4 over all region statements, 5 over core statements'}}


def leaves(loop, level):
    out = [['T', 't'], ['P', 'x'], ['P', 'm1'], ['N', 'ValueError']]
    if level <= 2:
        out += [['P', 'm2'], ['P', 'v']]
    if loop:
        out += [['B'], ['C']]
    if level <= 1:
        out += [['S', 'v', '"w"'], ['Q', '$x'], ['P', 'boom'], ['DF', 'm9', [['T', 'no'], ['P', 'x']]], ['O', '$x'], ['P', 'm3']]
    return out


def compounds1(level):
    out = [('call', lambda b: ['K', 'up', b], 0),
           ('cap', lambda b: ['G', 'v', b], 0),
           ('filt', lambda b: ['H', 'WebSafe', b], 0),
           ('try', lambda b: ['Y', b, [['', [['T', 'H'], ['P', 'x']]]], None, None], 0),
           ('for', lambda b: ['F', 'i', '[1, 2]', b, None], 1)]
    if level <= 2:
        out += [('cache', lambda b: ['CA', '', b], 0),
                ('block', lambda b: ['BL', 'bb', b], 0),
                ('arg1', lambda b: ['KA', 'kw', [['p', b]]], 0)]
    if level <= 1:
        out += [('arg2', lambda b: ['KA', 'kw', [['p', [['T', '1']]], ['q', b]]], 0),
                ('filtnone', lambda b: ['H', 'None', b], 0),
                ('if', lambda b: ['I', [['$a', b]], None], 0),
                ('else', lambda b: ['I', [['not $a', [['T', 'T']]]], b], 0),
                ('fin', lambda b: ['Y', b, [], None, [['T', 'F'], ['P', 'x']]], 0),
                ('while', lambda b: ['W', 'n', 2, b, None], 1),
                ('exc', lambda b: ['Y', [['N', 'ValueError']], [['ValueError', b]], None, None], 0)]
    return out


def compounds2(level):
    if level <= 2:
        return [('args', lambda b, c: ['KA', 'kw', [['p', b], ['q', c]]], 0),
                ('trye', lambda b, c: ['Y', b, [['', c]], None, None], 0)]
    return []


_memo = {}


def bodies(size, loop, level):
    key = (size, loop, level)
    if key in _memo:
        return _memo[key]
    if size == 0:
        r = [[]]
    else:
        r = []
        for s1 in range(1, size + 1):
            for st in stmts(s1, loop, level):
                for rest in bodies(size - s1, loop, level):
                    r.append([st] + rest)
    _memo[key] = r
    return r


def stmts(size, loop, level):
    if size == 1:
        return leaves(loop, level)
    out = []
    for name, mk, isl in compounds1(level):
        for b in bodies(size - 1, (loop or isl) and name != 'block', level):
            out.append(mk(b))
    for name, mk, isl in compounds2(level):
        for k in range(1, size - 1):
            for b in bodies(k, loop or isl, level):
                for c in bodies(size - 1 - k, loop, level):
                    out.append(mk(b, c))
    return out


def uniq(body, cnt):
    """Unique names for blocks, methods and counters."""
    out = []
    for n in body:
        n = list(n)
        if n[0] == 'BL':
            cnt[0] += 1
            n[1] = 'bb%d' % cnt[0]
        if n[0] == 'DF' and n[1] == 'm9':
            cnt[0] += 1
            out.append(['Q', '1'])
            n[1] = 'dd%d' % cnt[0]
        if n[0] == 'W':
            cnt[0] += 1
            n[1] = 'n%d' % cnt[0]
        if n[0] == 'CA':
            cnt[0] += 1
            n = n[:3] + [cnt[0]]
        for i, x in enumerate(n):
            if isinstance(x, list) and x:
                if isinstance(x[0], list) and len(x[0]) == 2 and isinstance(x[0][0], str) \
                        and isinstance(x[0][1], list):
                    n[i] = [[c, uniq(b, cnt)] for c, b in x]
                else:
                    n[i] = uniq(x, cnt)
        out.append(n)
    return out


DEFS = [['DF', 'm1', [['T', 'm'], ['P', 'x']]],
        ['DF', 'm2', [['K', 'up', [['T', 'k'], ['P', 'm1']]], ['P', 'v']]],
        ['DF', 'm3', [['T', 'a'], ['G', 'z', [['P', 'x'], ['P', 'boom']]], ['T', 'b']]]]


def count(body):
    return sum(1 for n in body if n[0] == 'BL') if 0 else str(body).count("'bb'")


def enum(tier, mode):
    plan = [(1, 1), (2, 1), (3, 1), (4, 3)]
    if tier == 'thorough':
        plan += [(4, 2), (5, 4)]
    for size, level in plan:
        for body in bodies(size, 0, level):
            for style in ('inline', 'block', 'colon'):
                if size >= 4 and style == 'colon' or size == 4 and tier == 'quick' and style == 'block':
                    continue
                yield [style, uniq(body, [0])]
        _memo.clear()


PRINT = {'block': prog.to_block, 'inline': prog.to_inline, 'colon': prog.to_colon}


def up(s, **kw):
    return '{' + s.upper() + '}'


def kw(**k):
    return '(' + ','.join('%s=%s' % i for i in sorted(k.items())) + ')'


def boom():
    raise KeyError('boom')


def world():
    return dict(a=1, x='<x>', v='v0', up=up, kw=kw, boom=boom)


def has_compound(body):
    return any(n[0] not in prog.SIMPLE for n in body)


def ref(body, style, ctx, trans, instance_cache=None):
    it = prog.Interp2(style, world(), ctx)
    it.methods = prog.method_table(DEFS, style)
    it.methods.update(prog.method_table(body, style))
    if instance_cache is not None:
        it.cache = instance_cache
    if trans:
        it.root = it.out
    return it.result(body)


def check(case, ctx):
    style, body = case
    if style == 'colon' and not has_compound(body):
        return
    src = PRINT[style](DEFS + body)
    ctx.sample(src)
    try:
        klass = tutil.compile_(src)
    except Exception as e:
        ctx.fail('compile', '%r does not compile: %s: %s' % (src, type(e).__name__, e))
        return
    try:
        from Cheetah.DummyTransaction import DummyTransaction
        # rendered to a string, three times on one instance
        inst = klass(searchList=[world()])
        cache = {}
        for k in range(2):
            want = ref(body, style, ctx, False, cache)
            got = tutil.outcome(lambda: str(inst))
            ctx.evals += 1
            ctx.trace()
            ctx.outcome(want[0] if want[0] == 'ok' else 'exc:' + want[1])
            if got != want:
                ctx.fail('output', '%r, rendering %d: engine %r, reference %r' % (src, k + 1, got, want))
                return
        # through a transaction
        inst = klass(searchList=[world()])
        cache = {}
        for k in range(2):
            want = ref(body, style, ctx, True, cache)
            tr = DummyTransaction()
            inst.transaction = tr
            got = tutil.outcome(lambda: inst.respond(tr))
            if got[0] == 'ok':
                got = ('ok', tr.response().getvalue()) if not got[1] else got
            ctx.evals += 1
            ctx.trace()
            if got != want:
                ctx.fail('transaction', '%r, rendering %d into a transaction: engine %r, reference %r'
                         % (src, k + 1, got, want))
                return
    finally:
        tutil._cleanup(klass)
