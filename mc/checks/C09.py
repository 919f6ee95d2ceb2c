"""Cached regions: all histories of rendering, time, data change, refresh, failure and eviction on the real cache under a virtual clock."""
import itertools
import time

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 2}
RULE = ('one case = one complete history on two instances of one template under a virtual clock; every rendering in it is compared (output, '
        'and which data accesses it made) with a reference cache; states are (stored items, clock offsets, data, flags), transitions are operations')
BOUNDS = {'quick': {'history length': '5 (4 for layouts with more than 10 operations)', 'templates': '22 layouts of cached regions and placeholders', 'operations': '7 to 12 per template', 'units': 'all interval spellings around their limit'},
          'thorough': {'history length': '6 (5 for layouts with more than 10 operations)', 'templates': '22', 'operations': '7 to 12 per template', 'units': 'all'}}
ASSUMPTIONS = ['time.time is the clock of the cache (replaced by a virtual one)', 'no rendering falls on the exact instant of an expiry',
               'vary-by values have different string forms']

NOW = [None]
_real = time.time


def vtime():
    return _real() if NOW[0] is None else NOW[0]


def init(mode, tier):
    time.time = vtime       # before Cheetah is imported: every module, generated ones too, sees this clock


# ---- template layouts: list of segments
#   'text'                       literal
#   ('v',)                       $v, one logged access
#   ('w',)                       $w
#   ('reg', id, opts, body)      #cache region; opts: timer (seconds), test, vary
#   ('ph', timer or None, name)  cached placeholder
#   ('for', body)                loop $i over ['p', 'q']
#   ('call', name) with DEFS     method call
#   ('inc', body)                include source=
T1 = 10.5
LAYOUTS = {
    'static': ['<', ('reg', 'a', {}, ['(', ('v',), ')']), '>', ('w',)],
    'timer': ['<', ('reg', 'a', {'timer': T1}, ['(', ('v',), ')']), '>', ('w',)],
    'test': ['<', ('reg', 'a', {'test': 1}, ['(', ('v',), ')']), '>'],
    'vary': ['<', ('reg', 'a', {'vary': 1}, ['(', ('v',), ')']), '>'],
    'timer_test': ['<', ('reg', 'a', {'timer': T1, 'test': 1}, [('v',)]), '>'],
    'timer_vary': ['<', ('reg', 'a', {'timer': T1, 'vary': 1}, [('v',)]), '>'],
    'test_vary': ['<', ('reg', 'a', {'test': 1, 'vary': 1}, [('v',)]), '>'],
    'two': [('reg', 'a', {'timer': T1}, [('v',)]), '|', ('reg', 'b', {}, [('w',)])],
    'two_timers': [('reg', 'a', {'timer': T1}, [('v',)]), '|', ('reg', 'b', {'timer': 3.5}, [('v',)])],
    'two_vary': [('reg', 'a', {'vary': 1}, [('v',)]), '|', ('reg', 'b', {'vary': 1}, [('w',)])],
    'ph': ['[', ('ph', None, 'v'), '|', ('v',), ']'],
    'ph_timed': ['[', ('ph', T1, 'v'), '|', ('w',), ']'],
    'ph_two': [('ph', T1, 'v'), ('ph', None, 'v'), ('ph', 3.5, 'w')],
    'ph_in_region': [('reg', 'a', {'timer': 3.5}, ['(', ('ph', T1, 'v'), ('w',), ')'])],
    'ph_in_test': [('reg', 'a', {'test': 1}, ['(', ('ph', None, 'v'), ('w',), ')'])],
    'loop': [('for', [('reg', 'a', {}, [('i',), ('v',)])]), '.'],
    'loop_vary': [('for', [('reg', 'a', {'vary': 'i', 'timer': T1}, [('i',), ('v',)])]), '.'],
    'method': [('call', 'm'), '-', ('call', 'm')],
    'region_call': [('reg', 'a', {'timer': T1}, ['{', ('call', 'n'), '}'])],
    'call_region': ['A', ('wrap', [('reg', 'a', {'timer': T1}, ['{', ('v',), '}'])]), 'B'],
    'one_line': [('line', 'a', {'timer': T1}, ['(', ('v',), ')'])],
    'empty': [('reg', 'a', {'timer': T1}, [('z',)]), ';'],
    'include': ['<', ('inc', [('reg', 'a', {'timer': T1}, [('v',)]), '/', ('ph', None, 'w')]), '>'],
}
DEFS = {'m': [('reg', 'a', {'timer': T1}, ['m', ('v',)])], 'n': ['n', ('v',), ('w',)]}


def src(segs, tail=True):
    out = []
    for s in segs:
        if isinstance(s, str):
            out.append(s)
        elif s[0] in ('v', 'w', 'i', 'z'):
            out.append('${%s}' % s[0])
        elif s[0] == 'reg':
            out.append('#cache %s#%s#end cache#' % (opts(s[1], s[2]), src(s[3], False)))
        elif s[0] == 'line':
            out.append('#cache %s: %s\n' % (opts(s[1], s[2]), src(s[3], False)))
        elif s[0] == 'ph':
            out.append('$*%s{%s}' % ('%ss*' % s[1] if s[1] else '', s[2]))
        elif s[0] == 'for':
            out.append("#for $i in ['p', 'q']#%s#end for#" % src(s[1], False))
        elif s[0] == 'call':
            out.append('${%s}' % s[1])
        elif s[0] == 'wrap':
            out.append('#call $ident#%s#end call#' % src(s[1], False))
        elif s[0] == 'inc':
            out.append('#include source=$inc#')
    t = ''.join(out)
    if tail:
        for name in 'mn':
            if any(x[0] == 'call' and x[1] == name or x[0] == 'reg' and ('call', name) in x[3] for x in segs if not isinstance(x, str)):
                t += '\n#def %s#%s#end def\n' % (name, src(DEFS[name], False))
    return t


def opts(rid, o):
    r = []
    if o.get('timer'):
        r.append("timer='%ss'" % o['timer'])
    r.append("id='%s'" % rid)
    if o.get('test'):
        r.append('test=$flag')
    if o.get('vary'):
        r.append('varyBy=$%s' % ('i' if o['vary'] == 'i' else 'vb'))
    return ', '.join(r)


def ops_for(name):
    segs = LAYOUTS[name]
    text = repr(segs) + repr([DEFS[x] for x in 'mn' if "('call', '%s')" % x in repr(segs)])
    ops = ['r', 'R', 'd', 'F']
    if "'timer'" in text or "('ph', 1" in text or "('ph', 3" in text:
        ops += ['t', 'T']
    if "'test'" in text:
        ops += ['f']
    if "'vary': 1" in text:
        ops += ['x', 'y']
    if name != 'include':
        ops += ['c']
        if "'a'" in text:
            ops += ['ca']
        if "'vary': 1" in text:
            ops += ['cx', 'cy']
        elif "'a'" in text:
            ops += ['cu']
    ops += ['e']
    return ops


class Fail(Exception):
    pass


class World(object):
    def __init__(self):
        self.n = 0
        self.fail = False
        self.log = []

    def v(self):
        if self.fail:
            raise Fail('v')
        self.log.append('v')
        return 'v%d' % self.n

    def w(self):
        if self.fail == 2:
            raise Fail('w')
        self.log.append('w')
        return 'w%d' % self.n

    def z(self):
        if self.fail:
            raise Fail('z')
        self.log.append('z')
        return ''


class Model(object):
    """One instance: region id -> {vary value: (data, expiry or None)}."""

    def __init__(self):
        self.items = {}
        self.inc = {}

    def ev(self, segs, w, st, now, items, pos=''):
        out = []
        for k, s in enumerate(segs):
            here = '%s/%d' % (pos, k)
            if isinstance(s, str):
                out.append(s)
            elif s[0] == 'i':
                out.append(st['i'])
            elif s[0] in 'vwz':
                out.append(getattr(w, s[0])())
            elif s[0] in ('reg', 'line'):
                o = s[2]
                vary = st['i'] if o.get('vary') == 'i' else st['vb'] if o.get('vary') else None
                out.append(self.region(items, s[1], vary, o.get('timer'), o.get('test') and st['flag'],
                                       lambda: self.ev(s[3], w, st, now, items, here), now))
            elif s[0] == 'ph':
                out.append(self.region(items, here, None, s[1], False, getattr(w, s[2]), now))
            elif s[0] == 'for':
                for i in 'pq':
                    out.append(self.ev(s[1], w, dict(st, i=i), now, items, here))
            elif s[0] == 'call':
                out.append(self.ev(DEFS[s[1]], w, st, now, items, s[1]))
            elif s[0] == 'wrap':
                out.append('<' + self.ev(s[1], w, st, now, items, here) + '>')
            elif s[0] == 'inc':
                out.append(self.ev(s[1], w, st, now, self.inc, here))
        return ''.join(out)

    def region(self, items, rid, vary, timer, test, body, now):
        it = items.get(rid, {}).get(vary)
        if it and not test and (it[1] is None or now <= it[1]):
            return it[0]
        exp = now + timer if timer else None
        data = body()
        items.setdefault(rid, {})[vary] = (data, exp)
        return data


def enum(tier, mode):
    n = 5 if tier == 'quick' else 6
    for name in sorted(LAYOUTS):
        ops = ops_for(name)
        m = n - (len(ops) > 10)
        for store in ('mem', 'shared'):
            for h in itertools.product(ops, repeat=m):
                if h[-1] not in ('r', 'R', 'F') or not any(o in ('r', 'R') for o in h[:-1]):
                    continue        # nothing to observe
                if store == 'shared' and ('R' not in h or 'r' not in h) and 'e' not in h:
                    continue
                yield ['hist', name, store, list(h)]
    for unit, sec in UNITS:
        for form in ('ph', 'region', 'dq'):
            yield ['unit', unit, sec, form]
    for a in VARY:
        for b in VARY:
            yield ['vary', a, b]
    for k in EXTRA:
        yield ['extra', k]
    for form in TESTF:
        for a in range(len(TESTV)):
            for b in range(len(TESTV)):
                for c in range(len(TESTV)) if tier == 'thorough' else (b,):
                    yield ['test', form, [a, b, c]]


UNITS = [('5s', 5), ('1s', 1), ('0.5s', .5), ('15m', 900), ('3h', 10800), ('2d', 172800), ('1.5w', 907200), ('5', 300), ('.5h', 1800), ('0.5', 30), ('2.5m', 150), ('1w', 604800), ('1d', 86400)]
VARY = ['', 'x', 'y', 'x ', 'é', 'xé', 1, 2, None, '日', '\n', ':', [1], 1.5]
# several cached constructs with identical text or suffix are still separate regions
EXTRA = ['$*v$*v', "#cache#$v#end cache##cache#$v#end cache#", "#cache id='a'#$v#end cache##cache id='ab'#$v#end cache#", "$*5s*v$*5s*v", "#cache id='a'#$v#end cache#$*v",
         "#cache id='a', varyBy='x'#$v#end cache##cache id='b', varyBy='x'#$v#end cache#", "#cache id='a_b'#$v#end cache##cache id='a', varyBy='b'#$v#end cache#", "#cache timer=5s#$v#end cache##cache timer='5s', id='q'#$v#end cache#",
         "#cache test=($flag or $flag)#$v#end cache#$*v", "#cache: $v\n#cache: $v\n", "#def m#$*v#end def#$m$*v", "#block m#$*v#end block#$*v", "#closure m#$*v#end closure#${m()}$*v"]

# a test refreshes the region when, and only when, it is true, whatever kind of value it is
TESTV = [True, False, 1, 0, 2, -1, 'a', '', None, [], [0], {}, {0: 0}, 0.0, 0.5, (), (0,)]
TESTF = ['#cache test=$flag#$v#end cache#', "#cache id='k', test=$flag#$v#end cache#", "#cache test=$flag, id='k'#$v#end cache#", "#cache timer='5s', test=$flag#$v#end cache#", "#cache test=($flag)#$v#end cache#",
         "#cache test=($flag or $flag)#$v#end cache#", "#cache test=(not not $flag)#$v#end cache#", "#cache varyBy='x', test=$flag#$v#end cache#", "#cache test=$getf()#$v#end cache#"]

_classes = {}


def test(case, ctx):
    _, form, seq = case
    w = World()
    ns = {'v': w.v, 'flag': None, 'getf': lambda: ns['flag']}
    t = get_class(form, form)(searchList=[ns])
    stored = None
    for k, i in enumerate(seq + seq):
        ns['flag'] = x = TESTV[i]
        w.n = k
        if stored is None or x:
            stored = 'v%d' % k
        got = tutil.outcome(lambda: t.respond())
        ctx.trans()
        ctx.evals += 1
        ctx.state('test', form, i, stored)
        if got != ('ok', stored):
            ctx.fail('test', '%r with the test values %r: rendering %d gives %r, expected %r' % (form, [TESTV[j] for j in seq + seq], k, got, stored))
            return


def get_class(key, source, **kw):
    if key not in _classes:
        if len(_classes) > 60:
            _classes.clear()
        _classes[key] = tutil.compile_(source, **kw)
    return _classes[key]


def items_state(items, now):
    return sorted((r, str(v), d, None if e is None else max(round(e - now, 1), -1)) for r, m in items.items() for v, (d, e) in m.items())


def check(case, ctx):
    try:
        NOW[0] = 1000.0
        ctx.trace()
        {'hist': hist, 'unit': unit, 'vary': vary, 'extra': extra, 'test': test}[case[0]](case, ctx)
    finally:
        NOW[0] = None


def hist(case, ctx):
    from Cheetah.CacheStore import MemoryCacheStore
    _, name, storekind, h = case
    segs = LAYOUTS[name]
    cls = get_class(name, src(segs))
    if storekind == 'shared':
        shared = MemoryCacheStore()
        saved = cls._CHEETAH_cacheStore
        cls._CHEETAH_cacheStore = shared
    try:
        w, mw = World(), World()
        st = {'vb': 'x', 'flag': False, 'i': None}
        ns = {'v': w.v, 'w': w.w, 'z': w.z, 'vb': 'x', 'flag': False, 'ident': lambda s: '<' + s + '>',
              'inc': src(segs[1][1], False) if name == 'include' else None}
        insts = [cls(searchList=[ns]) for _ in 'ab']
        models = [Model(), Model()]
        for k, op in enumerate(h):
            ctx.trans()
            if op in ('r', 'R', 'F'):
                j = 1 if op == 'R' else 0
                w.fail = mw.fail = (2 if name in ('two', 'ph_in_region', 'ph_in_test', 'two_vary', 'region_call') and k % 2 else 1) if op == 'F' else False
                del w.log[:], mw.log[:]
                try:
                    exp = ('ok', models[j].ev(segs, mw, st, NOW[0], models[j].items))
                except Fail:
                    exp = ('exc', 'Fail')
                got = tutil.outcome(lambda: insts[j].respond())
                if got[0] == 'ok':
                    got = ('ok', got[1].rstrip('\n'))
                if exp[0] == 'ok':
                    exp = ('ok', exp[1].rstrip('\n'))
                ctx.evals += 1
                ctx.outcome(exp[0])
                if got != exp:
                    ctx.fail('output', '%r store=%s history %s: rendering %d gives %r, reference %r' % (src(segs), storekind, ' '.join(h), k, got, exp))
                    return
                if w.log != mw.log:
                    ctx.fail('evaluations', '%r store=%s history %s: rendering %d evaluated %r, reference %r' % (src(segs), storekind, ' '.join(h), k, w.log, mw.log))
                    return
                if not mw.log:
                    ctx.interesting(name, storekind, op, items_state(models[j].items, NOW[0]))
            elif op == 'd':
                w.n += 1
                mw.n += 1
            elif op == 't':
                NOW[0] += 6
            elif op == 'T':
                NOW[0] += 100000
            elif op == 'f':
                st['flag'] = ns['flag'] = not st['flag']
            elif op in 'xy':
                st['vb'] = ns['vb'] = op
            elif op[0] == 'c':
                a = {'c': (), 'ca': ('a',), 'cx': ('a', 'x'), 'cy': ('a', 'y'), 'cu': ('nosuch',)}[op]
                got = tutil.outcome(lambda: insts[0].refreshCache(*a))
                if got[0] != 'ok':
                    ctx.fail('refresh raises', '%r store=%s history %s: refreshCache%r raises %s' % (src(segs), storekind, ' '.join(h), a, got[1]))
                    return
                it = models[0].items
                if op == 'c':
                    it.clear()
                elif op == 'ca':
                    it.pop('a', None)
                elif op in ('cx', 'cy'):
                    it.get('a', {}).pop(op[1], None)
            elif op == 'e':
                # the store loses everything, as a real cache may
                for j, i in enumerate(insts):
                    i._getCacheStore().clear()
                    models[j].items.clear()
            ctx.state(name, items_state(models[0].items, NOW[0]), items_state(models[1].items, NOW[0]), st['vb'], st['flag'], w.n)
    finally:
        if storekind == 'shared':
            cls._CHEETAH_cacheStore = saved


def unit(case, ctx):
    _, u, sec, form = case
    s = {'ph': '$*%s*v', 'region': "#cache timer='%s'#$v#end cache#", 'dq': '#cache id="k", timer="%s"#$v#end cache#'}[form] % u
    w = World()
    t = get_class(s, s)(searchList=[{'v': w.v}])
    for frac, n in ((0, 0), (0.9, 0), (1.1, 1), (1.9, 1), (2.3, 2)):
        NOW[0] = 1000.0 + sec * frac
        w.n += 1
        if frac == 0:
            w.n = 0
        got = tutil.outcome(lambda: t.respond())
        ctx.trans()
        ctx.evals += 1
        ctx.state(s, frac)
        exp = {0: 'v0', 0.9: 'v0', 1.1: 'v2', 1.9: 'v2', 2.3: 'v4'}[frac]
        if got != ('ok', exp):
            ctx.fail('interval', '%r at %.1f times its interval gives %r, expected %r' % (s, frac, got, exp))
            return


def vary(case, ctx):
    _, a, b = case
    s = "#cache id='k', varyBy=$vb#$v#end cache#"
    w = World()
    ns = {'v': w.v, 'vb': a}
    t = get_class(s, s)(searchList=[ns])
    model = {}
    for k, x in enumerate((a, b, a, b)):
        ns['vb'] = x
        w.n = k
        exp = model.setdefault(str(x), 'v%d' % k)
        got = tutil.outcome(lambda: t.respond())
        ctx.trans()
        ctx.evals += 1
        ctx.state('vary', str(x), k)
        if got != ('ok', exp):
            ctx.fail('vary', 'varyBy values %r, %r: rendering %d gives %r, expected %r' % (a, b, k, got, exp))
            return
    if b not in (None, ''):
        w.n = 9
        ns['vb'] = b
        got = tutil.outcome(lambda: (t.refreshCache('k', b), t.respond())[1])
        if got != ('ok', 'v9'):
            ctx.fail('vary', 'varyBy %r: after refreshCache gives %r' % (b, got))


def extra(case, ctx):
    s = case[1]
    w = World()
    calls = []

    def v():
        calls.append(1)
        return '%d;' % len(calls)
    t = get_class(s, s)(searchList=[{'v': v, 'flag': False}])
    outs = [tutil.outcome(lambda: t.respond()) for _ in range(3)]
    ctx.trans()
    ctx.evals += 3
    ctx.state('extra', s)
    first = outs[0]
    if first[0] != 'ok':
        ctx.fail('extra', '%r: %r' % (s, first))
        return
    # every region was evaluated once, in order, with its own value
    vals = [x for x in first[1].replace('\n', '').split(';') if x.strip()]
    n = s.count('$v') + s.count('*v')
    if [x.strip() for x in vals] != [str(i + 1) for i in range(n)] or any(o != first for o in outs) or len(calls) != n:
        ctx.fail('extra', '%r: renderings %r, %d evaluations' % (s, outs, len(calls)))
