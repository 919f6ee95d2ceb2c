"""Failed renderings: every evaluation, filter call and write of every generated template is made to fail; afterwards the instance must render as a fresh one."""
import itertools

from mc import tutil

LEVEL = 'fault_enumeration'
MODES = ['c']
RULE = ('one case = one template (a nest of regions, methods, includes and loops with an evaluation between any two constructs) and one pair of delivery routes; for every k the k-th placeholder '
        'evaluation, filter call or write of the first rendering raises, and the instance is then rendered again, as is a second instance of the class; states are the distinct (template, k, fault) '
        'points, transitions are renderings')
BOUNDS = {'quick': {'nesting': '3 over 20 constructs', 'faults': 'every evaluation, filter call and write; Exception and BaseException', 'second fault': 'every k again for nests of depth 1',
                    'routes': '4 x 4 at depth 1, 3 pairs at depth 2, 1 at depth 3'},
          'thorough': {'nesting': '3 over 20 constructs, 4 over 7', 'faults': 'the same', 'second fault': 'depth 2', 'routes': '4 x 4 at depth 2, 3 pairs at depth 3'}}
ASSUMPTIONS = ['the namespace objects of the template have no state of their own', 'a #set global value set before the failure remains set; the templates read it only after setting it']

# name -> (text around the body, text hoisted to the top of the template); @N is replaced by a unique number, @B by the body
W = {
    'call': ('#call $up#@B#end call#', ''), 'arg': ('#call $kwf##arg a#@B#arg b#$p(@N9)#end call#', ''), 'capture': ('#capture c@N#@B#end capture#[$c@N]', ''),
    'cache': ('#cache#@B#end cache#', ''), 'vary': ('#cache vary=$p(@N8)#@B#end cache#', ''), 'timer': ('#cache timer=60#@B#end cache#', ''),
    'filter': ('#filter WebSafe#@B$lt#end filter#$lt', ''), 'nofilter': ('#filter None#@B#end filter#', ''), 'ownfilter': ('#filter $Own#@B#end filter#', ''),
    'for': ('#for $i in (1, 2)#@B#end for#', ''), 'if': ('#if $p(@N8)#@B#end if#', ''), 'finally': ('#try#@B#finally#$p(@N7)#end try#', ''), 'except': ('#try#@B#except $Boom#x#end try#', ''),
    'def': ('($m@N)', '#def m@N#@B#end def#'), 'defarg': ('($m@N($p(@N8)))', '#def m@N($a)#@B$a#end def#'), 'cdef': ('$*m@N', '#def m@N#@B#end def#'),
    'incl': ('#include source=$srcs[@N]#', None), 'setg': ('#set global $g@N = $p(@N8)#@B$g@N', ''), 'set': ('#set $g@N = $p(@N8)#@B$g@N', ''), 'ph': ('$up($m@N)', '#def m@N#@B#end def#'),
}
CACHING = {'cache', 'vary', 'timer', 'cdef'}
CORE = ['call', 'capture', 'cache', 'filter', 'for', 'def', 'finally']
ROUTES = ['str', 'respond', 'trans', 'awake']


class Boom(Exception):
    pass


class Kill(BaseException):
    pass


def enum(tier, mode):
    deep = 1 if tier == 'quick' else 2
    for d in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
        names = list(W) if d < 4 else CORE
        for nest in itertools.product(names, repeat=d):
            if d <= deep:
                pairs = list(itertools.product(ROUTES, repeat=2))
            else:
                pairs = [('str', 'str'), ('trans', 'str'), ('awake', 'respond')] if d == (2 if tier == 'quick' else 3) else [('str', 'str')]
            for a, b in pairs:
                yield ['nest', list(nest), a, b, d <= deep]
    for a, b in itertools.product(W, repeat=2):
        yield ['seq', [a, b], 'str', 'str', 0]
        if tier == 'thorough':
            yield ['seq', [a, b], 'trans', 'awake', 0]


def build(kind, nest):
    srcs, head = {}, []

    def wrap(n, name, body):
        text, hoist = W[name]
        N = str(n)
        if hoist is None:
            srcs[n] = body
            return text.replace('@N', N)
        if hoist:
            head.append(hoist.replace('@N', N).replace('@B', body))
            return text.replace('@N', N)
        return text.replace('@N', N).replace('@B', body)

    if kind == 'nest':
        body = '$p(1)'
        for n, name in reversed(list(enumerate(nest, 1))):
            body = 't%d$p(%d)' % (n, 10 * n + 2) + wrap(n, name, '$p(%d)u' % (10 * n + 3) + body + '$p(%d)' % (10 * n + 4)) + '$p(%d)' % (10 * n + 5)
    else:
        body = ''
        for n, name in enumerate(nest, 1):
            body += '$p(%d)' % (10 * n + 2) + wrap(n, name, '$p(%d)u' % (10 * n + 3)) + '$p(%d)' % (10 * n + 5)
    return ''.join(head) + body, srcs


class World:
    """Counts evaluations, filter calls and writes and makes one of them fail."""

    def __init__(self):
        self.arm(None, 0)
        self.log = []

    def arm(self, kind, k, exc=Boom):
        self.kind, self.k, self.exc = kind, k, exc
        self.n = {'value': 0, 'filter': 0, 'write': 0}

    def hit(self, kind):
        self.n[kind] += 1
        if kind == self.kind and self.n[kind] == self.k:
            raise self.exc('fault %d' % self.k)

    def space(self, srcs):
        from Cheetah.Filters import Filter
        world = self

        class Own(Filter):
            def filter(self, val, **kw):
                world.hit('filter')
                return '{%s}' % val

        def p(i):
            world.hit('value')
            return '.%d' % i

        return {'p': p, 'up': lambda s: s.upper(), 'kwf': lambda **kw: repr(sorted(kw.items())), 'lt': '<', 'Boom': Boom, 'srcs': srcs, 'Own': Own}

    def filter(self):
        from Cheetah.Filters import Filter
        world = self

        class Main(Filter):
            def filter(self, val, **kw):
                world.hit('filter')
                return str(val)
        return Main


class Trans:
    """A transaction as an application server provides it."""

    def __init__(self, world):
        self.parts = []
        self.world = world

    def response(self, resp=None):
        return self

    def write(self, s):
        self.world.hit('write')
        self.parts.append(s)

    def getvalue(self):
        return ''.join(self.parts)


def deliver(t, route, world):
    if route == 'str':
        return str(t)
    if route == 'respond':
        return t.respond()
    tr = Trans(world)
    if route == 'trans':
        r = t.respond(tr)
        return ''.join(tr.parts) + '/' + repr(r)
    t.transaction = tr              # as awake() does in a servlet
    try:
        r = t.respond()
        return ''.join(tr.parts) + '/' + repr(r)
    finally:
        t.transaction = None        # as sleep() does


def run(t, route, world, kind=None, k=0, exc=Boom):
    world.arm(kind, k, exc)
    try:
        return ('ok', deliver(t, route, world))
    except (Boom, Kill) as e:
        return ('fault', str(e))
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + str(e)[:80])
    finally:
        world.last = dict(world.n)
        world.arm(None, 0)


def check(case, ctx):
    kind, nest, r1, r2, second = case
    src, srcs = build(kind, nest)
    world = World()
    ns = world.space(srcs)
    k = tutil.compile_(src)
    try:
        def fresh():
            return k(searchList=[ns], filter=world.filter())

        ref = {}
        for r in {r1, r2}:
            t = fresh()
            ref[r] = run(t, r, world)
            counts = world.last
            again = run(t, r, world)
            ctx.trans(2)
            if ref[r][0] != 'ok':
                ctx.fail('render', '%r via %s gives %r' % (src, r, ref[r]))
                return
            if again != ref[r]:
                ctx.fail('repeat', '%r via %s: first %r, then %r' % (src, r, ref[r], again))
        run(fresh(), r1, world)
        counts = world.last
        other = fresh()
        first = run(other, r2, world)
        points = [(f, i) for f in ('value', 'filter', 'write') for i in range(1, counts[f] + 1)]
        for f, i in points:
            for exc in (Boom, Kill):
                ctx.evals += 1
                ctx.state([src, f, i, exc.__name__])
                t = fresh()
                x = run(t, r1, world, f, i, exc)
                ctx.outcome(x[0])
                if x[0] == 'ok' and not ('except' in nest and exc is Boom):
                    ctx.fail('swallowed', '%r via %s: %s number %d raised %s, yet the rendering gives %r' % (src, r1, f, i, exc.__name__, x))
                if x[0] == 'exc':
                    ctx.fail('other exception', '%r via %s: %s number %d raised %s, the rendering raises %s' % (src, r1, f, i, exc.__name__, x[1]))
                if x[0] == 'ok' and CACHING & set(nest):
                    continue        # handled inside the region: its output is what is stored
                y = run(t, r2, world)
                ctx.trans(2)
                if y != ref[r2]:
                    ctx.fail('after a failure', '%r: %s number %d raised %s in a rendering via %s; the next one via %s gives %r, a fresh instance %r' % (src, f, i, exc.__name__, r1, r2, y, ref[r2]))
                if second:
                    t = fresh()
                    for j in range(1, world.last[f] + 2):
                        run(t, r1, world, f, i, exc)
                        run(t, r2, world, f, j, exc)
                        y = run(t, r1, world)
                        ctx.trans(3)
                        if y != ref[r1]:
                            ctx.fail('after two failures', '%r: %s %d and %d raised via %s and %s; then %r instead of %r' % (src, f, i, j, r1, r2, y, ref[r1]))
        ctx.trans()
        y = run(other, r2, world)
        if (first, y) != (ref[r2], ref[r2]):
            ctx.fail('other instance', '%r: an instance rendered before and after the failures of others gives %r and %r, alone %r' % (src, first, y, ref[r2]))
    finally:
        tutil._cleanup(k)
