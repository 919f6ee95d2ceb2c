"""Reference safety of the C NameMapper under a fault at every access step."""
import ctypes
import gc
import itertools
import sys
from collections.abc import Mapping

from mc import tutil

LEVEL = 'fault_enumeration'
MODES = ['c']
RULE = ('one evaluation = one lookup call (entry point x value-kind chain x autocall) with the k-th '
        'access raising one exception kind (k = none, 1..number of accesses of the fault-free run + 2), '
        'repeated, with all reference counts and the allocated-block count compared before and after; '
        'non-trivial = distinct (chain, entry point, fault index, exception kind, outcome)')
BOUNDS = {'quick': {'chain': 3, 'repeats': 12}, 'thorough': {'chain': '4 (core kinds), 3 (all)', 'repeats': 40}}


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        'arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


_mallinfo2 = ctypes.CDLL(None).mallinfo2
_mallinfo2.restype = _Mallinfo2


def heap_bytes():
    m = _mallinfo2()
    return m.uordblks + m.hblkhd


class Boom(Exception):
    pass


class Fault(object):
    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None

    def hit(self):
        self.n += 1
        if self.at == self.n:
            raise self.exc()


F = Fault()


class FMap(Mapping):
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __getitem__(self, k):
        F.hit()
        if k == self.k:
            return self.v
        raise KeyError(k)

    def __contains__(self, k):
        F.hit()
        return k == self.k

    def __iter__(self):
        return iter([self.k])

    def __len__(self):
        return 1


class FAttr(object):
    def __init__(self, k, v):
        self.__dict__['_k'] = k
        self.__dict__['_v'] = v

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        F.hit()
        if k == self.__dict__['_k']:
            return self.__dict__['_v']
        raise AttributeError(k)


class FProp(object):
    def __init__(self, k, v):
        self._v = v

    def _get(self):
        F.hit()
        return self._v
    a = b = c = d = property(_get)


class Plain(object):
    pass


def mk(kind, key, value):
    if kind == 'dict':
        return {key: value}
    if kind == 'obj':
        o = Plain()
        setattr(o, key, value)
        return o
    if kind == 'fmap':
        return FMap(key, value)
    if kind == 'fattr':
        return FAttr(key, value)
    if kind == 'fprop':
        return FProp(key, value)
    if kind == 'fnew':       # a fresh object at every access
        class N(object):
            def __getattr__(self, k):
                if k != key:
                    raise AttributeError(k)
                F.hit()
                return Holder(value)
        return N()
    if kind == 'empty':
        return {'zz': 1}
    if kind == 'bare':
        return Plain()
    raise AssertionError(kind)


class Holder(object):
    """A short-lived object forwarding to the next level."""

    def __init__(self, v):
        self.__dict__['v'] = v

    def __getattr__(self, k):
        F.hit()
        return getattr(self.__dict__['v'], k) if not isinstance(self.__dict__['v'], dict) \
            else self.__dict__['v'][k]


class HolderErr(Exception):
    pass


def wrap(w, v):
    if w == 'plain':
        return v
    if w == 'fn':
        def f():
            F.hit()
            return v
        return f
    if w == 'fresh':
        def f():
            F.hit()
            return [v] if isinstance(v, str) else v
        return f
    if w == 'meth':
        o = Plain()
        o.__class__ = type('M', (Plain,), {'m': lambda self: (F.hit(), v)[1]})
        return o.m
    raise AssertionError(w)


KINDS = ['dict', 'obj', 'fmap', 'fattr', 'fprop', 'fnew', 'empty', 'bare']
WR = ['plain', 'fn', 'fresh', 'meth']
EXCS = ['AttributeError', 'KeyError', 'ValueError', 'TypeError', 'IndexError', 'NotFound', 'Boom',
        'KeyboardInterrupt', 'StopIteration']
ENTRY = ['vfn', 'vfsl', 'vfsl2', 'vffsl', 'vff', 'vfk', 'vfsl_iter', 'badsl', 'empty', 'dots', 'argerr']


def enum(tier, mode):
    lvl = [(k, w) for k in KINDS for w in WR]
    core = [('dict', 'plain'), ('fmap', 'fn'), ('fattr', 'plain'), ('fprop', 'meth'), ('fnew', 'plain'),
            ('fattr', 'fresh'), ('fmap', 'plain'), ('bare', 'plain')]
    for e in ENTRY:
        for a in lvl:
            yield {'e': e, 'ch': [list(a)]}
    for e in ENTRY[:7]:
        for a, b in itertools.product(lvl, lvl):
            if tier == 'quick' and not (a in core or b in core):
                continue
            yield {'e': e, 'ch': [list(a), list(b)]}
    for e in ENTRY[:6] if tier == 'thorough' else ['vfn', 'vfsl', 'vffsl']:
        for ch in itertools.product(core, repeat=3):
            yield {'e': e, 'ch': [list(x) for x in ch]}
    if tier == 'thorough':
        for e in ['vfn', 'vffsl']:
            for ch in itertools.product(core, repeat=4):
                yield {'e': e, 'ch': [list(x) for x in ch]}


class SlIter(object):
    """A search list whose iteration itself is an access that may fail."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        for i in self.items:
            F.hit()
            yield i


def caller(NM, e, sl, obj, name, auto):
    if e == 'vfn':
        return lambda: NM.valueForName(obj, name, auto)
    if e == 'vfsl':
        return lambda: NM.valueFromSearchList(sl, name, auto)
    if e == 'vfsl2':
        sl2 = [{}, Plain()] + sl + [{'a': 'LATER'}]
        return lambda: NM.valueFromSearchList(sl2, name, auto)
    if e == 'vfsl_iter':
        it = SlIter([{}] + sl + [{'a': 'LATER'}])
        return lambda: NM.valueFromSearchList(it, name, auto)
    if e == 'vffsl':
        def f():
            return NM.valueFromFrameOrSearchList(sl, name, auto)
        return f
    if e == 'vff':
        a = NM.valueForKey(obj, 'a') if isinstance(obj, (dict, Plain)) and NM.hasKey(obj, 'a') else None

        def g(a=a):
            return NM.valueFromFrame(name, auto)
        return g
    if e == 'vfk':
        return lambda: NM.valueForKey(obj, 'a')
    if e == 'badsl':
        return lambda: NM.valueFromSearchList(5, name, auto)
    if e == 'empty':
        return lambda: NM.valueFromFrameOrSearchList(sl, '', auto)
    if e == 'dots':
        return lambda: NM.valueForName(obj, 'a' + '.b' * 20, auto)
    if e == 'argerr':
        return lambda: NM.valueForName(obj, 5, auto)
    raise AssertionError(e)


def once(fn):
    try:
        r = fn()
        return ('ok', type(r).__name__)
    except BaseException as ex:
        if type(ex).__name__ == 'Hang':
            raise
        return ('exc', type(ex).__name__)


def check(case, ctx):
    import Cheetah.NameMapper as NM
    excs = {'AttributeError': AttributeError, 'KeyError': KeyError, 'ValueError': ValueError,
            'TypeError': TypeError, 'IndexError': IndexError, 'NotFound': NM.NotFound, 'Boom': Boom,
            'KeyboardInterrupt': KeyboardInterrupt, 'StopIteration': StopIteration}
    ch = case['ch']
    name = '.'.join('abcd'[:len(ch)])
    reps = 12 if ctx.tier == 'quick' else 40
    ctx.sample(case)
    for auto in (0, 1):
        leaf = Plain()
        obj = leaf
        tracked = [leaf]
        for i in range(len(ch) - 1, -1, -1):
            v = wrap(ch[i][1], obj)
            tracked.append(v)
            obj = mk(ch[i][0], 'abcd'[i], v)
            tracked.append(obj)
        sl = [obj]
        tracked.append(sl)
        fn = caller(NM, case['e'], sl, obj, name, auto)
        F.n, F.at, F.exc = 0, None, None
        base = once(fn)
        naccess = F.n
        plans = [(None, None)]
        for k in range(1, naccess + 3):
            for x in EXCS:
                plans.append((k, x))
        for k, x in plans:
            F.at, F.exc = k, excs.get(x)

            def one():
                F.n = 0
                return once(fn)
            first = one()
            one()
            ts = tracked + [NM.NotFound, F.exc if F.exc else Boom]
            gc.disable()
            try:
                before = [sys.getrefcount(t) for t in ts]
                for window in (reps, 300, 1500):   # a leak grows in every window
                    m0 = heap_bytes()
                    b0 = sys.getallocatedblocks()
                    for _ in range(window):
                        r = one()
                    b1 = sys.getallocatedblocks()
                    m1 = heap_bytes()
                    if b1 - b0 < window * 0.8 and m1 - m0 < window * 16:
                        break
                after = [sys.getrefcount(t) for t in ts]
            finally:
                gc.enable()
            ctx.evals += 1
            ctx.outcome('%s:%s' % first)
            ctx.interesting(case, auto, k, x, first)
            d = [(type(t).__name__, a - b) for t, a, b in zip(ts, after, before) if a != b]
            if d:
                ctx.fail('refcount', 'auto=%d fault=%s/%s: reference counts changed over %d calls: %r' % (auto, k, x, reps, d))
            if b1 - b0 >= window * 0.8:
                ctx.fail('leak', 'auto=%d fault=%s/%s: %d blocks more after %d calls' % (auto, k, x, b1 - b0, window))
            if m1 - m0 >= window * 16:
                ctx.fail('heap', 'auto=%d fault=%s/%s: %d bytes of C heap more after %d calls' % (auto, k, x, m1 - m0, window))
            if r != first:
                ctx.fail('unstable', 'auto=%d fault=%s/%s: %r then %r' % (auto, k, x, first, r))
            if first == ('exc', 'SystemError'):
                ctx.fail('systemerror', 'auto=%d fault=%s/%s: SystemError (a C function returned a result with an exception set or NULL without one)' % (auto, k, x))
            if k is None or k > naccess + 1:
                if first != base:
                    ctx.fail('unstable', 'auto=%d no fault: %r then %r' % (auto, base, first))
    F.at = None
