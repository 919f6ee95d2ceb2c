"""Cache stores: all operation histories on the memory and the memcached back end under a virtual clock."""
import itertools
import sys
import time
import types

from mc import tutil
from mc.checks import C09

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one complete operation history on the real store; after every operation its result or exception, and after the last one '
        'the value of both keys, are compared with a dictionary model; states are model contents with remaining lifetimes, transitions are operations')
BOUNDS = {'quick': {'history length': 5, 'keys': 2, 'values': "'' and text", 'expiries': 'none, relative to the clock', 'operations': 14, 'back ends': 'memory, memcached, cache item over each'},
          'thorough': {'history length': 6, 'keys': 2, 'values': "'' and text", 'expiries': 'none, relative to the clock', 'operations': 14, 'back ends': 'memory, memcached, cache item over each'}}
ASSUMPTIONS = ['the memcached client is a stand-in with the documented behaviour of python-memcached (results, absolute expiry, addresses of the servers)',
               'no operation falls on the exact instant of an expiry']

SERVER = {}


class Client(object):
    """python-memcached in miniature: one server at 127.0.0.1:11211."""

    def __init__(self, servers, debug=0):
        self.up = any(s in ('127.0.0.1:11211', 'inet:127.0.0.1:11211') for s in servers)
        assert debug in (0, 1, True, False)

    def _get(self, key):
        assert isinstance(key, str) and ' ' not in key
        if key in SERVER:
            v, t = SERVER[key]
            if t and time.time() > t:
                del SERVER[key]
                return None
            return v
        return None

    def _put(self, key, val, t):
        SERVER[key] = (val, t)
        return 1

    def set(self, key, val, time=0, min_compress_len=0, noreply=False):
        return self._put(key, val, time) if self.up else 0

    def add(self, key, val, time=0, min_compress_len=0, noreply=False):
        if not self.up or self._get(key) is not None:
            return 0
        return self._put(key, val, time)

    def replace(self, key, val, time=0, min_compress_len=0, noreply=False):
        if not self.up or self._get(key) is None:
            return 0
        return self._put(key, val, time)

    def delete(self, key, time=None, noreply=False):
        if not self.up or self._get(key) is None:
            return 0
        del SERVER[key]
        return 1

    def get(self, key, default=None):
        return self._get(key) if self.up else None

    def flush_all(self):
        if self.up:
            SERVER.clear()


def init(mode, tier):
    C09.init(mode, tier)
    m = types.ModuleType('memcache')
    m.Client = Client
    sys.modules['memcache'] = m


OPS = ['sa1', 'sa2', 'aa1', 'aa2', 'ra1', 'ra2', 'da', 'ga', 'sb2', 'db', 'gb', 'ab1', 'C', 't']
ITEM = ['sa1', 'sa2', 'da', 'ga', 'sb1', 'gb', 'C', 't']


def enum(tier, mode):
    n = 5 if tier == 'quick' else 6
    for kind in ('memory', 'memcached'):
        for h in itertools.product(OPS, repeat=n):
            yield [kind, list(h)]
    for kind in ('memory', 'memcached'):
        for h in itertools.product(ITEM, repeat=n - 1):
            yield ['item-' + kind, list(h)]


def check(case, ctx):
    C09.NOW[0] = 1e9
    SERVER.clear()
    ctx.trace()
    try:
        (items if case[0].startswith('item') else plain)(case, ctx)
    finally:
        C09.NOW[0] = None


VAL = {'1': ('', 0), '2': ('x', 10.5)}


def make(kind):
    from Cheetah import CacheStore
    return CacheStore.MemoryCacheStore() if kind == 'memory' else CacheStore.MemcachedCacheStore()


def plain(case, ctx):
    kind, h = case
    s = make(kind)
    bystander = make('memory')
    bystander.set('a', 'other')
    model = {}

    def live(k):
        if k in model and model[k][1] and C09.NOW[0] > model[k][1]:
            del model[k]
        return k in model
    for n, op in enumerate(list(h) + ['ga', 'gb']):
        o, k = op[0], op[1:2]
        ctx.trans()
        ctx.evals += 1
        if o == 't':
            C09.NOW[0] += 6
            continue
        val, exp = VAL[op[2]] if len(op) == 3 else (None, 0)
        if exp:
            exp += C09.NOW[0]
        if o == 's':
            got, want = tutil.outcome(lambda: s.set(k, val, time=exp) and None), ('ok', None)
            model[k] = (val, exp)
        elif o == 'a':
            got = tutil.outcome(lambda: s.add(k, val, time=exp) and None)
            want = ('exc', 'Error') if live(k) else ('ok', None)
            if want[0] == 'ok':
                model[k] = (val, exp)
        elif o == 'r':
            got = tutil.outcome(lambda: s.replace(k, val, time=exp) and None)
            want = ('ok', None) if live(k) else ('exc', 'Error')
            if want[0] == 'ok':
                model[k] = (val, exp)
        elif o == 'd':
            got = tutil.outcome(lambda: s.delete(k) and None)
            want = ('ok', None) if live(k) else ('exc', 'KeyError')
            model.pop(k, None)
        elif o == 'g':
            got = tutil.outcome(lambda: s.get(k))
            want = ('ok', model[k][0]) if live(k) else ('exc', 'KeyError')
        else:
            got, want = tutil.outcome(lambda: s.clear() and None), ('ok', None)
            model.clear()
        ctx.outcome('%s %s' % (o, want[0]))
        if got != want:
            ctx.fail('store', '%s store, history %s: operation %d (%s) gives %r, expected %r' % (kind, ' '.join(h), n, op, got, want))
            return
        ctx.state(kind, sorted((a, b, c and round(c - C09.NOW[0], 1)) for a, (b, c) in model.items()))
        if want[0] != 'ok':
            ctx.interesting(kind, op, sorted(model))
    if bystander.get('a') != 'other':
        ctx.fail('store', '%s: another store was changed by %s' % (kind, ' '.join(h)))


def items(case, ctx):
    """CacheItem and CacheRegion over each store: two regions with the same item identifier share one store."""
    from Cheetah.CacheRegion import CacheRegion
    kind, h = case
    store = make(kind[5:])
    regs = {'a': CacheRegion('A', 'p', store), 'b': CacheRegion('B', 'p', store)}
    model = {}
    for n, op in enumerate(list(h) + ['ga', 'gb']):
        o, k = op[0], op[1:2]
        ctx.trans()
        ctx.evals += 1
        if o == 't':
            C09.NOW[0] += 6
            continue
        if o == 'C':
            got = tutil.outcome(lambda: regs['a'].clear() and None)
            want = ('ok', None)
            model.pop('a', None)
        else:
            it = regs[k].getCacheItem('id')
            live = k in model and not (model[k][1] and C09.NOW[0] > model[k][1])
            if o == 's':
                val, exp = VAL[op[2]]
                exp = exp and exp + C09.NOW[0]

                def put():
                    it.setExpiryTime(exp)
                    it.setData(val)
                got, want = tutil.outcome(put), ('ok', None)
                model[k] = (val, exp)
            elif o == 'd':
                got, want = tutil.outcome(lambda: it.clear() and None), ('ok', None)
                model.pop(k, None)
            else:
                def read():
                    if it.hasExpired() or not it.getRefreshTime():
                        return None
                    try:
                        return it.renderOutput()
                    except KeyError:
                        return None
                got, want = tutil.outcome(read), ('ok', model[k][0] if live else None)
        if got != want:
            ctx.fail('item', '%s, history %s: operation %d (%s) gives %r, expected %r' % (kind, ' '.join(h), n, op, got, want))
            return
        ctx.state(kind, sorted((a, b, c and round(c - C09.NOW[0], 1)) for a, (b, c) in model.items()))
