"""Asking for variables: getVar, varExists and hasVar against the reference resolver, over worlds, names, defaults and histories of namespace changes."""
import itertools

from mc import tutil
from mc.checks import C01

LEVEL = 'model_checking'
MODES = ['c', 'pure']
RULE = ('one world case = one chain of value kinds in one layer, asked with every spelling of the name, every default and both autocall settings; one history case = a sequence of changes to the namespaces of an instance, '
        'with every question asked after each of them; the reference is the resolver of C01 over [set global variables, instance, search list]; states are (namespaces, answer), transitions are changes and questions')
BOUNDS = {'quick': {'worlds': 'all chains of 1 and (core kinds) 2 components x 4 layers', 'defaults': 7, 'histories': 'all sequences of 3 of 12 changes'},
          'thorough': {'worlds': 'all chains of 2, core chains of 3 components x 4 layers', 'defaults': 7, 'histories': 'all sequences of 4 of 12 changes'}}
ASSUMPTIONS = C01.ASSUMPTIONS

SRC = ('#def setg($v)\n#set global $a = $v\n#end def\n#def setgb($v)\n#set global $a.b = $v\n#end def\n#def ph\n$a#slurp\n#end def\n#def phb\n$a.b#slurp\n#end def\n'
       "#def ex\n$varExists('a') $hasVar('$a.b') $varExists('a', False)#slurp\n#end def\n#def gv\n$getVar('$a', 'D')|$getVar('a.b', 'D')#slurp\n#end def\n")
KEYS = 'abc'
NAMES = ['%s', '$%s', '$%s ']


def dflt():
    raise AssertionError('a default was called')


DEFAULTS = [None, 'D', 0, '', dflt, [1], KeyError]
LAYERS = ['global', 'self', 'user0', 'user1']
OPS = ['g1', 'g2', 'gn', 's1', 'sn', 'sd', 'u1', 'ud', 'i1', 'ap', 'pop', 'v1']


def enum(tier, mode):
    full = tier == 'thorough'
    lvl = [(c, w) for c in C01.CONTAINERS for w in C01.WRAPS]
    core = [(c, w) for c in C01.CORE for w in C01.CORE_WRAPS]
    for lay in LAYERS:
        for a in C01.WRAPS + C01.EXTRA_WRAPS:
            yield ['world', lay, a, []]
            for b in lvl if full else [x for x in lvl if a in C01.CORE_WRAPS or x in core]:
                yield ['world', lay, a, [list(b)]]
            if a in C01.CORE_WRAPS:
                for b, c in itertools.product(core, lvl if full else core):
                    yield ['world', lay, a, [list(b), list(c)]]
    for n in (1, 2, 3, 4) if full else (1, 2, 3):
        for h in itertools.product(OPS, repeat=n):
            yield ['history', list(h)]


_k = []


def klass():
    if not _k:
        _k.append(tutil.compile_(SRC))
    return _k[0]


def value(w, rest):
    obj = 'LEAF'
    for i in range(len(rest) - 1, -1, -1):
        obj = C01.make_container(rest[i][0], KEYS[i + 1], C01.wrap(rest[i][1], obj))
    return C01.wrap(w, obj)


def world(lay, w, rest):
    """A template instance and the namespaces it searches, both with `a` in one layer only."""
    users = [{'zz': 1}, {'yy': 2}]
    v = value(w, rest)
    if lay.startswith('user'):
        users[int(lay[4])]['a'] = v
    t = klass()(searchList=users)
    if lay == 'global':
        t.searchList()[0]['a'] = v
    elif lay == 'self':
        t.a = v
    return t, [{'a': v} if lay == 'global' else {}, {'a': v} if lay == 'self' else {}] + users


def ask(ctx, what, real, ref):
    ctx.evals += 1
    ctx.outcome(ref[0])
    ctx.state(what.split('(')[0], ref)
    if real != ref:
        ctx.fail(what.split('(')[0], '%s gives %r, the reference %r' % (what, real, ref))
        return False
    return True


def check(case, ctx):
    ctx.trace()
    if case[0] == 'history':
        return history(case[1], ctx)
    _, lay, w, rest = case
    chunks = list(KEYS[:len(rest) + 1])
    name = '.'.join(chunks)
    for auto in (1, 0):
        def model():
            t, ns = world(lay, w, rest)
            return C01.ref_lookup(ns, chunks, auto, ctx)
        ref = C01.ref_obs(model)
        if ref[0] == 'NotFound' and w == 'fnnotfound':
            pass
        ctx.interesting(w, tuple(map(tuple, rest)), auto, ref)
        exists = ('ok', ('bool', ref[0] == 'ok')) if ref[0] != 'exc' else ref
        for sp in ('%s', '$%s'):
            nm = sp % name
            tag = '%r in %s at %r' % (nm, [w] + rest, lay)
            for j, d in enumerate(DEFAULTS):
                want = ('ok', C01.ident(d)) if ref[0] == 'NotFound' else ref
                a, k = (((nm, d), {}) if auto else ((nm, d, False), {})) if j % 2 else ((nm,), {'default': d, 'autoCall': bool(auto)})
                got = C01.obs(lambda: world(lay, w, rest)[0].getVar(*a, **k))
                if not ask(ctx, 'getVar(%s, default=%r, autoCall=%r)' % (tag, d, auto), got, want):
                    return
            got = C01.obs(lambda: world(lay, w, rest)[0].getVar(nm, autoCall=auto))
            if not ask(ctx, 'getVar(%s, autoCall=%r)' % (tag, auto), got, ref):
                return
            for fn in ('varExists', 'hasVar'):
                got = C01.obs(lambda: getattr(world(lay, w, rest)[0], fn)(nm, auto) if not auto else getattr(world(lay, w, rest)[0], fn)(nm))
                if not ask(ctx, '%s(%s, autoCall=%r)' % (fn, tag, auto), got, exists):
                    return


def history(h, ctx):
    g, s, users = {}, {}, [{'zz': 1}, {'a': 'U'}]
    real = [dict(u) for u in users]
    t = klass()(searchList=real)
    live = t.searchList()
    for i, op in enumerate(h):
        ctx.trans()
        if op[0] == 'g':
            v = {'1': 'G%d' % i, '2': {'b': 'GB%d' % i}, 'n': None}[op[1]]
            t.setg(v)
            g['a'] = v
        elif op == 'sd':
            if 'a' in s:
                del s['a'], t.a
        elif op[0] == 's':
            v = {'1': {'b': 'S%d' % i}, 'n': None}[op[1]]
            t.a = s['a'] = v
        elif op == 'u1':
            users[0]['a'] = real[0]['a'] = lambda i=i: {'b': 'C%d' % i}
        elif op == 'ud':
            if len(users) > 1:
                users[-1].pop('a', None)
                real[-1].pop('a', None)
        elif op == 'v1':
            users[-1]['a'] = real[-1]['a'] = 0
        elif op == 'i1':
            # ahead of everything
            users.insert(0, {'a': 'I%d' % i})
            real.insert(0, {'a': 'I%d' % i})
            live.insert(2, real[0])
        elif op == 'ap':
            users.append({'a': {'b': 'P%d' % i}})
            real.append({'a': {'b': 'P%d' % i}})
            live.append(real[-1])
        elif op == 'pop':
            if len(users) > 1:
                users.pop(0)
                live.remove(real[0]) if real[0] in live[2:] else None
                real.pop(0)
        ns = [g, s] + users
        desc = ' '.join(h[:i + 1])
        refs = {}
        for nm in ('a', 'a.b'):
            for auto in (1, 0):
                refs[nm, auto] = C01.ref_obs(lambda: C01.ref_lookup(ns, nm.split('.'), auto, ctx))
        ctx.state('history', tuple(sorted((k, str(v)) for k, v in refs.items())))
        for (nm, auto), ref in refs.items():
            want = ('ok', C01.ident('D')) if ref[0] == 'NotFound' else ref
            if not ask(ctx, 'getVar(%r, autoCall=%r) after %s' % (nm, auto, desc), C01.obs(lambda: t.getVar(nm, 'D', auto)), want):
                return
            if not ask(ctx, 'getVar(%r, autoCall=%r) without a default after %s' % (nm, auto, desc), C01.obs(lambda: t.getVar('$' + nm, autoCall=auto)), ref):
                return
            ex = ('ok', ('bool', ref[0] == 'ok')) if ref[0] != 'exc' else ref
            if not ask(ctx, 'varExists(%r, %r) after %s' % (nm, auto, desc), C01.obs(lambda: t.varExists(nm, auto)), ex):
                return
        for nm, m in (('a', 'ph'), ('a.b', 'phb')):
            ref = refs[nm, 1]
            if ref[0] == 'ok':
                v = C01.ref_lookup(ns, nm.split('.'), 1, ctx)
                ref = ('ok', C01.ident('' if v is None else str(v)))
            if not ask(ctx, '$%s(after %s)' % (nm, desc), C01.obs(getattr(t, m)), ref):
                return
        if any(r[0] == 'exc' for r in refs.values()):
            continue
        ok = lambda nm, auto=1: refs[nm, auto][0] == 'ok'       # noqa
        if not ask(ctx, 'varExists in the template(after %s)' % desc, C01.obs(t.ex), ('ok', C01.ident('%s %s %s' % (ok('a'), ok('a.b'), ok('a', 0))))):
            return
        val = lambda nm: C01.ref_lookup(ns, nm.split('.'), 1, ctx) if ok(nm) else 'D'        # noqa
        vs = ['' if x is None else str(x) for x in (val('a'), val('a.b'))]
        if not ask(ctx, 'getVar in the template(after %s)' % desc, C01.obs(t.gv), ('ok', C01.ident('|'.join(vs)))):
            return
    ctx.interesting('h', tuple(h))
