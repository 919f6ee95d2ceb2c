"""Name resolution: every small namespace world x every dotted name, against a
reference resolver, through every lookup entry point, in both builds."""
import itertools
import re
import types
from collections.abc import Mapping

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
RULE = ('one case = one world (which of locals / search list / globals / builtins '
        'defines the name, and the kind of value at every step of the dotted name) '
        'x one lookup entry point x autocalling on/off; model states are '
        '(namespace or value kind, remaining name), transitions are resolver steps')
BOUNDS = {
    'quick': {'chain': 'all value-kind chains of length <= 2 (3 over the core kinds)',
              'layers': 'all presence patterns over locals, 2 search-list entries, globals, builtins',
              'dots': '0..13'},
    'thorough': {'chain': 'all value-kind chains of length <= 3 over every kind',
                 'layers': 'all presence patterns over locals, 3 search-list entries, globals, builtins',
                 'dots': '0..13'},
}
ASSUMPTIONS = ['lookups in user mappings raise only KeyError for an absent key and '
               'agree with membership', 'attribute access raises only AttributeError when absent']


# ---------------------------------------------------------------- worlds
class MyMap(Mapping):
    def __init__(self, d):
        self._d = d

    def __getitem__(self, k):
        return self._d[k]

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)


class DictObj(dict):
    pass


class Obj(object):
    pass


class Slots(object):
    __slots__ = ('a', 'b', 'c', 'd')


class GetAttr(object):
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, k):
        try:
            return self.__dict__['_d'][k]
        except KeyError:
            raise AttributeError(k)


class FalsyObj(object):
    def __len__(self):
        return 0


class CallInst(object):
    def __call__(self):
        return 'CALLED-INSTANCE'


CONTAINERS = ['dict', 'dict_nokey', 'dictobj_key', 'dictobj_attr', 'dictobj_both',
              'map_key', 'map_attr', 'map_both', 'obj', 'obj_noattr', 'slots', 'getattr',
              'property', 'cls', 'callinst', 'falsy', 'str', 'list', 'none', 'module']
CORE = ['dict', 'dictobj_both', 'map_attr', 'obj', 'obj_noattr', 'callinst', 'cls']
WRAPS = ['plain', 'fn', 'lambda', 'bound', 'static', 'classmeth', 'builtin', 'fnraise', 'fnneedarg',
         'fnkeyerr', 'fnnotfound', 'gen', 'partial', 'classobj']
CORE_WRAPS = ['plain', 'fn', 'bound', 'classobj']


def make_container(kind, key, value):
    """An object on which component `key` leads to `value` (or to nothing)."""
    other = 'WRONG-' + key
    if kind == 'dict':
        return {key: value, 'zz': other}
    if kind == 'dict_nokey':
        return {'zz': other}
    if kind == 'dictobj_key':
        return DictObj({key: value})
    if kind == 'dictobj_attr':
        d = DictObj({'zz': other})
        setattr(d, key, value)
        return d
    if kind == 'dictobj_both':
        d = DictObj({key: value})
        setattr(d, key, other)
        return d
    if kind == 'map_key':
        return MyMap({key: value})
    if kind == 'map_attr':
        m = MyMap({'zz': other})
        setattr(m, key, value)
        return m
    if kind == 'map_both':
        m = MyMap({key: value})
        setattr(m, key, other)
        return m
    if kind == 'obj':
        o = Obj()
        setattr(o, key, value)
        return o
    if kind == 'obj_noattr':
        return Obj()
    if kind == 'slots':
        o = Slots()
        setattr(o, key, value)
        return o
    if kind == 'getattr':
        return GetAttr({key: value})
    if kind == 'property':
        return type('P', (object,), {key: property(lambda self: value)})()
    if kind == 'cls':
        return type('K', (object,), {key: staticmethod(value) if isinstance(
            value, types.FunctionType) else value})
    if kind == 'callinst':
        o = CallInst()
        setattr(o, key, value)
        return o
    if kind == 'falsy':
        o = FalsyObj()
        setattr(o, key, value)
        return o
    if kind == 'str':
        return 'text'
    if kind == 'list':
        return [value]
    if kind == 'none':
        return None
    if kind == 'module':
        m = types.ModuleType('m')
        setattr(m, key, value)
        return m
    raise AssertionError(kind)


class WrapHolder(object):
    pass


def wrap(kind, value):
    """A value which, autocalled, gives `value`."""
    if kind == 'plain':
        return value
    if kind == 'fn':
        def f():
            return value
        return f
    if kind == 'lambda':
        return lambda *a: value
    if kind == 'bound':
        h = WrapHolder()
        return types.MethodType(lambda self: value, h)
    if kind == 'static':
        class S(object):
            @staticmethod
            def m():
                return value
        return S.m
    if kind == 'classmeth':
        class S(object):
            @classmethod
            def m(cls, x=1):
                return value
        return S.m
    if kind == 'builtin':
        return [value].pop
    if kind == 'fnraise':
        def f():
            raise ValueError('boom')
        return f
    if kind == 'fnneedarg':
        return lambda x: value
    if kind == 'fnkeyerr':
        def f():
            raise KeyError('inner')
        return f
    if kind == 'fnnotfound':
        def f():
            raise AttributeError('inner')
        return f
    if kind == 'gen':
        def g():
            yield value
        return g
    if kind == 'partial':
        import functools
        return functools.partial(lambda: value)
    if kind == 'classobj':
        return type('C', (object,), {'a': 'CA', 'b': 'CB', 'c': 'CC'})
    if kind == 'wraps':
        import functools

        def inner():
            return 'INNER'

        @functools.wraps(inner)
        def f():
            return value
        return f
    if kind == 'fnattr':
        def f():
            return value
        f.custom = 1
        f.a = f.b = f.c = f.d = 'FNATTR'
        f.__doc__ = 'documented'
        return f
    if kind == 'kwdef':
        def f(x=1, *a, k=2, **kw):
            return value
        return f
    if kind == 'annot':
        def f(x: int = 1) -> str:
            return value
        return f
    if kind == 'lru':
        import functools
        return functools.lru_cache()(lambda: value)
    if kind == 'slotw':
        return value.__str__ if isinstance(value, str) else [value].pop
    if kind == 'mdesc':
        return str.upper
    if kind == 'boundcallinst':
        class CI(object):
            def __call__(self, *a):
                return value
        return types.MethodType(CI(), WrapHolder())
    if kind == 'inheritedbound':
        class P0(object):
            def m(self):
                return value

        class P1(P0):
            pass
        return P1().m
    if kind == 'metameth':
        class M(type):
            def m(cls):
                return value
        return M('K', (object,), {}).m
    if kind == 'dictget':
        return {1: value}.popitem if 0 else [value].__reversed__ if 0 else iter([value]).__next__
    if kind == 'exccls':
        return ValueError
    if kind == 'partialm':
        import functools

        class PM(object):
            def m(self, x):
                return value
            pm = functools.partialmethod(m, 1)
        return PM().pm
    if kind == 'typealias':
        import typing
        return typing.List
    raise AssertionError(kind)


EXTRA_WRAPS = ['wraps', 'fnattr', 'kwdef', 'annot', 'lru', 'slotw', 'mdesc', 'boundcallinst', 'inheritedbound', 'metameth',
               'dictget', 'exccls']


# ---------------------------------------------------------------- the model
AUTOCALL = (types.FunctionType, types.MethodType, types.BuiltinFunctionType,
            types.BuiltinMethodType, types.MethodWrapperType)
MISSING = object()


class RefNotFound(Exception):
    pass


def ref_get(obj, key):
    if isinstance(obj, Mapping) and key in obj:
        return obj[key]
    return getattr(obj, key, MISSING)


def ref_value(obj, chunks, autocall, ctx, tag):
    for i, key in enumerate(chunks):
        ctx.trans()
        ctx.state(tag, i, type(obj).__name__, len(chunks) - i, autocall)
        v = ref_get(obj, key)
        if v is MISSING:
            raise RefNotFound(key)
        if autocall and isinstance(v, AUTOCALL):
            ctx.trans()
            v = v()
        obj = v
    return obj


def ref_lookup(namespaces, chunks, autocall, ctx):
    for i, ns in enumerate(namespaces):
        ctx.trans()
        if ref_get(ns, chunks[0]) is not MISSING:
            return ref_value(ns, chunks, autocall, ctx, i)
    raise RefNotFound(chunks[0])


# ---------------------------------------------------------------- enumeration
def chains(tier):
    lvl = [(c, w) for c in CONTAINERS for w in WRAPS]
    core = [(c, w) for c in CORE for w in CORE_WRAPS]
    for a in lvl:
        yield [a]
    for a in lvl:
        for b in (lvl if tier == 'thorough' else
                  [x for x in lvl if x in core or a in core]):
            yield [a, b]
    if tier == 'quick':
        for ch in itertools.product(core, repeat=3):
            yield list(ch)
    else:
        for a in lvl:
            for b in lvl:
                for c in core:
                    yield [a, b, c]


def enum(tier, mode):
    for ch in chains(tier):
        yield {'k': 'chain', 'chain': tutil.norm(ch)}
    for n in (1, 2, 3, 4):
        for ew in EXTRA_WRAPS:
            for pos in range(n):
                for conts in itertools.product(('dict', 'obj', 'map_key', 'slots') if tier == 'thorough' else ('dict', 'obj'), repeat=n):
                    for other in ('plain', 'fn'):
                        yield {'k': 'chain', 'chain': [[conts[i], ew if i == pos else other] for i in range(n)]}
    nsl = 2 if tier == 'quick' else 3
    opts = [None, 'dict', 'dictobj_attr', 'obj', 'map_both', 'dict_nokey', 'property', 'falsy']
    vals = ['leaf', 'none', 'zero', 'fn', 'sub', 'nosub', 'empty', 'false', 'cls']
    for loc in (0, 1):
        for sl in itertools.product(opts, repeat=nsl):
            for glob in (0, 1):
                for bi in (0, 1):
                    for val in vals:
                        yield {'k': 'layers', 'loc': loc, 'sl': list(sl), 'g': glob, 'b': bi, 'v': val}
    for n in range(1, 15):
        for kind in ('dict', 'obj', 'map_key', 'dictobj_both'):
            for miss in range(-1, n):
                for autoc in (0, 1):
                    yield {'k': 'deep', 'n': n, 'kind': kind, 'miss': miss, 'fn': autoc}
    for nm in SPECIAL_NAMES:
        for dotted in (0, 1, 2):
            yield {'k': 'special', 'name': nm, 'pos': dotted}
    # through templates
    for us in TEMPLATE_SETTINGS:
        for pres in itertools.product((0, 1), repeat=6):
            for form in range(len(FORMS)):
                yield {'k': 'tmpl', 'set': us, 'pres': list(pres), 'form': form}


SPECIAL_NAMES = ['keys', 'items', 'get', 'copy', '__class__', '__dict__', '__doc__', 'é', '_', 'a1',
                 'update', 'values', 'A', 'x' * 200, 'mro', '__init__']


def real_calls(NM, ns, name, autocall):
    sl = list(ns)
    yield 'valueFromSearchList', lambda: NM.valueFromSearchList(sl, name, autocall)
    yield 'valueFromSearchList(kw)', lambda: NM.valueFromSearchList(
        searchList=tuple(sl), name=name, executeCallables=bool(autocall))
    yield 'valueFromSearchList(iter)', lambda: NM.valueFromSearchList(
        iter(sl), name, executeCallables=autocall)


def obs(fn):
    from Cheetah.NameMapper import NotFound
    try:
        return ('ok', ident(fn()))
    except NotFound as e:
        msg = str(e)
        return ('NotFound', msg.split("'")[1] if "'" in msg else msg, isinstance(e, LookupError))
    except Exception as e:
        return ('exc', type(e).__name__)


def ref_obs(fn):
    try:
        return ('ok', ident(fn()))
    except RefNotFound as e:
        return ('NotFound', e.args[0], True)
    except Exception as e:
        return ('exc', type(e).__name__)


def ident(v):
    """Observable identity of a value, comparable between two builds of a world."""
    if isinstance(v, str):
        return ('str', re.sub('0x[0-9a-f]+', '0x', v))
    if isinstance(v, (int, float, bool, type(None))):
        return (type(v).__name__, v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [ident(x) for x in v])
    tag = getattr(v, '__name__', None)
    return (type(v).__name__, tag if isinstance(tag, str) else None,
            len(v) if isinstance(v, dict) else None)


def check(case, ctx):
    import Cheetah.NameMapper as NM
    case_k = case['k']
    if case_k == 'chain':
        check_chain(case['chain'], ctx, NM)
    elif case_k == 'layers':
        check_layers(case, ctx, NM)
    elif case_k == 'deep':
        check_deep(case, ctx, NM)
    elif case_k == 'special':
        check_special(case, ctx, NM)
    else:
        check_tmpl(case, ctx, NM)


KEYS = 'abcd'


def build_chain(ch):
    obj = 'LEAF'
    for i in range(len(ch) - 1, -1, -1):
        cont, w = ch[i]
        obj = make_container(cont, KEYS[i], wrap(w, obj))
    return obj


def compare(ctx, what, real, ref, key=None):
    ctx.evals += 1
    ctx.trace()
    ctx.outcome(ref[0])
    if real != ref:
        ctx.fail(key or what, '%s gave %r, the reference resolver %r' % (what, real, ref))


def check_chain(ch, ctx, NM):
    chunks = list(KEYS[:len(ch)])
    name = '.'.join(chunks)
    ctx.sample({'chain': ch, 'name': name})
    for auto in (0, 1):
        ref = ref_obs(lambda: ref_value(build_chain(ch), chunks, auto, ctx, ch[0][0]))
        compare(ctx, 'valueForName', obs(lambda: NM.valueForName(build_chain(ch), name, auto)), ref)
        compare(ctx, 'valueForName(kw)', obs(lambda: NM.valueForName(
            obj=build_chain(ch), name=name, executeCallables=bool(auto))), ref)
        refsl = ref_obs(lambda: ref_lookup([build_chain(ch)], chunks, auto, ctx))
        compare(ctx, 'valueFromSearchList',
                obs(lambda: NM.valueFromSearchList([build_chain(ch)], name, auto)), refsl)
        ctx.interesting(ch, auto, ref)

        def in_frame(a, which):
            if which:
                return NM.valueFromFrame(name, auto)
            return NM.valueFromFrameOrSearchList([], name, auto)
        if ch[0][0] == 'dict':
            # the frame's own locals play the part of the outer mapping
            for which in (0, 1):
                compare(ctx, 'valueFromFrame' if which else 'valueFromFrameOrSearchList',
                        obs(lambda: in_frame(build_chain(ch)['a'], which)), ref)
    for auto in (0,):
        ref = ref_obs(lambda: _raise_missing(ref_get(build_chain(ch), 'a'), 'a'))
        compare(ctx, 'valueForKey', obs(lambda: NM.valueForKey(build_chain(ch), 'a')), ref)
        compare(ctx, 'hasKey', ('ok', bool(NM.hasKey(build_chain(ch), 'a'))), ('ok', ref[0] == 'ok'))
        hn = ref_obs(lambda: ref_value(build_chain(ch), chunks, 0, ctx, 'hasName'))
        compare(ctx, 'hasName', obs(lambda: bool(NM.hasName(build_chain(ch), name))),
                ('ok', ('bool', hn[0] == 'ok')) if hn[0] != 'exc' else hn)


def _raise_missing(v, key):
    if v is MISSING:
        raise RefNotFound(key)
    return v


def layer_value(kind, tag):
    if kind == 'leaf':
        return 'V' + tag
    if kind == 'none':
        return None
    if kind == 'zero':
        return 0
    if kind == 'empty':
        return ''
    if kind == 'false':
        return False
    if kind == 'fn':
        return lambda: 'F' + tag
    if kind == 'cls':
        return type('C' + tag, (object,), {'sub': 'CS' + tag})
    if kind == 'sub':
        return {'sub': 'S' + tag}
    if kind == 'nosub':
        # only the last layers have .sub: an early match must not fall through
        return {'sub': 'S' + tag} if tag in ('g', 'b') else {'other': 1}
    raise AssertionError(kind)


_FRAME_SRC = '''
def with_local(NM, sl, name, auto, which, qq):
    if which == 0:
        return NM.valueFromFrameOrSearchList(sl, name, auto)
    if which == 1:
        return NM.valueFromFrameOrSearchList(searchList=sl, name=name, executeCallables=auto)
    return NM.valueFromFrame(name, auto)
def without_local(NM, sl, name, auto, which):
    if which == 0:
        return NM.valueFromFrameOrSearchList(sl, name, auto)
    if which == 1:
        return NM.valueFromFrameOrSearchList(searchList=sl, name=name, executeCallables=auto)
    return NM.valueFromFrame(name, auto)
'''


def check_layers(case, ctx, NM):
    import builtins
    v = case['v']
    gl = {'__builtins__': builtins}
    exec(_FRAME_SRC, gl)
    sl = []
    for i, o in enumerate(case['sl']):
        if o is not None:
            sl.append(make_container(o, 'qq', layer_value(v, str(i))))
    locval = layer_value(v, 'l')
    if case['g']:
        gl['qq'] = layer_value(v, 'g')
    bi = {'qq': layer_value(v, 'b')} if case['b'] else {}
    if case['b']:
        builtins.qq = bi['qq']
    try:
        for name in (['qq', 'qq.sub'] if v in ('sub', 'nosub', 'cls') else ['qq']):
            chunks = name.split('.')
            for auto in (0, 1):
                for which in (0, 1, 2):
                    layers = ([{'qq': locval}] if case['loc'] else [{}]) + \
                        (sl if which < 2 else []) + [gl, bi]
                    ref = ref_obs(lambda: ref_lookup(layers, chunks, auto, ctx))
                    if case['loc']:
                        real = obs(lambda: gl['with_local'](NM, sl, name, auto, which, locval))
                    else:
                        real = obs(lambda: gl['without_local'](NM, sl, name, auto, which))
                    compare(ctx, 'frame lookup #%d of %s' % (which, name), real, ref, 'layers')
                ref = ref_obs(lambda: ref_lookup(sl, chunks, auto, ctx))
                for what, fn in real_calls(NM, sl, name, auto):
                    compare(ctx, what, obs(fn), ref, 'layers')
                    ctx.interesting(case, name, auto)
    finally:
        if case['b']:
            del builtins.qq


def check_deep(case, ctx, NM):
    n, miss = case['n'], case['miss']
    keys = ['k%d' % i for i in range(n)]

    def build():
        o = 'LEAF'
        for i in range(n - 1, -1, -1):
            if case['fn']:
                o = wrap('fn', o)
            o = make_container(case['kind'], keys[i] if i != miss else 'other', o)
        return o
    name = '.'.join(keys)
    for auto in (0, 1):
        ref = ref_obs(lambda: ref_value(build(), keys, auto, ctx, 'deep'))
        compare(ctx, 'valueForName', obs(lambda: NM.valueForName(build(), name, auto)), ref)
        ref = ref_obs(lambda: ref_lookup([build()], keys, auto, ctx))
        compare(ctx, 'valueFromSearchList', obs(lambda: NM.valueFromSearchList([build()], name, auto)), ref)
    ctx.interesting(case)


def check_special(case, ctx, NM):
    nm, pos = case['name'], case['pos']
    chunks = [['a', nm], [nm, 'a'], [nm]][pos]
    name = '.'.join(chunks)

    def objs():
        yield {chunks[0]: {chunks[-1]: 'V', 'a': 'A'}}
        yield {'a': {}, 'zz': 1}
        yield {}
        o = Obj()
        o.a = {}
        yield o
        yield MyMap({'a': MyMap({})})
        yield MyMap({nm: {nm: 1, 'a': 2}})
        yield DictObj({nm: {nm: 1, 'a': 2}})
        o = Obj()
        setattr(o, chunks[0] if not chunks[0].startswith('__') else 'a', {nm: 3})
        yield o
    for i in range(8):
        for auto in (0, 1):
            def mk():
                return list(objs())[i]
            ref = ref_obs(lambda: ref_value(mk(), chunks, auto, ctx, 'sp'))
            compare(ctx, 'valueForName', obs(lambda: NM.valueForName(mk(), name, auto)), ref)
            ref = ref_obs(lambda: ref_lookup([{}, mk(), {nm: 'LAST'}], chunks, auto, ctx))
            compare(ctx, 'valueFromSearchList', obs(
                lambda: NM.valueFromSearchList([{}, mk(), {nm: 'LAST'}], name, auto)), ref)
    ctx.interesting(case)


# ---------------------------------------------------------------- templates
TEMPLATE_SETTINGS = [
    {}, {'useStackFrames': False}, {'useAutocalling': False},
    {'useStackFrames': False, 'useAutocalling': False},
    {'useSearchList': False},
    {'prioritizeSearchListOverSelf': True},
]
# the leading component is always qq
FORMS = ['$qq', '${qq}', '$(qq)', '$qq.sub', '${qq.sub}', '$fn.sub', '$fn().sub', '$fn()', '$ob.meth',
         '$ob.meth()', '$ob.meth.sub', '$ob.meth().sub', "$qq['sub']", "$fn['sub']",
         '#if $qq is None#N#else#S#end if#', '#set $y = $qq#$y', '#silent $qq#$qq',
         '#for $z in [$qq]#$z#end for#', '#for $qq in [1]#$qq#end for#$qq', '#set $qq = 5#$qq',
         '$cls', '$cls.sub', '$len', '$str(3)', "$VFFSL(SL, 'qq', True)" if 0 else '$qq']


def check_tmpl(case, ctx, NM):
    import builtins
    form = FORMS[case['form']]
    st = case['set']
    loc, a_self, s0, s1, g, b = case['pres']
    auto = st.get('useAutocalling', True)

    class V(str):
        sub = 'subV'

    def val(tag):
        d = DictObj({'sub': 'sub' + tag})
        d.__class__ = type('D' + tag, (DictObj,), {'__str__': lambda s: 'val' + tag,
                                                  '__repr__': lambda s: 'val' + tag})
        return d

    class Ob(object):
        def meth(self):
            return {'sub': 'methsub'}
    base = {'fn': lambda: {'sub': 'fnsub'}, 'ob': Ob(), 'cls': type('Cls', (), {'sub': 'clssub'})}
    sl = [{}, dict(base)]
    if s0:
        sl[0]['qq'] = val('s0')
    if s1:
        sl[1]['qq'] = val('s1')
    src = form
    if loc:
        src = '#set $qq = $mk("loc")\n' + src
    sl[1]['mk'] = val
    attrs = {}
    if b:
        builtins.qq = val('b')
    try:
        kw = {}
        if g:
            kw['moduleGlobals'] = {'qq': val('g')}

        def real():
            klass = tutil.compile_(src, compilerSettings=dict(st), **kw)
            try:
                if a_self:
                    klass.qq = val('self')
                if variant == 0:
                    return str(klass(searchList=list(sl), compilerSettings=dict(st)))
                if variant == 1:
                    return str(klass(searchList=tuple(sl), compilerSettings=dict(st)))
                return str(klass(namespaces=list(sl), compilerSettings=dict(st)))
            finally:
                tutil._cleanup(klass)

        def ref():
            layers = []
            locd = {'qq': val('loc')} if loc else {}
            selfd = {'qq': val('self')} if a_self else {}
            layers.append(locd)
            if st.get('prioritizeSearchListOverSelf'):
                layers += [sl[0], sl[1], selfd]
            else:
                layers += [selfd, sl[0], sl[1]]
            gd = {'qq': val('g')} if g else {}
            bd = {'qq': val('b')} if b else {}
            layers += [gd, dict(vars(builtins), **bd)]
            return tmpl_ref(form, layers, auto, ctx, st)
        if st.get('useSearchList') is False:
            # then placeholders are plain names of the generated code: only the
            # module and builtin layers and local names are visible
            if 'fn' in form or 'ob' in form or 'cls' in form or 'mk' in src:
                return
            if '.sub' in form:
                pass

            def ref():
                layers = [{'qq': val('loc')} if loc else {}, {'qq': val('g')} if g else {},
                          dict(vars(builtins), **({'qq': val('b')} if b else {}))]
                return tmpl_ref(form, layers, auto, ctx, st)
        r = ref_obs(ref)
        variant = (loc + a_self + s0 + s1 + g) % 3
        x = obs(real)
        if r[0] == 'NotFound':
            r = ('NotFound',)
            x = x[:1]
            if st.get('useSearchList') is False and x == ('exc',):
                x = ('NotFound',)
        compare(ctx, 'template %r %r variant %d' % (src, st, variant), x, r, 'template')
        ctx.interesting(case)
    finally:
        if b:
            del builtins.qq


def tmpl_ref(form, layers, auto, ctx, st):
    def look(name):
        chunks = name.split('.')
        if st.get('useDottedNotation') is False and len(chunks) > 1:
            v = ref_lookup(layers, chunks[:1], auto, ctx)
            for c in chunks[1:]:
                v = getattr(v, c)
            return v
        if st.get('useSearchList') is False:
            for L in layers:
                if chunks[0] in L:
                    v = L[chunks[0]]
                    return ref_value(v, chunks[1:], auto, ctx, 'nosl')
            raise RefNotFound(chunks[0])
        return ref_lookup(layers, chunks, auto, ctx)

    def look_noauto_last(name):
        # an explicit call: the last component is not autocalled
        chunks = name.split('.')
        if len(chunks) == 1:
            return ref_lookup(layers, chunks, False, ctx)
        o = look('.'.join(chunks[:-1]))
        return ref_value(o, chunks[-1:], False, ctx, 'call')

    if form in ('$qq', '${qq}', '$(qq)'):
        return str(look('qq'))
    if form in ('$qq.sub', '${qq.sub}'):
        return str(look('qq.sub'))
    if form == '$fn.sub':
        return str(look('fn.sub'))
    if form == '$fn().sub':
        return str(ref_value(look_noauto_last('fn')(), ['sub'], auto, ctx, 'x')
                   if st.get('useDottedNotation', True) else getattr(look_noauto_last('fn')(), 'sub'))
    if form == '$fn()':
        return str(look_noauto_last('fn')())
    if form == '$ob.meth':
        return str(look('ob.meth'))
    if form == '$ob.meth()':
        return str({'sub': 'methsub'})
    if form == '$ob.meth.sub':
        return str(look('ob.meth.sub'))
    if form == '$ob.meth().sub':
        if st.get('useDottedNotation') is False:
            return getattr({'sub': 1}, 'sub')
        return 'methsub'
    if form == "$qq['sub']":
        return str(look('qq')['sub'])
    if form == "$fn['sub']":
        return str(look('fn')['sub'])
    if form.startswith('#if $qq is None'):
        return 'N' if look('qq') is None else 'S'
    if form.startswith('#set $y = $qq#'):
        return str(look('qq'))
    if form.startswith('#silent'):
        return str(look('qq'))
    if form.startswith('#for $z'):
        return str(look('qq'))
    if form.startswith('#for $qq'):
        return '11'
    if form.startswith('#set $qq = 5'):
        return '5'
    if form == '$cls':
        return str(look('cls'))
    if form == '$cls.sub':
        return str(look('cls.sub'))
    if form == '$len':
        return str(look('len'))
    if form == '$str(3)':
        return '3'
    raise AssertionError(form)
