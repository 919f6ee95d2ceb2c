"""Inheritance: all small hierarchies of templates, rendered and compared with equivalent Python classes."""
import itertools
import sys
import types

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one parent chain with every leaf template of the alphabet below it, each compiled and rendered by the real engine and compared '
        'with Python classes of the same shape (Python\'s own method resolution is the model); states are (class, method) activations, transitions are calls')
BOUNDS = {'quick': {'levels': 3, 'features per level': 'two methods, a block, an attribute, the main method: absent, overriding, overriding with super', 'linkage': 'extends, import + extends, baseclass, subclass, dotted'},
          'thorough': {'levels': '3, all features; 4 with methods and main method only', 'features per level': 'as quick, full product', 'linkage': 'all five in every combination'}}

# a level: (m, n, b, attr, main)
#   m: 0 absent, 1 own, 2 own + super, 3 calls n, 4 with an argument, super(arg)
#   n: 0 absent, 1 own, 2 own + super
#   b: 0 absent, 1 block, 2 block + super, 3 def
#   attr: 0/1;  main: 0 body (writeBody), 1 implements respond, 2 implements respond + super, 3 no body, 4 implements m
ROOTS = [(1, 1, 1, 1, 0), (3, 1, 1, 1, 5), (1, 1, 3, 1, 5)]


def levels(tier):
    ms, ns, bs, at, mains = (0, 1, 2, 3), (0, 2), (0, 1, 2), (0, 1), (0, 1, 2)
    if tier != 'quick':
        ns, bs, mains = (0, 1, 2), (0, 1, 2, 3), (0, 1, 2, 3)
    for x in itertools.product(ms, ns, bs, at, mains):
        yield x
    for x in itertools.product((0,), (0, 2), (0, 1), (0,), (4,)):
        yield x


LINKS = ['extends', 'import', 'baseclass', 'subclass', 'dotted']


def text(tag, lv, root):
    m, n, b, at, main = lv
    s = ''
    if main in (1, 2):
        s += '#implements respond\n'
    elif main == 4:
        s += '#implements m\n'
    if at:
        s += "#attr $t = '%st'\n" % tag
    body = ''
    if root:
        body += '%s<$m|$n|' % tag
    elif main == 3:
        pass
    else:
        body += '%s{' % tag
        if main == 1:
            body += '$m,$n'
        elif main == 2:
            body += '#super#'
        else:
            body += '$n'
    if b == 1:
        body += '#block b#%sb#end block#' % tag
    elif b == 2:
        body += '#block b#%sb(#super#)#end block#' % tag
    elif b == 3 or root:
        body += '$b'
    if root:
        body += '|$t' + ('|$writeBody' if main == 5 else '') + '>'
    elif main != 3:
        body += '}'
    defs = ''
    if m == 1:
        defs += '#def m#%sm#end def#' % tag
    elif m == 2:
        defs += '#def m#%sm(#super#)#end def#' % tag
    elif m == 3:
        defs += '#def m#%sm[$n]#end def#' % tag
    if n == 1:
        defs += '#def n#%sn$t#end def#' % tag
    elif n == 2:
        defs += '#def n#%sn(#super#)#end def#' % tag
    if b == 3:
        defs += '#def b#%sd#end def#' % tag
    return s + defs + body


def pyclass(tag, lv, bases, root, ctx, link='extends'):
    """The same class written in Python; methods return what the template's would produce."""
    m, n, b, at, main = lv
    d = {}
    ref = {}

    def add(name, fn):
        def wrapped(self):
            ctx.trans()
            ctx.state(tag, lv, name)
            return fn(self)
        d[name] = wrapped

    def sup(self, name):
        return getattr(super(ref['c'], self), name)()
    if m == 1:
        add('m', lambda self: tag + 'm')
    elif m == 2:
        add('m', lambda self: '%sm(%s)' % (tag, sup(self, 'm')))
    elif m == 3:
        add('m', lambda self: '%sm[%s]' % (tag, self.n()))
    if n == 1:
        add('n', lambda self: tag + 'n' + self.t)
    elif n == 2:
        add('n', lambda self: '%sn(%s)' % (tag, sup(self, 'n')))
    if b == 1:
        add('b', lambda self: tag + 'b')
    elif b == 2:
        add('b', lambda self: '%sb(%s)' % (tag, sup(self, 'b')))
    elif b == 3:
        add('b', lambda self: tag + 'd')
    if at:
        d['t'] = tag + 't'

    def body(self):
        if root:
            return '%s<%s|%s|%s|%s%s>' % (tag, self.m(), self.n(), self.b(), self.t, '|' + self.writeBody() if main == 5 else '')
        inner = '' if main == 3 else {1: lambda: self.m() + ',' + self.n(), 2: lambda: sup(self, 'respond')}.get(main, lambda: self.n())()
        inner += self.b() if b else ''
        return inner if main == 3 else '%s{%s}' % (tag, inner)
    # a base class given to compile() does not change the main method, #extends does
    add('respond' if root or main in (1, 2) or main != 4 and link in ('baseclass', 'subclass') else 'm' if main == 4 else 'writeBody', body)
    ref['c'] = type('Py' + tag, bases, d)
    return ref['c']


class PyBase(object):
    t = 'Pt'

    def m(self):
        return 'Pm'

    def n(self):
        return 'Pn'

    def b(self):
        return 'Pb'

    def writeBody(self):
        return 'Pw'


def enum(tier, mode):
    lv = list(levels('quick'))
    full = list(levels(tier))
    for r in range(len(ROOTS)):
        for a in (full if r == 0 or tier != 'quick' else lv):
            yield ['tree', r, list(a), 'extends', tier]
    for l1 in LINKS:
        for l2 in LINKS:
            for a in ((2, 2, 2, 1, 0), (0, 0, 0, 0, 1), (3, 2, 1, 0, 2), (1, 0, 0, 1, 3)):
                yield ['links', 1, list(a), [l1, l2], tier]
    for base in ('pyobject', 'pytemplate'):
        for a in levels('quick'):
            yield ['python', base, list(a), 'x', tier]
    for a in itertools.product((0, 1, 2, 3), (0, 2), (0, 1)):
        for b in itertools.product((0, 1, 2, 3), (0, 2), (0, 1)):
            yield ['mixin', 0, [list(a), list(b)], 'x', tier]
    if tier != 'quick':
        small = [(m, n, 0, 0, main) for m in (0, 1, 2, 3) for n in (0, 2) for main in (0, 1, 2)]
        for a in small:
            for b in small:
                yield ['deep', 1, [list(a), list(b)], 'extends', tier]
    for k in range(len(SPECIAL)):
        yield ['special', k, 0, 0, 0]


_n = [0]


def build(tag, source, parent, link, made):
    """A template class below parent (a class whose module is importable)."""
    _n[0] += 1
    name = 'C11_%s%d' % (tag, _n[0])
    kw = {}
    pname = getattr(parent, '__c11__', None)
    cls = tutil.T()
    if parent is None:
        pass
    elif link == 'extends':
        source = '#extends %s\n%s' % (pname, source)
    elif link == 'dotted':
        pkg = types.ModuleType('c11pkg_' + name)
        pkg.__path__ = []
        sub = types.ModuleType('c11pkg_%s.%s' % (name, pname))
        setattr(sub, pname, parent)
        setattr(pkg, pname, sub)
        sys.modules[pkg.__name__] = pkg
        sys.modules[sub.__name__] = sub
        made += [pkg.__name__, sub.__name__]
        source = '#extends c11pkg_%s.%s\n%s' % (name, pname, source)
    elif link == 'import':
        source = '#from %s import %s\n#extends %s\n%s' % (pname, pname, pname, source)
    elif link == 'baseclass':
        kw['baseclass'] = parent
    elif link == 'subclass':
        cls = parent
    if link == 'subclass' and parent is not None:
        k = parent.subclass(source, moduleName=name, className=name, cacheCompilationResults=False)
    else:
        k = cls.compile(source, moduleName=name, className=name, cacheCompilationResults=False, **kw)
    return register(k, name, made)


def register(k, name, made):
    if k.__module__ != name:
        m = types.ModuleType(name)
        setattr(m, name, k)
        sys.modules[name] = m
    made += [name, k.__module__]
    k.__c11__ = name
    return k


def drop(made):
    for m in made:
        sys.modules.pop(m, None)


def compare(ctx, key, srcs, cls, pcls):
    ctx.evals += 1
    try:
        want = ('ok', pcls().respond())
    except (AttributeError, RecursionError) as e:
        return
    got = tutil.outcome(lambda: str(cls()))
    got = (got[0], got[1].replace('\n', '') if got[0] == 'ok' else got[1])
    ctx.outcome(got[0])
    if got != want:
        ctx.fail(key, 'templates %r: engine %r, equivalent classes %r' % (srcs, got, want))
        return
    # the methods called directly on the instance, too
    for meth in ('m', 'n', 'b', 'writeBody'):
        if hasattr(pcls, meth):
            try:
                want = getattr(pcls(), meth)()
            except (AttributeError, RecursionError):
                continue
            got = tutil.outcome(lambda: getattr(cls(), meth)())
            got = (got[0], got[1].replace('\n', '') if got[0] == 'ok' else got[1])
            if got != ('ok', want):
                ctx.fail(key, 'templates %r: method %s gives %r, equivalent classes %r' % (srcs, meth, got, want))
                return


def valid(chain):
    """No super beyond the top, no m <-> respond recursion."""
    return True


def check(case, ctx):
    kind = case[0]
    ctx.trace()
    made = []
    try:
        globals()['do_' + kind](case, ctx, made)
    finally:
        drop(made)


def do_tree(case, ctx, made):
    _, r, a, link, tier = case
    root = ROOTS[r]
    sr, sa = text('A', root, True), text('B', a, False)
    A = build('A', sr, None, None, made)
    PA = pyclass('A', root, (object,), True, ctx)
    B = build('B', sa, A, link, made)
    PB = pyclass('B', a, (PA,), False, ctx)
    compare(ctx, 'two levels', [sr, sa], B, PB)
    compare(ctx, 'root', [sr], A, PA)
    for lv in levels(tier if r == 0 and tier != 'quick' else 'quick'):
        sc = text('C', lv, False)
        m2 = []
        try:
            C = build('C', sc, B, link, m2)
            compare(ctx, 'three levels', [sr, sa, sc], C, pyclass('C', lv, (PB,), False, ctx))
        finally:
            drop(m2)
    # subclasses leave their parents as they were
    compare(ctx, 'root after subclassing', [sr, sa], B, PB)
    compare(ctx, 'root after subclassing', [sr], A, PA)


def do_links(case, ctx, made):
    _, r, a, links, tier = case
    root = ROOTS[r]
    sr, sa = text('A', root, True), text('B', a, False)
    A = build('A', sr, None, None, made)
    PA = pyclass('A', root, (object,), True, ctx)
    B = build('B', sa, A, links[0], made)
    PB = pyclass('B', a, (PA,), False, ctx, links[0])
    compare(ctx, 'link ' + links[0], [sr, sa, links[0]], B, PB)
    for lv in levels('quick'):
        if lv[3]:
            continue
        sc = text('C', lv, False)
        m2 = []
        try:
            C = build('C', sc, B, links[1], m2)
            compare(ctx, 'links', [sr, sa, sc, links], C, pyclass('C', lv, (PB,), False, ctx, links[1]))
        finally:
            drop(m2)


def do_python(case, ctx, made):
    _, base, a, _, tier = case
    _n[0] += 1
    name = 'C11_P%d' % _n[0]
    if a[4] in (2,):
        return
    P = type(name, (PyBase,) if base == 'pyobject' else (PyBase, tutil.T()), {})
    register(P, name, made)
    for link in ('extends', 'import', 'baseclass'):
        sa = '#implements respond\n' * (a[4] != 1) + text('B', (a[0], a[1], a[2], a[3], a[4]), False)
        if a[4] == 4:
            continue
        m2 = []
        try:
            B = build('B', sa, P, link, m2)
            # main method of this class is respond in every variant
            lv = (a[0], a[1], a[2], a[3], a[4])
            PB = pyclass('B', lv, (PyBase,), False, ctx)
            if lv[4] != 1:
                PB.respond = PB.writeBody
                del PB.writeBody
            compare(ctx, 'python base', [base, sa, link], B, PB)
        finally:
            drop(m2)


def do_mixin(case, ctx, made):
    """#extends with two bases: template A and a second template or Python class."""
    _, r, (a, b), _, tier = case
    sr = text('A', ROOTS[1], True)
    A = build('A', sr, None, None, made)
    PA = pyclass('A', ROOTS[1], (object,), True, ctx)
    # two diamonds arms, then a leaf with both
    lb, lc = (a[0], a[1], a[2], 0, 0), (b[0], b[1], b[2], 1, 0)
    sb, sc = text('B', lb, False), text('C', lc, False)
    B = build('B', sb, A, 'extends', made)
    C = build('C', sc, A, 'extends', made)
    PB = pyclass('B', lb, (PA,), False, ctx)
    PC = pyclass('C', lc, (PA,), False, ctx)
    for ld in ((0, 0, 0, 0, 0), (2, 2, 2, 0, 0), (2, 0, 1, 0, 1), (0, 2, 0, 1, 2)):
        for sep in (', ', ','):
            sd = text('D', ld, False)
            m2 = []
            try:
                D = build('D', '#extends %s%s%s\n%s' % (B.__c11__, sep, C.__c11__, sd), None, None, m2)
                compare(ctx, 'diamond', [sr, sb, sc, sd], D, pyclass('D', ld, (PB, PC), False, ctx))
            finally:
                drop(m2)


def do_deep(case, ctx, made):
    _, r, (a, b), link, tier = case
    root = ROOTS[r]
    sr, sa, sb = text('A', root, True), text('B', a, False), text('C', b, False)
    A = build('A', sr, None, None, made)
    PA = pyclass('A', root, (object,), True, ctx)
    B = build('B', sa, A, link, made)
    PB = pyclass('B', a, (PA,), False, ctx)
    C = build('C', sb, B, link, made)
    PC = pyclass('C', b, (PB,), False, ctx)
    for m in (0, 1, 2, 3):
        for n in (0, 2):
            for main in (0, 1, 2):
                lv = (m, n, 0, 0, main)
                sd = text('D', lv, False)
                m2 = []
                try:
                    D = build('D', sd, C, link, m2)
                    compare(ctx, 'four levels', [sr, sa, sb, sd], D, pyclass('D', lv, (PC,), False, ctx))
                finally:
                    drop(m2)


# (list of sources from root to leaf, expected output of the leaf)
SPECIAL = [
    (['#def m(x, y="d")#A$x$y#end def#<$m(1)>', '#def m(x, y="e")#B(#super(x, y)#)#end def#'], '<B(A1e)>'),
    (['#def m(x, y="d")#A$x$y#end def#<$m(1)>', '#def m(x)#B(#super(x=5)#)#end def#'], '<B(A5d)>'),
    (['#def m(x, y="d")#A$x$y#end def#<$m(1, y=2)>', '#def m(x, y=3)#B(#super($x, y=$y)#)#end def#', '#def m(x, y=4)#C(#super($x, $y)#)#end def#'], '<C(B(A12))>'),
    (['#def m(*a)#A$len($a)#end def#<$m(1, 2)>', '#def m(*a)#B(#super(*a)#)#end def#'], '<B(A2)>'),
    (['#def m#A#end def#<$m>', '#def m#B#super##super##end def#'], '<BAA>'),
    (['<#block o#1#block i#2#end block#3#end block#>', '#block i#X#end block#'], '<1X3>'),
    (['<#block o#1#block i#2#end block#3#end block#>', '#block o#X#end block#'], '<X>'),
    (['<#block o#1#block i#2#end block#3#end block#>', '#block o#X(#super#)#end block##block i#Y(#super#)#end block#'], '<X(1Y(2)3)>'),
    (['<#block o#1#block i#2#end block#3#end block#>', '#block o#X(#super#)#end block#', '#block i#Y(#super#)#end block#'], '<X(1Y(2)3)>'),
    (['#attr $t = 1\n<$t>', '#attr $t = 2\n'], '<2>'),
    (['#attr $t = 1\n<$t$u>\n#attr $u = 3', '#attr $u = 4\n'], '<14>'),
    (['<$m>#def m#A#end def#', '#implements m\nB'], '<B>'),
    (['<$m>#def m#A#end def#', '#implements m\nB', '#implements m\nC(#super#)'], '<C(B)>'),
    (['<$m(1)>#def m(x)#A#end def#', '#implements m(x)\nB$x'], '<B1>'),
    (['<#block b#A#end block#>', '#def b#B#end def#'], '<B>'),
    (['<#block b#A#end block#>', '#def b#B(#super#)#end def#'], '<B(A)>'),
    (['<$b>#def b#A#end def#', '#block b#B(#super#)#end block#'], '<B(A)>'),
    (["#set module v = 1\n<$m>#def m#A$v#end def#", "#set module v = 2\n#def m#B$v#super##end def#"], '<B2A1>'),
    (['#import math\n<$m>#def m#A$math.floor(1.5)#end def#', '#def m#B#super##end def#'], '<BA1>'),
    (['#def m#A#end def#<#call $str#$m#end call#>', '#def m#B#capture q##super##end capture#[$q]#end def#'], '<B[A]>'),
    (['#def m#A$x#end def#<$m>', "#def m#B#filter WebSafe##super##end filter##end def#"], '<BA1>'),
    (['#def m#A#end def#<#for $i in [1, 2]#$m#end for#>', "#def m#B#if True##super##end if##end def#"], '<BABA>'),
    (['#@staticmethod\n#def m#A#end def#<$m>', '#def m#B#end def#'], '<B>'),
    (['#@classmethod\n#def m#A#end def#<$m>', '#@classmethod\n#def m#B#end def#'], '<B>'),
]


def do_special(case, ctx, made):
    srcs, want = SPECIAL[case[1]]
    k = None
    for i, s in enumerate(srcs):
        k = build('SXYZ'[i], s, k, 'extends', made)
        ctx.trans()
        ctx.state('special', case[1], i)
    ctx.evals += 1
    got = tutil.outcome(lambda: str(k(searchList=[{'x': 1}])).replace('\n', ''))
    if got != ('ok', want):
        ctx.fail('special %d' % case[1], 'templates %r: %r, expected %r' % (srcs, got, want))
