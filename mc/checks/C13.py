"""Concurrency: all schedules of two threads with a bounded number of preemptions, on the real code under a controlled scheduler."""
import os
import re
import sys

from mc import core, sched, tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 2}
RULE = ('one evaluation = one complete schedule: two real threads run their operations, switched only at the scheduling points chosen by the '
        'enumeration; the result of each thread is compared with the one it gives alone, and the registration of every class with its module is checked; '
        'states are (scenario, preemption points), transitions are executed scheduling points')
BOUNDS = {'quick': {'threads': 2, 'preemptions': '1 at every scheduling point; 2 at every pair of lines of the core modules (small scenarios)',
                    'scheduling points': 'every line of Template, CacheRegion, CacheStore, DummyTransaction, Filters, Servlet and generated code, every call in Parser, Compiler, SourceReader and settings, every lock operation'},
          'thorough': {'threads': 2, 'preemptions': '1 at every line of every Cheetah module; 2 at every pair of core lines', 'scheduling points': 'as quick, but lines of every module'}}
ASSUMPTIONS = ['a switch inside a single source line (between its bytecodes) and inside C code is not explored']

CORE = ('Template.py', 'CacheRegion.py', 'CacheStore.py', 'DummyTransaction.py', 'Servlet.py', 'Filters.py', 'ErrorCatchers.py', 'NameMapper.py')
_root = os.path.join(os.path.realpath(core.REPO), 'Cheetah') + os.sep
_files = {}


def classify(frame):
    f = frame.f_code.co_filename
    k = _files.get(f)
    if k is None:
        r = os.path.realpath(f) if os.path.isabs(f) else f
        if r.startswith(_root) and os.sep + 'Tests' + os.sep not in r:
            k = 'core' if os.path.basename(r) in CORE else 'other'
        elif not os.path.isabs(f) and '__CHEETAH_version__' in frame.f_globals:
            return 'core'           # generated code
        else:
            k = 'none'
        _files[f] = k
    return k


def scope_quick(frame):
    return {'core': 'line', 'other': 'call', 'none': None}[classify(frame)]


def scope_core(frame):
    return {'core': 'line', 'other': None, 'none': None}[classify(frame)]


def scope_tmpl(frame):
    return 'line' if classify(frame) == 'core' and os.path.basename(frame.f_code.co_filename) == 'Template.py' else None


def scope_full(frame):
    return {'core': 'line', 'other': 'line', 'none': None}[classify(frame)]


def init(mode, tier):
    sched.install()
    import Cheetah.Template
    import Cheetah.ImportHooks
    assert isinstance(Cheetah.Template.Template._CHEETAH_compileLock, sched.CoopLock) if hasattr(Cheetah.Template.Template, '_CHEETAH_compileLock') else True


SRC = "A$x#if $y#t#end if##def m(a=1)#m$a#end def#$m(2)"
RICH = ("#filter WebSafe#$x#end filter##call $up#c$x#end call##capture q#$x#end capture#$q#set global gg = $x#$gg#cache id='k'#[$x]#end cache#$*x"
        "#include source=$inc##try##raise ValueError()##except ValueError#e#end try#$m#def m#M$gg#end def##block bb#$x#end block#$!nope")
EXT = '#attr $t = 1\n#implements respond\n#def m#$x#end def#E$m$t'


def ns(tag):
    return {'x': '<%s>' % tag, 'y': tag == 'a', 'z': [1, 2], 'up': lambda s: s.upper(), 'inc': 'I$x' if tag == 'a' else 'J$x$x'}


def inst(cls, tag, **kw):
    return cls(searchList=[ns(tag)], **kw)


def C(src, **kw):
    return tutil.T().compile(src, **kw)


def obs(cls, tag):
    """A compiled class as its user sees it."""
    mod = sys.modules.get(cls.__module__)
    return ('class', cls.__name__, str(inst(cls, tag)), getattr(mod, cls.__name__, None) is cls, re.sub(r'^cheetah_|_\d+_\d+_\d+$', '', cls.__module__))


def settings(tok):
    return {'cheetahVarStartToken': tok}


_pre = {}


def pre(key, src, **kw):
    """A class compiled before the threads start."""
    if key not in _pre:
        _pre[key] = C(src, cacheCompilationResults=False, **kw)
    return _pre[key]


def err(f):
    try:
        return ('ok', f())
    except Exception as e:
        return ('exc', tutil.exc_name(e))


# name -> function of the thread tag ('a', 'b') giving the thread body; small ones also get two preemptions
SCEN = {
    'same source': (lambda t: lambda: obs(C(SRC), t), 1),
    'same source uncached': (lambda t: lambda: obs(C('$x#if $y#t#end if#', cacheCompilationResults=False, useCache=False), t), 1),
    'two sources': (lambda t: lambda: obs(C(SRC + ' ' + t), t), 1),
    'two sources one module name': (lambda t: lambda: obs(C('${x}' + t, moduleName='c13m', className='K' + t), t), 1),
    'same names': (lambda t: lambda: obs(C('${x}' + t, moduleName='c13m', className='K'), t), 1),
    'two settings': (lambda t: lambda: obs(C('$x@x', compilerSettings=settings('$' if t == 'a' else '@')), t), 0),
    'globals': (lambda t: lambda: obs(C('$g', moduleGlobals={'g': t}), t), 0),
    'base classes': (lambda t: lambda: obs(C('#def q#$x#end def#$q', baseclass=pre('base' + t, '%s' % t)), t), 0),
    'error and success': (lambda t: (lambda: err(lambda: C('#if 1'))) if t == 'a' else (lambda: obs(C(SRC), t)), 1),
    'exec error and success': (lambda t: (lambda: err(lambda: C('#import c13_no_such_module\n$x'))) if t == 'a' else (lambda: obs(C('$x'), t)), 1),
    'syntax error and success': (lambda t: (lambda: err(lambda: C('#silent 1 +\n$x'))) if t == 'a' else (lambda: obs(C('$x'), t)), 1),
    'compile and render': (lambda t: (lambda: obs(C("#filter WebSafe#$x#end filter##cache id='k'#[$x]#end cache#"), t)) if t == 'a' else (lambda: str(inst(pre('r', RICH), t))), 0),
    'render one class': (lambda t: lambda: str(inst(pre('r', RICH), t)), 0),
    'render twice': (lambda t: (lambda i: lambda: (i.respond(), i.respond()))(inst(pre('r', RICH), t)), 0),
    'render small': (lambda t: lambda: str(inst(pre('s', '#filter WebSafe#$x#end filter#$x$*x'), t)), 1),
    'render call': (lambda t: lambda: str(inst(pre('c', '#call $up#c$x#end call##capture q#$x#end capture#$q'), t)), 1),
    'render set': (lambda t: lambda: str(inst(pre('g', '#set global gg = $x#$m#def m#M$gg#end def##set $l = $x#$l'), t)), 1),
    'render include': (lambda t: lambda: str(inst(pre('i', '#include source=$inc##include source="Z$x"#'), t)), 0),
    'render filters': (lambda t: lambda: str(inst(pre('f', '$x#filter MaxLen#${x, maxlen=2}#end filter##filter None#$x#end filter#'), t, filter='WebSafe' if t == 'a' else 'Strip')), 1),
    'render loops': (lambda t: lambda: str(inst(pre('l', '#for $i in $z##if $i == 1##continue##end if#$i$x#end for##repeat 2#r#end repeat#'), t)), 1),
    'subclass render': (lambda t: lambda: str(inst(pre('x' + t, EXT + ' ' + t, baseclass=pre('xb', 'P$m#def m#p#end def#')), t)), 0),
    'render error': (lambda t: (lambda: err(lambda: str(inst(pre('e', '#call $up#$x$boom()#end call#'), t)))) if t == 'a' else (lambda: str(inst(pre('c', '#call $up#c$x#end call##capture q#$x#end capture#$q'), t))), 1),
    'template from source': (lambda t: lambda: str(tutil.T()(source='$x-' + t, searchList=[ns(t)])), 0),
    'cached class rendered': (lambda t: lambda: (obs(C('$*x$x'), t), obs(C('$*x$x'), t)), 0),
    'error catcher': (lambda t: lambda: str(inst(pre('ec', '#errorCatcher Echo\n$nope.$t$x'), t)), 0),
    'store': (lambda t: lambda: str(inst(pre('st', "#cache id='k', varyBy=$x#[$x]#end cache#"), t)), 1),
    'web input': (lambda t: (lambda i: lambda: sorted(i.webInput(['x', 'y:int']).items()))(inst(pre('s', '$x'), t)), 0),
}
CHUNKS = {'quick': 24, 'thorough': 96}
ASYM = ('error and success', 'exec error and success', 'syntax error and success', 'compile and render', 'render error')
QUICK2 = {'same names': scope_tmpl, 'render call': scope_core, 'store': scope_core}


def enum(tier, mode):
    def firsts(name):
        return (0, 1) if name in ASYM or tier != 'quick' else (0,)
    names = [n for n in SCEN if mode == 'c' or 'render' in n]
    for name in names:
        yield ['seq', name, 0, 0, 1, tier]
    for name in names:
        for first in firsts(name):
            for c in range(CHUNKS[tier]):
                yield ['one', name, first, c, CHUNKS[tier], tier]
    for name in names:
        if name in QUICK2 and (mode == 'c' or tier != 'quick') or SCEN[name][1] and tier != 'quick':
            n = 80 if tier == 'quick' else 200
            for first in firsts(name):
                for c in range(n):
                    yield ['two', name, first, c, n, tier]
    yield ['nested', '', 0, 0, 1, tier]


def reset():
    c = getattr(tutil.T(), '_CHEETAH_compileCache', None)
    if hasattr(c, 'clear'):
        c.clear()
    keep = {k.__module__ for k in _pre.values()}
    for n, m in list(sys.modules.items()):
        if n not in keep and hasattr(m, '__CHEETAH_version__') and not n.startswith('Cheetah.'):
            del sys.modules[n]


_alone = {}


def execute(name, first, preempt, scope):
    reset()
    funcs = [SCEN[name][0](t) for t in 'ab']
    run = sched.Run(funcs, first, preempt, scope)
    run.go()
    return run


def alone(name):
    if name not in _alone:
        for _ in range(2):          # the second time regular expressions and imports are warm
            res = []
            for t in 'ab':
                reset()
                res.append(SCEN[name][0](t)())
        _alone[name] = res
    return _alone[name]


def verdict(ctx, run, name, first, preempt):
    ctx.evals += 1
    ctx.trans(run.steps)
    ctx.state(name, first, preempt)
    ctx.outcome('switches %d' % run.switches)
    want = alone(name)
    if run.error:
        ctx.fail('deadlock', '%s, thread %s first, preempted at %s: %s' % (name, 'ab'[first], preempt, run.error))
        return False
    for i in (0, 1):
        if run.results[i] != want[i]:
            ctx.fail('interference', '%s, thread %s first, preempted at points %s: thread %s gives %r, alone %r' % (name, 'ab'[first], preempt, 'ab'[i], run.results[i], want[i]))
            return False
    return True


def check(case, ctx):
    kind, name, first, c, n, tier = case
    ctx.trace()
    if kind == 'nested':
        return nested(ctx)
    alone(name)
    if kind == 'two':
        scope = QUICK2.get(name, scope_core if 'render' in name else scope_tmpl)
    else:
        scope = scope_quick if tier == 'quick' else scope_full
    base = execute(name, first, (), scope)
    if not verdict(ctx, base, name, first, ()) or kind == 'seq':
        return
    end = base.finish_step[first]       # later there is no other thread to preempt for
    if kind == 'one':
        for k in range(1 + c, end + 1, n):
            run = execute(name, first, (k,), scope)
            if not verdict(ctx, run, name, first, (k,)):
                return
            if run.switches > 1:
                ctx.interesting(name, first, k)
        return
    # two preemptions: at k1, and again at k2 while the other thread is running
    for k1 in range(1 + c, end + 1, n):
        k2 = k1 + 1
        while True:
            run = execute(name, first, (k1, k2), scope)
            if not verdict(ctx, run, name, first, (k1, k2)):
                return
            k2 += 1
            if k2 > min(x or run.steps for x in run.finish_step):
                break


def nested(ctx):
    """A compilation may itself lead to another one."""
    import types
    T = tutil.T()
    reset()
    hlp = types.ModuleType('c13_helper')

    def go():
        return str(T.compile('in $x', cacheCompilationResults=False)(searchList=[{'x': 1}]))
    hlp.go = go
    sys.modules['c13_helper'] = hlp
    try:
        for names in ({}, {'moduleName': 'c13m'}):
            def main():
                k = T.compile('#import c13_helper\n#set module v = c13_helper.go()\nout $v', cacheCompilationResults=False, **names)
                return (str(k()), getattr(sys.modules[k.__module__], k.__name__) is k)
            run = sched.Run([main], 0, (), scope_core)
            run.go()
            ctx.evals += 1
            ctx.trans(run.steps)
            if run.error or run.results[0] != ('out in 1', True):
                ctx.fail('nested compile', 'a template whose module code compiles another template: %s %r' % (run.error, run.results))
    finally:
        del sys.modules['c13_helper']
