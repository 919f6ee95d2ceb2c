"""Delivery routes, output-neutral compiler options and other delimiters: every generated template must give the same text through all of them."""
import importlib.util
import itertools
import os
import shutil
import sys
import tempfile

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 5, 'pure': 3}
RULE = ('one case = one generated template (a nest or a sequence of constructs); it is compiled once with the defaults and then with every option value, pair of options or set of delimiters of the '
        'case, and rendered through every delivery route; states are the distinct (template, output) pairs, transitions are renderings')
BOUNDS = {'quick': {'templates': 'all nests and sequences of 2 out of 38 constructs', 'options': 'all 25 single option values, all pairs of values on single constructs', 'routes': 12, 'delimiters': '9 sets'},
          'thorough': {'templates': 'all nests of 3', 'options': 'pairs on nests of 2', 'routes': 12, 'delimiters': '9 sets, with options'}}
ASSUMPTIONS = ['an option counts as output-neutral when its description is about code generation, speed or bookkeeping; useNameMapper, useAutocalling, useSearchList, alwaysFilterNone and includeBlockMarkers are not',
               'text before a #return is written at once when a transaction is active (streaming), and discarded otherwise', 'module code of a template with non-ASCII text needs its #encoding directive', '#transform is not part of the templates: it replaces the transaction']

# « » directive tokens, $ placeholder token, ¤ comment, ¦ ¬ multi-line comment, ‹ › PSP tokens; B the body, N a number
C = {
    'if': ('«if $v»B«else»e«end if»', ''), 'unless': ('«unless $n»B«end unless»', ''), 'for': ('«for $i in $lst»B$i«end for»', ''), 'while': ('«set $wN = 2»«while $wN»B«set $wN -= 1»«end while»', ''),
    'repeat': ('«repeat 2»B«end repeat»', ''), 'try': ('«try»B$nope«except $NotFound»x«end try»', ''), 'finally': ('«try»B«finally»f«end try»', ''),
    'call': ('«call $up»B«end call»', ''), 'arg': ('«call $kwf»«arg a»B«arg b»$v«end call»', ''), 'capture': ('«capture cN»B«end capture»[$cN]', ''), 'cache': ('«cache»B«end cache»', ''),
    'vary': ('«cache vary=$v, timer=9»B«end cache»', ''), 'filter': ('«filter WebSafe»B$lt«end filter»$lt', ''), 'nofilter': ('«filter None»B$lt«end filter»', ''),
    'def': ('($mN)', '«def mN»B«end def»'), 'defarg': ('($mN(1, b=$v))', '«def mN($a, $b=2, *c, **d)»$a$b$len($c)$len($d)B«end def»'),
    'block': ('«block bN»B«end block»', ''), 'cdef': ('$*mN', '«def mN»B«end def»'), 'incl': ('«include source=$srcs[N]»', None), 'closure': ('«closure kN(a)»t${a}«end closure»$kN(3)B', ''),
    'raw': ('«raw»$v B«end raw»B', ''), 'set': ('«set $sN = $v + 1»B$sN', ''), 'setg': ('«set global $gN = [$v]»B$gN', ''), 'attr': ('B$aN', '«attr aN = [1, 2]»'), 'import': ('$os.sep B', '«import os»\n'),
    'from': ('$nj("a", "b")B', '«from posixpath import join as nj»\n'), 'silent': ('«silent $up("a")»B', ''), 'echo': ('«echo $v»B', ''), 'comment': ('t¤ c B\nB', ''), 'mcomment': ('a¦ x $v ¬bB', ''),
    'psp': ('‹= 1 + 1 ›B‹ x = 3 ›$x', ''), 'tern': ('«if $v then $lst else 0»B', ''), 'auto': ('$f$f()$o.m$o.x${o.d.k}B', ''), 'args': ('$up("q").strip()B${v}${fx($v, a=$lst)}', ''),
    'lines': ('\n«if 1»\n  B\n  «silent 1»\n«end if»\n', ''), 'short': ('\n«if $v: B\n«for $q in $lst: $q\nB', ''), 'esc': ('\\$v \\« \\\\ \'"\'\'\' """B', ''), 'slurp': ('a«slurp\nB', ''),
    'errc': ('B', '«errorCatcher ErrorCatcher»'), 'brk': ('«for $q in $lst»B«if $q == 2»«break»«else»«continue»«end if»z«end for»', ''), 'ret': ('$mN', '«def mN»B«return $v»«end def»'),
    'stop': ('$mN', '«def mN»B«stop»never«end def»'), 'unicode': ('\u00e9\u2028\x0c$e B', ''), 'super': ('$mN', '«def mN»B$up("u")«end def»'),
}
C['del'] = ('«set $tN = 1»«del $tN»«pass»«assert 1»B', '')

OPTS = [('useStackFrames', False), ('useErrorCatcher', True), ('includeRawExprInFilterArgs', False), ('useLegacyImportMode', False), ('prioritizeSearchListOverSelf', True),
        ('useKWsDictArgForPassingTrans', False), ('commentOffset', 0), ('outputRowColComments', False), ('defDocStrMsg', 'x'), ('defDocStrMsg', 'a "quoted" \\ one'),
        ('setup__str__method', True), ('mainMethodName', 'render_it'), ('mainMethodNameForSubclasses', 'other'), ('indentationStep', '  '),
        ('outputMethodsBeforeAttributes', False), ('addTimestampsToCompilerOutput', False), ('autoImportForExtendsDirective', False), ('useFilters', False), ('allowEmptySingleLineMethods', True),
        ('allowNestedDefScopes', False), ('gettextTokens', []), ('allowSearchListAsMethArg', False)]
ROUTES = ['str', 'respond', 'trans', 'awake', 'dummy', 'instance', 'file', 'fileobj', 'module', 'subclass', 'nocache', 'pickled module']
# var, directive start, end, comment, ml start, ml end, PSP start, end
DELIMS = [('@', '%', '%', '##', '#*', '*#', '<%', '%>'), ('$', '#', '#', '//', '/*', '*/', '<%', '%>'), ('$$', '#', '#', '##', '#*', '*#', '<%', '%>'), ('$', '~~', '~~', '##', '#*', '*#', '<%', '%>'),
          ('$', '<<', '>>', '##', '#*', '*#', '<?', '?>'), ('@', '#', '/#', '#-', '#*', '*#', '{%', '%}'), ('*@', '%%', '%%', ';;', ';*', '*;', '<%', '%>'), ('\u20ac', '\u00a7', '\u00a7', '##', '#*', '*#', '<%', '%>'),
          ('${', '#', '#', '##', '#*', '*#', '<%', '%>')][:8]
DEFAULT = ('$', '#', '#', '##', '#*', '*#', '<%', '%>')


class O:
    x = 'X'
    d = {'k': 'K'}

    def m(self):
        return 'M'


def space():
    from Cheetah.NameMapper import NotFound
    return {'v': 7, 'n': None, 'lst': [1, 2, 3], 'up': lambda s: s.upper(), 'kwf': lambda **kw: repr(sorted(kw.items())), 'lt': '<', 'f': lambda: 'F', 'o': O(), 'fx': lambda x, a=(): '%s%s' % (x, len(a)),
            'e': 'E', 'NotFound': NotFound}


def spell(s, d):
    out = []
    m = {'$': d[0], '\u00ab': d[1], '\u00bb': d[2], '\u00a4': d[3], '\u00a6': d[4], '\u00ac': d[5], '\u2039': d[6], '\u203a': d[7]}
    for ch in s:
        out.append(m.get(ch, ch))
    return ''.join(out)


def build(kind, names, d=DEFAULT):
    srcs, head = {}, []

    def one(n, name, body):
        text, hoist = C[name]
        N = str(n)
        if hoist is None:
            srcs[n] = spell(body, DEFAULT)     # included templates are compiled with the defaults
            return text.replace('N', N)
        f = lambda s: s.replace('None', '\0').replace('NotF', '\1').replace('N', N).replace('\0', 'None').replace('\1', 'NotF').replace('B', body)   # noqa: E731
        if hoist:
            head.append(f(hoist))
        return f(text)

    body = 't' if kind == 'nest' else ''
    if kind == 'nest':
        for n, name in reversed(list(enumerate(names, 1))):
            body = one(n, name, body + '-$v')
    else:
        body = '|'.join(one(n, name, 'b') for n, name in enumerate(names, 1))
    return spell(''.join(head) + body + '.', d), srcs


def enum(tier, mode):
    yield ['probe']
    for a in C:
        yield ['pairs', 'nest', [a]]
    for k in ('nest', 'seq') if mode == 'c' else ('nest',):
        for a, b in itertools.product(C, repeat=2):
            yield ['opts', k, [a, b]]
    if tier == 'thorough':
        for n in itertools.product(C, repeat=3):
            yield ['opts3', 'nest', list(n)]
        for n in itertools.product(C, repeat=2):
            yield ['pairs', 'nest', list(n)]


def settings(d):
    s = {}
    for k, v, w in zip(('cheetahVarStartToken', 'directiveStartToken', 'directiveEndToken', 'commentStartToken', 'multiLineCommentStartToken', 'multiLineCommentEndToken', 'PSPStartToken', 'PSPEndToken'), d, DEFAULT):
        if v != w:
            s[k] = v
    return s


class Trans:
    def __init__(self):
        self.parts = []

    def response(self, resp=None):
        return self

    def write(self, s):
        self.parts.append(s)

    def getvalue(self):
        return ''.join(self.parts)


def streamed(names, route):
    """With a transaction of the application active, a method writes its text at once, so the text before a #return is not discarded."""
    return route == 'awake' and 'ret' in names


def via(src, srcs, route, opts, scratch):
    """(kind, text) of the template through a route."""
    from Cheetah.Template import Template
    ns = dict(space(), srcs=srcs)
    kw = {'compilerSettings': dict(opts)} if opts else {}
    main = opts.get('mainMethodName', 'respond') if opts else 'respond'
    drop = []
    try:
        if route in ('str', 'respond', 'trans', 'awake', 'dummy', 'nocache'):
            if route == 'nocache':
                kw['cacheCompilationResults'] = False
            k = tutil.compile_(src, **kw)
            drop.append(k)
            t = k(searchList=[ns])
            if route in ('str', 'nocache'):
                return ('ok', str(t))
            if route == 'respond':
                return ('ok', getattr(t, main)())
            if route == 'dummy':
                from Cheetah.DummyTransaction import DummyTransaction
                tr = DummyTransaction()
                r = getattr(t, main)(tr)
                return ('ok', r + tr.response().getvalue())
            tr = Trans()
            if route == 'trans':
                r = getattr(t, main)(trans=tr)
            else:
                t.transaction = tr
                r = getattr(t, main)()
            return ('ok', r + ''.join(tr.parts))
        if route == 'instance':
            t = Template(src, searchList=[ns], **kw)
            return ('ok', str(t))
        if route in ('file', 'fileobj'):
            p = os.path.join(scratch, 'tt.tmpl')
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write('#encoding utf-8\n' + src if not opts.get('directiveStartToken') else src)
            if route == 'file':
                t = Template(file=p, searchList=[ns], **kw)
                return ('ok', str(t))
            with open(p, encoding='utf-8', newline='') as f:
                t = Template(file=f, searchList=[ns], **kw)
            return ('ok', str(t))
        if route == 'subclass':
            base = Template.subclass(searchList=[{'never': 1}]) if False else type('Sub', (Template,), {})
            k = base.compile(src, **kw)
            drop.append(k)
            return ('ok', str(k(namespaces=[ns])))
        if route in ('module', 'pickled module'):
            code = Template.compile('#encoding utf-8\n' + src, returnAClass=False, moduleName='c20mod', className='c20mod', **kw)
            p = os.path.join(scratch, 'c20mod.py')
            with open(p, 'wb') as f:
                f.write(code if isinstance(code, bytes) else code.encode('utf-8'))
            if route == 'pickled module':
                import py_compile
                pyc = py_compile.compile(p, cfile=os.path.join(scratch, 'c20mod.pyc'), doraise=True)
                spec = importlib.util.spec_from_file_location('c20mod', pyc)
            else:
                spec = importlib.util.spec_from_file_location('c20mod', p)
            m = importlib.util.module_from_spec(spec)
            sys.modules['c20mod'] = m
            try:
                spec.loader.exec_module(m)
                return ('ok', str(m.c20mod(searchList=[ns])))
            finally:
                sys.modules.pop('c20mod', None)
    except Exception as e:
        return ('exc', type(e).__name__ + ': ' + str(e).strip()[:160])
    finally:
        for k in drop:
            tutil._cleanup(k)


SKIP = {('useFilters', False): {'filter', 'nofilter'},      # without filters #filter has no effect
        }


def allowed(opts, names):
    return not any(set(names) & SKIP.get(tuple(o) if not isinstance(o[1], list) else None, set()) for o in opts)


def check(case, ctx):
    ctx.evals += 1
    if case[0] == 'probe':
        for name in C:
            src, srcs = build('nest', [name])
            r = via(src, srcs, 'str', {}, None)
            ctx.trans()
            ctx.state([name, r])
            if r[0] != 'ok':
                ctx.fail('construct', '%r: %r' % (src, r))
        return
    kind, shape, names = case
    src, srcs = build(shape, names)
    want = via(src, srcs, 'str', {}, None)
    ctx.state([src, want])
    ctx.outcome(want[0])
    if want[0] != 'ok':
        return                          # not a valid nest: a one-line form around several lines
    if kind == 'pairs':
        for a, b in itertools.combinations(OPTS, 2):
            if a[0] == b[0] or not allowed((a, b), names):
                continue
            ctx.trans()
            got = via(src, srcs, 'str', dict((a, b)), None)
            if got != want:
                ctx.fail('options', '%r with %r gives %r, by default %r' % (src, dict((a, b)), got, want))
        return
    for o in OPTS if kind == 'opts' else ():
        if allowed((o,), names):
            ctx.trans()
            got = via(src, srcs, 'str', dict((o,)), None)
            if got != want:
                ctx.fail('option ' + o[0], '%r with %s=%r gives %r, by default %r' % (src, o[0], o[1], got, want))
    scratch = tempfile.mkdtemp(prefix='c20-')
    try:
        for r in ROUTES:
            if r == 'str' or streamed(names, r) or (kind == 'opts3' and r in ('nocache', 'fileobj', 'pickled module', 'subclass')):
                continue
            ctx.trans()
            got = via(src, srcs, r, {}, scratch)
            if got != want:
                ctx.fail('route ' + r, '%r via %s gives %r, via str() %r' % (src, r, got, want))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if kind == 'opts' and not {'raw', 'esc'} & set(names) and not {'try', 'errc'} <= set(names):     # these output the delimiters themselves
        for d in DELIMS:
            s2, srcs2 = build(shape, names, d)
            ctx.trans()
            got = via(s2, srcs2, 'str', settings(d), None)
            if got != want:
                ctx.fail('delimiters', '%r with %r gives %r, expected %r' % (s2, settings(d), got, want))
