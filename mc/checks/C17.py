"""Restrictions: every directive in every form and position under every disabling configuration, and every expression position under rejecting hooks."""
import itertools
import re

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one case = one source built from a directive form in a position, compiled under one configuration of disabled and enabled directives (or with one set of expression hooks); '
        'the model is set arithmetic on the directives the source uses; states are (used, disabled, enabled) sets with the verdict, transitions are compilations')
BOUNDS = {'quick': {'forms': 'every directive in every form', 'positions': 14, 'configurations': 'disable or enable each single directive, each pair for top-level forms, mixed case, several containers'},
          'thorough': {'forms': 'every directive in every form', 'positions': 14, 'configurations': 'every pair in every position, nested positions'}}
ASSUMPTIONS = ['macro definitions (#defmacro) are trusted code: their bodies are not passed through the expression hooks, as the source says',
               'a template that may use #compiler or #compiler-settings can change the restrictions, which are settings']

# name of the form -> (source, directives used)
F = {
    'if': ('#if 1\nt\n#end if\n', 'if end'), 'if else': ('#if 1\nt\n#else\nt\n#end if\n', 'if else end'), 'elif': ('#if 1\nt\n#elif 0\nt\n#end if\n', 'if elif end'),
    'if inline': ('#if 1#t#end if#', 'if end'), 'if short': ('#if 1: t\n', 'if'), 'if then': ('#if 1 then 2 else 3#', 'if'), 'else short': ('#if 1: t\n#else: u\n', 'if else'),
    'unless': ('#unless 0\nt\n#end unless\n', 'unless end'), 'unless short': ('#unless 0: t\n', 'unless'), 'for': ('#for $i in [1]\nt\n#end for\n', 'for end'), 'for short': ('#for i in [1]: t\n', 'for'),
    'while': ('#while 0\nt\n#end while\n', 'while end'), 'repeat': ('#repeat 2\nt\n#end repeat\n', 'repeat end'), 'try': ('#try\nt\n#except\nu\n#end try\n', 'try except end'),
    'finally': ('#try\nt\n#finally\nu\n#end try\n', 'try finally end'), 'break': ('#for $i in [1]\nt\n#break\n#end for\n', 'for break end'),
    'continue': ('#for $i in [1]\nt\n#continue\n#end for\n', 'for continue end'), 'pass': ('#pass\n', 'pass'), 'stop': ('#if 0\n#stop\n#end if\n', 'if stop end'),
    'return': ('#def r\n#return 1\n#end def\n', 'def return end'), 'yield': ('#def y\n#yield 1\n#end def\n', 'def yield end'), 'set': ('#set $x = 1\n', 'set'), 'set inline': ('#set x = 1#', 'set'),
    'set global': ('#set global $x = 1\n', 'set'), 'set module': ('#set module $x = 1\n', 'set'), 'del': ('#set x = 1\n#del x\n', 'set del'), 'attr': ('#attr x = 1\n', 'attr'),
    'def': ('#def m\nt\n#end def\n', 'def end'), 'def short': ('#def m: t\n', 'def'), 'def args': ('#def m($a, b=1)\n$a\n#end def\n', 'def end'), 'block': ('#block b\nt\n#end block\n', 'block end'),
    'block short': ('#block b: t\n', 'block'), 'closure': ('#closure c\nt\n#end closure\n', 'closure end'), 'decorator': ('#@staticmethod\n#def s\nt\n#end def\n', '@ def end'),
    'decorators': ('#@d\n#@d\n#block s\nt\n#end block\n', '@ block end'), 'import': ('#import os\n', 'import'), 'from': ('#from os import path\n', 'from'), 'extends': ('#extends Cheetah.Template\n', 'extends'),
    'implements': ('#implements respond\n', 'implements'), 'super': ('#def s\n#super\n#end def\n', 'def super end'), 'include': ('#include source="x"\n', 'include'), 'include raw': ('#include raw "x"\n', 'include'),
    'cache': ('#cache\nt\n#end cache\n', 'cache end'), 'cache short': ('#cache: t\n', 'cache'), 'filter': ('#filter WebSafe\nt\n#end filter\n', 'filter end'), 'filter short': ('#filter WebSafe: t\n', 'filter'),
    'transform': ('#transform WebSafe\n', 'transform'), 'echo': ('#echo 1\n', 'echo'), 'silent': ('#silent 1\n', 'silent'), 'silent inline': ('#silent 1#', 'silent'),
    'slurp': ('t#slurp\n', 'slurp'), 'raw': ('#raw\n$x #if\n#end raw\n', 'raw'), 'raw short': ('#raw: $x #if\n', 'raw'), 'call': ('#call $str\nt\n#end call\n', 'call end'),
    'call short': ('#call $str: t\n', 'call'), 'arg': ('#call $f\n#arg x\nt\n#end call\n', 'call arg end'), 'capture': ('#capture c\nt\n#end capture\n', 'capture end'),
    'capture short': ('#capture c: t\n', 'capture'), 'assert': ('#assert 1\n', 'assert'), 'raise': ('#if 0\n#raise KeyError\n#end if\n', 'if raise end'),
    'errorCatcher': ('#errorCatcher Echo\n', 'errorcatcher'), 'breakpoint': ('#breakpoint\n', 'breakpoint'), 'compiler': ('#compiler useAutocalling=True#\n', 'compiler'),
    'compiler reset': ('#compiler reset#\n', 'compiler'), 'compiler-settings': ('#compiler-settings\nuseAutocalling=True\n#end compiler-settings\n', 'compiler-settings'),
    'compiler-settings reset': ('#compiler-settings reset\n', 'compiler-settings'), 'shBang': ('#shBang #!/x\n', 'shbang'), 'defmacro': ('#defmacro mm\nx\n#end defmacro\n', 'defmacro'),
    'defmacro use': ('#defmacro mm: x\n#mm: y\n', 'defmacro mm'), 'psp': ('<% x = 1 %>', 'psp'), 'psp expr': ('<%= 1 %>', 'psp'), 'macro': ('#up: t\n', 'up'),
    'macro long': ('#up\nt\n#end up\n', 'up'),
    # not directives
    'text': ('t\n', ''), 'placeholder': ('$str("if")', ''), 'comment': ('## #if 1\n', ''), 'multi': ('#* #if 1 *#', ''), 'escaped': ('\\#if 1\n', ''), 'unknown': ('#iffy 1 #endif\n', ''),
    'name': ('$str("#if 1")', ''), 'eolslurp': ('t#\n', ''), 'hash': ('# if #', ''), 'cased': ('#IF 1 #Set x = 1\n', ''),
}
NAMES = sorted({d for _, u in F.values() for d in u.split()} - {'mm', 'up'})
TOPONLY = {'extends', 'implements', 'import', 'compiler', 'compiler reset', 'compiler-settings', 'compiler-settings reset', 'shBang', 'breakpoint', 'transform', 'attr'}
ONELINE = {k for k, (s, u) in F.items() if s.count('\n') == (1 if s.endswith('\n') else 0) and k not in TOPONLY}

# position -> (pattern, directives used, needs the source to end its line)
POS = {
    'top': ('%s', ''), 'after': ('t$str(1)\n%s', ''), 'end': ('t\n%s\nt', ''), 'if': ('#if 1\nt\n%s\n#end if\n', 'if end'), 'else': ('#if 0\nt\n#else\nt\n%s\n#end if\n', 'if else end'),
    'for': ('#for $q in [1]\nt\n%s\n#end for\n', 'for end'), 'def': ('#def outer\nt\n%s\n#end def\n', 'def end'), 'block': ('#block outer\nt\n%s\n#end block\n', 'block end'),
    'call': ('#call $str\nt\n%s\n#end call\n', 'call end'), 'capture': ('#capture w\nt\n%s\n#end capture\n', 'capture end'), 'filter': ('#filter WebSafe\nt\n%s\n#end filter\n', 'filter end'),
    'cache': ('#cache\nt\n%s\n#end cache\n', 'cache end'), 'oneline': ('#if 1: t %s\n', 'if'), 'macro': ('#emit: x\n', 'emit'), 'indented': ('  %s', ''), 'crlf': ('t\r\n%s', ''),
}


def used(form, pos, pos2='top'):
    return set(F[form][1].split()) | set(POS[pos][1].split()) | set(POS[pos2][1].split())


def legal(form, pos):
    if pos in ('top', 'after', 'end', 'crlf', 'macro', 'indented'):
        return True
    if form in TOPONLY:
        return False
    if pos == 'oneline':
        return form in ONELINE and form not in ('return', 'slurp', 'eolslurp', 'else short')
    if form in ('def', 'def short', 'def args', 'decorator', 'return', 'yield', 'super') and pos in ('def', 'block', 'call', 'capture', 'filter', 'cache'):
        return True
    return True


def source(form, pos, pos2='top'):
    s = F[form][0]
    if pos == 'macro':
        return POS['macro'][0]
    if pos == 'oneline':
        s = s.rstrip('\n')
    p = POS[pos][0] % s
    if pos == 'crlf':
        p = p.replace('\n', '\r\n').replace('\r\r', '\r')
    return POS[pos2][0] % p if pos2 != 'top' else p


def configs(us, tier, top):
    others = ['if', 'set', 'def', 'include', 'psp', 'errorCatcher', 'shBang', 'end', '@', 'compiler-settings']
    yield [[], []]
    for d in NAMES:
        yield [[d], []]
    yield [[], sorted(us) or ['if']]
    for d in sorted(us):
        yield [[d], sorted(us)]
        yield [[], sorted(us - {d}) or ['nothing']]
        yield [[d.capitalize()], []]
        yield [[d.upper()], []]
        yield [[], sorted(x.upper() for x in us)]
        yield [[{'errorcatcher': 'errorCatcher', 'shbang': 'shBang'}.get(d, d)], []]
        yield [[], sorted({'errorcatcher': 'errorCatcher', 'shbang': 'shBang'}.get(x, x) for x in us)]
        for o in others:
            yield [[o, d], []]
            yield [[], sorted((us - {d}) | {o.lower()} - {d})]
    if top or tier == 'thorough':
        for a, b in itertools.combinations(NAMES, 2):
            yield [[], [a, b]]
            if tier == 'thorough':
                yield [[a, b], []]
    yield [[], [n for n in NAMES if n not in us] or ['nothing']]
    yield [[n for n in NAMES if n not in us], []]
    yield [list(NAMES), list(NAMES)]


def enum(tier, mode):
    for f in F:
        for p in POS:
            if legal(f, p):
                for c in configs(used(f, p), tier, p == 'top'):
                    yield ['dir', f, p, 'top', c]
                if tier == 'thorough':
                    for p2 in ('if', 'for', 'def', 'call', 'cache'):
                        if legal(f, p2) and p not in ('top', 'macro', 'crlf', p2):
                            for c in configs(used(f, p, p2), 'quick', False):
                                yield ['dir', f, p, p2, c]
    for k in range(len(EXPR)):
        for p in POS:
            yield ['expr', k, p]
    for f in F:
        for k in range(3):
            yield ['hook', f, k]
    for f in F:
        for c in ('set', 'tuple', 'frozenset'):
            yield ['container', f, c]


def strip(code):
    code = code.decode('utf-8') if isinstance(code, bytes) else code
    return re.sub(r"(?m)^(__CHEETAH_(gen|src).*|#.*|.*cheetah_\w+_\d+.*|.*_CHEETAH_.*DynamicallyCompiled.*)$", '', re.sub(r'\d{6,}(\.\d+)?|_\d+', 'N', code))


def comp(src, settings, form=None):
    """('ok', code) | ('forbidden', ..) | ('err', name)"""
    from Cheetah.Parser import ForbiddenSyntax
    st = dict(settings)
    macros = {'up': lambda src: src.upper(), 'emit': lambda src: F[form][0] if form else ''}
    try:
        code = tutil.T().compile(source=src, returnAClass=False, compilerSettings=dict(st, macroDirectives=macros), moduleName='m', className='c')
        return ('ok', code)
    except ForbiddenSyntax as e:
        return ('forbidden', type(e).__name__)
    except Exception as e:
        return ('err', tutil.exc_name(e) + ': ' + str(e).strip().split('\n')[0])


BASE = {}


def base(form, pos, pos2):
    k = (form, pos, pos2)
    if k not in BASE:
        if len(BASE) > 4000:
            BASE.clear()
        BASE[k] = comp(source(form, pos, pos2), {}, form)
    return BASE[k]


def do_dir(case, ctx):
    _, form, pos, pos2, (dis, en) = case
    us = {u.lower() for u in used(form, pos, pos2)}
    d, e = {x.lower() for x in dis}, {x.lower() for x in en}
    b = base(form, pos, pos2)
    if b[0] != 'ok':
        ctx.outcome('form not valid here')
        return
    hooks = []
    st = {'disabledDirectives': dis, 'enabledDirectives': en, 'disabledDirectiveHooks': [lambda parser, directiveName: hooks.append(directiveName)]}
    r = comp(source(form, pos, pos2), st, form)
    ctx.trans()
    bad = (us & d) | (us - e if e else set())
    ctx.state(sorted(us), sorted(d & us), sorted(e & us), r[0])
    ctx.outcome(r[0])
    src = source(form, pos, pos2)
    if bad:
        if r != ('forbidden', 'ForbiddenDirective'):
            ctx.fail('accepted', '%r (form %s) with disabled %r enabled %r: %s, expected ForbiddenDirective for %s' % (src, form, dis, en, r[0] if r[0] == 'ok' else r, sorted(bad)))
        elif len(hooks) != 1 or hooks[0] not in bad:
            ctx.fail('hook', '%r with disabled %r enabled %r: disabledDirectiveHooks called with %r, expected once, one of %s' % (src, dis, en, hooks, sorted(bad)))
    else:
        if r[0] != 'ok':
            ctx.fail('refused', '%r (form %s) with disabled %r enabled %r: %r, but it uses only %s' % (src, form, dis, en, r, sorted(us)))
        elif strip(r[1]) != strip(b[1]):
            ctx.fail('changed', '%r with disabled %r enabled %r compiles to other code than without' % (src, dis, en))
        elif hooks:
            ctx.fail('hook', '%r: disabledDirectiveHooks called for %r' % (src, hooks))


def do_container(case, ctx):
    _, form, c = case
    us = sorted(used(form, 'top'))
    if base(form, 'top', 'top')[0] != 'ok':
        return
    mk = {'set': set, 'tuple': tuple, 'frozenset': frozenset}[c]
    for d in us:
        for st in ({'disabledDirectives': mk([d])}, {'enabledDirectives': mk([x for x in us if x != d] or ['nothing'])}):
            r = comp(source(form, 'top'), st, form)
            ctx.trans()
            if r != ('forbidden', 'ForbiddenDirective'):
                ctx.fail('accepted', '%r with %r: %r' % (source(form, 'top'), st, r[0]))
    r = comp(source(form, 'top'), {'enabledDirectives': mk(us or ['nothing'])}, form)
    ctx.state(form, c, r[0])
    if r[0] != 'ok':
        ctx.fail('refused', '%r enabling %r: %r' % (source(form, 'top'), us, r))


# expression positions: MARK must be seen by the hook
EXPR = ['$MARK', '${MARK}', '${1 + MARK}', '$a.MARK', '$a(MARK)', '$a(x=MARK)', '$a(c"$MARK")', '$a(b($MARK))', '$a[MARK]', '$a[$MARK]', '${a, x=MARK}', '${a, x=$MARK}', '$*MARK', '$!MARK', '$(MARK)', '$[MARK]',
        '$*2m*MARK', '$a[1](MARK).b', '#if MARK\nt\n#end if', '#if MARK then 1 else 2#', '#if 1 then MARK else 2#', '#if 1 then 1 else MARK#', '#if 1\nt\n#elif MARK\nt\n#end if',
        '#if 1\nt\n#else if MARK\nt\n#end if', '#if 1: $MARK', '#if MARK: a', '#unless MARK\nt\n#end unless', '#unless MARK: t', '#for $i in MARK\nt\n#end for', '#for $MARK in []\nt\n#end for', '#for $i in MARK: x',
        '#while MARK\nt\n#end while', '#while MARK: t', '#repeat MARK\nt\n#end repeat', '#repeat MARK: t', '#set $x = MARK', '#set $MARK = 1', '#set global $x = MARK', '#set module $x = MARK', '#set $x[MARK] = 1', '#set $x += MARK',
        '#set $x, $y = MARK', '#del $MARK', '#silent MARK', '#echo MARK', '#echo $MARK', '#def f(a=MARK)\nt\n#end def', '#def f(a=MARK): t', '#def MARK\nt\n#end def', '#def f(MARK)\nt\n#end def',
        '#block b(a=MARK)\nt\n#end block', '#block MARK\nt\n#end block', '#closure f(a=MARK)\nt\n#end closure', '#closure MARK()\nt\n#end closure', '#attr x = MARK', '#call MARK\nt\n#end call', '#call $f(MARK)\nt\n#end call',
        '#call $MARK\nt\n#end call', '#call $f MARK=1\nt\n#end call', '#call $f x=MARK\nt\n#end call', '#call $f x=$MARK\nt\n#end call', '#call $f x=MARK: t', '#call $f\n#arg MARK\nt\n#end call', '#cache test=MARK\nt\n#end cache',
        '#cache id="MARK"\nt\n#end cache', '#cache varyBy=$MARK\nt\n#end cache', '#filter MARK\nt\n#end filter', '#filter $MARK\nt\n#end filter', '#filter MARK: t', '#transform MARK', '#transform $MARK', '#include MARK',
        '#include source=MARK', '#include raw MARK', '#include raw source=$MARK', '#try\nt\n#except MARK\nt\n#end try', '#return MARK', '#yield MARK', '#raise MARK', '#assert MARK', '#assert 1, MARK',
        '<%= MARK %>', '<% MARK %>', '#import MARK', '#import os, MARK', '#from os import MARK', '#from MARK import a', '#extends MARK', '#implements MARK', '#super(MARK)', '#super(a=MARK)',
        '#@MARK\n#def f\nt\n#end def', '#@x(MARK)\n#def f\nt\n#end def', '#capture MARK\nt\n#end capture', '#errorCatcher MARK', '#shBang MARK', '#compiler-settings\nMARK=1\n#end compiler-settings', '#compiler MARK=1#',
        '#call $f: $MARK', '#capture x: $MARK', '#cache: $MARK', '#def f: $MARK', '#filter WebSafe: $MARK', '#block b: $MARK', '#for i in []: $MARK', '#up: $MARK', '$up("$MARK")$MARK',
        # texts, not expressions
        '=##MARK\n', '=#* MARK *#', '=MARK', '=#raw\n$MARK\n#end raw', '=#raw: $MARK', '=\\$MARK', '=$ MARK']


def do_expr(case, ctx):
    from Cheetah.Parser import ForbiddenExpression
    _, k, pos = case
    s = EXPR[k]
    isText = s.startswith('=')
    s = s.lstrip('=')
    seen = []

    def reject(parser, expr, exprType, rawExpr=None, startPos=None):
        seen.append(exprType)
        if re.search('MARK', str(expr), re.I):
            raise ForbiddenExpression(parser, 'no')
        return expr

    def ident(parser, expr, exprType, rawExpr=None, startPos=None):
        seen.append(exprType)
        return expr

    class Own(Exception):
        pass

    def own(parser, expr, exprType, rawExpr=None, startPos=None):
        if re.search('MARK', str(expr), re.I):
            raise Own()
        return expr
    if pos == 'macro':
        src, F['=expr'] = POS['macro'][0], (s + '\n', '')
    elif pos == 'oneline':
        if '\n' in s:
            return
        src = POS[pos][0] % s
    else:
        src = POS[pos][0] % s
    b = comp(src, {}, '=expr')
    if b[0] != 'ok':
        ctx.outcome('form not valid here')
        return
    ctx.trans(4)
    r = comp(src, {'expressionFilterHooks': [ident]}, '=expr')
    if r[0] != 'ok' or strip(r[1]) != strip(b[1]):
        ctx.fail('identity hook', '%r: a hook that returns every expression unchanged gives %r' % (src, r[0] if r[0] != 'ok' else 'other code'))
    for name, hooks in (('reject', [reject]), ('second', [ident, reject]), ('first', [reject, ident])):
        r = comp(src, {'expressionFilterHooks': hooks}, '=expr')
        ctx.state(k, pos, name, r[0])
        want = 'ok' if isText else 'forbidden'
        if r[0] != want:
            ctx.fail('expression ' + ('refused' if isText else 'accepted'), '%r with a hook rejecting MARK (%s): %s, expected %s' % (src, name, r[0] if r[0] == 'ok' else r, want))
            return
    r = comp(src, {'expressionFilterHooks': [own]}, '=expr')
    if isText == (r[0] == 'err' and 'Own' in r[1]):
        ctx.fail('expression own', '%r with a hook raising its own exception: %r' % (src, r[:2] if r[0] != 'ok' else 'ok'))
    F.pop('=expr', None)


def do_hook(case, ctx):
    """A directive hook that raises prevents the construct; the hooks see every directive."""
    _, form, k = case
    us = set(F[form][1].split())
    if base(form, 'top', 'top')[0] != 'ok':
        return
    seen = []

    class Own(Exception):
        pass
    name = ('preparseDirectiveHooks', 'postparseDirectiveHooks', 'preparseDirectiveHooks')[k]

    def hook(parser, directiveName):
        seen.append(directiveName.lower())
        if k == 2:
            raise Own()
    r = comp(source(form, 'top'), {name: [hook]}, form)
    ctx.state(form, k, r[0])
    want = us - {'psp'}
    if k == 2:
        if want and not (r[0] == 'err' and 'Own' in r[1]):
            ctx.fail('hook ignored', '%r with a raising %s: %s' % (source(form, 'top'), name, r[0]))
        return
    if r[0] != 'ok' or strip(r[1]) != strip(base(form, 'top', 'top')[1]):
        ctx.fail('hook changes', '%r with %s: %r' % (source(form, 'top'), name, r[0]))
    if form.endswith(' reset'):
        return                  # the hooks are settings, too
    if set(seen) - {'mm'} != want - {'mm'}:
        ctx.fail('hook misses', '%r: %s called for %r, expected %r' % (source(form, 'top'), name, seen, sorted(want)))


def check(case, ctx):
    ctx.trace()
    ctx.evals += 1
    return globals()['do_' + case[0]](case, ctx)
