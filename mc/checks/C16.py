"""Nesting and malformed templates: all sequences of block openers, closers and branches against a pushdown model, and all short token strings,
truncations and single edits against 'a template or a ParseError that points into the source'."""
import itertools
import re

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one nest case = one sequence of block tokens, one per line, compiled with the three line-end conventions or inline; the pushdown model decides acceptance and '
        'the row of the error; one tok/edit case = one source text, which must compile or raise ParseError with a printable report whose position lies in the source; '
        'states are the pushdown configurations, transitions are tokens')
BOUNDS = {'quick': {'nest': 'all sequences of 3 over 35 tokens, of 4 over 20, of 5 over 13, extended only while no error is certain', 'token strings': '2 over 75 tokens, 3 over 42',
                    'edits': 'every prefix, deletion, and duplication of 11 templates', 'positions': '17 bracket errors with exact columns behind 6 prefixes of lines and 12 of the same line'},
          'thorough': {'nest': 'length 4 over 35 tokens, 5 over 20, 6 over 13', 'token strings': '3 over 75 tokens', 'edits': 'every prefix, deletion, duplication, swap and replacement'}}
ASSUMPTIONS = ['bodies are never empty (Python rejects an empty body)', '#raw and #* regions run to the end of the template when they are not closed, as documented in the code',
               'compiler settings and #encoding may raise their own errors']

OPEN = {'if': '#if 1', 'unless': '#unless 0', 'for': '#for $i in [1]', 'while': '#while 0', 'repeat': '#repeat 1', 'try': '#try', 'def': '#def f%d', 'block': '#block b%d',
        'closure': '#closure c%d', 'filter': '#filter WebSafe', 'call': '#call $str', 'capture': '#capture x', 'cache': '#cache'}
BRANCH = {'else': '#else', 'elif': '#elif 1', 'elseif': '#else if 1', 'except': '#except', 'exceptK': '#except KeyError', 'finally': '#finally'}
OTHER = {'break': '#break', 'sif': '#if 1: s', 'set': '#set $y = 1'}
CLOSE = ['/' + k for k in OPEN]
ALL = list(OPEN) + CLOSE + list(BRANCH) + list(OTHER)
MID = ['if', 'for', 'try', 'def', 'call', 'filter', '/if', '/for', '/try', '/def', '/call', '/filter', 'else', 'elif', 'except', 'exceptK', 'finally', 'break', 'cache', '/cache']
FEW = ['if', 'for', 'try', 'call', '/if', '/for', '/try', '/call', 'else', 'elif', 'except', 'finally', 'break']
BRANCHLESS = ('def', 'block', 'closure', 'filter', 'call', 'capture', 'cache')
LOOPS = ('for', 'while', 'repeat')


class Model(object):
    """Pushdown model.  verdict: None while nothing is certain, ('parse', index) for an error found by nesting alone."""
    def __init__(self):
        self.stack = []          # [kind, phase]
        self.bad = None          # certain nesting error at token index
        self.py = None           # wrong branch or break at token index (the generated code cannot be compiled)

    def step(self, i, tok):
        if tok in OPEN:
            self.stack.append([tok, 'body'])
        elif tok[0] == '/':
            if not self.stack or self.stack[-1][0] != tok[1:]:
                self.bad = i
                return
            kind, phase = self.stack.pop()
            if kind == 'try' and phase == 'body':
                self.soft(i)
        elif tok in BRANCH:
            if not self.stack:
                self.soft(i)
                return
            top = self.stack[-1]
            kind, phase = top
            if kind in BRANCHLESS:
                self.bad = i
                return
            b = {'elseif': 'elif'}.get(tok, tok)
            if kind in ('if', 'unless'):
                if phase == 'body' and b in ('else', 'elif'):
                    top[1] = 'else' if b == 'else' else 'body'
                else:
                    self.soft(i)
            elif kind in LOOPS:
                if phase == 'body' and b == 'else':
                    top[1] = 'else'
                else:
                    self.soft(i)
            else:
                if b in ('except', 'exceptK') and phase in ('body', 'except'):
                    top[1] = 'bare' if b == 'except' else 'except'
                elif b == 'else' and phase in ('except', 'bare'):
                    top[1] = 'else'
                elif b == 'finally' and phase in ('body', 'except', 'bare', 'else'):
                    top[1] = 'finally'
                else:
                    self.soft(i)
        elif tok == 'break':
            for kind, phase in reversed(self.stack):
                if kind in ('def', 'block', 'closure'):
                    self.soft(i)
                    return
                if kind in LOOPS and phase == 'body':
                    return
            self.soft(i)

    def soft(self, i):
        if self.py is None:
            self.py = i

    def copy(self):
        m = Model()
        m.stack = [list(x) for x in self.stack]
        m.bad, m.py = self.bad, self.py
        return m


def sequences(toks, n):
    def rec(prefix, m):
        for t in toks:
            m2 = m.copy()
            m2.step(len(prefix), t)
            seq = prefix + [t]
            yield seq
            # a certain error stays the first one whatever follows
            if m2.bad is None and m2.py is None and len(seq) < n:
                for s in rec(seq, m2):
                    yield s
    return rec([], Model())


def lines_of(seq):
    out = ['t']
    for i, t in enumerate(seq):
        s = OPEN.get(t) or BRANCH.get(t) or OTHER.get(t) or '#end ' + t[1:]
        out.append(s % i if '%d' in s else s)
        out.append('t')
    return out


TOK = ['#', '$', '{', '}', '(', ')', '[', ']', '"', "'", '\n', '#if', '#end', '#set', 'a', '=', ' ', ':', '\\', '*', '<%', '%>', '#*', '*#', '##', '@', '#def', '1', ',', '.', '!',
       '\r\n', '#silent', '#raw', '#call', '#end ', '#echo', '#for', '#cache', '${', '#arg', 'if ', '#attr', '#block', '#super', '#include', '#extends', '#return', '#slurp', '$(', '#from',
       '#macro', '#filter', '#capture', '#try', '#@', '#errorCatcher', '#transform', '#breakpoint', '#closure', '#repeat', '#unless', '#stop', '#pass', '#del', '#implements',
       '#else', '#raise', '#assert', ' if', ' end ', 'for', 'c"', '$*a', '$*1d*', '$!']
TEMPLATES = [
    'a$b.c(1, "x)")[2]{3}\n#if $x and ($y or [1])\nt${z, k=1}#else if 1#u#end if#\n',
    '#def f($a, b=(1, 2), *c, **d)\n$a "\n#end def\n$f(1, b="#")\n',
    '#for $i, $j in [(1, 2)]\n$i#if $i == 1 then $j else c"$i"#\n#end for\n',
    '#try\n<%= 1 %>x<% y = 2 %>\n#except ValueError as e\n$e\n#finally\nf\n#end try\n',
    '#call $f arg=1\n#arg x\n$y\n#arg z: q\n#end call\n#raw\n$n #if\n#end raw\nr',
    '#cache varyBy=1, id="i", test=$x\n$*x $*2m*y ${*z} $!q $!{w}\n#end cache\n#filter WebSafe\n$a\n#end filter\n',
    '#set $x = {1: [2, "3"], "4": (5,)}\n#set global $y = 1\n#silent $x.update({})\n#del $x\n',
    '#block b\n#slurp\n#include raw source="x"\n#end block b\n## comment\n#* multi\nline *#x\n',
    '#import os, sys as s\n#from os import path as p\n#attr $q = [1]\n#@staticmethod\n#def g()\n#return 1\n#end def\n',
    '#repeat 3\n\\$x \\#if $a["b"].c\n#break\n#end repeat\n#unless $x: y\n#while 0: z\n#capture w\nv\n#end capture\n',
    '#closure h($a=1)\n$a#echo "a" + \'b\'#\n#end closure\n${h(a=2)}$h#stop\n#assert 1 == 1, """x\ny"""\n#end if\r\nz',
]


def edits(tier):
    for n, t in enumerate(TEMPLATES):
        for i in range(len(t) + 1):
            yield ['cut', n, i]
            if i < len(t):
                yield ['drop', n, i]
                yield ['dup', n, i]
                yield ['tail', n, i]
                if tier == 'thorough':
                    for c in '#$({[]})"\'\n:=,* \\':
                        yield ['put', n, i, c]
                    for k in (2, 3, 5, 8):
                        yield ['cutn', n, i, k]


def enum(tier, mode):
    d = 0 if tier == 'quick' else 1
    seen = set()
    for toks, n in ((ALL, 3 + d), (MID, 4 + d), (FEW, 5 + d)):
        for s in sequences(toks, n):
            k = ' '.join(s)
            if k not in seen:
                seen.add(k)
                yield ['nest', s]
    for n in (1, 2):
        for p in itertools.product(TOK, repeat=n):
            yield ['tok', ''.join(p)]
    for p in itertools.product(TOK if tier == 'thorough' else TOK[:42], repeat=3):
        yield ['tok', ''.join(p)]
    for e in edits(tier):
        yield ['edit', e]
    for i in range(len(ROWS)):
        for eol in ('\n', '\r\n', '\r'):
            for pre in range(len(PRE)):
                yield ['row', i, eol, pre]
    for i in range(len(COLS)):
        for pre in range(len(PRE)):
            for lead in range(len(LEADS)):
                for eol in ('\n', '\r\n', '\r'):
                    yield ['col', i, eol, pre, lead]


POS = re.compile(r'^Line (\d+), column (\d+)$', re.M)


def attempt(src):
    """('ok',) | ('err', row, col) | ('bad', what)"""
    from Cheetah.Parser import ParseError
    try:
        k = tutil.compile_(src)
        tutil._cleanup(k)
        return ('ok',)
    except ParseError as e:
        try:
            rep = str(e)
        except Exception as e2:
            return ('bad', 'the report of the ParseError raises %s: %s' % (type(e2).__name__, e2))
        m = POS.search(rep)
        if not m:
            return ('bad', 'the report has no position: %r' % rep)
        return ('err', int(m.group(1)), int(m.group(2)), rep)
    except Exception as e:
        return ('bad', '%s: %s' % (type(e).__name__, e))


EOL = re.compile('\r\n|\r|\n')


def inside(src, r):
    lines = EOL.split(src)
    row, col, rep = r[1], r[2], r[3]
    if not 1 <= row <= len(lines):
        return 'row %d of %d lines' % (row, len(lines))
    # the end of a line is a position too (up to two characters of it)
    if not 1 <= col <= len(lines[row - 1]) + 2:
        return 'column %d of a line of %d characters' % (col, len(lines[row - 1]))
    if '\n%-4d|%s\n' % (row, lines[row - 1]) not in rep:
        return 'line %d is not shown in the report' % row
    return None


def do_nest(case, ctx):
    seq = case[1]
    m = Model()
    for i, t in enumerate(seq):
        ctx.trans()
        m.step(i, t)
        ctx.state(m.stack, m.bad, m.py)
        if m.bad is not None:
            break
    lines = lines_of(seq)
    want = 'err' if (m.bad is not None or m.stack or m.py is not None) else 'ok'
    variants = [('\n', 1), ('\r\n', 1), ('\r', 0)] if len(seq) < 4 else [(('\n', '\r\n', '\r')[ctx.index % 3], 1)]
    if len(seq) < 4:
        variants += [('\n', 0), ('inline', 0)]
    for eol, final in variants:
        if eol == 'inline':
            if 'sif' in seq:
                continue
            src = ''.join('%s#' % x if x[0] == '#' else x for x in lines)
        else:
            src = eol.join(lines) + (eol if final else '')
        r = attempt(src)
        ctx.outcome(r[0] + ('' if r[0] != 'err' else '-nest' if m.bad is not None else '-open' if m.stack else '-branch'))
        key = 'nest ' + ('accepts' if r[0] == 'ok' else 'rejects' if r[0] == 'err' else 'raises')
        if r[0] != want:
            ctx.fail(key, '%r: %s, expected %s' % (src, r[:2], want))
            return
        if r[0] == 'err':
            w = inside(src, r)
            if w:
                ctx.fail('nest position', '%r: %s' % (src, w))
                return
            if eol == 'inline':
                continue
            if m.bad is not None:
                rows = (2 * m.bad + 2, 2 * m.bad + 3)      # the tag, or directly behind it
            elif m.stack:
                rows = (len(lines),)
            else:
                rows = range(1, 2 * m.py + 4)
            if r[1] not in rows:
                ctx.fail('nest row', '%r: reported on line %d, expected %r' % (src, r[1], list(rows)))
                return


def do_tok(case, ctx):
    judge(case[1], ctx)


def judge(src, ctx):
    r = attempt(src)
    if r[0] == 'bad' and 'report' not in r[1]:
        # was it accepted, and only the execution of the module failed?
        try:
            compile(tutil.T().compile(source=src, returnAClass=False), 'x', 'exec')
            r = ('ok',)
        except Exception:
            pass
    ctx.state(r[0], r[1:3])
    ctx.outcome('source ' + r[0])
    if r[0] == 'bad':
        ctx.fail('source ' + r[1].split(':')[0], '%r: %s' % (src, r[1]))
    elif r[0] == 'err':
        w = inside(src, r)
        if w:
            ctx.fail('source position', '%r: %s' % (src, w))


def do_edit(case, ctx):
    e = case[1]
    t, i = TEMPLATES[e[1]], e[2]
    src = {'cut': lambda: t[:i], 'drop': lambda: t[:i] + t[i + 1:], 'dup': lambda: t[:i] + t[i] + t[i:], 'tail': lambda: t[i:], 'put': lambda: t[:i] + e[3] + t[i:],
           'cutn': lambda: t[:i] + t[i + e[3]:]}[e[0]]()
    judge(src, ctx)


# (text, row of the error relative to the start of the text, or None for 'accepted')
ROWS = [('$a(\nt', 0), ('#if (\n1\n', 0), ('#set $x = [1,\n2\nt', 0), ('${a b}', 0), ('$a(1 1)', 0), ('#if 1 1\nt\n#end if\n', 0), ('#for $x\nt\n#end for\n', 0),
        ('#attr x\nt', 0), ('#set $x\nt', 0), ('#def (\nt', 0), ('#end foo\nt', 0), ('#@foo\nt\n', 1), ('#silent (1\n2\nt', 0), ('$a[1\nt', 0), ('$a.b(c={1:\n2\nt', 0),
        ('#if 1\nt\n#elif (\nt\n#end if\n', 2), ('#if 1 1\nt\n#else\nt\n#end if\n', 0), ('#while (1))\nt\n#end while\n', 0), ('#unless ]\nt\n#end unless', 0),
        ('#block\nt', 0), ('#implements\nt', 0), ('#arg x\nt', (0, 1)), ('#call f($\nt', None)]


PRE = ['', 't\n', '$v\n\nt\n', '#if 1\nt\n#end if\nt\n', 't\x0bu\x0c\x0cv\n', '\u2028t\x85\n\x1cu\n']


def do_row(case, ctx):
    text, rel = ROWS[case[1]]
    eol, pre = case[2], case[3]
    src = PRE[pre] + text
    base = PRE[pre].count('\n') + 1
    src = src.replace('\n', eol)
    r = attempt(src)
    ctx.state(r[0], r[1:2])
    if rel is None:
        return judge(src, ctx)
    if r[0] != 'err':
        ctx.fail('row accepted', '%r: %r, expected an error on line %r' % (src, r[:2], rel))
        return
    w = inside(src, r)
    rows = [base + x for x in (rel if isinstance(rel, tuple) else (rel,))]
    if w or r[1] not in rows:
        ctx.fail('row', '%r: reported on line %d, expected %r %s' % (src, r[1], rows, w or ''))


# errors at brackets: the column of the bracket marked with \x00
COLS = ['$a\x00(\nt', '$a\x00(', '#if \x00(\n1\n', '#set $x = \x00[1,\n2\nt', '#silent \x00(1\n2\nt', '$a\x00[1\nt', '$a.b(c=\x00{1:\n2\nt', '#if 1\nt\n#elif \x00(\nt\n#end if\n',
        '#while (1)\x00)\nt\n#end while\n', '#unless \x00]\nt\n#end unless', '$a(b\x00[1, (2, 3)', '$*a\x00[', '#for $i in \x00[1,\nt\n#end for', 'x $b\x00(1', '$a(1, b=\x00(', '$a(\n1\x00]',
        '#echo 1 + \x00{2: 3']
LEADS = ['', 't', 'tu ', 't\u00e9\u4e00\U0001f600x', '$v t', '\\$v', "'\"", '#silent 1#', '$v(1, [2])', 't' * 79, '\t', ' ']


def do_col(case, ctx):
    text = PRE[case[3]] + LEADS[case[4]] + COLS[case[1]]
    text = text.replace('\n', case[2])
    src = text.replace('\x00', '')
    before = EOL.split(text[:text.index('\x00')])
    row, col = len(before), len(before[-1]) + 1
    r = attempt(src)
    ctx.state(r[0], r[1:3])
    ctx.outcome('col ' + r[0])
    if r[0] != 'err' or r[1:3] != (row, col):
        ctx.fail('column', '%r: %r, expected an error on line %d, column %d' % (src, r[:3], row, col))
        return
    w = inside(src, r)
    caret = '\n%-4d|%s\n%s^\n' % (row, EOL.split(src)[row - 1], ' ' * (col + 4))
    if w or caret not in r[3]:
        ctx.fail('caret', '%r: %s; the report does not mark column %d: %s' % (src, w, col, r[3]))


def check(case, ctx):
    ctx.trace()
    ctx.evals += 1
    return globals()['do_' + case[0]](case, ctx)
