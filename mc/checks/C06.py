"""White space around directives and comments: all small line layouts against a reference line model."""
import itertools
import re

from mc import tutil

LEVEL = 'exploration'
MODES = ['c']
RULE = ('one evaluation = one rendering of one template made of text, line ends, placeholders and tags; three spaces are enumerated: all '
        'segment sequences, every directive (pair) in every line layout, and all token strings inside multi-line comments; '
        'non-trivial = distinct templates containing a tag')
BOUNDS = {'quick': {'segments': 'all sequences of up to 4 out of 13 segments and 5 out of 9; with mixed line ends up to 4 out of 10 and 5 out of 7', 'directives': 'every directive and pair x layouts x 4 line ends',
                    'comment tokens': 'up to 5 out of 7'},
          'thorough': {'segments': 'up to 6', 'directives': 'as quick, with more layouts', 'comment tokens': 'up to 7'}}
ASSUMPTIONS = ['an indented inline-closed tag or multi-line comment as the last thing in the source (no line end) is outside the domain']

# segment kinds: t text, o tag running to the line end, c tag closed by '#', m multi-line comment,
# l line comment, s slurp, e end-of-line slurp token, p placeholder
SEGS = {'x': ('t', 'x'), 'w': ('t', ' '), 'T': ('t', '\t'), 'n': ('t', '\n'), 'P': ('p', '$v', 'V'),
        'C': ('c', '#set $q = 1#'), 'O': ('o', '#set $q = 1'), 'L': ('l', '## c'), 'M': ('m', '#* c *#'),
        'N': ('m', '#* c\n d *#'), 'S': ('s', '#slurp'), 'E': ('e', '#'), 'I': ('c', '#silent $v#'), 'r': ('t', '\r'), 'd': ('t', '\r\n')}
COMMENT_TOKENS = ['#*', '*#', 'a', '\n', ' ', '#', '*']

EOLRE = re.compile(r'\r\n|\n|\r|\Z')


class Outside(Exception):
    pass


def layout(segs):
    """(source, expected output, output length before each segment's own output); may raise Outside."""
    src = ''.join(s[1] for s in segs)
    out = []            # (character, source position)
    cuts = []
    skip_to = 0
    end = 0

    def bol(pos):
        return max(src.rfind('\n', 0, pos), src.rfind('\r', 0, pos)) + 1

    def trim(pos):
        while out and out[-1][1] >= bol(pos):
            out.pop()

    for i, s in enumerate(segs):
        kind, text = s[0], s[1]
        pos = end
        end = pos + len(text)
        if pos < skip_to:
            if end > skip_to:
                if kind != 't':
                    raise Outside
                out.extend((src[k], k) for k in range(skip_to, end))
            cuts.append(len(out))
            continue
        clear = not src[bol(pos):pos].strip()
        eol = EOLRE.search(src, end)
        rest = src[end:eol.start()]
        if kind == 't':
            out.extend((src[k], k) for k in range(pos, end))
        elif kind == 'p':
            if rest and (rest[0].isalnum() or rest[0] in '_.[('):
                raise Outside
            out.extend((ch, pos) for ch in s[2])
        elif kind == 'c':
            if rest[:1] == '#' and not (i + 1 < len(segs) and segs[i + 1][0] in 'cos'):
                raise Outside       # "##" would be a comment
            if end == len(src) and clear and pos != bol(pos):
                raise Outside
        elif kind in 'ol':
            if kind == 'o' and not re.match(r'[ \t\f]*(##.*)?\Z', rest, re.S):
                raise Outside
            if kind == 'o' and rest.strip():
                k = i + 1
                while segs[k][0] == 't' and not segs[k][1].strip():
                    k += 1
                if segs[k][0] != 'l':
                    raise Outside   # the tag's end token or another directive
            if clear:
                trim(pos)
            skip_to = eol.end() if clear else eol.start()
        elif kind == 'm':
            if end < len(src):
                skip_to = end
                if not rest.strip():
                    skip_to = eol.end() if clear else eol.start()
                if clear and (skip_to >= len(src) or skip_to > EOLRE.search(src, pos).start()):
                    trim(pos)
            elif clear and pos != bol(pos):
                raise Outside
        else:
            if kind == 's' and (rest[:1].isalnum() or rest[:1] == '_'):
                raise Outside
            if kind == 'e' and (rest.strip(' \t\f') or eol.start() == len(src)):
                raise Outside
            if clear:
                trim(pos)
            skip_to = eol.end()
        cuts.append(len(out))
    return src, ''.join(ch for ch, _ in out), cuts


SIMPLE = ['#set $q = 1', '#set global q = 1', '#set module q = 1', '#silent $v', '#silent "a#b"', '#import os', '#from os import path',
          '#attr q = 1', '#assert 1', '#pass', '#echo ""', '#del v0', '#set $q = [1,\n2]', '#set $q = "##"', '#implements respond',
          '#errorCatcher Echo', '#compiler-settings\nuseFilters=True\n#end compiler-settings', '#extends Cheetah.Template',
          '#from os import (path,\n  sep)', "#include source=''", '#set $q = {"a": 1}["a"]', '#set $q, $r = 1, 2',
          '#@staticmethod\n#def zz\nq\n#end def', '#def zz\nq\n#end def', '#def zz: q', '#raw: ', '#filter None\n#end filter']
PAIRS = [('#if 1', '#end if'), ('#unless 0', '#end unless'), ('#for $i in [1]', '#end for'), ('#repeat 1', '#end repeat'),
         ('#cache', '#end cache'), ('#call $ident', '#end call'), ('#filter Filter', '#end filter'),
         ('#block bb', '#end block'), ('#raw', '#end raw'), ('#errorCatcher Echo', '#end errorCatcher'),
         ('#cache id="k", timer="5m"', '#end cache id'), ('#if 1 and (2)', '#end if'), ('#if $v', '#end if  extra words'),
         ('#filter None', '#end filter'), ('#capture cc', '#end capture'), ('#def dd', '#end def'), ('#closure dd', '#end closure'),
         ('#while $once()', '#end while')]
BETWEEN = [('#if 0', '#else', '#end if'), ('#if 0', '#elif 1', '#end if'), ('#if 0', '#else if 1', '#end if'), ('#if 1', '#else', '#end if'),
           ('#unless 1', '#else', '#end unless'), ('#try', '#except', '#end try'), ('#try', '#finally', '#end try'),
           ('#for $i in []', '#else', '#end for'), ('#try', '#else', '#end try')]
PRE = ['', ' ', '\t', 'x', 'x ', ' x', ' \t ']
TERM_O = ['', '  ', '\t', ' ## c', '  ## c']
POST_C = ['', 'y', ' y', ' ', ' ## c', '$v', '#set $q = 1#', ' #* c *#', '#silent 1']


def tag_line(tag, pre, term, eol):
    """Segments of one line holding a tag."""
    if term[0] == 'o':
        segs = [('t', pre), ('o', tag)]
        if term[1]:
            segs.append(('t', term[1]) if not term[1].strip() else ('l', term[1]))
    else:
        segs = [('t', pre), ('c', tag + '#')] + [list_seg(x) for x in term[1:]]
    if eol:
        segs.append(('t', eol))
    return segs


def list_seg(x):
    if x.startswith(' ##'):
        return ('t', ' '), ('l', x[1:])
    if x == '$v':
        return ('p', x, 'V')
    if x.endswith('*#'):
        return ('m', x)
    if x == '#silent 1':
        return ('o', x)
    if x.startswith('#set'):
        return ('c', x)
    return ('t', x)


def flat(segs):
    out = []
    for s in segs:
        if isinstance(s[0], (tuple, list)):
            out.extend(flat(s))
        else:
            out.append(tuple(s))
    return out


TERMS = [('o', t) for t in TERM_O] + [('c', t) for t in POST_C[:1]] + [('c', t) for t in POST_C[1:] if ' #*' not in t] + [('c', ' ', '#* c *#')]
TERMS_Q = [('o', ''), ('o', '  ## c'), ('o', ' '), ('c', ''), ('c', 'y'), ('c', ' ')]
PRES_Q = ['', '  ', 'x', 'x\t']


def enum(tier, mode):
    n = 5 if tier == 'quick' else 6
    names = sorted(set(SEGS) - {'r', 'd'})
    for k in range(1, n + 1):
        for t in itertools.product(names if k < n or tier == 'thorough' else 'xwnPCOLMS', repeat=k):
            s = ''.join(t)
            yield ['seg', s, '\n']
            if k <= 3 and ('n' in s or 'N' in s):
                yield ['seg', s, '\r\n']
                yield ['seg', s, '\r']
    for k in range(2, n + 1):       # line ends of different kinds in one source
        for t in itertools.product('xwnrdCOLMS' if k < n else 'xwnrCOL', repeat=k):
            if len(set(t) & set('nrd')) > 1:
                yield ['seg', ''.join(t), '\n']
    for tag in SIMPLE:
        for eol in ('\n', '\r\n', '\r', ''):
            for before in ('', 'A\n', '\n', 'A\n\n', '\t\n'):
                for pre in PRE:
                    for term in TERMS:
                        for after in ('', 'Z', ' Z\n', '\n') if eol else ('',):
                            yield ['simple', tag, eol, before, pre, list(term), after]
    bodies = ['b', 'b\n', ' b\n', '\n', '', ' ', 'b\n ', '\n\n', '  b ', '\tb\n\n']
    for o, c in PAIRS:
        for eol in ('\n', '\r\n', '\r'):
            if eol == '\r' and tier == 'quick':
                continue
            for pre1 in PRES_Q:
                for t1 in TERMS_Q:
                    for body in bodies if eol == '\n' else bodies[:3]:
                        for pre2 in PRES_Q:
                            for t2 in TERMS_Q if eol == '\n' or tier == 'thorough' else TERMS_Q[:4]:
                                yield ['pair', o, c, eol, pre1, list(t1), body, pre2, list(t2)]
    for o, m, c in BETWEEN:
        for pre1 in ('', ' '):
            for t1 in TERMS_Q[:4]:
                for b1 in ('b\n', 'b', ' b\n '):
                    for pre2 in PRES_Q:
                        for t2 in TERMS_Q:
                            for b2 in ('d', 'd\n', ' d\n '):
                                for pre3 in ('', ' '):
                                    for t3 in (('o', ''), ('c', '')):
                                        yield ['three', o, m, c, '\n', pre1, list(t1), b1, pre2, list(t2), b2, pre3, list(t3)]
    for k in range(0, (5 if tier == 'quick' else 7) + 1):
        for t in itertools.product(COMMENT_TOKENS, repeat=k):
            body = ''.join(t)
            for pre, post in (('', 'Z'), ('  ', '\nZ\n'), ('x', ' \nZ')):
                yield ['comment', pre, body, post]
    for a in ('', 'A', ' ', '\n', 'A\n', ' \n'):
        for body in ('', ' ', 'c', ' #if 1', ' $nosuch', ' #* c', ' *#', '# #', ' ${', ' \\', " '''", ' """', ' c ', '\t', ' #end if', '!', '*', '##', ' \x85c', ' \xe9\u20ac'):
            for b in ('', '\n', '\nB', '\r\nB', '\rB', '\n\nB', '\n B'):
                yield ['line', a, body, b]


def comment_end(src, pos):
    """Position after the comment starting at pos, by nesting; None when unterminated."""
    level = 0
    while pos < len(src):
        if src.startswith('#*', pos):
            level += 1
            pos += 2
        elif src.startswith('*#', pos):
            level -= 1
            pos += 2
            if not level:
                return pos
        else:
            pos += 1
    return None


def once():
    state = []

    def f():
        state.append(1)
        return len(state) == 1
    return f


def world():
    return [{'v': 'V', 'ident': lambda x, **k: x, 'once': once(), 'v0': 1}]


def build(case):
    k = case[0]
    if k == 'seg':
        segs = []
        for ch in case[1]:
            s = SEGS[ch]
            segs.append((s[0], s[1].replace('\n', case[2])) + s[2:])
        return segs
    if k == 'simple':
        _, tag, eol, before, pre, term, after = case
        if '\n' in tag and term[0] == 'c':
            raise Outside
        if tag == '#del v0' and not before:
            raise Outside
        if tag in ('#implements respond', '#errorCatcher Echo', '#extends Cheetah.Template', '#attr q = 1') and term[0] == 'o' and '##' in term[1]:
            raise Outside       # these read the whole line
        if tag.startswith(('#compiler-settings', '#@', '#def', '#raw: ', '#filter None\n')):
            if term != ['o', ''] or pre.strip():
                raise Outside
        segs = [('c', '#set $v0 = 1#')] if tag == '#del v0' else []
        segs += [('t', before.replace('\n', eol or '\n'))] + flat(tag_line(tag.replace('\n', eol or '\n'), pre, term, eol)) \
            + [('t', after.replace('\n', eol or '\n'))]
        return [s for s in segs if s[1]]
    if k == 'pair':
        _, o, c, eol, pre1, t1, body, pre2, t2 = case
        segs = [('t', 'A' + eol)] + flat(tag_line(o, pre1, t1, eol if t1[0] == 'o' else '')) \
            + [('t', body.replace('\n', eol))] + flat(tag_line(c, pre2, t2, eol)) + [('t', 'Z' + eol)]
        return [s for s in segs if s[1]]
    if k == 'three':
        _, o, m, c, eol, pre1, t1, b1, pre2, t2, b2, pre3, t3 = case
        segs = [('t', 'A' + eol)] + flat(tag_line(o, pre1, t1, eol if t1[0] == 'o' else '')) \
            + [('t', b1)] + flat(tag_line(m, pre2, t2, eol if t2[0] == 'o' else '')) \
            + [('t', b2)] + flat(tag_line(c, pre3, t3, eol)) + [('t', 'Z' + eol)]
        return [s for s in segs if s[1]]
    if k == 'comment':
        _, pre, body, post = case
        src = pre + '#*' + body + '*#' + post
        end = comment_end(src, len(pre))
        if end != len(src) - len(post):
            raise Outside
        return [('t', pre), ('m', '#*' + body + '*#'), ('t', post)]
    if k == 'line':
        _, a, body, b = case
        return [s for s in (('t', a), ('l', '##' + body), ('t', b)) if s[1]]


def blocks(case, segs):
    """Expected (source, output) of a block template, or None when outside the domain."""
    src, whole, cuts = layout(segs)
    tags = [case[1], case[2]] + ([case[3]] if case[0] == 'three' else [])
    parts = []
    last = 0
    k = -1
    for t in tags:
        k = [i for i, s in enumerate(segs) if i > k and s[0] in 'oc' and s[1].startswith(t)][0]
        parts.append(whole[last:cuts[k]])
        last = cuts[k]
    parts.append(whole[last:])
    if case[0] == 'pair':
        o = case[1]
        head, inner, tail = parts
        if o == '#raw' and ('##' in case[5][1] + case[8][1] or case[8][0] == 'c' and re.search(r'(\A|[\r\n])[ \t]+\Z', inner)):
            return None         # no comments there; an indented "#end raw#" takes its indentation with it
        if not inner:
            return None         # most blocks may not be empty
        if o.startswith(('#capture', '#def', '#closure')):
            call = {'#capt': '$cc', '#def ': '$dd', '#clos': '$dd()'}[o[:5]]
            return src + '[' + call + ']', head + tail + '[' + inner + ']'
        return src, whole
    o, m = case[1], case[2]
    head, b1, b2, tail = parts
    if not b1 or not b2:
        return None
    if o == '#try':
        body = b1 if m == '#except' else b1 + b2
        if m == '#else':
            return None
    else:
        body = b1 if o == '#if 1' else b2
    return src, head + body + tail


def check(case, ctx):
    try:
        segs = build(case)
        if case[0] in ('pair', 'three'):
            r = blocks(case, segs)
            if r is None:
                raise Outside
            src, want = r
        else:
            src, want = layout(segs)[:2]
    except Outside:
        ctx.outcome('outside the domain')
        return
    got = tutil.outcome(lambda: tutil.render(src, world()))
    ctx.evals += 1
    ctx.outcome(case[0])
    ctx.interesting(src)
    ctx.sample(src)
    if got != ('ok', want):
        ctx.fail(case[0], 'source %r: engine %r, expected %r' % (src, got, want))
