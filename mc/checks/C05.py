"""Literal text: every short string over tricky alphabets against a reference lexer."""
import itertools
import re

from mc import tutil

LEVEL = 'exploration'
MODES = ['c']
RULE = ('one evaluation = one rendering of one source string in one context (bare, between placeholders, in an #if, '
        'in a loop, in a method, in #raw); every string up to the bound is enumerated, strings containing constructs other '
        'than $a / ${a} are outside the domain and skipped; non-trivial = distinct (string, context) rendered whose '
        'string has a special character')
BOUNDS = {'quick': {'len5': 9, 'len4': 15, 'len3': 34}, 'thorough': {'len6': 9, 'len5': 15, 'len4': 34}}
A5 = ['\\', '\n', '"', "'", '$', '#', 'a', 'n', '0']
A4 = A5 + ['\r', '{', '}', '%', ' ', '*']
A3 = A4 + ['\t', '!', '(', '[', ')', ']', '.', 'u', 'x', 'N', '\x00', '\x85', '\u2028', 'é', '<', '>', '\x0c', '@', '\U0001F600']
CONTEXTS = ['bare', 'between', 'if', 'for', 'def', 'raw', 'rawlines', 'comment']


def enum(tier, mode):
    d = 0 if tier == 'quick' else 1
    seen = set()
    for n in (0, 1, 2):
        for t in itertools.product(A3, repeat=n):
            s = ''.join(t)
            seen.add(s)
            for c in CONTEXTS:
                yield [c, s]
    for alpha, n in ((A3, 3 + d), (A4, 4 + d), (A5, 5 + d)):
        for k in range(3, n + 1):
            for t in itertools.product(alpha, repeat=k):
                if alpha is not A3 and k <= 3 or alpha is A5 and k <= 4 + d:
                    continue
                s = ''.join(t)
                yield ['bare', s]
                if k <= 3:
                    yield ['between', s]
                    yield ['raw', s]
    # everything that looks like a Python escape sequence
    for n in (2, 3, 4 if tier == 'thorough' else 3):
        for t in itertools.product('x0c17nNuUabfrtv89Fe{} ', repeat=n):
            s = ''.join(t)
            yield ['bare', '\\' + s]
            if n == 2:
                yield ['bare', 'a\\\\' + s]
                yield ['bare', '"\\' + s + "'"]
    for a, b in itertools.product('xuU', ('0c', '0a', '000a', '0000000a', '27', '0022', '5c', '5cn', '7f', '80', 'e9', '20AC', '0001F600')):
        for pre in ('', '\\', 'q', "'", '"', '\n'):
            for post in ('', '\\', "'", '\n', '0'):
                for c in ('bare', 'between', 'if', 'raw'):
                    yield [c, pre + '\\' + a + b + post]
    # every single character, batched, and next to the start tokens
    for lo in range(1, 0x3000 if tier == 'quick' else 0x20000, 64):
        cps = [c for c in range(lo, lo + 64) if not 0xD800 <= c < 0xE000 and chr(c) not in '#$\\<*']
        yield ['bare', 'q' + 'q'.join(map(chr, cps)) + 'q']
        yield ['bare', 'q' + ''.join(map(chr, cps)) + 'q']
        yield ['bare', ''.join('$%cq' % c for c in cps if not (chr(c).isalpha() and c < 128 or chr(c) in '_*!{([' ))]
        yield ['raw', 'q' + 'q'.join(map(chr, cps)) + 'q']
    # long texts
    for unit in ('a', '\n', "'", '"', '\\', 'a\n', '\\n', "'\n", '"\'', '\t', '\xe9', '$ ', '# ', '%s', '\\$'):
        for n in (100, 1000, 3000):
            yield ['bare', 'x' + unit * n + 'x']
    # text samples around the generated-literal boundaries
    for pre in ("'", '"', "'''", '"""', '\\', '\\\\', "\\'", '\n', '\\n', '\\012', '%s', '%(a)s', '{0}', "''", '""'):
        for mid in ("'", '"', "'''", '"""', '\\', '\n', '\r\n', '\\n', '\\012', '\\\n', 'x', '%', '\\x', '\\N{', '\\u'):
            for post in ("'", '"', "'''", '"""', '\\', '\n', '\\n', '', '\t', '%d', '\\\\n', '\r'):
                for c in ('bare', 'between', 'if'):
                    yield [c, pre + mid + post]


VAR = re.compile(r'\$!?(?:\*[0-9.]+[smhdw]?\*|\*)?(?:[{(\[][ \t\f]*)?[A-Za-z_]')
EXPR = re.compile(r'\$(?:\*[0-9.]+[smhdw]?\*|\*)?[{(\[][ \t\f]*[^)}\]]')
SLURP = re.compile(r'#[ \t\f]*(?:\r\n|\n|\r)')
DIRECTIVE = re.compile(r'#[A-Za-z_@]')


def reference(s, dirty=False):
    """Expected output, or None when the string is outside the domain."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        esc = i > 0 and s[i - 1] == '\\'
        if c == '\\' and s[i + 1:i + 2] in ('$', '#'):
            i += 1
            continue
        if c == '$' and not esc:
            m = VAR.match(s, i)
            if m:
                m = re.compile(r'\$a(?![A-Za-z0-9_]|\.[A-Za-z_]|\(|\[)').match(s, i) \
                    or re.compile(r'\$\{a\}').match(s, i)
                if not m:
                    return None
                out.append('V')
                i = m.end()
                continue
            if EXPR.match(s, i):
                return None
        if c == '#' and not esc:
            if s[i + 1:i + 2] in ('#', '*'):
                return None
            if SLURP.match(s, i):
                bol = max(s.rfind('\n', 0, i), s.rfind('\r', 0, i)) + 1
                if bol < i and s[bol:i].isspace() and not (dirty and bol == 0):
                    # alone on its line: the indentation goes as well
                    del out[len(out) - (i - bol):]
                i = SLURP.match(s, i).end()
                continue
            if DIRECTIVE.match(s, i) and s[i + 1] == '@':
                return None
        if c == '<' and s[i + 1:i + 2] == '%' and not esc:
            return None
        out.append(c)
        i += 1
    return ''.join(out)


def check(case, ctx):
    context, s = case
    if context in ('raw', 'rawlines'):
        if s.endswith('\\'):
            return
        if context == 'raw':
            if s[:1] in ('#', '*'):
                return          # would make the tag's end token a comment start
            src = '${a}#raw#' + s + '#end raw#$a'
            m = re.search(r'(?:\r\n|\n|\r)(\s*)\Z', s)
            want = 'V' + (s[:m.start(1)] if m else s) + 'V'
            if m and m.group(1) or re.match(r'\s*\Z', s) and s:
                return          # whitespace before #end raw on its own line: C06
        else:
            src = 'A\n#raw\n' + s + '\n#end raw\nB\n'
            want = 'A\n' + s + '\nB\n'
        if '\x0c' in s or '\x85' in s or '\u2028' in s:
            pass
        want_ = want
    else:
        want_ = reference(s, context != 'bare')
        if want_ is None:
            ctx.outcome('outside the domain')
            return
        if context != 'bare' and any(reference(s + x, True) != want_ + x for x in ';a{'):
            return              # what follows would change the reading of s
        if context == 'bare':
            src = s
        elif context == 'between':
            if s.endswith('\\') or re.match(r'[\[(]|\.[A-Za-z_]|[A-Za-z0-9_]', s) or s.endswith('$') \
                    or s.endswith('#') or s.endswith('<'):
                if s.endswith('\\') or s.endswith('$') or s.endswith('#') or s.endswith('<'):
                    return
            src, want_ = '${a}' + s + '${a}', 'V' + want_ + 'V'
        else:
            if s[-1:] in ('\\', '$', '#', '<') or re.search(r'(\A|\r|\n)\s*\Z', s):
                return
            if s[:1] in ('\n', '\r', '#', ' ', '\t', '\x0c', '*') or not s.strip():
                return          # whitespace next to a directive or comment: C06
            if context == 'if':
                src, want_ = '#if 1#' + s + '#end if#', want_
            elif context == 'for':
                src, want_ = '#for $i in [1, 2]#' + s + '#end for#', want_ * 2
            elif context == 'comment':
                src, want_ = 'x#* c *#' + s, 'x' + want_
            else:
                src, want_ = '#def m#' + s + '#end def#$m', want_
    klass = None
    got = tutil.outcome(lambda: tutil.render(src, [{'a': 'V'}]))
    ctx.evals += 1
    ctx.outcome(context)
    if re.search(r'[^a-zA-Z0]', s):
        ctx.interesting(case)
    ctx.sample(src)
    if got != ('ok', want_):
        ctx.fail('text', 'source %r: engine %r, expected %r' % (src, got, want_))
