"""Includes: all sequences of raw and rendered, file and source includes whose names coincide, in every context, over repeated renderings."""
import itertools
import os
import shutil
import tempfile

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 2}
RULE = ('one case = one template made of a sequence of includes in a context, rendered three times (with changing data) on one instance and once on another one; '
        'every rendering is compared with the model of its includes; states are (includes done so far, data), transitions are includes')
BOUNDS = {'quick': {'sequence length': '3 over 12 include forms (4 over the 8 whose names coincide)', 'contexts': 10, 'contents': 'every string of up to 2 out of 23 characters'},
          'thorough': {'sequence length': '4 over 12 include forms', 'contexts': 10, 'contents': 'up to 3'}}

DIR = [None, None]
# the names of files are at the same time valid template texts
FILES = {'p$x': 'F$x;', 'q$x': 'G#if $y#$y#end if#;\n', 'sub/p$x': 'S${x}', 'ns': '$g-$x#set global g = "h"#'}


def init(mode, tier):
    DIR[0] = tempfile.mkdtemp(prefix='c14')
    DIR[1] = os.getcwd()
    os.chdir(DIR[0])
    os.mkdir('sub')
    for n, c in FILES.items():
        with open(n, 'w') as f:
            f.write(c)


def finish(ctx):
    os.chdir(DIR[1] or '/')
    if DIR[0]:
        shutil.rmtree(DIR[0])


# form -> (directive text, raw?, content)
def forms():
    out = {}
    for n, k in (('p$x', 'p'), ('q$x', 'q')):
        out['f' + k] = ('#include $n_%s#' % k, False, FILES[n])
        out['F' + k] = ('#include raw $n_%s#' % k, True, FILES[n])
        out['s' + k] = ('#include source=$n_%s#' % k, False, n)
        out['S' + k] = ('#include raw source=$n_%s#' % k, True, n)
    out['lit'] = ("#include 'p$x'#", False, FILES['p$x'])
    out['dir'] = ('#include "sub/" + $n_p#', False, FILES['sub/p$x'])
    out['glob'] = ('#include "ns"#', False, FILES['ns'])
    out['deep'] = ('#include source=$deep#', False, None)
    out['abs'] = ('#include $absp#', False, FILES['p$x'])
    out['absraw'] = ('#include raw $absp#', True, FILES['p$x'])
    return out


FORMS = forms()
EIGHT = [k for k in FORMS if len(k) == 2]
TWELVE = EIGHT + ['lit', 'dir', 'glob', 'deep']
CONTEXTS = {
    'plain': ('<%s>', 1), 'loop': ('#for $i in [1, 2]#%s#end for#', 2), 'method': ('#def m#%s#end def#($m)', 1), 'call': ('#call $ident#%s#end call#', 1),
    'capture': ('#capture c#%s#end capture#{$c}', 1), 'if': ('#if $y or True#%s#end if#', 1), 'lines': ('%s', 1), 'block': ('#block b#%s#end block#', 1), 'twice': ('%s-%s', 2), 'cachedless': ('#try#%s#finally#.#end try#', 1),
}


def enum(tier, mode):
    for n in range(3 if mode == 'c' or tier == 'thorough' else 2):
        for t in itertools.product(CHARS, repeat=n + (tier == 'thorough' and mode == 'c')):
            yield ['content', ''.join(t)]
    for ctx in CONTEXTS:
        for h in itertools.product(TWELVE + ['abs', 'absraw'], repeat=2):
            yield [ctx, list(h)]
    if tier == 'quick':
        for ctx in ('plain', 'loop', 'method', 'capture'):
            for h in itertools.product(TWELVE if ctx == 'plain' else EIGHT, repeat=3):
                yield [ctx, list(h)]
        for h in itertools.product(EIGHT, repeat=4):
            yield ['plain', list(h)]
    else:
        for ctx in CONTEXTS:
            for h in itertools.product(TWELVE, repeat=3):
                yield [ctx, list(h)]
        for h in itertools.product(TWELVE, repeat=4):
            yield ['plain', list(h)]
    yield ['fileobj', []]


class Model(object):
    def __init__(self):
        self.g = {}

    def text(self, t, ns):
        """The handful of constructs of the included texts."""
        y = ns['y']
        if t.startswith('G#if'):
            return 'G%s;\n' % (y if y else '')
        if t.startswith('$g-'):
            r = '%s-%s' % (self.g.get('g', ns['g']), ns['x'])
            self.g['g'] = 'h'
            return r
        return t.replace('${x}', ns['x']).replace('$x', ns['x'])

    def run(self, seq, ns, ctx):
        out = []
        for f in seq:
            ctx.trans()
            _, raw, content = FORMS[f]
            if f == 'deep':
                out.append('D' + self.text('p$x', ns) + self.text(FILES['q$x'], ns))
            else:
                out.append(content if raw else self.text(content, ns))
            ctx.state(f, sorted(self.g.items()), ns['x'])
        return ''.join(out)


def check(case, ctx):
    cname, seq = case
    ctx.trace()
    if cname == 'fileobj':
        return fileobj(ctx)
    if cname == 'content':
        return do_content(case, ctx)
    body = ''.join(FORMS[f][0] for f in seq)
    if cname == 'lines':
        body = ''.join(FORMS[f][0].rstrip('#') + '\n' for f in seq)
    pat, times = CONTEXTS[cname]
    src = pat.replace('%s', body)
    try:
        cls = tutil.compile_(src)
    except Exception as e:
        ctx.fail('compile', '%r does not compile: %s' % (src, tutil.exc_name(e)))
        return
    ns = {'n_p': 'p$x', 'n_q': 'q$x', 'ident': lambda s: '[' + s + ']', 'deep': 'D#include source=$n_p##include $n_q#', 'absp': os.path.join(DIR[0], 'p$x'), 'g': 'g0'}
    insts = [cls(searchList=[ns]) for _ in 'ab']
    models = [Model(), Model()]
    for k, (i, x, y) in enumerate(((0, 'X', ''), (0, 'Z<', 'yes'), (1, 'X', ''), (0, 'W', ''))):
        ns['x'], ns['y'] = x, y
        m = models[i]
        runs = []
        for _ in range(times):
            runs.append(m.run(seq, ns, ctx))
        if cname == 'loop':
            want = ''.join(runs)
        elif cname == 'twice':
            want = '-'.join(runs)
        elif cname == 'lines':
            want = runs[0]
        elif cname == 'call':
            want = '[' + runs[0] + ']'
        elif cname == 'method':
            want = '(' + runs[0] + ')'
        elif cname == 'capture':
            want = '{' + runs[0] + '}'
        elif cname == 'plain':
            want = '<' + runs[0] + '>'
        elif cname == 'cachedless':
            want = runs[0] + '.'
        else:
            want = runs[0]
        got = tutil.outcome(lambda: str(insts[i]))
        ctx.evals += 1
        ctx.outcome(got[0])
        if got != ('ok', want):
            ctx.fail('output', '%r (files %r), rendering %d: engine %r, expected %r' % (src, FILES, k, got, want))
            break
        if len(set(seq)) > 1:
            ctx.interesting(cname, sorted(set(seq)), k)
    tutil._cleanup(cls)


# contents: raw ones are inserted as they are, rendered ones where they contain nothing but text
CHARS = ['a', ' ', '\n', '\t', '\x00', '\x1a', '\x0b', '\x0c', '\ufeff', '\xe9', '\u2028', '\x85', '$', '#', '\\', '"', "'", '%', '{', '}', '*', '<', '@']


def do_content(case, ctx):
    """Every string as the content of a raw and (text only) a rendered include, of a file and of a source."""
    c = case[1]
    with open('content', 'w', encoding='utf-8', newline='') as f:
        f.write(c)
    with open('content', encoding='utf-8') as f:
        assert f.read() == c
    for text, raw in (('#include raw "content"#', 1), ('#include raw source=$c#', 1), ('#include "content"#', 0), ('#include source=$c#', 0)):
        if not raw and (set(c) & set('$#\\') or '<%' in c):
            continue
        if 'source' not in text and not c.isascii():
            import locale
            if locale.getpreferredencoding(False).lower().replace('-', '') != 'utf8':
                continue
        if not raw and not c:
            continue
        src = '[' + text + '|' + text + ']'
        got = tutil.outcome(lambda: tutil.render(src, [{'c': c}]))
        ctx.evals += 1
        ctx.trans(2)
        ctx.state(c, text)
        ctx.outcome(got[0])
        if got != ('ok', '[%s|%s]' % (c, c)):
            ctx.fail('content', '%r with the content %r gives %r' % (src, c, got))
            return


def fileobj(ctx):
    for raw in ('',):
        with open('p$x') as f:
            cls = tutil.compile_('<#include $f#|#include $f#>')
            t = cls(searchList=[{'f': f, 'x': 'X'}])
            for _ in range(2):
                got = tutil.outcome(lambda: str(t))
                ctx.evals += 1
                if got != ('ok', '<FX;|FX;>'):
                    ctx.fail('file object', 'include of an open file: %r' % (got,))
