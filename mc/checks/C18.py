"""Web input: all combinations of field values, requested names and conversions, defaults and sources on the real webInput, against a conversion table."""
import io
import itertools
import json
import os
import sys
from urllib.parse import quote_plus

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c']
RULE = ('one request case = one source of fields with given values and one webInput call with given names, conversions and defaults; one sequence case = successive calls on one template instance; '
        'one CGI case = one GET, urlencoded POST or multipart POST request in a child process of its own; states are the returned dictionaries (or the exceptions), transitions are webInput calls')
BOUNDS = {'quick': {'request': '15 values x 6 requested spellings x single/multi x 5 defaults x 5 replacements for bad values x sources f, c, v, s', 'names': 'all pairs of requests over two fields',
                    'sequences': 'all histories of 3 calls out of 9', 'CGI': 'all field lists of length 0 to 3 over 2 names and 6 values, GET, POST and multipart, with and without the cgi module'},
          'thorough': {'request': 'the same', 'names': 'all triples', 'sequences': 'all histories of 4 calls', 'CGI': 'lists of length 4'}}
ASSUMPTIONS = ['a request object answers field/cookie/value(name, default) with a string, a list of strings or the default, as Webware does',
               'each CGI request has a process of its own; an empty value is not sent (the form parsers drop it)']

MISSING = None
VALUES = [MISSING, 'a', '5', ' 7 ', '1.5', '-3', 'x1', '1e3', '0x10', ['1', '2'], ['a', '3'], ['4', 'b', '6'], ['9'], ['1.5', '2'], []]
SUFFIX = ['', ':', ':int', ':float', ':long', ':INT']


class Gone(Exception):
    pass


class BadValue(ValueError):
    pass


DEFAULTS = ['', None, 'D', -1, Gone]
BADS = [0, None, 'B', -2.5, BadValue]


def dec(x):
    return {'Gone': Gone, 'BadValue': BadValue}.get(x, x) if isinstance(x, str) else x


def enc(x):
    return x.__name__ if isinstance(x, type) else x


class Req:
    def __init__(self, maps):
        self.m = maps

    def _get(self, kind, name, default):
        return self.m[kind].get(name, default)

    def field(self, name, default=None):
        return self._get('f', name, default)

    def cookie(self, name, default=None):
        return self._get('c', name, default)

    def value(self, name, default=None):
        return self._get('v', name, default)

    def session(self):
        m = self.m

        class S:
            def value(self, name, default=None):
                return m['s'].get(name, default)
        return S()


# ------------------------------------------------------------------ reference
class Err(Exception):
    pass


def ref_one(name, multi, data, kw):
    short, _, ext = name.partition(':')
    kinds = {'': (None, kw['default'], None), 'int': (int, kw['defaultInt'], kw['badInt']), 'float': (float, kw['defaultFloat'], kw['badFloat'])}
    vals = data.get(name) if data.get(name) else data.get(short)
    if vals is None:
        vals = []
    elif isinstance(vals, (str, bytes)):
        vals = [vals]
    if ext not in kinds:
        raise Err('TypeError')
    conv, dflt, bad = kinds[ext]
    out = []
    for v in vals:
        if conv is None:
            out.append(v)
            continue
        try:
            out.append(conv(v))
        except ValueError:
            if isinstance(bad, type):
                raise Err(bad.__name__)
            out.append(bad)
    if multi:
        return short, out
    if out:
        return short, out[0]
    if isinstance(dflt, type):
        raise Err(dflt.__name__)
    return short, dflt


KW = {'default': '', 'defaultInt': 0, 'defaultFloat': 0.0, 'badInt': 0, 'badFloat': 0.0}


def ref(names, multi, data, kw):
    k = dict(KW, **kw)
    d = {}
    try:
        for n in names:
            a, b = ref_one(n, False, data, k)
            d[a] = b
        for n in multi:
            a, b = ref_one(n, True, data, k)
            d[a] = b
    except Err as e:
        return ['exc', e.args[0]]
    return ['ok', d]


def shape(r):
    return [r[0], sorted((k, repr(v)) for k, v in r[1].items())] if r[0] == 'ok' else list(r)


def call(t, names, multi, src, kw):
    try:
        return ['ok', t.webInput(names, multi, src=src, **kw)]
    except Exception as e:
        return ['exc', type(e).__name__]


def servlet(maps):
    from Cheetah.Template import Template
    t = Template('')
    t._CHEETAH__isControlledByWebKit = True
    t.request = lambda r=Req(maps): r
    return t


def maps_for(src, data):
    """The requested source holds data, the others hold decoys."""
    decoy = dict((k, 'decoy') for k in ('x', 'y', 'x:int', 'x:float'))
    return dict((s, data if s == src else decoy) for s in 'fcvs')


# ------------------------------------------------------------------ enumeration
CALLS = [(['x'], []), (['x:int'], []), ([], ['x']), ([], ['x:int']), (['y'], []), (['x', 'y:int'], []), (['y:float'], ['x']), (['z'], []), ([], [])]
SEQDATA = [{'x': '5', 'y': '2'}, {'x': ['1', 'a'], 'y': ''}, {'y': 'q'}]
TOK = [('x', 'a'), ('x', '5'), ('x', 'b c&=%'), ('x', '\u00e9'), ('y', '7'), ('y', 'n')]


def enum(tier, mode):
    for src in ('f', 'c', 'v', 's') if True else ():
        for vi in range(len(VALUES)):
            for sx in SUFFIX:
                for multi in (0, 1):
                    for di in range(len(DEFAULTS)):
                        for bi in range(len(BADS)):
                            yield ['req', src, vi, sx, multi, di, bi]
    for vi in range(len(VALUES)):
        for li in range(len(VALUES)):
            for sx in (':int', ':float', ':'):
                for multi in (0, 1):
                    yield ['long', vi, li, sx, multi]
    reqs = [(n + s, m) for n in 'xy' for s in ('', ':int', ':float') for m in (0, 1)]
    depth = 2 if tier == 'quick' else 3
    for rs in itertools.product(range(len(reqs)), repeat=depth):
        for vx in (0, 1, 2, 9, 11):
            for vy in (0, 3, 6, 10):
                for u in ('F', 'f'):
                    yield ['names', [list(reqs[i]) for i in rs], vx, vy, u]
    for h in itertools.product(range(len(CALLS)), repeat=3 if tier == 'quick' else 4):
        for d in range(len(SEQDATA)):
            yield ['seq', list(h), d]
    for s in ('', 'q', 'fv', 'x', 'F ', 'g'):
        yield ['badsrc', s]
    for s in 'fcvsFCVS':
        yield ['cgisrc', s]
    for n in range(0, 4 if tier == 'quick' else 5):
        for toks in itertools.product(range(len(TOK)), repeat=n):
            if n > 2 and len(set(toks)) < 2:
                continue
            for m in ('GET', 'NOCGI', 'POST', 'MULTI'):
                yield ['cgi', m, list(toks)]
    for body in ('', 'A', 'hello\nworld', '12', '\u00e9'):
        for extra in (0, 1, 2):
            for ask in (['x'], []), ([], ['x']), (['x:int'], []):
                yield ['upload', body, extra, list(ask)]


def data_of(*pairs):
    return dict((k, VALUES[v]) for k, v in pairs if VALUES[v] is not None)


def do_req(case, ctx):
    _, src, vi, sx, multi, di, bi = case
    data = data_of(('x', vi), ('y', 1))
    d, b = DEFAULTS[di], BADS[bi]
    kw = {}
    for nm, v in (('default', d), ('defaultInt', d), ('defaultFloat', d), ('badInt', b), ('badFloat', b)):
        if not (nm == 'default' and v == '') and not (nm.startswith('default') and nm != 'default' and v == '') and not (nm.startswith('bad') and v == 0 and v is not None):
            kw[nm] = v
    names, multis = ([], ['x' + sx]) if multi else (['x' + sx], [])
    t = servlet(maps_for(src, data))
    n0 = len(t.searchList())
    ctx.trans()
    got = call(t, names, multis, src, kw)
    want = ref(names, multis, data, kw)
    ctx.state(shape(want))
    ctx.outcome(want[0])
    what = 'webInput(%r, %r, src=%r, %s) of %r' % (names, multis, src, ', '.join('%s=%r' % i for i in sorted(kw.items())), data)
    if shape(got) != shape(want):
        ctx.fail('value', '%s gives %r, expected %r' % (what, shape(got), shape(want)))
    if len(t.searchList()) != n0 + (got[0] == 'ok'):
        ctx.fail('searchList', '%s leaves %d entries in the searchList' % (what, len(t.searchList())))
    if got[0] == 'ok' and t.getVar('x', 'unset') != want[1]['x'] and repr(t.getVar('x', 'unset')) != repr(want[1]['x']):
        ctx.fail('visible', '%s: $x is %r' % (what, t.getVar('x', 'unset')))


def do_long(case, ctx):
    _, vi, li, sx, multi = case
    data = data_of(('x', vi), ('x' + sx, li))
    names, multis = ([], ['x' + sx]) if multi else (['x' + sx], [])
    t = servlet(maps_for('f', data))
    ctx.trans()
    got, want = call(t, names, multis, 'f', {}), ref(names, multis, data, {})
    ctx.state(shape(want))
    if VALUES[li] == [] and VALUES[vi] is None:
        return
    if shape(got) != shape(want):
        ctx.fail('long name', 'webInput(%r, %r) of %r gives %r, expected %r' % (names, multis, data, shape(got), shape(want)))


def do_names(case, ctx):
    _, rs, vx, vy, src = case
    data = data_of(('x', vx), ('y', vy))
    names, multis = [n for n, m in rs if not m], [n for n, m in rs if m]
    t = servlet(maps_for('f', data))
    ctx.trans()
    got, want = call(t, tuple(names), tuple(multis), src, {}), ref(names, multis, data, {})
    ctx.state(shape(want))
    if shape(got) != shape(want):
        ctx.fail('names', 'webInput(%r, %r) of %r gives %r, expected %r' % (names, multis, data, shape(got), shape(want)))


def do_seq(case, ctx):
    _, h, d = case
    data = SEQDATA[d]
    src = ''.join('#silent $webInput(%r, %r)#' % CALLS[i] for i in h)
    src += "${getVar('x', 'nox')}|${getVar('y', 'noy')}|${getVar('z', 'noz')}"
    k = tutil.compile_(src)
    try:
        t = k(searchList=[{'z': 'given', 'x': 'givenx'}])
        t._CHEETAH__isControlledByWebKit = True
        t.request = lambda r=Req(maps_for('f', data)): r
        ctx.trans(len(h))
        got = str(t)
    finally:
        tutil._cleanup(k)
    vis = {'z': 'given', 'x': 'givenx', 'y': 'noy'}
    for i in h:
        vis.update(ref(CALLS[i][0], CALLS[i][1], data, {})[1])
    want = '%s|%s|%s' % (vis['x'], vis['y'], vis['z'])
    ctx.state(want)
    if got != want:
        ctx.fail('sequence', '%r with fields %r gives %r, expected %r' % (src, data, got, want))


def in_child(env, stdin, nocgi, calls):
    """Run webInput calls in a forked child with a request of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            if nocgi:               # Python 3.13 and later have no cgi module
                sys.modules['cgi'] = None
                for m in [m for m in sys.modules if m.split('.')[0] == 'Cheetah']:
                    del sys.modules[m]
            import Cheetah.Template as T
            for k in ('QUERY_STRING', 'REQUEST_METHOD', 'CONTENT_TYPE', 'CONTENT_LENGTH'):
                os.environ.pop(k, None)
            os.environ.update(env)
            sys.argv = ['x']
            sys.stdin = io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
            out = []
            for names, multis in calls:
                t = T.Template('')
                out.append(shape(call(t, names, multis, 'f', {})))
            os.write(w, json.dumps(out).encode())
        except BaseException as e:
            os.write(w, json.dumps(['child', repr(e)]).encode())
        finally:
            os._exit(0)
    os.close(w)
    b = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        b += x
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(b)


ASK = [(['x'], []), (['x:int'], ['y']), ([], ['x', 'y:int']), (['y', 'z'], []), (['y:float'], ['x:int', 'z'])]


def form(toks):
    data = {}
    for i in toks:
        k, v = TOK[i]
        data.setdefault(k, []).append(v)
    return data


def do_cgi(case, ctx):
    _, method, toks = case
    data = form(toks)
    qs = '&'.join('%s=%s' % (quote_plus(TOK[i][0]), quote_plus(TOK[i][1])) for i in toks)
    if method in ('GET', 'NOCGI'):
        env, stdin = {'REQUEST_METHOD': 'GET', 'QUERY_STRING': qs}, b''
    elif method == 'POST':
        stdin = qs.encode()
        env = {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': 'application/x-www-form-urlencoded', 'CONTENT_LENGTH': str(len(stdin))}
    else:
        env, stdin = multipart([(TOK[i][0], None, TOK[i][1]) for i in toks])
    got = in_child(env, stdin, method == 'NOCGI', ASK)
    ctx.trans(len(ASK))
    want = [shape(ref(n, m, data, {})) for n, m in ASK]
    ctx.state(want)
    if got != json.loads(json.dumps(want)):
        ctx.fail('cgi ' + method, '%s request %r: %r gives %r, expected %r' % (method, qs, ASK, got, want))


def multipart(parts):
    b = b''
    for name, fn, val in parts:
        b += b'--BB\r\nContent-Disposition: form-data; name="%s"%s\r\n%s\r\n' % (name.encode(), b'; filename="%s"' % fn.encode() if fn else b'', b'Content-Type: application/octet-stream\r\n' if fn else b'')
        b += val.encode() + b'\r\n'
    b += b'--BB--\r\n'
    return {'REQUEST_METHOD': 'POST', 'CONTENT_TYPE': 'multipart/form-data; boundary=BB', 'CONTENT_LENGTH': str(len(b))}, b


def do_upload(case, ctx):
    _, body, extra, ask = case
    parts = [('x', 'f.txt', body)] + [('x', 'g.txt', '7')] * (extra == 1) + [('y', None, 'b')] * (extra == 2)
    data = {'x': [p[2].encode() for p in parts if p[0] == 'x']}
    env, stdin = multipart(parts)
    got = in_child(env, stdin, False, [ask])
    ctx.trans()
    want = [shape(ref(ask[0], ask[1], data, {}))]
    ctx.state(want)
    if got != json.loads(json.dumps(want)):
        ctx.fail('upload', 'uploaded file %r (%d parts): %r gives %r, expected %r' % (body, len(parts), ask, got, want))


def check(case, ctx):
    ctx.evals += 1
    kind = case[0]
    if kind == 'badsrc':
        ctx.trans()
        r = call(servlet(maps_for('f', {'x': '1'})), ['x'], [], case[1], {})
        ctx.state(r[0])
        if r[0] == 'ok':
            ctx.fail('source', 'src=%r is accepted: %r' % (case[1], r))
        return
    if kind == 'cgisrc':
        from Cheetah.Template import Template
        ctx.trans()
        ctx.state(case[1])
        if case[1].lower() in 'cs':
            r = call(Template(''), ['x'], [], case[1], {})
            if r != ['exc', 'RuntimeError']:
                ctx.fail('cgi source', 'src=%r in a CGI script gives %r' % (case[1], r))
        return
    globals()['do_' + kind](case, ctx)
