"""Small template programs: AST, printers (block / inline / one-line), and a
reference interpreter with explicit states.

A node is a JSON list:
 ['T', text] ['P', name] ['S', var, expr] ['Q', expr] ['O', expr] ['B'] ['C'] ['Z']
 ['X'] ['E', expr] ['N', exc] ['A', expr]
 ['I', [[cond, body], ...], else|None]        #if / #elif / #else
 ['U', cond, body, else|None]                 #unless
 ['F', var, expr, body, else|None]            #for
 ['W', var, n, body, else|None]               counted #while
 ['R', expr, body]                            #repeat
 ['Y', body, [[spec, body], ...], else|None, finally|None]   #try
 ['J', cond, e1, e2]                          #if c then e1 else e2
"""
import re

EXC = {'ValueError': ValueError, 'KeyError': KeyError, 'IndexError': IndexError,
       'AssertionError': AssertionError}


# ---------------------------------------------------------------- printing
def clauses(n, elif_='#elif '):
    """[(header, body, prelude)] and the end tag of a compound node."""
    k = n[0]
    if k == 'I':
        out = []
        for i, (c, b) in enumerate(n[1]):
            out.append((('#if ' if i == 0 else elif_) + c, b))
        if n[2] is not None:
            out.append(('#else', n[2]))
        return out, '#end if'
    if k == 'U':
        out = [('#unless ' + n[1], n[2])]
        if n[3] is not None:
            out.append(('#else', n[3]))
        return out, '#end unless'
    if k == 'F':
        out = [('#for %s in %s' % (re.sub(r'(\w+)', r'$\1', n[1]), n[2]), n[3])]
        if n[4] is not None:
            out.append(('#else', n[4]))
        return out, '#end for'
    if k == 'W':
        out = [('#while $%s > 0' % n[1], [['S', n[1], '$%s - 1' % n[1]]] + n[3])]
        if n[4] is not None:
            out.append(('#else', n[4]))
        return out, '#end while'
    if k == 'R':
        return [('#repeat ' + n[1], n[2])], '#end repeat'
    if k == 'K':
        return [('#call $%s' % n[1], n[2])], '#end call'
    if k == 'KA':
        cl = [('#call $%s' % n[1], None)]
        for name, b in n[2]:
            cl.append(('#arg ' + name, b))
        return cl, '#end call'
    if k == 'G':
        return [('#capture %s' % n[1], n[2])], '#end capture'
    if k == 'H':
        return [('#filter %s' % n[1], n[2])], '#end filter'
    if k == 'BL':
        return [('#block %s' % n[1], n[2])], '#end block'
    if k == 'DF':
        return [('#def %s' % n[1], n[2])], '#end def'
    if k == 'CA':
        return [('#cache' + (' ' + n[1] if n[1] else ''), n[2])], '#end cache'
    if k == 'Y':
        out = [('#try', n[1])]
        for spec, b in n[2]:
            out.append(('#except' + (' ' + spec if spec else ''), b))
        if n[3] is not None:
            out.append(('#else', n[3]))
        if n[4] is not None:
            out.append(('#finally', n[4]))
        return out, '#end try'
    raise AssertionError(n)


def simple(n):
    k = n[0]
    if k == 'T':
        return n[1]
    if k == 'P':
        return '${%s}' % n[1]
    if k == 'S':
        return '#set $%s = %s' % (n[1], n[2])
    if k == 'Q':
        return '#silent ' + n[1]
    if k == 'O':
        return '#echo ' + n[1]
    if k == 'J':
        return '#if %s then %s else %s' % (n[1], n[2], n[3])
    if k == 'E':
        return '#return ' + n[1]
    if k == 'N':
        return '#raise %s("m")' % n[1]
    if k == 'A':
        return '#assert ' + n[1]
    return {'B': '#break', 'C': '#continue', 'Z': '#pass', 'X': '#stop'}[k]


SIMPLE = 'TPSQOJENABCZX'


def to_block(body, ind=''):
    out = []
    for n in body:
        if n[0] in SIMPLE:
            out.append((ind if n[0] not in 'TP' else '') + simple(n) + '\n')
            continue
        if n[0] == 'W':
            out.append('%s#set $%s = %d\n' % (ind, n[1], n[2]))
        cl, end = clauses(n)
        for h, b in cl:
            out.append(ind + h + '\n')
            out.append(to_block(b or [], ind + '  ' if ind is not None else ''))
        out.append(ind + end + '\n')
    return ''.join(out)


def to_inline(body):
    out = []
    for n in body:
        if n[0] in 'TP':
            out.append(simple(n))
            continue
        if n[0] in SIMPLE:
            out.append(simple(n) + '#')
            continue
        if n[0] == 'W':
            out.append('#set $%s = %d#' % (n[1], n[2]))
        cl, end = clauses(n, '#else if ')
        for h, b in cl:
            out.append(h + '#')
            out.append(to_inline(b or []))
        out.append(end + '#')
    return ''.join(out)


def to_colon(body):
    """Compound statements in their one-line form, one per line; bodies inline.

    Simple statements stand on their own lines.  What is printed keeps every
    clause body on its clause's line, so the line end belongs to the body.
    """
    out = []
    for n in body:
        if n[0] in SIMPLE:
            out.append(simple(n) + '\n')
            continue
        if n[0] == 'W':
            out.append('#set $%s = %d\n' % (n[1], n[2]))
        cl, end = clauses(n)
        if n[0] in ('KA', 'DF', 'BL'):
            out.append(to_block([n]))
            continue
        for h, b in cl:
            out.append(h + ': ' + to_inline(b) + '\n')
    return ''.join(out)


# ---------------------------------------------------------------- interpreter
def py(expr):
    """Python source of a Cheetah expression of our alphabet."""
    parts = re.split(r'("[^"]*"|\'[^\']*\')', expr)
    for i in range(0, len(parts), 2):
        s = re.sub(r'\$(\w+)\.(get|keys|items|__len__)\b', r'_L("\1", 0).\2', parts[i])
        s = re.sub(r'\$(\w+)\.(\w+)', r'_A(_L("\1"), "\2")', s)
        s = re.sub(r'\$(\w+)\(', r'_L("\1", 0)(', s)
        parts[i] = re.sub(r'\$(\w+)', r'_L("\1")', s)
    return ''.join(parts)


def getitem_or_attr(o, k):
    return o[k] if isinstance(o, dict) and k in o else getattr(o, k)


def assign(loc, target, v):
    if isinstance(target, tuple):
        vs = list(v)
        assert len(vs) == len(target)
        for t, x in zip(target, vs):
            assign(loc, t, x)
    else:
        loc[target] = v


class Break(BaseException):
    pass


class Continue(BaseException):
    pass


class Stop(BaseException):
    pass


class Return(BaseException):
    pass


class NameMissing(LookupError):
    pass


def method_table(body, style, inner=False, table=None):
    """name -> (body, style) of every #def and #block in a program."""
    table = {} if table is None else table
    for n in body:
        st = style
        if style == 'colon':
            st = 'inline' if inner else 'block'
        if n[0] in ('DF', 'BL'):
            table[n[1]] = (n[2], st)
            method_table(n[2], st, inner, table)
        elif n[0] not in SIMPLE:
            for h, b in clauses(n)[0]:
                if n[0] == 'KA' and style == 'colon' and not inner:
                    method_table(b or [], 'block', False, table)
                else:
                    method_table(b or [], style, style == 'colon' or inner, table)
    return table


def websafe(v):
    v = '' if v is None else str(v)
    return v.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def plain(v):
    return '' if v is None else str(v)


FILTERS = {'WebSafe': websafe, 'None': plain, 'Strip': None}


class Interp(object):
    """Reference interpreter. style: 'block' (text and placeholders end with a
    line end), 'inline' (they do not), 'colon' (a compound's bodies are inline
    and followed by one line end)."""

    def __init__(self, style, search, ctx):
        self.loc = {}
        self.search = search
        self.out = []
        self.style = style
        self.ctx = ctx

    def look(self, name, auto=1):
        if name in self.loc:
            v = self.loc[name]
        elif name in self.search:
            v = self.search[name]
        else:
            raise NameMissing(name)
        if auto and callable(v):
            v = v()
        return v

    def ev(self, expr):
        return eval(py(expr), {'_L': self.look, '_A': getitem_or_attr})

    def w(self, s):
        self.out.append(s)

    filt = staticmethod(plain)

    def val(self, v):
        self.w(self.filt(v))

    def clause(self, body, inner, tail=True):
        """One clause body of a compound node."""
        if self.style == 'colon' and not inner:
            self.run(body, inner=True)
            self.w('\n')
        else:
            self.run(body, inner=inner)

    def run(self, body, inner=False):
        nl = '\n' if self.style == 'block' or (self.style == 'colon' and not inner) else ''
        for n in body:
            self.step(n, nl, inner)

    def step(self, n, nl, inner):
        k = n[0]
        self.ctx.trans()
        self.ctx.state(n, sorted(self.loc.items()), self.out and self.out[-1], self.search.get('a'),
                       self.search.get('b'), len(self.out))
        if k == 'T':
            self.w(n[1] + nl)
        elif k == 'P':
            self.val(self.look(n[1]))
            self.w(nl)
        elif k == 'S':
            self.loc[n[1]] = self.ev(n[2])
        elif k == 'Q':
            self.ev(n[1])
        elif k == 'O':
            self.val(self.ev(n[1]))
        elif k == 'J':
            self.val(self.ev(n[2]) if self.ev(n[1]) else self.ev(n[3]))
        elif k == 'E':
            raise Return(self.ev(n[1]))
        elif k == 'N':
            raise EXC[n[1]]('m')
        elif k == 'A':
            if not self.ev(n[1]):
                raise AssertionError()
        elif k == 'B':
            raise Break()
        elif k == 'C':
            raise Continue()
        elif k == 'Z':
            pass
        elif k == 'X':
            raise Stop(''.join(self.out))
        elif k == 'I':
            for c, b in n[1]:
                if self.ev(c):
                    self.clause(b, inner)
                    return
            if n[2] is not None:
                self.clause(n[2], inner)
        elif k == 'U':
            if not self.ev(n[1]):
                self.clause(n[2], inner)
            elif n[3] is not None:
                self.clause(n[3], inner)
        elif k in 'FWR':
            self.loop(n, inner)
        elif k == 'Y':
            self.try_(n, inner)
        else:
            raise AssertionError(n)

    def loop(self, n, inner):
        k = n[0]
        orelse = None
        if k == 'F':
            body, orelse = n[3], n[4]
            items = iter(list(self.ev(n[2])))

            def more():
                for v in items:
                    assign(self.loc, eval(re.sub(r'(\w+)', r'"\1"', n[1])), v)
                    return True
                return False
        elif k == 'W':
            self.loc[n[1]] = n[2]
            body, orelse = n[3], n[4]

            def more():
                if not self.look(n[1]) > 0:
                    return False
                self.loc[n[1]] = self.look(n[1]) - 1
                return True
        else:
            body = n[2]
            cnt = [self.ev(n[1])]

            def more():
                cnt[0] -= 1
                return cnt[0] >= 0
        broke = False
        while more():
            try:
                self.clause(body, inner)
            except Break:
                broke = True
                break
            except Continue:
                continue
        if not broke and orelse is not None:
            self.clause(orelse, inner)

    def try_(self, n, inner):
        _, body, handlers, orelse, fin = n
        try:
            try:
                self.clause(body, inner)
            except Exception as e:
                for spec, b in handlers:
                    if self.matches(spec, e):
                        m = re.search(r' as (\w+)$', spec or '')
                        if m:
                            self.loc[m.group(1)] = e
                        try:
                            self.clause(b, inner)
                        finally:
                            if m:
                                self.loc.pop(m.group(1), None)
                        break
                else:
                    raise
            else:
                if orelse is not None:
                    self.clause(orelse, inner)
        finally:
            if fin is not None:
                self.clause(fin, inner)

    @staticmethod
    def matches(spec, e):
        if not spec:
            return True
        spec = re.sub(r' as \w+$', '', spec)
        return isinstance(e, eval(spec, dict(EXC, Exception=Exception)))

    def result(self, body):
        try:
            self.run(body)
            return ('ok', ''.join(self.out))
        except Stop as st:      # what had been written when it was reached
            return ('ok', st.args[0])
        except Return as r:
            return ('ok', r.args[0])
        except NameMissing:
            return ('exc', 'NotFound')
        except Exception as e:
            return ('exc', type(e).__name__)


class Interp2(Interp):
    """Adds output regions: an explicit stack of collectors, filters, methods."""

    def __init__(self, style, search, ctx, methods=None):
        Interp.__init__(self, style, search, ctx)
        self.methods = methods if methods is not None else {}
        self.cache = {}
        self.depth = 0

    def collect(self, body, inner, nlmode=None):
        saved, self.out = self.out, []
        self.depth += 1
        try:
            self.run(body, inner)
            return ''.join(self.out)
        finally:
            self.depth -= 1
            self.out = saved

    root = None      # with a transaction: the response all unbuffered methods write to

    def call_method(self, name, same_out=False):
        """Output of a method: own locals, current filter, own collector."""
        body, style = self.methods[name]
        saved = self.out, self.loc, self.filt, self.style
        if not same_out:
            self.out = []
            if self.root is not None and self.depth == 0:
                self.out = self.root
                same_out = True
        self.loc = {}
        self.style = style
        try:
            try:
                self.run(body, False)
            except Stop as st:
                return st.args[0]
            return '' if same_out else ''.join(self.out)
        finally:
            self.out, self.loc, self.filt, self.style = saved

    def look(self, name, auto=1):
        if name not in self.loc and name in self.methods:
            return self.call_method(name) if auto else (lambda: self.call_method(name))
        return Interp.look(self, name, auto)

    def step(self, n, nl, inner):
        k = n[0]
        colon = self.style == 'colon' and not inner and k not in ('KA', 'DF', 'BL')
        if k in ('K', 'KA', 'G', 'H', 'BL', 'DF', 'CA'):
            self.ctx.trans()
            self.ctx.state(n, self.depth, sorted(map(str, self.loc.items())), ''.join(self.out)[-8:])
        block_inside = inner
        binner = True if colon else inner
        if k == 'K':
            v = self.collect(n[2], binner)
            self.val(self.search[n[1]](v))
            if colon:
                self.w(nl)
        elif k == 'KA':
            st, self.style = self.style, ('block' if self.style == 'colon' and not inner else self.style)
            try:
                kws = {}
                for name, b in n[2]:
                    kws[name] = self.collect(b, inner)
            finally:
                self.style = st
            self.val(self.search[n[1]](**kws))
        elif k == 'G':
            self.loc[n[1]] = self.collect(n[2], binner)
            if colon:
                self.w(nl)
        elif k == 'H':
            saved = self.filt
            self.filt = FILTERS[n[1]]
            try:
                self.run(n[2], binner)
            finally:
                self.filt = saved
            if colon:
                self.w(nl)
        elif k in ('BL', 'DF'):
            if k == 'BL':
                self.call_method(n[1], same_out=True)
        elif k == 'CA':
            if n[2] is not None:
                key = repr(n)
                if key not in self.cache:
                    v = self.collect(n[2], binner)
                    if colon:
                        v += '\n'
                    self.cache[key] = v
                self.w(self.cache[key])
        else:
            Interp.step(self, n, nl, inner)
