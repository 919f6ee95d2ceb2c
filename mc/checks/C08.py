"""Variable scopes: all short programs of assignments and reads over main body, methods, includes and closures."""
import itertools

from mc import tutil

LEVEL = 'model_checking'
MODES = ['c', 'pure']
WEIGHT = {'c': 6, 'pure': 2}
RULE = ('one case = one template (main body, method, include, search list) rendered twice on each of two instances of one class; states are '
        '(scope contents, position), transitions are executed operations; every model run is compared with the real engine, and the '
        'search-list objects are compared with copies afterwards')
BOUNDS = {'quick': {'assignments': 'every style x 10 names x dollar or not x 14 targets; every operator', 'main': 'all operation sequences up to length 3 over 17 operations', 'method': '12 bodies (8 at length 3)', 'include': '7 bodies (4 at length 3)'},
          'thorough': {'assignments': 'same', 'main': 'up to length 4', 'method': '12 bodies', 'include': '7 bodies'}}

# operation -> template text (one line of source each, inline form)
OPS = {
    'R': '[$!x]', 'V': "{$getVar('x', '-')}", 'E': "<$varExists('x')>",
    'L': "#set $x = 'l'#", 'L2': "#set $x = 'k'#", 'LA': "#set $x = str($x) + '+'#", 'G': "#set global x = 'g'#", 'G2': "#set global x = 'h'#",
    'GA': "#set global x = str($x) + '*'#", 'D': '#del $x#', 'F': "#for $x in ['f', 'e']#.#end for#", 'K': '#capture x#c#end capture#',
    'C': '${m}', 'A': "${n('arg')}", 'B': '$n2()', 'I': '#include source=$inc#', 'Y': "#try##raise ValueError('v')##except ValueError as x#!#end try#",
    'Z': "$len([x for x in [1]])", 'KC': "#closure kk#(#set $x = 'z'#$x)#end closure#${kk()}", 'W': '#set $y, $x = 1, 2#', 'SB': '#set $dd[0] = 5#$dd[0]',
    'GD': "#set global gd = {}##set global gd['k'] = 'q'#$gd.k", 'P': '${x_attr}', 'BL': '#block bk#~[$!x]#set $x = "b"#[$x]#end block#',
    'SI': "#silent $setit#", 'CK': "#closure k1(x)##closure k2(x)#^$x#end closure#$k2('i')$x#end closure#${k1('o')}",
}
MAIN = ['R', 'L', 'LA', 'G', 'G2', 'GA', 'D', 'F', 'K', 'C', 'A', 'I', 'V', 'Y', 'KC', 'W', 'CK']
METHODS = [['R'], ['L', 'R'], ['G', 'R'], ['R', 'G'], ['LA', 'R'], ['GA', 'R'], ['L', 'G', 'R', 'D', 'R'], ['R', 'L', 'A', 'R'], ['I', 'R'], ['F', 'R'], ['V', 'G2', 'V'], ['R', 'D']]
INCLUDES = [['R'], ['L', 'R'], ['G', 'R'], ['R', 'GA'], ['V', 'E'], ['L', 'V', 'D', 'R'], ['R', 'C']]
WORLDS = [{}, {'x': 's'}, {'x': 7}]
TAILS = ['', "#attr $x = 'at'\n", "#set module x = 'mod'\n"]


class NF(Exception):
    pass


class Model(object):
    """One instance of the template."""

    def __init__(self, case, cls, world, ctx):
        self.main, self.mbody, self.ibody, self.tail = case[0], METHODS[case[1]], INCLUDES[case[2]], case[4]
        self.cls = cls              # shared by the instances: attributes and module globals
        self.G = {}
        self.world = world
        self.ctx = ctx
        self.depth = 0

    def search(self, name):
        if name in self.G:
            return self.G[name]
        if name in self.cls['attr']:
            return self.cls['attr'][name]
        if name in self.world:
            return self.world[name]
        raise NF(name)

    def get(self, loc, name):
        if name in loc:
            return loc[name]
        try:
            return self.search(name)
        except NF:
            if name in self.cls['mod'] and not loc.get('#inc'):
                return self.cls['mod'][name]
            raise

    def run(self, ops, loc, out):
        for op in ops:
            self.ctx.trans()
            self.ctx.state(op, sorted((k, str(v)) for k, v in loc.items()), sorted(self.G.items()), self.world.get('x'), self.depth)
            if op == 'R':
                try:
                    out.append('[%s]' % self.get(loc, 'x'))
                except NF:
                    out.append('[]')
            elif op == 'V':
                try:
                    out.append('{%s}' % self.search('x'))
                except NF:
                    out.append('{-}')
            elif op == 'E':
                try:
                    self.search('x')
                    out.append('<True>')
                except NF:
                    out.append('<False>')
            elif op in ('L', 'L2'):
                loc['x'] = {'L': 'l', 'L2': 'k'}[op]
            elif op == 'LA':
                loc['x'] = str(self.get(loc, 'x')) + '+'
            elif op == 'GA':
                self.G['x'] = str(self.get(loc, 'x')) + '*'
            elif op in ('G', 'G2'):
                self.G['x'] = {'G': 'g', 'G2': 'h'}[op]
            elif op == 'D':
                if 'x' not in loc:
                    raise UnboundLocalError
                del loc['x']
            elif op == 'F':
                out.append('..')
                loc['x'] = 'e'
            elif op == 'K':
                loc['x'] = 'c'
            elif op == 'W':
                loc['x'] = 2
            elif op == 'C':
                self.call(self.mbody, {}, out)
            elif op == 'A':
                out.append('(')
                self.run(['R', 'L2', 'R'], {'x': 'arg'}, out)
                out.append(')')
            elif op == 'I':
                self.call(self.ibody, {'#inc': True}, out)
            elif op == 'Y':
                out.append('!')
                loc.pop('x', None)      # Python unbinds the name at the end of the clause
            elif op == 'KC':
                out.append('(z)')
            elif op == 'CK':
                out.append('^io')
            else:
                raise AssertionError(op)

    def call(self, ops, loc, out):
        if self.depth > 6:
            raise RecursionError
        self.depth += 1
        try:
            o = []
            self.run(ops, loc, o)
            out.extend(o)
        finally:
            self.depth -= 1

    def render(self):
        out = []
        try:
            self.run(self.main, {}, out)
        except Exception as e:
            return ('exc', 'NotFound' if isinstance(e, NF) else type(e).__name__)
        return ('ok', ''.join(out))


def source(case):
    main, mi, ii, wi, tail = case
    return (TAILS[tail] + '#def m#' + ''.join(OPS[o] for o in METHODS[mi]) + '#end def##def n(x)#(' + OPS['R'] + OPS['L2'] + OPS['R'] + ')#end def#'
            + ''.join(OPS[o] for o in main))


def relevant(main, mi, ii):
    uses = set(main) | (set(METHODS[mi]) if 'C' in main else set())
    if 'C' not in main and mi and not ('I' in main and 'C' in INCLUDES[ii]):
        return False
    inc = 'I' in main or ('C' in main and 'I' in METHODS[mi])
    if not inc and ii:
        return False
    if 'I' in METHODS[mi] and 'C' in INCLUDES[ii]:
        return False            # endless recursion
    return True


# assignments: style x name x dollar x target x operator; the expected values come from executing the Python statement
NAMES = ['x', 'localx', 'globalx', 'moduleName', 'local_', 'global1', 'modules', 'setx', 'elsewhere', 'x_y']
STYLES = ['', 'local', 'global', 'module']
TARGETS = ['', "['k']", '["k"]', "['k'][0]", "['k'][1]['q']", "['a.b']", "['c[d']", "['=']", '.x', '.o.x', ".o.d['k']", ".l[0]", ".l[1].x", ".o.d['a.b']"]
AUGS = ['=', '+=', '-=', '*=', '//=', '%=', '**=', '<<=', '>>=', '&=', '|=', '^=', '/=']
NS = 'types.SimpleNamespace(x=9, l=[8, types.SimpleNamespace(x=7)], o=types.SimpleNamespace(x=6, d={"k": 5, "a.b": 4}))'
DICT = '{"k": [11, {"q": 12}], "a.b": 13, "c[d": 14, "=": 15}'
MULTI = ['$a, $b = 1, 2', '($a, $b) = (1, 2)', '[$a, $b] = [1, 2]', '$a, ($b, $c) = 1, (2, 3)', 'a, b = 1, 2', '$a,$b=[1,2]', '$a = 1, 2', '$a = (1 == 1)',
         '$a = 1 == 2', '$a = "x=y"', '$a = dict(b=3)', '$a = {"=": 1}["="]', '$a = lambda q=1: q', '$a = [q for q in (1, 2) if q == 2]', '$a = 1 <= 2', '$a = 1 != 2',
         '$a = not 1 == 2', '$a = "#"', '$a = (1,\n2)', '$a=-1', '$a = 3 if 1 else 4']


def set_cases():
    for style in range(len(STYLES)):
        for name in range(len(NAMES)):
            for dollar in (0, 1):
                for target in range(len(TARGETS)):
                    for aug in range(len(AUGS)):
                        if aug and (name or target in (1, 2)):
                            continue
                        yield ['set', style, name, dollar, target, aug]
    for style in range(len(STYLES)):
        for m in range(len(MULTI)):
            for form in (0, 1):
                yield ['multi', style, m, form]


def check_set(case, ctx):
    import types
    ns = {'types': types}
    if case[0] == 'set':
        style, name, target, op = STYLES[case[1]], NAMES[case[2]], TARGETS[case[4]], AUGS[case[5]]
        var = ('$' if case[3] else '') + name
        base = '20' if not target else DICT if target[0] == '[' else NS
        lead = '#set %s %s = %s\n' % (style, var, base)
        stmt = '#set %s %s%s %s 3\n' % (style, var, target, op)
        src = '#import types\n#def m\n[$!%s]#slurp\n#end def\n' % (name + target) + lead + stmt + '[${%s%s}]$m' % (name, target)
        exec('%s = %s\n%s%s %s 3' % (name, base, name, target, op), ns)
        want = '[%s]' % eval(name + target, ns)
        if style in ('', 'local'):
            want += '[]'
        else:
            want += want
    else:
        style, text = STYLES[case[1]], MULTI[case[2]]
        if style == 'global' and (',' in text.split('=')[0] or text.count('= ') > 1 and '$b' in text):
            return          # one variable per '#set global'
        src = ('#set %s %s#' if case[3] else '#set %s %s\n') % (style, text)
        names = [n for n in 'abc' if '$' + n in text or n == 'b' and text.startswith('a, b') or n == 'a']
        if 'lambda' in text:
            src += '[${a()}]'
        else:
            src += ''.join('[$%s]' % n for n in names)
        exec(text.replace('$', ''), ns)
        want = '[1]' if 'lambda' in text else ''.join('[%s]' % (ns[n],) for n in names)
    ctx.sample(src)
    ctx.state(case)
    ctx.trans(2)
    ctx.trace()
    for rnd in range(2):
        got = tutil.outcome(lambda: tutil.render(src, {}))
        ctx.evals += 1
        ctx.outcome(case[0])
        if got != ('ok', want):
            ctx.fail('assign', '%r: engine %r, Python %r' % (src, got, want))
            return
    ctx.interesting(case)


def enum(tier, mode):
    for c in set_cases():
        if mode == 'c' or tier != 'quick' or c[0] == 'multi':
            yield c
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for main in itertools.product(MAIN, repeat=k):
            main = list(main)
            if main[-1] in ('L', 'LA', 'F', 'K', 'W', 'D') and k == n or not set(main) & {'R', 'V', 'C', 'I', 'A'}:
                continue
            if k >= 3 and mode == 'pure' and tier == 'quick' and 'LA' in main:
                continue
            for mi in range(len(METHODS)):
                for ii in range(len(INCLUDES)):
                    if not relevant(main, mi, ii):
                        continue
                    if tier == 'quick' and k == 3 and 'C' in main and 'I' in main and (mi > 6 or ii > 3):
                        continue
                    if k == 4 and 'C' in main and 'I' in main and (mi > 2 or ii > 2):
                        continue
                    if tier == 'quick' and k == 3 and (mi > 7 or ii > 3 or mode == 'pure' and (mi > 2 or ii > 1)):
                        continue
                    for wi in range(len(WORLDS)):
                        for tail in range(len(TAILS)):
                            if tier == 'quick' and k == 3 and (wi == 2 or tail == 2 and not set(main) & {'C', 'I'} or tail and mode == 'pure'):
                                continue
                            if k == n and wi == 2 and tail or k == 4 and (wi == 2 or tail == 2):
                                continue
                            yield [main, mi, ii, wi, tail]


def check(case, ctx):
    if case[0] in ('set', 'multi'):
        return check_set(case, ctx)
    main, mi, ii, wi, tail = case
    src = source(case)
    ctx.sample(src)
    inc = ''.join(OPS[o] for o in INCLUDES[ii])
    cls = {'attr': {'x': 'at'} if tail == 1 else {}, 'mod': {'x': 'mod'} if tail == 2 else {}}
    klass = tutil.compile_(src)
    try:
        worlds = [dict(WORLDS[wi], inc=inc), dict(WORLDS[wi], inc=inc)]
        before = [dict(w) for w in worlds]
        models = [Model(case, cls, {k: v for k, v in w.items()}, ctx) for w in worlds]
        reals = [klass(searchList=[w]) for w in worlds]
        for rnd in ((0, 0), (1, 0), (0, 1), (1, 1)):
            i = rnd[0]
            want = models[i].render()
            got = tutil.outcome(lambda: str(reals[i]))
            ctx.evals += 1
            ctx.trace()
            ctx.outcome(want[0] if want[0] == 'ok' else want[1])
            if got != want:
                ctx.fail('scope', '%r (include %r), instance %d rendering %d with %r: engine %r, model %r'
                         % (src, inc, i, rnd[1], WORLDS[wi], got, want))
                return
        if worlds != before:
            ctx.fail('searchlist', '%r changed the search-list object: %r' % (src, worlds))
        ctx.interesting(case)
    finally:
        tutil._cleanup(klass)
