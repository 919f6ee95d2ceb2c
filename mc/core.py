"""Bounded exhaustive explorer shared by every check.

A check is a module mc.checks.<ID> with

  LEVEL, RULE          how the evidence file describes it
  MODES                which builds of the code under test are explored
                       ('c': with the C NameMapper built from the tree,
                        'pure': without it)
  enum(tier, mode)     a deterministic generator of JSON-able cases; the
                       complete bounded space, simplest cases first
  check(case, ctx)     runs one case against the real code and the reference
                       model; reports through ctx
  init(mode, tier)     optional, once per worker

Nothing is sampled: the workers split the enumeration by index and every index
is visited.  VERIF_SEED is recorded, but has no influence on what is explored.
"""
import hashlib
import importlib
import json
import mmap
import os
import pickle
import signal
import struct
import subprocess
import sys
import sysconfig
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
SCRATCH = os.environ.get('MC_SCRATCH') or '/tmp'
CASE_CPU_S = 30.0
MAXVIOL = 3


class Hang(BaseException):
    pass


def h64(obj):
    return int.from_bytes(hashlib.blake2b(
        repr(obj).encode('utf-8', 'backslashreplace'), digest_size=8).digest(), 'big')


class Ctx(object):
    """What one worker gathers."""

    def __init__(self, mode, tier):
        self.mode = mode
        self.tier = tier
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = set()
        self.outcomes = {}
        self.samples = []
        self.viols = []
        self.case = None
        self.index = None

    def state(self, *obj):
        self.states.add(h64(obj))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        name = str(name)
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def interesting(self, *obj):
        self.nontrivial.add(h64(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, key, detail):
        """key: identifies this violation for known_findings."""
        self.viols.append({'index': self.index, 'mode': self.mode,
                           'case': self.case, 'key': key, 'detail': detail})

    def expect(self, what, got, want, key=None):
        if got != want:
            self.fail(key or what, '%s: got %r, expected %r' % (what, got, want))
            return False
        return True


# ---------------------------------------------------------------- the build
def build_ext():
    """Compile the C NameMapper from the working tree into the scratch dir."""
    out = os.path.join(SCRATCH, 'cext')
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, '_namemapper' + sysconfig.get_config_var('EXT_SUFFIX'))
    if not os.path.exists(so):
        cmd = ['gcc', '-shared', '-fPIC', '-O1', '-g', '-w', '-fno-strict-aliasing',
               '-I', sysconfig.get_paths()['include'],
               '-I', os.path.join(REPO, 'Cheetah', 'c'),
               os.path.join(REPO, 'Cheetah', 'c', '_namemapper.c'), '-o', so]
        subprocess.check_call(cmd)
    return so


def load_repo(mode, so=None):
    """Import Cheetah from the working tree, in C or pure mode."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if mode == 'pure':
        sys._cheetah_namemapper_pure = True
    else:
        import importlib.machinery
        import importlib.util
        import Cheetah
        so = so or build_ext()
        loader = importlib.machinery.ExtensionFileLoader('Cheetah._namemapper', so)
        spec = importlib.util.spec_from_file_location('Cheetah._namemapper', so, loader=loader)
        mod = importlib.util.module_from_spec(spec)
        loader.exec_module(mod)
        sys.modules['Cheetah._namemapper'] = mod
        Cheetah._namemapper = mod
    import warnings
    warnings.simplefilter('ignore')
    import Cheetah.NameMapper as NM
    assert os.path.realpath(NM.__file__).startswith(os.path.realpath(REPO)), NM.__file__
    if mode == 'c':
        assert NM.C_VERSION, 'C NameMapper did not load'
    else:
        assert not NM.C_VERSION


# ---------------------------------------------------------------- running
def load_check(pid):
    from mc import scale
    return scale.wrap(pid, importlib.import_module('mc.checks.' + pid))


def run_case(mod, ctx, case, index):
    ctx.case, ctx.index = case, index
    n = len(ctx.viols)
    if index % 97 == 13:
        ctx.sample(case)

    def onhang(sig, frm):
        raise Hang()
    if hasattr(mod, 'NO_TIMER'):
        mod.check(case, ctx)
        return len(ctx.viols) > n
    signal.signal(signal.SIGPROF, onhang)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU_S', CASE_CPU_S))
    try:
        mod.check(case, ctx)
    except Hang:
        ctx.fail('hang', 'no result after %s s of CPU time' % CASE_CPU_S)
    except Exception:
        ctx.fail('exception', 'unexpected exception:\n' + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return len(ctx.viols) > n


def worker(pid, tier, mode, wi, nw, so, prog, outpath):
    os.setpgid(0, 0)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    errf = open(os.path.join(SCRATCH, 'stderr.%s.%d' % (mode, wi)), 'w')
    os.dup2(errf.fileno(), 2)
    load_repo(mode, so)
    mod = load_check(pid)
    ctx = Ctx(mode, tier)
    known = load_known(pid)
    if hasattr(mod, 'init'):
        mod.init(mode, tier)
    fresh = 0
    for i, case in enumerate(mod.enum(tier, mode)):
        if i % nw != wi:
            continue
        prog[wi * 8:wi * 8 + 8] = struct.pack('q', i)
        n = len(ctx.viols)
        run_case(mod, ctx, case, i)
        for v in ctx.viols[n:]:
            if match_known(known, v) is None:
                fresh += 1
        if fresh >= MAXVIOL or prog[-8]:
            if fresh:
                prog[-8] = 1
            break
    prog[wi * 8:wi * 8 + 8] = struct.pack('q', -2)
    if hasattr(mod, 'finish'):
        mod.finish(ctx)
    with open(outpath, 'wb') as f:
        pickle.dump(ctx.__dict__, f)
    os._exit(0)


# ---------------------------------------------------------------- known findings
def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def match_known(known, v):
    for k in known:
        if k['key'] == v['key'] and (k.get('case') is None or k['case'] == v['case']):
            return k
    return None


# ---------------------------------------------------------------- main
def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    jobs = os.cpu_count() or 4
    jobs = min(jobs, 8)
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = rest.pop(0)
        elif a == '--jobs':
            jobs = int(rest.pop(0))
        else:
            print('unknown argument %r' % a, file=sys.stderr)
            return 2
    sys.path.insert(0, VERIF)
    t0 = time.time()
    if replay:
        return do_replay(pid, tier, replay)
    so = build_ext()
    mod = load_check(pid)
    modes = mod.MODES
    weight = getattr(mod, 'WEIGHT', {})
    total = sum(weight.get(m, 1) for m in modes)
    share = dict((m, max(1, round(jobs * weight.get(m, 1) / total))) for m in modes)
    nw_total = sum(share.values())
    prog = mmap.mmap(-1, 8 * (nw_total + 1))
    kids = {}
    gi = -1
    for mode in modes:
        per = share[mode]
        for wi in range(per):
            gi += 1
            out = os.path.join(SCRATCH, 'out.%d' % gi)
            sub = memoryview(prog)
            cpid = os.fork()
            if cpid == 0:
                try:
                    p = _Prog(prog, gi, nw_total)
                    worker(pid, tier, mode, wi, per, so, p, out)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
            kids[cpid] = (mode, wi, gi, out)
    allkids = list(kids)
    viols = []
    results = []
    errors = []
    try:
        while kids:
            cpid, status = os.wait()
            if cpid not in kids:
                continue
            mode, wi, gi, out = kids.pop(cpid)
            if status == 0:
                with open(out, 'rb') as f:
                    results.append((mode, pickle.load(f)))
                continue
            idx = struct.unpack('q', prog[gi * 8:gi * 8 + 8])[0]
            sig = status & 0x7f
            err = ''
            try:
                with open(os.path.join(SCRATCH, 'stderr.%s.%d' % (mode, wi))) as f:
                    err = f.read()[-3000:]
            except OSError:
                pass
            if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL,
                       signal.SIGFPE) and idx >= 0:
                viols.append({'index': idx, 'mode': mode, 'case': None, 'key': 'crash',
                              'detail': 'the interpreter died with signal %d\n%s' % (sig, err)})
                prog[nw_total * 8:nw_total * 8 + 1] = b'\x01'
            else:
                errors.append('worker %s/%d ended with status %d at case %d: %s'
                              % (mode, wi, status, idx, err))
                prog[nw_total * 8:nw_total * 8 + 1] = b'\x01'
    finally:
        for k in allkids:
            try:
                os.killpg(k, signal.SIGKILL)
            except OSError:
                pass
    for mode, d in results:
        viols.extend(d['viols'])
    if errors and not viols:
        for e in errors:
            print('ERROR: ' + e, file=sys.stderr)
        return 2
    for v in viols:
        if v['case'] is None:
            for i, c in enumerate(mod.enum(tier, v['mode'])):
                if i == v['index']:
                    v['case'] = c
                    break
    known = load_known(pid)
    fresh, seen_known = [], {}
    for v in viols:
        k = match_known(known, v)
        if k is None:
            fresh.append(v)
        else:
            seen_known.setdefault(k['key'], k)
    fresh.sort(key=lambda v: (v['index'], v['mode']))
    wall = time.time() - t0
    write_evidence(pid, mod, tier, results, fresh, wall, jobs)
    for k in known:
        if k['key'] in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    tot = sum(d['evals'] for _, d in results)
    print('%s %s: %d cases, %.1f s' % (pid, tier, tot, wall))
    if fresh:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'violations': fresh[:20],
                       'replay_cmd': '/opt/venv/bin/python /verif/run.py %s --replay %s' % (pid, path)},
                      f, indent=1, default=repr)
        for v in fresh[:3]:
            print('  case %s [%s] key=%s: %s\n    %s' % (
                v['index'], v['mode'], v['key'], json.dumps(v['case'], default=repr)[:600],
                v['detail'][:1500].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


class _Prog(object):
    """Progress slots shared with the parent; slot nw_total is the stop flag."""

    def __init__(self, mm, gi, n):
        self.mm, self.gi, self.n = mm, gi, n

    def __getitem__(self, k):
        return self.mm[self.n * 8]

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            self.mm[self.gi * 8:self.gi * 8 + 8] = v
        else:
            self.mm[self.n * 8] = 1


def write_evidence(pid, mod, tier, results, fresh, wall, jobs):
    states, nontriv, outcomes, samples = set(), set(), {}, []
    trans = traces = evals = 0
    for mode, d in results:
        states |= d['states']
        nontriv |= d['nontrivial']
        trans += d['transitions']
        traces += d['traces']
        evals += d['evals']
        for k, n in d['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
        for s in d['samples']:
            if len(samples) < 4:
                samples.append(s)
    cov = {'evaluations': evals, 'samples': samples, 'rule': mod.RULE,
           'exhaustive': not fresh, 'outcomes': dict(sorted(outcomes.items())),
           'modes': mod.MODES, 'bounds': mod.BOUNDS[tier]}
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(states), transitions=trans,
                   traces_validated_against_impl=traces)
    if mod.LEVEL != 'model_checking' or nontriv:
        cov['distinct_nontrivial'] = len(nontriv)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': mod.LEVEL, 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(fresh), 'assumptions': getattr(mod, 'ASSUMPTIONS', [])}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)


def do_replay(pid, tier, path):
    with open(path) as f:
        rep = json.load(f)
    mod = load_check(pid)
    bad = 0
    so = build_ext()
    for v in rep['violations']:
        cpid = os.fork()
        if cpid == 0:
            load_repo(v['mode'], so)
            if hasattr(mod, 'init'):
                mod.init(v['mode'], rep.get('tier', tier))
            ctx = Ctx(v['mode'], tier)
            run_case(mod, ctx, v['case'], v['index'])
            for w in ctx.viols:
                print('REPLAYED %s: %s\n  %s' % (w['key'], json.dumps(w['case'], default=repr), w['detail']))
            sys.stdout.flush()
            os._exit(1 if ctx.viols else 0)
        _, st = os.waitpid(cpid, 0)
        bad += st != 0
    print('%d of %d violations reproduced' % (bad, len(rep['violations'])))
    return 1 if bad else 0
