"""P08: results depend on the arguments only, and the process is left as it was found.

The same seeded program runs in a clean process and in processes whose ambient state differs: poisoned uninitialised
memory, another hash seed or allocator, jumping clocks, other random seeds, numpy error handling, warning filters and print
options, another working directory, another thread, collector settings, and arbitrary earlier (also interrupted) work."""
import atexit
import contextlib
import copy
import gc
import io
import json
import logging
import math
import os
import pickle
import random
import signal
import socket
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings

import numpy as np

from . import fworld as W
from . import oworld as O
from .core import Engine, VERIF
from .fengine import EXC, gen_cfg
from .hooks import monitor, StepLimit
from .simdisk import SimFile
from .states import make_state, PNAMES, KINDS, num
from .zygote import ask

LIMIT = 4000000
VARIANTS = dict(poison=4, clock=1.5, seeds=2, errstate=2, warnings=1.5, printoptions=1, cwd=.7, gc=1.5, prior=4, prior_interrupted=3,
                thread=1.5, ascii=1, recursion=.5, environ=.7, alias=0, z_hash=3, z_malloc=2.5, z_opt=2)
ZYG = dict(z_hash=dict(PYTHONHASHSEED='4711'), z_malloc=dict(MALLOC_PERTURB_='165', PYTHONMALLOC='malloc'), z_opt=dict(PYTHONOPTIMIZE='1', PYTHONHASHSEED='99'))
_servers = {}


def start_servers():
    if _servers:
        return
    import funpy
    tree = os.path.dirname(os.path.dirname(os.path.abspath(funpy.__file__)))
    d = tempfile.mkdtemp(prefix='simz.')
    procs = []
    for k, env in ZYG.items():
        p = os.path.join(d, k)
        e = dict(os.environ, **env)
        e.update(PYTHONPATH=VERIF)
        procs.append(subprocess.Popen([sys.executable, '-m', 'sim.zygote', tree, p], env=e, cwd=VERIF, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL if not os.environ.get('SIM_STDERR') else None))
        _servers[k] = p
    me = os.getpid()

    def stop():
        if os.getpid() == me:
            for q in procs:
                q.kill()
                q.wait()
            for k in _servers:
                with contextlib.suppress(OSError):
                    os.unlink(_servers[k])
            with contextlib.suppress(OSError):
                os.rmdir(d)
    atexit.register(stop)
    end = time.monotonic() + 90
    while not all(os.path.exists(p) for p in _servers.values()):
        if time.monotonic() > end or any(q.poll() is not None for q in procs):
            raise RuntimeError('an interpreter with other settings did not start')
        time.sleep(0.05)


# ------------------------------------------------------------------------------------------------ settings
def settings():
    fds = len(os.listdir('/proc/self/fd'))
    f = [(a, getattr(m, 'pattern', m), c.__name__, getattr(o, 'pattern', o), ln) for a, m, c, o, ln in warnings.filters]
    st = np.random.get_state()
    return dict(errstate=dict(np.geterr()), errcall=np.geterrcall(), printoptions=repr(np.get_printoptions()), warningfilters=f,
                showwarning=id(warnings.showwarning), nprandom=(st[0], st[1].tobytes(), st[2], st[3], st[4]), random=hash(random.getstate()),
                cwd=os.getcwd(), environ=dict(os.environ), syspath=list(sys.path), gc=(gc.isenabled(), gc.get_threshold()),
                recursion=sys.getrecursionlimit(), bufsize=np.getbufsize(), stdout=id(sys.stdout), stderr=id(sys.stderr),
                logging=(logging.root.level, len(logging.root.handlers)), threads=threading.active_count(), fds=fds,
                sigint=id(signal.getsignal(signal.SIGINT)), excepthook=id(sys.excepthook), switch=sys.getswitchinterval(),
                umask=None, profile=id(sys.getprofile()))


def changed(a, b, ignore=()):
    return [k for k in a if k not in ignore and a[k] != b[k]]


# ------------------------------------------------------------------------------------------------ ambient variants
def poisoned(kind):
    e0, el0 = np.empty, np.empty_like
    fill = dict(nan=np.nan, huge=1e300, tiny=-3.7)[kind]

    def taint(a):
        if a.dtype.kind in 'fc':
            a.fill(fill)
        elif a.dtype.kind in 'iu':
            a.fill(77)
        elif a.dtype.kind == 'b':
            a.fill(True)
        return a

    def empty(*a, **k):
        return taint(e0(*a, **k))

    def empty_like(x, *a, **k):
        r = el0(x, *a, **k)
        return taint(r) if type(r) is np.ndarray else r
    np.empty, np.empty_like = empty, empty_like


def jumping_clock(seed):
    r = random.Random(seed)
    state = [1.7e9]

    def tick(*a):
        state[0] += r.choice([1e-6, 1.0, 3600.0, -7200.0, 0.0])
        return state[0]
    time.time = time.perf_counter = time.monotonic = time.process_time = tick
    for name, m in list(sys.modules.items()):
        if name.startswith('funpy') and m is not None:
            for k in ('time', 'perf_counter', 'monotonic', 'process_time', 'clock'):
                v = getattr(m, k, None)
                if callable(v) and not isinstance(v, type(sys)) and getattr(v, '__module__', None) == 'time':
                    setattr(m, k, tick)


def ambient(v, plan):
    k = v['kind']
    s = v['s']
    if k == 'poison':
        poisoned(['nan', 'huge', 'tiny'][s % 3])
    elif k == 'clock':
        jumping_clock(s)
    elif k == 'seeds':
        np.random.seed(s % 100000)
        random.seed(s)
    elif k == 'errstate':
        mode = [dict(all='ignore'), dict(all='warn'), dict(all='print'), dict(all='call'), dict(divide='ignore', over='warn')][s % 5]
        np.seterrcall(lambda *a: None)
        np.seterr(**mode)
    elif k == 'warnings':
        warnings.resetwarnings()
        warnings.simplefilter(['default', 'always', 'once', 'module'][s % 4])
        warnings.showwarning = lambda *a, **kw: None
    elif k == 'printoptions':
        np.set_printoptions(precision=2, threshold=3, edgeitems=1, suppress=True, linewidth=40)
    elif k == 'cwd':
        os.chdir('/')
    elif k == 'gc':
        [lambda: gc.disable(), lambda: gc.set_threshold(1, 1, 1), lambda: gc.set_threshold(7, 2, 2)][s % 3]()
    elif k == 'ascii':
        sys.stdout = io.TextIOWrapper(io.BytesIO(), encoding='ascii')
    elif k == 'recursion':
        sys.setrecursionlimit(5000)
    elif k == 'environ':
        os.environ.update(TZ='Asia/Kolkata', LANG='tr_TR.UTF-8', LC_ALL='C', HOME='/nonexistent', COLUMNS='20')
        time.tzset()
    elif k in ('prior', 'prior_interrupted'):
        execute(v['prior'], settings_too=False)


# ------------------------------------------------------------------------------------------------ programs
def outcome(F, x):
    """plain, comparable picture of a result"""
    if isinstance(x, F.Fun):
        t = x.onefun
        return ('fun', x.type, tuple(float(d) for d in x.domain), np.array(t.coeffs), np.array(getattr(t, 'isReal', [True]), bool).ravel().tolist(),
                bool(getattr(t, 'ishappy', True)))
    if hasattr(x, 'funcs') and hasattr(x, 'reals'):
        return ('state', type(x).__name__, [outcome(F, f) for f in x.funcs], [(r.name, num(r.value)) for r in x.reals],
                sorted((k, num(v)) for k, v in x.ns.items()), np.asarray(x.weights, float).ravel().tolist())
    if isinstance(x, np.ndarray):
        return ('array', np.array(x) if x.dtype != object else repr(x))
    if isinstance(x, (tuple, list)):
        return ('seq', [outcome(F, y) for y in x])
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, float, complex, np.number)):
        return ('num', complex(x))
    if isinstance(x, str) or x is None:
        return ('text', x if x is None or ' at 0x' not in x else '...')
    return ('other', type(x).__name__)


def differ(a, b):
    """None, or how two pictures differ (numbers to rounding)"""
    if type(a) is not type(b):
        return '%s vs %s' % (type(a).__name__, type(b).__name__)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return '%s %s vs %s %s' % (a.dtype, a.shape, b.dtype, b.shape)
        if a.tobytes() == b.tobytes():
            return None
        if a.dtype.kind in 'fc':
            fa, fb = np.isfinite(a), np.isfinite(b)
            if (fa != fb).any():
                return 'not finite'
            s = max(1e-300, np.max(np.abs(a[fa])) if fa.any() else 0)
            d = np.max(np.abs(a[fa] - b[fa])) if fa.any() else 0
            return None if d <= 1e-9 * s + 1e-14 else 'off by %.3g of %.3g' % (d, s)
        return 'different entries'
    if isinstance(a, (tuple, list)):
        if len(a) != len(b):
            return 'lengths %d, %d' % (len(a), len(b))
        for x, y in zip(a, b):
            d = differ(x, y)
            if d:
                return d
        return None
    if isinstance(a, (complex, float)):
        if a == b or (a != a and b != b):
            return None
        return None if abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-14 else '%r vs %r' % (a, b)
    return None if a == b else '%r vs %r' % (a, b)


class Program:
    def __init__(self, plan):
        import funpy
        import funpy.vectorspaces as vs
        self.plan = plan
        self.world = W.World(plan['cfg'])
        self.F = self.world.F
        self.vs = vs
        self.states = []
        self.mon = monitor()

    def thunk(self, op):
        """(kind, callable, must_fail, how to keep the result)"""
        k = op['op']
        w = self.world
        if k == 'solve':
            from funpy.colloc.chebOp import ChebOp
            P = O.BYNAME[op['p']]
            o = O.make_op(self.world.fp, ChebOp, P, op['pars'], 24)
            g = O.make_guess(self.F.Fun, P, 'fun', 1.0)
            def go():
                with contextlib.redirect_stdout(io.StringIO()) if not op.get('loud') else contextlib.nullcontext():
                    s, ok, res = o.solve(g, method=op['method'], adaptive=op['adaptive'])
                return [bool(ok), s if ok else None]
            return 'solve', go, False, None
        if k == 'state':
            same = [f for f in w.slots if w.slots and f.istrig == w.slots[0].istrig and f.m == w.slots[0].m and tuple(f.domain) == tuple(w.slots[0].domain)]
            if not same:
                raise W.Skip()
            u, phi = same[op['i'] % len(same)], same[op['j'] % len(same)]
            return 'state', lambda: make_state(self.vs, op['kind'], copy.deepcopy(u), copy.deepcopy(phi), op['names'], op['vals'], dict(op['ns'])), False, 'state'
        if k == 'stateop':
            if not self.states:
                raise W.Skip()
            s = self.states[op['i'] % len(self.states)]
            t = [x for x in self.states if type(x) is type(s) and x.shape == s.shape and [r.name for r in x.reals if r is not None] == [r.name for r in s.reals if r is not None]]
            t = t[op['j'] % len(t)]
            h = op['how']
            return 'stateop', (lambda: dict(add=lambda: s + t, sub=lambda: s - t, mul=lambda: s * 1.5, inner=lambda: complex(np.inner(s, t)) if False else s.norm(),
                                            norm=lambda: s.norm(), copy=lambda: copy.deepcopy(s), array=lambda: np.asarray(s))[h]()), False, 'state'
        if k == 'disk':
            f = w.slots[op['i'] % len(w.slots)] if w.slots else None
            if f is None:
                raise W.Skip()
            import h5py

            def go():
                with h5py.File(SimFile(), 'w') as h:
                    g = h.create_group('x')
                    f.writeHDF5(g)
                    return self.F.Fun.from_hdf5(g) if hasattr(self.F.Fun, 'from_hdf5') else None
            return 'disk', go, False, 'fun'
        if k == 'mat':
            from . import mengine as M
            if not hasattr(M.S, 'cheb'):
                M.load()
            if op['fn'] not in M.HAVE:
                raise W.Skip()

            def go():
                r, _ = M.REQ[op['fn']](M.S, op)
                pic = [np.array(M.dense(a)) for a in r]
                if op['spoil'] != 'no':
                    M.spoil(r, op['spoil'])
                return pic
            return op['fn'], go, False, None
        task = w.build(op)
        if task is None:
            return None
        objs = [w.slots[x] for x in task.reads]
        self.task, self.objs = task, objs
        return task.kind, lambda: task.thunk(objs), bool(task.must_fail), ('inplace' if task.target is not None else 'fun' if task.store else None)


def random_ctor(op):
    return op['op'] == 'new' and op.get('how') == 'ctor' and op.get('which') in ('random', 'random_decay')


def execute(plan, settings_too=True, skip_refusals=False):
    """runs one program; returns per operation (kind, outcome, settings changed)"""
    p = Program(plan)
    w = p.world
    out = []
    for op in plan['ops']:
        p.task = None
        rnd = random_ctor(op)
        if rnd:
            np.random.seed(op['s'] % 100000)
        try:
            th = p.thunk(op)
        except W.Skip:
            out.append(('skip', None, None))
            continue
        if th is None:
            out.append((op['op'], None, None))
            continue
        kind, go, must_fail, keep = th
        if must_fail and skip_refusals:
            out.append((kind, 'refused', None))
            continue
        fault = op.get('fault')
        before = settings() if settings_too else None
        err = res = None
        if fault:
            if p.task is not None:
                objs2 = copy.deepcopy(p.objs)
                task = p.task
                go = lambda: task.thunk(objs2)
            p.mon.start(limit=LIMIT, at=fault['k'], exc=EXC[fault['exc']]('injected'))
        else:
            p.mon.start(limit=LIMIT)
        try:
            res = go()
        except (Exception, KeyboardInterrupt, StepLimit) as e:
            err = e
        finally:
            p.mon.stop()
        fired = p.mon.fired is not None
        ch = None
        err_name = type(err).__name__ if err is not None else None
        err_text = str(err)[:100] if err is not None else None
        err = None
        if settings_too:
            ch = changed(before, settings(), ('nprandom',) if rnd else ())
        if fault:
            out.append((kind, 'interrupted' if fired else 'fault-missed', ch))
            continue
        if err_name:
            if keep == 'inplace' and not must_fail:
                t = p.objs[p.task.target]
                w.slots = [f for f in w.slots if f is not t]
            out.append((kind, ('error', err_name), ch))
            continue
        try:
            pic = outcome(p.F, p.objs[p.task.target] if keep == 'inplace' else res)
        except Exception as e:
            pic = ('unusable', type(e).__name__)
        out.append((kind, pic, ch))
        if keep == 'fun':
            for r in ([res] if isinstance(res, p.F.Fun) else [r for r in res if isinstance(r, p.F.Fun)] if isinstance(res, (list, tuple)) else []):
                w.slots.append(r)
                if len(w.slots) > w.maxslots:
                    w.slots.pop(0)
        elif keep == 'state' and hasattr(res, 'funcs'):
            p.states.append(res)
            if len(p.states) > 5:
                p.states.pop(0)
    return out


def run_guarded(plan, v):
    np.random.seed(12345)
    random.seed(54321)
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    try:
        if v is not None:
            ambient(v, plan)
        if v is not None and v['kind'] == 'thread':
            box = []
            t = threading.Thread(target=lambda: box.append(execute(plan)))
            t.start()
            t.join()
            return box[0]
        return execute(plan, skip_refusals=v is not None and v['kind'] == 'z_opt')
    except Exception:
        return ('harness', traceback.format_exc())


def forked(plan, v, timeout=120):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = pickle.dumps(run_guarded(plan, v))
            with os.fdopen(w, 'wb') as fh:
                fh.write(d)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        d = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else ('died', None)


NESTED = dict(P07=1, P09=1, P10=4, P11=1.5, P12=1, P13=1.5, P14=1, P15=1, P16=3)
NVARIANTS = dict(poison=6, clock=1, gc=1, printoptions=.5, ascii=.5, environ=.5, cwd=.5)


def nested(q, v):
    """a whole simulated run of another engine in a forked process: (what it found, settings it changed)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(150)
            warnings.simplefilter('ignore')
            np.seterr(all='ignore')
            random.seed(54321)
            from . import registry
            from .core import Rec
            eng = registry.make(q['property'])
            rec = Rec()
            try:
                if v is not None:
                    ambient(v, None)
                eng.run(dict(q, ops=[]), Rec())          # the settings the simulator itself makes
            except Exception:
                pass
            try:
                before = settings()
                eng.run(q, rec)
                gc.collect()
                out = (list(rec.violations), changed(before, settings(), ('nprandom', 'fds')), rec.nevents)
            except BaseException:
                out = (None, [], traceback.format_exc())
            with os.fdopen(w, 'wb') as fh:
                fh.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fh:
        d = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(d) if d else (None, [], 'died')


class SettingsEngine(Engine):
    shrink_keys = ('ops', 'variants')
    run_timeout = 200
    measure = 'distinct (operation, ambient variant, outcome kind) situations'
    rule = ('one run is one seeded program of 8-30 operations executed in a clean process and again under 2-4 ambient variants; '
            'distinct = distinct digests of programs and outcomes')
    real = ['funpy (functions, states, operators, solvers, HDF5)', 'numpy', 'scipy', 'sympy', 'h5py', 'the CPython allocator and hash seed']
    stub = ['clock', 'uninitialised memory', 'random seeds']
    assumptions = ['numpy error handling set to raise and warnings turned into errors may end an operation early and are not varied',
                   'constructors of random functions depend on the random state by design']
    quick_runs = 6000
    thorough_runs = 80000
    quick_wall = 75
    must_hit = ['fault:variant-' + k for k in VARIANTS if VARIANTS[k]] + ['fault:tick', 'op:solve', 'op:disk', 'op:state', 'op:stateop']

    def __init__(self, prop):
        self.prop = prop
        start_servers()

    def program(self, rng, short=False):
        cfg = gen_cfg(rng)
        w = W.weights((W.READS, 1), (W.PURE, 1), (W.INPLACE, 1), (W.STRUCT, .6), (W.BAD, .5), (W.POKE, .2))
        ops = [W.gen_new(rng, cfg, force_group=min(k, len(cfg['groups']) - 1) if k < len(cfg['groups']) else None)
               for k in range(rng.choice([2, 3]))]
        heavy = rng.random() < 0.3
        for _ in range(rng.choice([6, 12, 20]) if not short else rng.choice([4, 8])):
            k = W.pick(rng, dict(f=20, solve=1.5 if heavy else 0, state=2, stateop=2.5, disk=1, mat=4))
            if k == 'f':
                op = W.gen_op(rng, cfg, w)
            else:
                op = dict(op=k, i=rng.randrange(64), j=rng.randrange(64))
                if k == 'solve':
                    P = rng.choice(O.PROBLEMS)
                    op.update(p=P.name, pars={x: round(rng.uniform(*v), 3) for x, v in P.pars.items()}, method=rng.choice(O.METHODS),
                              adaptive=rng.random() < .5, loud=rng.random() < .5)
                elif k == 'state':
                    op.update(kind=rng.choice(KINDS), names=rng.sample(PNAMES, 2), vals=[round(rng.uniform(-3, 3), 3) for _ in range(2)])
                    op['ns'] = {x: round(rng.uniform(-3, 3), 3) for x in PNAMES if x not in op['names'] and x != 'a' and rng.random() < .3}
                elif k == 'mat':
                    from . import mengine as M
                    op.update(fn=rng.choice(list(M.REQ)), n=rng.choice([1, 2, 3, 5, 9, 17, 33]), k=rng.randrange(12), f=rng.randrange(12), s=rng.randrange(50),
                              dom=rng.choice(M.DOMS), spoil=rng.choice(['no', 'nan', 'scale']))
                elif k == 'stateop':
                    op['how'] = rng.choice(['add', 'sub', 'mul', 'norm', 'copy', 'array'])
            if rng.random() < 0.15:
                op['fault'] = dict(k=int(math.exp(rng.uniform(0, math.log(400)))), exc=rng.choice(list(EXC)))
            ops.append(op)
        return dict(cfg=cfg, ops=ops)

    def gen(self, rng, idx, tier):
        if rng.random() < 0.15:
            from . import registry
            q = W.pick(rng, NESTED)
            e = registry.make(q)
            sub = dict(e.gen(rng, rng.randrange(100000), 'quick'), property=q)
            return dict(ops=[], nested=sub, variants=[dict(kind=W.pick(rng, NVARIANTS), s=rng.randrange(1 << 20)) for _ in range(rng.choice([1, 2]))])
        plan = self.program(rng)
        plan['variants'] = []
        for _ in range(rng.choice([2, 3, 4])):
            k = W.pick(rng, VARIANTS)
            v = dict(kind=k, s=rng.randrange(1 << 20))
            if k.startswith('prior'):
                v['prior'] = self.program(rng, True)
                for op in v['prior']['ops']:
                    op.pop('fault', None)
                    if k == 'prior_interrupted' and rng.random() < 0.5:
                        op['fault'] = dict(k=int(math.exp(rng.uniform(0, math.log(400)))), exc=rng.choice(list(EXC)))
            plan['variants'].append(v)
        return plan

    def simpler(self, plan):
        if 'nested' in plan:
            ops = plan['nested'].get('ops')
            if isinstance(ops, list) and len(ops) > 1:
                for cut in (slice(0, len(ops) // 2), slice(len(ops) // 2, None)):
                    yield dict(plan, nested=dict(plan['nested'], ops=ops[cut]))
                for i in range(len(ops)):
                    yield dict(plan, nested=dict(plan['nested'], ops=ops[:i] + ops[i + 1:]))
            return
        yield from super().simpler(plan)

    def run_nested(self, plan, rec):
        """a simulated run of another property's engine: leaves the settings alone, and finds nothing more under another ambient state"""
        q = plan['nested']
        bad, ch, n = nested(q, None)
        rec.count('op:nested-' + q['property'])
        rec.event(q['property'], n if bad is not None else 'no answer')
        if bad is None:                       # an engine that does not understand this tree: its own check says so
            rec.count('nested-no-answer')
            return
        rec.count('check:settings')
        rec.simtime += 1
        if ch:
            rec.violate('settings', q['property'], 'a simulated run of the %s engine changed %s' % (q['property'], ch))
            return
        if bad:                               # a violation of another property
            rec.count('nested-other-violation')
            return
        for v in plan['variants']:
            rec.count('fault:variant-' + v['kind'])
            b2, ch2, n2 = nested(q, v)
            if b2 is None:
                rec.count('nested-no-answer')
                continue
            rec.count('check:same')
            rec.state(('nested', q['property'], v['kind'], len(b2)))
            if b2:
                rec.violate('ambient', q['property'], 'under %s: %s' % (self.name(v), b2[0]))
                return
            if ch2:
                rec.violate('settings', q['property'], 'a simulated run of the %s engine changed %s (%s)' % (q['property'], ch2, self.name(v)))
                return
            rec.event(v['kind'], 'same')

    def run(self, plan, rec):
        if 'nested' in plan:
            return self.run_nested(plan, rec)
        base = forked(plan, None)
        if isinstance(base, tuple):
            raise RuntimeError('base program: %s' % (base,))
        self.judge_settings(base, plan, rec, 'clean process')
        for kind, out, ch in base:
            if kind == 'skip':
                rec.count('skipped')
            else:
                rec.count('op:' + kind)
            if out == 'interrupted':
                rec.count('fault:tick')
        rec.event([(k, repr(o)[:400]) for k, o, _ in base])
        rec.simtime += len(base)
        if rec.violations:
            return
        for v in plan['variants']:
            k = v['kind']
            got = ask(_servers[k], (plan, v)) if k in _servers else forked(plan, v)
            rec.count('fault:variant-' + k)
            rec.simtime += len(base)
            if isinstance(got, tuple):
                if got[0] == 'died':
                    rec.violate('ambient', 'process', 'the process died under the variant %s' % k)
                    return
                raise RuntimeError('variant %s: %s' % (k, got))
            if len(got) != len(base):
                raise RuntimeError('program length differs')
            for i, (a, b) in enumerate(zip(base, got)):
                if k == 'z_opt' and b[1] == 'refused':
                    continue
                if k == 'printoptions' and a[0] == 'text':       # numpy's own representation of numbers
                    continue
                if a[1] in ('interrupted', 'fault-missed') and b[1] in ('interrupted', 'fault-missed'):
                    continue
                rec.count('check:same')
                d = differ([a[0], a[1]], [b[0], b[1]])
                rec.state((a[0], k, a[1][0] if isinstance(a[1], tuple) else a[1]))
                if d:
                    rec.violate('ambient', a[0], 'operation %d (%s) gives another result under %s: %s' % (i, a[0], self.name(v), d))
                    return
            self.judge_settings(got, plan, rec, self.name(v))
            if rec.violations:
                return
            rec.event(k, 'same')

    def name(self, v):
        return {'poison': 'poisoned uninitialised memory', 'prior': 'earlier work in the process', 'prior_interrupted': 'earlier interrupted work',
                'z_hash': 'another hash seed', 'z_malloc': 'another allocator state', 'z_opt': 'disabled assertions'}.get(v['kind'], 'another ' + v['kind'])

    def judge_settings(self, outs, plan, rec, where):
        for i, (kind, out, ch) in enumerate(outs):
            if ch is None:
                continue
            rec.count('check:settings')
            if ch:
                rec.violate('settings', kind, 'operation %d (%s%s) changed %s (%s)' % (i, kind, ', interrupted' if out == 'interrupted' else '', ch, where))
                return
