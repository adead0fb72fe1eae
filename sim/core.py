"""Deterministic simulation core: plans, isolated runs, seeded search, shrinking, replay, evidence.

One run = one *plan* (plain JSON: operations, fault schedule, thread schedule) executed in a freshly forked
process that imported the system under test and nothing else.  The plan is generated up front from a PRNG
seeded with (property, VERIF_SEED, run index); executing it draws no further randomness and reads no clock,
so a plan is one exactly repeatable execution and a replay file is just a plan.
"""
import base64
import hashlib
import json
import os
import pickle
import random
import resource
import select
import signal
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))


class HarnessError(Exception):
    """The machinery itself failed; never reported as a violation."""


def run_seed(prop, seed, idx):
    return int.from_bytes(hashlib.sha256(('%s/%s/%s' % (prop, seed, idx)).encode()).digest()[:8], 'big')


class Rec:
    """What one run observed."""
    def __init__(self):
        self.violations = []          # (oracle, op kind, detail)
        self.counts = Counter()       # operations, faults fired, probes
        self.states = set()           # abstract states / schedules reached
        self._h = hashlib.sha256()
        self.nevents = 0
        self.trace = []               # last events, human readable
        self.simtime = 0.0

    def event(self, *items):
        s = repr(items)
        self.nevents += 1
        self._h.update(s.encode())
        if len(self.trace) < 4000:
            self.trace.append(s[:300])

    def data(self, a):
        import numpy as np
        a = np.asarray(a)
        self._h.update(str(a.dtype).encode() + str(a.shape).encode() + np.ascontiguousarray(a).tobytes())

    def count(self, key, n=1):
        self.counts[key] += n

    def state(self, s):
        self.states.add(hashlib.md5(repr(s).encode()).hexdigest()[:12])

    def violate(self, oracle, op, detail=''):
        self.violations.append((oracle, op, str(detail)[:600]))
        self.event('VIOLATION', oracle, op)

    def digest(self):
        return self._h.hexdigest()


def _child(engine, plan, wfd, trace):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (OSError, ValueError):
        pass
    rec = Rec()
    err = None
    try:
        engine.run(plan, rec)
    except BaseException:
        err = traceback.format_exc()
    out = dict(violations=rec.violations, counts=dict(rec.counts), states=sorted(rec.states), digest=rec.digest(),
               nevents=rec.nevents, simtime=rec.simtime, error=err)
    if trace:
        out['trace'] = rec.trace
    data = json.dumps(out).encode()
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])


def execute(engine, plan, timeout=120, trace=False):
    """Runs one plan in a forked child.  Returns the result dict; 'error' is set for harness failures."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get('SIM_STDERR'):
                os.dup2(dn, 2)
            _child(engine, plan, w, trace)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, dead = [], time.monotonic() + timeout
    timed_out = False
    while True:
        left = dead - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rr, _, _ = select.select([r], [], [], min(left, 5))
        if rr:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        what = 'wall timeout' if timed_out else 'child died, status %d' % status
        vs = []
        if timed_out:       # a run takes milliseconds; minutes mean a loop the step budget cannot see (compiled code)
            vs = [('hang', 'process', 'no progress: the run did not end within %d s' % timeout)]
        elif os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE,
                                                              signal.SIGBUS, signal.SIGILL):
            vs = [('crash', 'process', 'the process died with signal %d' % os.WTERMSIG(status))]
            if getattr(engine, 'library_may_die', None):
                return dict(violations=[], counts={engine.library_may_die: 1}, states=[], digest='', nevents=0, simtime=0, error=None)
        return dict(violations=vs, counts={}, states=[], digest='', nevents=0, simtime=0, error=None if vs else what)


def gen_plan(engine, prop, seed, idx, tier):
    rng = random.Random(run_seed(prop, seed, idx))
    plan = engine.gen(rng, idx, tier)
    plan = json.loads(json.dumps(plan))
    plan['property'] = prop
    plan['run'] = idx
    plan['seed'] = seed
    return plan


# ---------------------------------------------------------------------------------------------- batch
def batch(engine, prop, seed, tier, nruns, wall, workers):
    """Seeded search.  Returns (results by index, wall-capped?)."""
    procs = []
    flagr = os.path.join('/tmp', 'simflag.%d' % os.getpid())
    t0 = time.monotonic()
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wr, 'wb') as fh:
                    for idx in range(w, nruns, workers):
                        if time.monotonic() - t0 > wall:
                            break
                        try:
                            if idx > int(open(flagr).read()):
                                break
                        except (OSError, ValueError):
                            pass
                        try:
                            plan = gen_plan(engine, prop, seed, idx, tier)
                            res = execute(engine, plan, timeout=engine.run_timeout)
                            res['nops'] = len(plan.get('ops', []))
                            if idx % max(1, nruns // 5) == 0:
                                res['sample'] = json.dumps(plan)[:1500]
                        except BaseException:
                            res = dict(violations=[], counts={}, states=[], digest='', nevents=0, simtime=0,
                                       error=traceback.format_exc())
                        res['idx'] = idx
                        if res['violations'] or res['error']:
                            try:
                                cur = int(open(flagr).read())
                            except (OSError, ValueError):
                                cur = 1 << 60
                            if idx < cur:
                                with open(flagr + '.%d' % w, 'w') as f2:
                                    f2.write(str(idx))
                                os.replace(flagr + '.%d' % w, flagr)
                        fh.write(json.dumps(res).encode() + b'\n')
                        fh.flush()
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, r))
    results = {}
    bufs = {r: b'' for _, r in procs}
    open_fds = set(bufs)
    while open_fds:
        rr, _, _ = select.select(list(open_fds), [], [], 5)
        for r in rr:
            b = os.read(r, 1 << 20)
            if not b:
                open_fds.discard(r)
                continue
            bufs[r] += b
            *lines, bufs[r] = bufs[r].split(b'\n')
            for ln in lines:
                d = json.loads(ln)
                results[d['idx']] = d
    for pid, r in procs:
        os.close(r)
        os.waitpid(pid, 0)
    for w in range(workers):
        try:
            os.unlink(flagr + '.%d' % w)
        except OSError:
            pass
    try:
        os.unlink(flagr)
    except OSError:
        pass
    bad = [i for i in results if results[i]['violations'] or results[i]['error']]
    if bad:
        lim = min(bad)
        results = {i: r for i, r in results.items() if i <= lim}
    return results, len(results) < nruns and not bad


# ---------------------------------------------------------------------------------------------- shrinking
def vclass(v):
    return (v[0], v[1])


def shrink(engine, plan, cls, budget_s=60, budget_n=400):
    """ddmin over every list the engine declares shrinkable, keeping the violation class."""
    t0 = time.monotonic()
    n = [0]

    def fails(p):
        if time.monotonic() - t0 > budget_s or n[0] >= budget_n:
            return False
        n[0] += 1
        r = execute(engine, p, timeout=engine.run_timeout)
        return any(vclass(v) == cls for v in r['violations'])

    def with_list(p, key, lst):
        q = dict(p)
        q[key] = lst
        return q

    changed = True
    while changed and time.monotonic() - t0 < budget_s and n[0] < budget_n:
        changed = False
        for key in engine.shrink_keys:
            lst = plan.get(key)
            if not isinstance(lst, list) or not lst:
                continue
            size = max(1, len(lst) // 2)
            while size >= 1:
                i = 0
                while i < len(lst):
                    cand = lst[:i] + lst[i + size:]
                    q = with_list(plan, key, cand)
                    if fails(q):
                        plan, lst, changed = q, cand, True
                    else:
                        i += size
                if size == 1:
                    break
                size //= 2
        for q in engine.simpler(plan):
            if fails(q):
                plan, changed = q, True
    return plan, n[0]


class Engine:
    shrink_keys = ('ops', 'faults', 'switches')
    run_timeout = 60
    quick_runs = 400
    thorough_runs = 8000
    quick_wall = 100
    thorough_wall = 780
    measure = 'distinct abstract states'
    preload = []
    rule = ''
    real = []
    stub = []
    assumptions = []

    def gen(self, rng, idx, tier):
        raise NotImplementedError

    def run(self, plan, rec):
        raise NotImplementedError

    def simpler(self, plan):
        """Simplified variants of a plan (arguments shrunk) tried after ddmin."""
        ops = plan.get('ops')
        if not isinstance(ops, list):
            return
        for i, op in enumerate(ops):
            if not isinstance(op, dict):
                continue
            for k in ('n', 'm'):
                if isinstance(op.get(k), int) and op[k] > 1 and op.get('op', '').startswith('new'):
                    q = dict(plan)
                    q['ops'] = [dict(o) if isinstance(o, dict) else o for o in ops]
                    q['ops'][i][k] = max(1, op[k] // 2)
                    yield q
