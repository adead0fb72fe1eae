"""Deterministic thread scheduler: real threads, exactly one of which runs at any time.

The running thread gives up control only at ticks (a source line of the system under test or a numpy lookup of its
Cython code), and only where the plan says so.  Locks of the system under test are replaced by scheduler-aware ones."""
import sys
import threading
import _thread

_real_lock = _thread.allocate_lock
current = [None]          # the active scheduler


class SimLock:
    """stands for threading.Lock / RLock of the system under test"""
    def __init__(self, reentrant=False):
        self._l = _real_lock()
        self._re = reentrant
        self._own = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._re and self._own == me:
            self._n += 1
            return True
        s = current[0]
        if s is None:
            ok = self._l.acquire(blocking, timeout)
        else:
            ok = self._l.acquire(False)
            while not ok and blocking:
                s.blocked()
                ok = self._l.acquire(False)
        if ok:
            self._own, self._n = me, 1
        return ok

    def release(self):
        self._n -= 1
        if self._n == 0:
            self._own = None
            self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class patched_locks:
    def __enter__(self):
        self.saved = threading.Lock, threading.RLock
        threading.Lock = lambda: SimLock()
        threading.RLock = lambda: SimLock(True)

    def __exit__(self, *a):
        threading.Lock, threading.RLock = self.saved


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, mon, nthreads, switches, quantum, limit, rec):
        self.mon, self.n, self.quantum, self.limit, self.rec = mon, nthreads, quantum, limit, rec
        self.sw = {}
        for s in switches:
            self.sw[(s['th'], s['k'], s['t'])] = s['to']
        self.sem = [_real_lock() for _ in range(nthreads)]
        for s in self.sem:
            s.acquire()
        self.done = [False] * nthreads
        self.alldone = _real_lock()
        self.alldone.acquire()
        self.idx = {}
        self.inop = [False] * nthreads
        self.k = [-1] * nthreads
        self.t = [0] * nthreads
        self.fault = {}           # (thread, op ordinal) -> (tick, exception)
        self.fired = [None] * nthreads
        self.ticks = 0
        self.nsw = 0
        self.spin = 0
        self.aborted = False

    # ---- called by threads
    def begin(self, th, k):
        self.k[th], self.t[th] = k, 0
        self.fired[th] = None
        if (th, k, 0) in self.sw:
            self.switch(th, self.sw[(th, k, 0)], 'boundary')
        self.inop[th] = True

    def end(self, th):
        self.inop[th] = False

    def hook(self, site):
        th = self.idx.get(threading.get_ident())
        if th is None or not self.inop[th]:
            return
        self.ticks += 1
        self.spin = 0
        self.t[th] += 1
        t = self.t[th]
        f = self.fault.get((th, self.k[th]))
        if f is not None and t == f[0]:
            self.fired[th] = site
            raise f[1]
        if self.ticks > self.limit:
            from .hooks import StepLimit
            raise StepLimit('more than the step budget')
        to = self.sw.get((th, self.k[th], t))
        if to is None and self.quantum and self.ticks % self.quantum == 0:
            to = (th + 1) % self.n
        if to is not None:
            self.switch(th, to, site)

    def runnable(self, th, to):
        for d in range(self.n):
            c = (to + d) % self.n
            if not self.done[c] and c != th:
                return c
        return None

    def switch(self, th, to, site):
        to = to % self.n
        f = sys._getframe(1)
        while f is not None:      # module import in progress: the interpreter's import lock is not ours to simulate
            if f.f_code.co_filename.startswith('<frozen importlib'):
                return
            f = f.f_back
        if to == th or self.done[to]:
            to = self.runnable(th, to)
            if to is None:
                return
        self.nsw += 1
        self.rec.state((site, self.k[th], to))
        self.rec.event('switch', th, self.k[th], self.t[th], site, to)
        self.sem[to].release()
        self.sem[th].acquire()

    def blocked(self):
        """the running thread cannot go on (lock held by another)"""
        th = self.idx.get(threading.get_ident())
        if th is None:
            raise Deadlock('lock held for ever')
        self.spin += 1
        to = self.runnable(th, th + 1)
        if to is None or self.spin > 50 * self.n:
            raise Deadlock('every thread waits for a lock')
        self.rec.count('probe:blocked-on-lock')
        self.sem[to].release()
        self.sem[th].acquire()

    def body(self, th, fn):
        self.sem[th].acquire()
        self.idx[threading.get_ident()] = th
        try:
            fn(th)
        finally:
            self.inop[th] = False
            self.done[th] = True
            nx = self.runnable(th, th + 1)
            if nx is None:
                self.alldone.release()
            else:
                self.sem[nx].release()

    def run(self, fn):
        ths = [threading.Thread(target=self.body, args=(i, fn), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        current[0] = self
        self.mon.start(hook=self.hook)
        self.mon.owner = None
        try:
            self.sem[0].release()
            self.alldone.acquire()
        finally:
            self.mon.stop()
            current[0] = None
        for t in ths:
            t.join(10)
