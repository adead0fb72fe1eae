"""Seams into the unmodified system under test.

Every executed source line of funpy (sys.monitoring LINE events) and every numpy attribute the Cython modules
look up at run time (their module global `np` is replaced by a counting proxy) is one *tick*.  A tick is where
the simulator may raise a fault, switch threads or advance the simulated clock.  Nothing in /repo is patched on disk.
"""
import sys
import threading

import numpy as np

TOOL = 3


class StepLimit(BaseException):
    """an operation exceeded its step budget (no progress)"""


class SimFault(Exception):
    """an injected application error"""


class NpProxy:
    """stands for the `numpy` global of one Cython module"""
    def __init__(self, mon):
        self.__dict__['_mon'] = mon

    def __getattr__(self, name):
        self._mon.tick('cython', name)
        return getattr(np, name)


class Monitor:
    def __init__(self):
        import funpy
        import os
        self.root = os.path.dirname(os.path.abspath(funpy.__file__)) + os.sep
        self.active = False
        self.n = 0
        self.limit = None
        self.at = None
        self.exc = None
        self.fired = None
        self.hook = None
        self.sites = None
        self.owner = None
        M = sys.monitoring
        try:
            M.use_tool_id(TOOL, 'sim')
        except ValueError:
            pass
        M.register_callback(TOOL, M.events.LINE, self._line)
        import funpy.cheb.detail as D
        import funpy.cheb.ufuncs as U
        p = NpProxy(self)
        D.np = p
        U.np = p
        M.set_events(TOOL, M.events.LINE)      # once: code objects stay instrumented across forks

    def _line(self, code, line):
        fn = code.co_filename
        if not fn.startswith(self.root):
            if '<' in fn and 'string' in fn:     # generated operator code
                pass
            else:
                return sys.monitoring.DISABLE
        if self.active:
            self.tick(code.co_name, line)

    def tick(self, *site):
        if not self.active:
            return
        if self.owner is not None and threading.get_ident() != self.owner:
            if self.hook is None:
                return
        self.n += 1
        if self.sites is not None and len(self.sites) < 3000:
            self.sites.append(site)
        if self.hook is not None:
            self.hook(site)
        if self.at is not None and self.n == self.at:
            self.fired = site
            self.at = None
            raise self.exc
        if self.limit is not None and self.n > self.limit:
            self.limit = None
            raise StepLimit('more than the step budget')

    def start(self, limit=None, at=None, exc=None, hook=None, sites=False):
        self.n = 0
        self.limit, self.at, self.exc, self.fired, self.hook = limit, at, exc, None, hook
        self.sites = [] if sites else None
        self.owner = threading.get_ident()
        self.active = True

    def stop(self):
        self.active = False
        self.hook = None
        self.at = None
        return self.n


_the = []


def monitor():
    """the one monitor of this process (inherited by forked runs)"""
    if not _the:
        _the.append(Monitor())
    return _the[0]


class Running:
    """context: run a piece of SUT code under the monitor"""
    def __init__(self, mon, **kw):
        self.mon, self.kw = mon, kw

    def __enter__(self):
        self.mon.start(**self.kw)
        return self.mon

    def __exit__(self, *a):
        self.mon.stop()
        return False
