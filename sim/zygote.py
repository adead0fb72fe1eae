"""python -m sim.zygote <tree> <socket>: an interpreter started with other process-wide settings (hash seed, allocator,
optimisation) that runs programs of the settings engine in forked children on request."""
import ctypes
import os
import pickle
import signal
import socket
import struct
import sys


def recv_all(c, n):
    b = b''
    while len(b) < n:
        d = c.recv(min(1 << 20, n - len(b)))
        if not d:
            raise EOFError
        b += d
    return b


def ask(path, request, timeout=120):
    c = socket.socket(socket.AF_UNIX)
    c.settimeout(timeout)
    c.connect(path)
    d = pickle.dumps(request)
    c.sendall(struct.pack('<Q', len(d)) + d)
    n = struct.unpack('<Q', recv_all(c, 8))[0]
    r = pickle.loads(recv_all(c, n))
    c.close()
    return r


def serve(tree, path):
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)          # die with the check
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
    from sim import main
    main.import_sut(tree)
    from sim import sengine
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    while True:
        try:
            c, _ = s.accept()
        except InterruptedError:
            continue
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                n = struct.unpack('<Q', recv_all(c, 8))[0]
                plan, variant = pickle.loads(recv_all(c, n))
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                out = pickle.dumps(sengine.run_guarded(plan, variant))
                c.sendall(struct.pack('<Q', len(out)) + out)
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    serve(sys.argv[1], sys.argv[2])
