"""A simulated disk file for h5py: every write is logged, the image after any prefix of the log can be reconstructed,
and writes/reads can be made to fail."""
import errno
import io


class SimFile(io.RawIOBase):
    def __init__(self, img=b''):
        self.b = bytearray(img)
        self.base = bytes(img)
        self.p = 0
        self.log = []                 # (pos, bytes) | ('t', size)
        self.fail_at = None           # countdown to the failing write
        self.persistent = False
        self.err = errno.ENOSPC
        self.read_fail_at = None
        self.nw = self.nr = self.fails = 0

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        self.p = o if w == 0 else self.p + o if w == 1 else len(self.b) + o
        return self.p

    def tell(self):
        return self.p

    def readinto(self, buf):
        self.nr += 1
        if self.read_fail_at is not None:
            self.read_fail_at -= 1
            if self.read_fail_at <= 0:
                self.read_fail_at = None
                self.fails += 1
                raise OSError(errno.EIO, 'simulated I/O error')
        d = self.b[self.p:self.p + len(buf)]
        buf[:len(d)] = d
        self.p += len(d)
        return len(d)

    def check(self):
        if self.fail_at is not None:
            self.fail_at -= 1
            if self.fail_at <= 0:
                self.fail_at = 1 if self.persistent else None
                self.fails += 1
                raise OSError(self.err, 'simulated disk error')

    def write(self, d):
        self.nw += 1
        d = bytes(d)
        self.check()
        self.apply(self.b, (self.p, d))
        self.log.append((self.p, d))
        self.p += len(d)
        return len(d)

    @staticmethod
    def apply(b, e):
        if e[0] == 't':
            n = e[1]
            if n < len(b):
                del b[n:]
            else:
                b.extend(b'\0' * (n - len(b)))
            return
        pos, d = e
        if len(b) < pos:
            b.extend(b'\0' * (pos - len(b)))
        b[pos:pos + len(d)] = d

    def truncate(self, n=None):
        n = self.p if n is None else n
        self.apply(self.b, ('t', n))
        self.log.append(('t', n))
        return n

    def flush(self):
        pass

    def image(self, k, torn=0):
        """what a process that died after k writes left behind; torn: bytes of the next write that arrived"""
        b = bytearray(self.base)
        for e in self.log[:k]:
            self.apply(b, e)
        if torn and k < len(self.log) and self.log[k][0] != 't':
            pos, d = self.log[k]
            self.apply(b, (pos, d[:torn]))
        return bytes(b)
