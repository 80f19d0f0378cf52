"""Outputs and inputs with the limits real ones have."""
import io


class Sink(io.RawIOBase):
    """An output that cannot seek."""
    def __init__(self):
        self.b = bytearray()

    def writable(self):
        return True

    def seekable(self):
        return False

    def write(self, b):
        self.b += b
        return len(b)

    def tell(self):
        raise io.UnsupportedOperation("tell")

    seek = truncate = tell


class Writer:
    """What an asyncio.StreamWriter offers, collecting the octets."""
    def __init__(self):
        self.b = bytearray()

    def write(self, b):
        self.b += b

    async def drain(self):
        pass

    def close(self):
        pass


class Chunky(io.RawIOBase):
    """A source whose reads return at most one chunk of the transport; seekable or forward only, as asked."""
    def __init__(self, b, cuts, seekable=True, forward=False):
        self.data = b
        self.cuts = cuts if callable(cuts) else sorted(cuts)
        self.pos = 0
        self._seekable = seekable
        self._forward = forward

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        p = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        if not self._seekable and (not self._forward or p < self.pos):
            raise io.UnsupportedOperation("seek")
        self.pos = p
        return p

    def readinto(self, b):
        n = min(len(b), max(0, len(self.data) - self.pos))
        if callable(self.cuts):
            n = min(n, self.cuts(self.pos))
        else:
            for c in self.cuts:
                if self.pos < c < self.pos + n:
                    n = c - self.pos
                    break
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n
