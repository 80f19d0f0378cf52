"""C10: asynchronous file objects against ordinary files."""
import asyncio
import io
import itertools
import os
import tempfile
from io import BytesIO, UnsupportedOperation

from mc.core import Check, Violation
from mc import aio
from mc.sinks import Writer
from mediagrains.utils.asyncbinaryio import (AsyncBytesIO, AsyncBytesIOWrapper, AsyncFileWrapper, AsyncStreamWrapper)

SEEKABLE_OPS = ([("read", n) for n in (0, 1, 3, 9)] + [("read", -1), ("readall",), ("readinto", 0), ("readinto", 2),
                ("readinto", 9), ("write", b""), ("write", b"Q"), ("write", b"WXYZ"), ("seek", 0, 0), ("seek", 2, 0),
                ("seek", 7, 0), ("seek", 1, 1), ("seek", -2, 1), ("seek", 0, 2), ("seek", -1, 2), ("seek", 3, 2),
                ("seek", -1, 0), ("truncate", None), ("truncate", 0), ("truncate", 2), ("truncate", 6), ("reopen",)])


class FileModel:
    """An ordinary binary file."""
    def __init__(self, b):
        self.b = bytearray(b)
        self.pos = 0

    def do(self, op):
        k = op[0]
        if k == "read":
            rest = self.b[self.pos:]
            if op[1] < 0:
                self.pos = max(self.pos, len(self.b))
                return bytes(rest)
            r = bytes(rest[:op[1]])
            self.pos += len(r)
            return r
        if k == "readall":
            return self.do(("read", -1))
        if k == "readinto":
            r = self.do(("read", op[1]))
            return len(r), r + bytes(op[1] - len(r))
        if k == "write":
            if op[1]:
                if self.pos > len(self.b):
                    self.b += bytes(self.pos - len(self.b))
                self.b[self.pos:self.pos + len(op[1])] = op[1]
                self.pos += len(op[1])
            return len(op[1])
        if k == "seek":
            p = op[1] + (0 if op[2] == 0 else self.pos if op[2] == 1 else len(self.b))
            if p < 0:
                return "refused"
            self.pos = p
            return p
        if k == "truncate":
            n = self.pos if op[1] is None else op[1]
            if n > len(self.b):
                self.b += bytes(n - len(self.b))
            del self.b[n:]
            return n
        if k == "reopen":
            self.pos = 0
            return None
        raise RuntimeError(op)


class Hesitant(io.RawIOBase):
    """A raw file that has nothing to give every other time it is asked, and gives little when it has."""
    def __init__(self, b):
        self.f = BytesIO(b)
        self.turn = 0

    def readable(self):
        return True

    def writable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        self.turn ^= 1
        if self.turn:
            return None
        return self.f.readinto(memoryview(b)[:2])

    def write(self, b):
        return self.f.write(bytes(b)[:3])

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def truncate(self, n=None):
        return self.f.truncate(n)

    def getvalue(self):
        return self.f.getvalue()


STREAM_OPS = [("read", 0), ("read", 2), ("read", 9), ("read", -1), ("readall",), ("readinto", 3), ("seek", 0, 1),
              ("seek", 1, 1), ("seek", 3, 1), ("seek", -1, 1), ("seek", 2, 0), ("seek", 6, 0), ("seek", 0, 2)]
WRITER_OPS = [("write", b""), ("write", b"a"), ("write", b"bcd"), ("seek", 0, 1), ("seek", 2, 1), ("seek", -1, 1),
              ("seek", 1, 0), ("seek", 9, 0), ("seek", 0, 2), ("read", 1), ("truncate", None)]


class StreamModel:
    """A file that is read once from front to back: positions passed over can not be returned to once read past."""
    def __init__(self, b):
        self.m = FileModel(b)
        self.base = 0              # what has been consumed

    def do(self, op):
        if op[0] == "seek":
            p = op[1] + (0 if op[2] == 0 else self.m.pos)
            if op[2] == 2 or p < self.base:
                return "refused"
            self.m.pos = p
            return p
        r = self.m.do(op)
        if self.m.pos > self.base:
            self.base = self.m.pos
        return r


def compositions(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        out, run = [], 1
        for c in cuts:
            if c:
                out.append(run)
                run = 1
            else:
                run += 1
        yield out + [run]


class C10(Check):
    id = "C10"
    rule = ("every history up to depth D (quick 4, thorough 6) of 23 operations on the in-memory asynchronous file, "
            "from several initial contents, against a file model; up to depth D-1 on the wrappers of in-memory, "
            "buffered, raw and hesitant non-blocking files, against the same operations on the same kind of file "
            "directly; states with equal contents, position and buffer are merged.  Every history up to depth 3 (4) on "
            "the stream wrapper for every way to cut its octets into chunks; states = distinct files reached")
    assumptions = ["whether truncating an in-memory buffer beyond its end extends it is taken from ordinary files"]
    case_timeout = 20

    def explore(self, part, nparts):
        d = 6 if self.thorough else 4
        for i, b in enumerate((b"abcde", b"", b"ab")):
            self.bfs("memory", {"kind": "mem", "data": b.decode()}, lambda c, h: SEEKABLE_OPS, self.build, self.canon,
                     d, part, nparts, 5 * i)
        for i, kind in enumerate(("file_memory", "wrapped_memory", "file_raw", "file_buffered", "file_hesitant")):
            self.bfs("wrapper", {"kind": kind, "data": "abcde"}, lambda c, h: SEEKABLE_OPS, self.build, self.canon,
                     d - 1, part, nparts, 3 * i)
        n = 0
        data = "abcdefg" if self.thorough else "abcde"
        for sizes in compositions(len(data)):
            for seq in itertools.product(STREAM_OPS, repeat=4 if self.thorough else 3):
                n += 1
                if n % nparts == part:
                    self.execute("stream", {"data": data, "sizes": sizes, "ops": [list(o) for o in seq]})
                    if self.enough():
                        return
        for there in range(len(data)):
            for seq in itertools.product(STREAM_OPS, repeat=4 if self.thorough else 3):
                n += 1
                if n % nparts == part:
                    self.execute("cancelled", {"data": data, "there": there, "ops": [list(o) for o in seq]})
                    if self.enough():
                        return
        for seq in itertools.product(WRITER_OPS, repeat=4 if self.thorough else 3):
            n += 1
            if n % nparts == part:
                self.execute("writer", {"ops": [self.enc(o) for o in seq]})
                if self.enough():
                    return

    def enc(self, op):
        return [x.decode() if isinstance(x, bytes) else x for x in op]

    def dec(self, op):
        return tuple(x.encode() if op[0] == "write" and i and isinstance(x, str) else x for i, x in enumerate(op))

    # -- seekable objects -------------------------------------------------------------------------------------------
    def make(self, kind, b):
        """(asynchronous object, what reads its contents, twin or None)"""
        if kind == "mem":
            f = AsyncBytesIO(b)
            return f, f.getvalue, FileModel(b)
        if kind in ("file_memory", "wrapped_memory"):
            x = BytesIO(b)
            return (AsyncFileWrapper if kind == "file_memory" else AsyncBytesIOWrapper)(x), x.getvalue, BytesIO(b)
        if kind == "file_hesitant":
            x = Hesitant(b)
            return AsyncFileWrapper(x), x.getvalue, Hesitant(b)
        pair = []
        for _ in range(2):
            fd, fn = tempfile.mkstemp(prefix="mc-c10-")
            os.unlink(fn)
            os.write(fd, b)
            os.lseek(fd, 0, 0)
            pair.append(os.fdopen(fd, "r+b", buffering=0 if kind == "file_raw" else 8192))
        x = pair[0]

        def contents():
            x.flush()
            n = os.fstat(x.fileno()).st_size
            return os.pread(x.fileno(), n, 0)
        return AsyncFileWrapper(x), contents, pair[1]

    def direct(self, twin, op):
        """The same operation on the twin file, directly."""
        if isinstance(twin, FileModel):
            r = twin.do(op)
            return r
        k = op[0]
        try:
            if k == "readall" or k == "read":
                n = -1 if k == "readall" else op[1]
                while True:
                    r = twin.read(n)
                    if r is not None:
                        return r
            if k == "readinto":
                b = bytearray(op[1])
                return twin.readinto(b), bytes(b)
            if k == "write":
                return twin.write(op[1])
            if k == "seek":
                return twin.seek(op[1], op[2])
            if k == "truncate":
                return twin.truncate(op[1])
            if k == "reopen":
                return None
        except (OSError, ValueError):
            return "refused"
        raise RuntimeError(op)

    async def perform(self, f, opened, op):
        k = op[0]
        try:
            if k == "read":
                return await (opened.read(op[1]) if op[1] != -1 else opened.read())
            if k == "readall":
                return await opened.readall()
            if k == "readinto":
                b = bytearray(op[1])
                return await opened.readinto(b), bytes(b)
            if k == "write":
                return await opened.write(op[1])
            if k == "seek":
                return opened.seek(op[1], op[2]) if op[2] else opened.seek(op[1])
            if k == "truncate":
                return await (opened.truncate(op[1]) if op[1] is not None else opened.truncate())
            if k == "reopen":
                await f.__aexit__(None, None, None)
                x = await f.__aenter__()
                if x is not opened:
                    raise Violation("opening again gives another object")
                return None
        except EOFError:
            return "end of file"
        except (OSError, ValueError):
            return "refused"
        raise RuntimeError(op)

    def build(self, config, ops):
        b = config["data"].encode()
        kind = config["kind"]
        f, contents, twin = self.make(kind, b)
        try:
            async def go():
                opened = await f.__aenter__()
                for i, op in enumerate(ops):
                    op = self.dec(op)
                    got = await self.perform(f, opened, op)
                    if op[0] == "reopen" and kind != "mem":
                        continue
                    want = self.direct(twin, op)
                    if kind == "mem" and op[0] == "read" and op[1] > 0 and len(want) < op[1]:
                        want = "end of file"
                    if got != want:
                        raise Violation("operation %d %r gives %r, an ordinary file gives %r" % (i, op, got, want))
                    pos = twin.pos if kind == "mem" else twin.tell()
                    if opened.tell() != pos:
                        raise Violation("after operation %d %r the position is %r, an ordinary file's is %r" %
                                        (i, op, opened.tell(), pos))
                    can = True if kind == "mem" else twin.seekable()      # a raw file forgets when a seek is refused
                    if not (opened.seekable() == can and opened.seekable_forwards() == can and
                            opened.seekable_backwards() == can and opened.readable() and opened.writable()):
                        raise Violation("capabilities are wrong")
                    if kind == "mem":
                        v, w = contents(), bytes(twin.b)
                    elif kind in ("file_raw", "file_buffered"):
                        twin.flush()
                        v, w = contents(), os.pread(twin.fileno(), 1000, 0)
                    else:
                        v, w = contents(), twin.getvalue()
                    if v != w:
                        raise Violation("after operation %d %r the file holds %r, an ordinary file %r" % (i, op, v, w))
                return opened
            opened = aio.run(go())
            if kind == "mem":
                if bytes(f.getbuffer()) != f.getvalue() or f.value() != f.getvalue():
                    raise Violation("getbuffer, value and getvalue differ")
                return sorted((k, bytes(v) if isinstance(v, bytearray) else v) for k, v in vars(opened).items())
            return contents(), opened.tell(), getattr(twin, "turn", 0)
        finally:
            if kind in ("file_raw", "file_buffered"):
                f.fp.close()
                twin.close()

    def canon(self, st):
        return repr(st)

    # -- streams ----------------------------------------------------------------------------------------------------
    def run(self, kind, case):
        if kind == "stream":
            return self.run_stream(case)
        if kind == "writer":
            return self.run_writer(case)
        if kind == "cancelled":
            return self.run_cancelled(case)
        return self.build(case["config"], [tuple(o) for o in case["ops"]])

    def run_stream(self, case):
        data = case["data"].encode()
        chunks, p = [], 0
        for n in case["sizes"]:
            chunks.append(data[p:p + n])
            p += n
        m = StreamModel(data)
        self.stats.transitions += len(case["ops"])

        async def go():
            r = asyncio.StreamReader(loop=asyncio.get_event_loop(), limit=1 << 16)
            t = aio.feed(r, chunks)
            out = []
            async with AsyncStreamWrapper(reader=r) as f:
                for i, op in enumerate(case["ops"]):
                    op = tuple(op)
                    got = await self.perform(None, f, op)
                    want = m.do(op)
                    if got != want:
                        raise Violation("operation %d %r gives %r, a file gives %r" % (i, op, got, want))
                    if f.tell() != m.m.pos:
                        raise Violation("after operation %d %r the position is %r, a file's is %r" %
                                        (i, op, f.tell(), m.m.pos))
                    out.append(got)
                if f.seekable() or f.seekable_backwards() or not f.seekable_forwards() or f.writable() or \
                        not f.readable():
                    raise Violation("capabilities are wrong")
                if await self.perform(None, f, ("write", b"x")) != "refused":
                    raise Violation("an input stream accepts writes")
            t.cancel()
            return tuple(out)
        return aio.run(go())

    def run_cancelled(self, case):
        """An operation which waits for what has not arrived is cancelled, and done again when it has."""
        data, there = case["data"].encode(), case["there"]
        m = StreamModel(data)
        self.stats.transitions += len(case["ops"])

        async def go():
            r = asyncio.StreamReader(loop=asyncio.get_event_loop(), limit=1 << 16)
            r.feed_data(data[:there])
            waited = None
            async with AsyncStreamWrapper(reader=r) as f:
                for i, op in enumerate(case["ops"]):
                    op = tuple(op)
                    t = asyncio.ensure_future(self.perform(None, f, op))
                    for _ in range(6):
                        await asyncio.sleep(0)
                    if not t.done():
                        t.cancel()
                        try:
                            await t
                        except asyncio.CancelledError:
                            pass
                        if op in (("read", -1), ("readall",)):
                            return None                 # the standard library's stream loses what it had read
                        waited = i
                        if f.tell() != m.m.pos:
                            raise Violation("operation %d %r is cancelled and the position is %r, was %r" % (
                                i, op, f.tell(), m.m.pos))
                        r.feed_data(data[there:])
                        r.feed_eof()
                        got = await self.perform(None, f, op)
                    else:
                        got = t.result()
                    want = m.do(op)
                    if got != want:
                        raise Violation("operation %d %r gives %r, a file gives %r%s" % (
                            i, op, got, want, "" if waited is None else "; operation %d was cancelled" % waited))
            return waited
        return aio.run(go())

    def run_writer(self, case):
        m = StreamModel(b"")
        self.stats.transitions += len(case["ops"])

        async def go():
            w = Writer()
            out = []
            async with AsyncStreamWrapper(writer=w) as f:
                for i, op in enumerate(case["ops"]):
                    op = self.dec(op)
                    got = await self.perform(None, f, op)
                    want = "refused" if op[0] in ("read", "truncate") else m.do(op)
                    if op == ("write", b""):
                        m.base = max(m.base, m.m.pos) if m.base <= len(m.m.b) else m.base
                    if got != want:
                        raise Violation("operation %d %r gives %r, a file gives %r" % (i, op, got, want))
                    if f.tell() != m.m.pos:
                        raise Violation("after operation %d %r the position is %r, a file's is %r" %
                                        (i, op, f.tell(), m.m.pos))
                    out.append(got)
                v, x = bytes(w.b), bytes(m.m.b)
                # an empty write may or may not fill a gap
                if v != x and not (v.startswith(x) and not any(v[len(x):]) and len(v) <= m.m.pos):
                    raise Violation("the stream got %r, a file holds %r" % (v, x))
            return tuple(out), bytes(w.b)
        return aio.run(go())


CHECK = C10
