"""C11: lazily loaded bytes against real bytes."""
import copy
import io
import itertools
import pickle
import tempfile
from io import BytesIO

from mc.core import Check, Violation, short
from mc.sinks import Chunky
from mediagrains.utils.iobytes import IOBytes

CONTENTS = b"\x00ab\xff\x80ba\x00\n\xc3\xa9"


def attempt(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__)


# Each operation is applied to the lazy sequence and to the real bytes: f(x, other) where other is a second lazy
# sequence over the same window (or the same bytes).
OPS = {
    "len": lambda x, o: len(x),
    "__len__": lambda x, o: x.__len__(),
    "bool": lambda x, o: bool(x),
    "bytes": lambda x, o: bytes(x),
    "bytearray": lambda x, o: bytearray(x),
    "list": lambda x, o: list(x),
    "iter2": lambda x, o: [v for v in x][::2],
    "reversed": lambda x, o: list(reversed(x)),
    "enumerate": lambda x, o: list(enumerate(x)),
    "tuple": lambda x, o: tuple(x),
    "unpack": lambda x, o: (lambda *a: a)(*x),
    "sum": lambda x, o: sum(x),
    "max": lambda x, o: max(x),
    "sorted": lambda x, o: sorted(x),
    "0": lambda x, o: x[0],
    "1": lambda x, o: x[1],
    "-1": lambda x, o: x[-1],
    "-2": lambda x, o: x[-2],
    "99": lambda x, o: x[99],
    "-99": lambda x, o: x[-99],
    "'a'": lambda x, o: x["a"],
    "[:]": lambda x, o: x[:],
    "[1:3]": lambda x, o: x[1:3],
    "[-2:]": lambda x, o: x[-2:],
    "[::-1]": lambda x, o: x[::-1],
    "[::2]": lambda x, o: x[::2],
    "[5:1]": lambda x, o: x[5:1],
    "[3:99]": lambda x, o: x[3:99],
    "[::0]": lambda x, o: x[::0],
    "97 in": lambda x, o: 97 in x,
    "b'ab' in": lambda x, o: b"ab" in x,
    "b'' in": lambda x, o: b"" in x,
    "999 in": lambda x, o: 999 in x,
    "'a' in": lambda x, o: "a" in x,
    "== same": lambda x, o: x == o,
    "== bytes": lambda x, o: x == CONTENTS[1:4],
    "bytes ==": lambda x, o: CONTENTS[1:4] == x,
    "!= same": lambda x, o: x != o,
    "!= bytes": lambda x, o: x != b"ab",
    "== None": lambda x, o: x == None,       # noqa: E711
    "!= None": lambda x, o: x != None,       # noqa: E711
    "== str": lambda x, o: x == "ab",
    "< same": lambda x, o: x < o,
    "<= same": lambda x, o: x <= o,
    ">= same": lambda x, o: x >= o,
    "> same": lambda x, o: x > o,
    "< bytes": lambda x, o: x < b"ab",
    "<= bytes": lambda x, o: x <= b"ab",
    "> bytes": lambda x, o: x > b"ab",
    ">= bytes": lambda x, o: x >= b"ab",
    "bytes <": lambda x, o: b"ab" < x,
    "< str": lambda x, o: x < "ab",
    "hash": lambda x, o: hash(x),
    "dict": lambda x, o: {x: 1}.get(o),
    "dict bytes": lambda x, o: {CONTENTS[1:4]: 1}.get(x),
    "set": lambda x, o: len({x, o, CONTENTS[1:4]}),
    "str": lambda x, o: str(x),
    "%s": lambda x, o: "%s" % (x,),
    "f": lambda x, o: f"{x}",
    "index": lambda x, o: x.index(97),
    "index b": lambda x, o: x.index(b"a", 1),
    "count": lambda x, o: x.count(b"a"),
    "find": lambda x, o: x.find(b"b"),
    "rfind": lambda x, o: x.rfind(98),
    "startswith": lambda x, o: x.startswith(b"a"),
    "endswith": lambda x, o: x.endswith((b"b", b"a")),
    "hex": lambda x, o: x.hex(),
    "decode": lambda x, o: x.decode("latin-1"),
    "decode utf8": lambda x, o: x.decode(),
    "split": lambda x, o: x.split(b"b"),
    "partition": lambda x, o: x.partition(b"b"),
    "replace": lambda x, o: x.replace(b"a", b"zz"),
    "strip": lambda x, o: x.strip(b"\0a"),
    "upper": lambda x, o: x.upper(),
    "splitlines": lambda x, o: x.splitlines(),
    "join": lambda x, o: x.join([b"-", b"-"]),
    "ljust": lambda x, o: x.ljust(12, b"."),
    "translate": lambda x, o: x.translate(None, b"a"),
    "isalpha": lambda x, o: x.isalpha(),
    "int.from_bytes": lambda x, o: int.from_bytes(x, "big"),
    "zip": lambda x, o: list(zip(x, o)),
    "str(x, enc)": lambda x, o: str(bytes(x), "latin-1"),
    "copy": lambda x, o: bytes(copy.copy(x)),
    "deepcopy": lambda x, o: bytes(copy.deepcopy(x)),
    "pickle": lambda x, o: [bytes(pickle.loads(pickle.dumps(x, n))) for n in range(pickle.HIGHEST_PROTOCOL + 1)],
    "pickle ==": lambda x, o: pickle.loads(pickle.dumps([x, x])) == [o, x],
    "copy ==": lambda x, o: copy.copy(x) == o,
    "assign": lambda x, o: x.__setitem__(0, 1),
    "[0]=": lambda x, o: exec("x[0] = 1", {"x": x}),
    "del": lambda x, o: exec("del x[0]", {"x": x}),
    "nosuch": lambda x, o: x.nosuch,
    "tobytes": lambda x, o: x.append(1),
}
# refusals whose kind of exception is not part of what a bytes user relies on
ANY_ERROR = {"assign", "[0]=", "del"}
# raise nothing and read nothing
FREE = {"len", "__len__", "repr"}
MOVES = {"seek 0": lambda f: f.seek(0), "seek 5": lambda f: f.seek(5), "seek end": lambda f: f.seek(0, 2),
         "read 2": lambda f: attempt(lambda: f.read(2))}
CORE = ["len", "repr", "bytes", "0", "-1", "[1:3]", "list", "b'ab' in", "== same", "< bytes", "hash", "index b",
        "seek 5", "seek end", "read 2", "other"]


class Counting(BytesIO):
    """A stream that keeps account of the octets read from it."""
    taken = 0

    def read(self, n=-1):
        r = super().read(n)
        self.taken += len(r)
        return r


class CountingChunky(Counting):
    """As above, giving at most three octets at a time."""
    def read(self, n=-1):
        return super().read(3 if n is None or n < 0 else min(n, 3))


class Failing(Counting):
    """A stream that fails part-way through, the first time."""
    left = 1

    def read(self, n=-1):
        if self.left:
            self.left -= 1
            super().read(1)
            self.taken = 0
            raise OSError("transient")
        return super().read(n)


class C11(Check):
    id = "C11"
    rule = ("two histories differ when the sequences of answers differ; each history runs on fresh streams and "
            "sequences, and a visited state is (what is loaded, where the stream stands)")
    assumptions = ["the window lies inside the stream and the stream's contents do not change",
                   "operations that need the C buffer protocol or bytes concatenation are outside: the class documents "
                   "itself as almost bytes-like"]

    def stream(self, kind):
        if kind == "counting":
            return Counting(CONTENTS)
        if kind == "chunky":
            return CountingChunky(CONTENTS)
        if kind == "failing":
            return Failing(CONTENTS)
        if kind == "buffered":
            return io.BufferedReader(BytesIO(CONTENTS), 4)
        if kind == "file":
            f = tempfile.TemporaryFile()
            f.write(CONTENTS)
            f.flush()
            return f
        if kind == "rawfile":
            f = tempfile.TemporaryFile(buffering=0)
            f.write(CONTENTS)
            return f
        raise RuntimeError(kind)

    def windows(self):
        n = len(CONTENTS)
        for a in range(n + 1):
            for b in range(a, n + 1):
                yield a, b - a

    def single(self, kind, window, names, expect_error=False):
        start, length = window
        f = self.stream(kind)
        f.seek(2)
        x, y = IOBytes(f, start, length), IOBytes(f, start, length)
        real = CONTENTS[start:start + length]
        answers = []
        for name in names:
            before = f.tell()
            taken = getattr(f, "taken", None)
            if name in MOVES:
                MOVES[name](f)
                continue
            if name == "other":             # touch the other sequence
                got = attempt(lambda: y[:])
                want = ("ok", real)
            elif name == "repr":
                got = attempt(lambda: repr(x))
                if got[0] != "ok" or not isinstance(got[1], str):
                    raise Violation("repr gave %r" % (got,))
                want = got = ("ok", "")
            else:
                got = attempt(lambda: OPS[name](x, y))
                want = attempt(lambda: OPS[name](real, real))
            if kind == "failing" and got == ("raised", "OSError"):
                # a failed read may be reported; it must leave the stream where it was and the next try must work
                answers.append("failed")
            elif name in ANY_ERROR:
                if got[0] != "raised":
                    raise Violation("%s was accepted after %r" % (name, names))
            elif got != want or type(got[1]) is not type(want[1]):
                raise Violation("%s gave %r, the bytes %r give %r; history %r" % (name, got, real, want, names))
            if f.tell() != before:
                raise Violation("%s moved the stream from %d to %d; history %r" % (name, before, f.tell(), names))
            if taken is not None:
                used = f.taken - taken
                if name in FREE and used:
                    raise Violation("%s read %d octets; history %r" % (name, used, names))
            answers.append(short(got, 60))
        if getattr(f, "taken", None) is not None and kind != "failing":
            moved = sum(1 for n in names if n == "read 2")
            uses_other = any(n == "other" or n in OPS for n in names)
            limit = length * (2 if uses_other else 1) + 3 * moved
            if f.taken > limit:
                raise Violation("%d octets read for two sequences of %d; history %r" % (f.taken, length, names))
        if kind == "failing":
            f.left = 0
        if bytes(x) != real or bytes(y) != real or len(x) != length:
            raise Violation("contents %r, expected %r after %r" % (bytes(x), real, names))
        f.close()
        # once loaded, the stream is not needed
        if bytes(x) != real or x[:] != real or hash(x) != hash(real):
            raise Violation("contents lost with the stream closed")
        return answers

    def cases(self):
        kinds = ["counting", "chunky", "failing", "buffered", "file", "rawfile"]
        allops = list(OPS) + ["repr"]
        for kind in kinds:
            for w in self.windows() if kind != "file" or self.thorough else [(1, 3), (0, 11), (4, 0)]:
                for op in allops:
                    yield "single", {"stream": kind, "window": list(w), "ops": [op]}
        main = [(1, 3), (0, len(CONTENTS)), (4, 0), (7, 4)]
        for kind in kinds:
            for w in main:
                for a in allops + list(MOVES):
                    for b in allops:
                        yield "pair", {"stream": kind, "window": list(w), "ops": [a, b]}
        depth = 5 if self.thorough else 4
        for w in main[:3]:
            for kind in ("counting", "failing"):
                for n in range(3, depth + 1):
                    if n == depth and kind != "counting":
                        continue
                    for ops in itertools.product(CORE, repeat=n):
                        if n == depth and not self.thorough and (w != main[0] or ops[0] not in ("len", "repr", "bytes",
                                                                                          "read 2", "other")):
                            continue
                        if n == depth and self.thorough and w == main[2]:
                            continue
                        yield "history", {"stream": kind, "window": list(w), "ops": list(ops)}

    def run(self, kind, case):
        self.stats.transitions += len(case["ops"])
        return self.single(case["stream"], tuple(case["window"]), case["ops"])


CHECK = C11
