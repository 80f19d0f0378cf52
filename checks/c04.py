"""C04: every way of writing the same grains, and of reading the same octets, agrees."""
import itertools
import os
import tempfile
from io import BufferedReader, BytesIO

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R, readers as RD
from mc.refgsf import Block
from mc.sinks import Chunky, Sink, Writer
from mediagrains import gsf
from mediagrains.gsf import GSFEncoder, GrainDataLoadingMode as Mode
from mc.stdin import InputStreamWrapper
from mediagrains.utils.asyncbinaryio import (AsyncBytesIO, AsyncBytesIOWrapper, AsyncFileWrapper, AsyncStreamWrapper)

SEGS = [(1, D.U1), (3, D.U2)]


def encoder(f, v, streaming, head):
    enc = GSFEncoder(f, major=v, id=D.U1, created=D.CREATED[0], streaming=streaming, tags=[("k", "v")])
    for lid, sid in SEGS[:head]:
        s = enc.add_segment(id=sid, local_id=lid, tags=[("a", "\u20ac")])
        if lid == 3:
            s.add_flow(D.U1, D.U2, "urn:f", "{}")
    return enc


def add(e, items, how):
    if how == 0:
        for g, lid in items:
            e.add_grain(D.make(g), segment_local_id=lid)
    elif how == 1:
        for g, lid in items:
            e.segments[lid].add_grain(D.make(g))
    else:
        for lid, grp in itertools.groupby(items, key=lambda x: x[1]):
            e.add_grains([D.make(g) for g, _ in grp], segment_id=dict(SEGS)[lid])


JUNK = b"junk" * 3000


def held(where):
    """An output that already holds more than will be written, at its start, within it or at its end."""
    f = BytesIO(JUNK)
    f.seek(where * len(JUNK) // 2)
    return f


def sync_writer(seekable, streaming, how, before=0, real=False):
    def w(items, v, head):
        if real:
            fd, fn = tempfile.mkstemp(prefix="mc-c04-")
            f = os.fdopen(fd, "w+b")
            f.write(JUNK)
        else:
            f = held(2) if seekable else Sink()
        try:
            enc = encoder(f, v, streaming, head)
            n = {0: 0, 1: len(items) // 2, 2: len(items)}[before]
            add(enc, items[:n], how)
            with enc as e:
                add(e, items[n:], how)
            if real:
                f.seek(0)
                return f.read()
            return f.getvalue() if seekable else bytes(f.b)
        finally:
            if real:
                f.close()
                os.unlink(fn)
    return w


def async_writer(kind, streaming, how):
    def w(items, v, head):
        if kind == "stream":
            out = Writer()
            f = AsyncStreamWrapper(writer=out)
        elif kind == "file":
            out = held(2)
            f = AsyncFileWrapper(out)
        elif kind == "plain":
            out = f = held(0)
        elif kind == "wrapper":
            out = held(1)
            f = AsyncBytesIOWrapper(out)
        else:
            out = f = AsyncBytesIO(JUNK)
        enc = encoder(f, v, streaming, head)

        async def go():
            async with enc as e:
                if how == 0:
                    for g, lid in items:
                        await e.add_grain(D.make(g), segment_local_id=lid)
                elif how == 1:
                    for g, lid in items:
                        e.segments[lid].add_grain(D.make(g))
                else:
                    for lid, grp in itertools.groupby(items, key=lambda x: x[1]):
                        await e.add_grains((D.make(g) for g, _ in grp), segment_local_id=lid)
        aio.run(go())
        return bytes(out.b) if kind == "stream" else bytes(out.getvalue())
    return w


def legacy_writer(how, progressive):
    def w(items, v, head):
        f = held(1)
        enc = encoder(f, v, False, head)
        if progressive:
            enc.start_dump()
            add(enc, items, how)
            enc.end_dump()
        else:
            add(enc, items, how)
            enc.dump()
        return f.getvalue()
    return w


# name -> (writer, does the output keep the order of grains between segments, are the counts known)
WRITERS = {
    "sync": (sync_writer(True, False, 0), False, True),
    "sync_segment": (sync_writer(True, False, 1), False, True),
    "sync_many": (sync_writer(True, False, 2), False, True),
    "sync_before": (sync_writer(True, False, 0, 2), False, True),
    "sync_unseekable": (sync_writer(False, False, 0), False, True),
    "sync_file": (sync_writer(True, False, 0, real=True), False, True),
    "streaming": (sync_writer(True, True, 0), True, True),
    "streaming_segment": (sync_writer(True, True, 1), True, True),
    "streaming_many": (sync_writer(True, True, 2), True, True),
    "streaming_before": (sync_writer(True, True, 0, 2), False, True),
    "streaming_half": (sync_writer(True, True, 1, 1), None, True),
    "streaming_file": (sync_writer(True, True, 0, real=True), True, True),
    "streaming_unseekable": (sync_writer(False, True, 0), True, False),
    "async": (async_writer("mem", False, 0), False, True),
    "async_segment": (async_writer("mem", False, 1), False, True),
    "async_file": (async_writer("file", False, 2), False, True),
    "async_plain": (async_writer("plain", False, 0), False, True),
    "async_stream": (async_writer("stream", False, 0), False, True),
    "async_streaming": (async_writer("mem", True, 0), True, True),
    "async_streaming_segment": (async_writer("mem", True, 1), None, True),
    "async_streaming_many": (async_writer("mem", True, 2), True, True),
    "async_streaming_file": (async_writer("file", True, 0), True, True),
    "async_streaming_plain": (async_writer("plain", True, 2), True, True),
    "async_streaming_wrapper": (async_writer("wrapper", True, 0), True, True),
    "async_streaming_stream": (async_writer("stream", True, 0), True, False),
    "legacy": (legacy_writer(0, False), False, True),
    "legacy_progressive": (legacy_writer(0, True), True, True),
    "legacy_progressive_segment": (legacy_writer(1, True), True, True),
}


def contents(kinds, v, extras=False, tags=True):
    m = D.menu()
    gs = [dict(m[i], local_id=(1, 7)[n % 2]) for n, i in enumerate(kinds)]
    f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v")] if tags else [],
         "segments": [{"local_id": 1, "id": D.U1, "count": -1, "tags": [("s", "t")],
                       "flow": {"source_id": D.U1, "flow_id": D.U2, "format": "urn:f", "data": "{}"}},
                      {"local_id": 7, "id": D.UF, "count": 1, "tags": [], "flow": None}], "grains": gs}
    blocks = R.build(dict(f, grains=[D.ref_of(g) for g in gs]))
    if extras:
        for b in blocks[1:]:
            if b.tag in (b"head", b"grai") and b.children:
                b.children.append(Block(b"fill", bytes(13)))
                if b.tag == b"grai":
                    b.children.insert(1, Block(b"zzzz", b"\x01" * 9))
        for i in range(len(blocks), 0, -1):
            blocks.insert(i, Block(b"fill", bytes(i)))
    return f, R.serialise(f["version"], blocks)


def head_value(head):
    return {"id": head["id"], "created": D.created_tuple(head["created"]), "tags": [tuple(t) for t in head["tags"]],
            "segments": [{"local_id": s["local_id"], "id": s["id"], "count": s["count"],
                          "tags": [tuple(t) for t in s["tags"]], "flow": s.get("flow")} for s in head["segments"]]}


def raw_readers(b, cuts):
    """Synchronous sources that deliver the octets in chunks."""
    yield "raw_seekable", lambda m: RD.sync_session(Chunky(b, cuts), m)
    yield "raw_pipe", lambda m: RD.sync_session(Chunky(b, cuts, False, True), m)
    yield "tool_pipe", lambda m: RD.sync_session(InputStreamWrapper(Chunky(b, cuts, False)), m)
    yield "buffered_pipe", lambda m: RD.sync_session(
        InputStreamWrapper(BufferedReader(Chunky(b, cuts, False), 16)), m)
    yield "raw_async", lambda m: aio.run(RD.async_session(AsyncFileWrapper(Chunky(b, cuts)), m))
    yield "stream", lambda m: RD._stream_session(b, m, chunks=split(b, cuts))


def split(b, cuts):
    if callable(cuts):
        out, p = [], 0
        while p < len(b):
            n = cuts(p)
            out.append(b[p:p + n])
            p += n
        return out
    c = [0] + sorted(cuts) + [len(b)]
    return [b[x:y] for x, y in zip(c, c[1:])]


class C04(Check):
    id = "C04"
    rule = ("writing: every sequence of up to N grains from a menu of 8 grains of all types (N=2 quick, 3 thorough), "
            "over two segments, in every version, by 28 writer interfaces.  reading: every such file, plain and with "
            "unknown and fill blocks, by 22 reader interfaces; files delivered in chunks cut at every position (pairs "
            "of positions in thorough) and in chunks of every size up to 32, through raw, piped, buffered and "
            "asynchronous sources, in every loading mode; outcome = the file or the grains; distinct outcomes counted")
    assumptions = ["the reference codec is a correct reading of the format documents"]

    def cases(self):
        for v in (9, 8, 7):
            m = [i for i, g in enumerate(D.menu()) if D.representable(g, v)]
            for n in range(0, 4 if self.thorough else 3):
                for combo in itertools.product(m, repeat=n):
                    yield "write", {"version": v, "grains": list(combo)}
                    if n < 3:
                        yield "read", {"version": v, "grains": list(combo), "extras": 0}
                        yield "read", {"version": v, "grains": list(combo), "extras": 1}
            yield "oneshot", {"version": v}
        for v in (9, 7):
            for kinds in ((2, 3), (5, 4, 6)):
                f, b = contents(kinds, v, True, False)
                for x in range(1, len(b)):
                    yield "chunks", {"version": v, "grains": list(kinds), "cuts": [x]}
                for size in list(range(1, 33)) + [64, 100]:
                    yield "chunks", {"version": v, "grains": list(kinds), "cuts": size}
        if self.thorough:
            f, b = contents((3,), 8, False, False)
            for x, y in itertools.combinations(range(1, len(b)), 2):
                yield "pairs", {"version": 8, "grains": [3], "cuts": [x, y], "extras": 0}

    def run(self, kind, case):
        return getattr(self, "run_" + kind)(case)

    def run_write(self, case):
        m = D.menu()
        v = case["version"]
        gs = [m[i] for i in case["grains"]]
        for pattern in ((0, 0, 0), (0, 1, 0), (1, 0, 1)):
            items = [(g, SEGS[pattern[i]][0]) for i, g in enumerate(gs)]
            want_stream = [(lid, i) for i, (g, lid) in enumerate(items)]
            want_grouped = sorted(want_stream, key=lambda x: x[0])
            first = {}
            for name, (w, ordered, counts) in WRITERS.items():
                b = w(items, v, 2)
                self.stats.transitions += 1
                try:
                    f = R.parse(b)
                except R.Bad as e:
                    raise Violation("%s: the file is not valid: %s" % (name, e))
                want = want_stream if ordered else want_grouped
                got = [g["local_id"] for g in f["grains"]]
                if ordered is None:
                    # only the order within each segment is promised
                    want = want_grouped
                    f["grains"].sort(key=lambda g: g["local_id"])
                    got = sorted(got)
                if got != [lid for lid, _ in want]:
                    raise Violation("%s: segments of the grains are %r, expected %r" %
                                    (name, got, [lid for lid, _ in want]))
                for s in f["segments"]:
                    n = sum(1 for _, lid in items if lid == s["local_id"])
                    if s["count"] != n and not (s["count"] == -1 and not counts):
                        raise Violation("%s: segment %d counts %d of %d grains" % (name, s["local_id"], s["count"], n))
                    s["count"] = None
                if f["version"] != (v, 0) or not f["terminator"]:
                    raise Violation("%s: version %r, terminator %r" % (name, f["version"], f["terminator"]))
                ref = first.setdefault("head", (name, {k: f[k] for k in ("id", "created", "tags", "segments")}))
                d = D.diff({k: f[k] for k in ref[1]}, ref[1], "head")
                if d:
                    raise Violation("%s and %s differ: %s" % (name, ref[0], d))
                by = {i: g for (_, i), g in zip(want, f["grains"])}
                ref = first.setdefault("grains", (name, by))
                d = D.diff(by, ref[1], "grains")
                if d:
                    raise Violation("%s and %s differ: %s" % (name, ref[0], d))
                # same order and same knowledge of counts: same octets
                if ordered is not None:
                    k = (got, tuple(i for _, i in want), counts or len(items) == 0 and ordered is False)
                    ref = first.setdefault(repr(k), (name, b))
                    if b != ref[1]:
                        raise Violation("%s and %s differ in their octets" % (name, ref[0]))
        return (v, b)

    def run_oneshot(self, case):
        """dump and dumps are the encoder with one segment."""
        m = [g for g in D.menu() if D.representable(g, case["version"])]
        for gs in itertools.product(m, repeat=2):
            kw = dict(major=case["version"], id=D.U1, created=D.CREATED[0], tags=[("k", "v")])
            a = gsf.dumps((D.make(g) for g in gs), segment_tags=[("s", "t")], **kw)
            f = BytesIO()
            gsf.dump([D.make(g) for g in gs], f, segment_tags=[("s", "t")], **kw)
            fs = [R.parse(a), R.parse(f.getvalue())]
            f = BytesIO()
            enc = GSFEncoder(f, **kw)
            with enc as e:
                s = e.add_segment(tags=[("s", "t")])
                s.add_grains([D.make(g) for g in gs])
            fs.append(R.parse(f.getvalue()))
            for x in fs:
                x["segments"][0]["id"] = None
            d = D.diff(fs[0], fs[2], "dumps") or D.diff(fs[1], fs[2], "dump")
            if d:
                raise Violation(d)
            self.stats.transitions += 3
        return case

    def run_read(self, case):
        f, b = contents(case["grains"], case["version"], bool(case["extras"]))
        want = f["grains"]
        out = None
        for table in (RD.FULL, RD.SKIP):
            for name, r in table.items():
                head, gs = r(b)
                self.stats.transitions += 1
                w = [dict(g) for g in want]
                if name in RD.GROUPED:
                    w = [x for k in dict.fromkeys(x["local_id"] for x in w) for x in w if x["local_id"] == k]
                if table is RD.SKIP:
                    if any(g.grain_type != "event" and g.data is not None and len(g.data) for g, _ in gs):
                        raise Violation("%s: a payload was read" % name)
                    for x in w:
                        x.pop("data")
                        if x["type"] == "event":
                            x["hdr"] = {"event_type": "", "topic": "", "event_data": []}
                out = [D.observe(g, k, with_data=table is RD.FULL) for g, k in gs]
                if table is RD.SKIP:
                    for x in out:
                        x.pop("data", None)
                d = D.diff(out, w, "grains") or D.diff(
                    head_value(head), {k: f[k] for k in ("id", "created", "tags", "segments")}, "head")
                if d:
                    raise Violation("%s: %s" % (name, d))
        return out

    def run_chunks(self, case, modes=tuple(Mode)):
        f, b = contents(case["grains"], case["version"], case.get("extras", 1), False)
        cuts = case["cuts"] if isinstance(case["cuts"], list) else (lambda pos: case["cuts"] - pos % case["cuts"])
        out = None
        for name, r in raw_readers(b, cuts):
            for mode in modes:
                head, gs = r(mode)
                self.stats.transitions += 1
                out = [D.observe(g, k) for g, k in gs]
                w = [dict(g) for g in f["grains"]]
                if mode is Mode.LOAD_NEVER:
                    for x in w:
                        x["data"] = None if x["type"] == "event" else b""
                        if x["type"] == "event":
                            x["hdr"] = {"event_type": "", "topic": "", "event_data": []}
                d = D.diff(out, w, "grains") or D.diff(
                    head_value(head), {k: f[k] for k in ("id", "created", "tags", "segments")}, "head")
                if d:
                    raise Violation("%s, %s: %s" % (name, mode.name, d))
        return (case["version"], tuple(case["grains"]), repr(case["cuts"]))

    def run_pairs(self, case):
        return self.run_chunks(case, (Mode.LOAD_IMMEDIATELY, Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE))


CHECK = C04
