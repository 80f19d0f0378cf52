"""C08: concatenations of GSF files."""
import itertools
from io import BufferedReader, BytesIO
from uuid import UUID

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R, readers as RD
from mc.refgsf import Block
from mc.sinks import Chunky
from mediagrains import gsf
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mc.stdin import InputStreamWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper

# kinds of grain that show which version they were decoded as
VARIANTS = {
    "coded_null": ("coded_video", {"h.key_frame": 2, "h.temporal_offset": 5}),
    "coded_max": ("coded_video", {"h.temporal_offset": 4, "timelabels": 1}),
    "negative": ("audio", {"ots": 2, "sts": 2, "data": 3}),
    "event": ("event", {"h.event_data": 3}),
    "video": ("video", {"h.components": 0, "data": 4}),
    "empty": ("empty", {}),
    "aac": ("coded_audio", {"data": 1}),
}
# (version, grains, unknown and fill blocks, terminated)
FILES = [(9, ("coded_null", "negative"), False, True), (9, ("coded_null", "negative"), False, False),
         (8, ("negative", "event"), True, True), (8, ("coded_max",), False, False),
         (7, ("video", "coded_max"), False, True), (7, ("empty", "aac"), True, False),
         (9, (), False, True), (7, (), False, False), (8, (), True, True), (9, ("video",), True, False)]


def one(slot, idx):
    v, kinds, extras, term = FILES[idx]
    gs = []
    for n, k in enumerate(kinds):
        t, dev = VARIANTS[k]
        g = D.abstract(t, dev)
        g["local_id"] = (2, 1)[(slot + n) % 2]
        g["flow_id"] = UUID(int=0xf10 + slot * 16 + n)
        if t not in ("event", "empty") and g["data"]:
            g["data"] = bytes([slot, n]) + g["data"]
        if k == "coded_max" and v < 9:
            g["hdr"] = dict(g["hdr"], temporal_offset=0x7fffffff)     # a null in version 9, a number before
        gs.append(g)
    f = {"version": (v, slot), "id": UUID(int=100 * slot + idx + 1), "created": (2023, 4, 5, 6, 7, slot),
         "tags": [("file", str(slot))],
         "segments": [{"local_id": 1, "id": D.U1, "count": -1, "tags": [], "flow": None}],
         "grains": [D.ref_of(g) for g in gs]}
    blocks = R.build(dict(f, terminator=term))
    if extras:
        blocks.insert(1, Block(b"fill", bytes(5)))
        blocks.insert(2, Block(b"zzzz", b"SSBBgrsg"))
        if term:
            blocks.append(Block(b"fill", bytes(3)))
    return f["id"], gs, R.serialise(f["version"], blocks)


#: of which file the header of the session was, as each grain was delivered
HEADS = []


def s_session(f, mode, **kw):
    with GSFDecoder(file_data=f, **kw) as s:
        head = s.file_headers
        return head, [x for x in s.grains(loading_mode=mode) if HEADS.append(s.file_headers["id"]) is None]


def s_legacy(f, kw, **how):
    dec = GSFDecoder(file_data=f, **kw)
    head = dec.decode_file_headers()
    return head, list(dec.grains(**how))


async def a_session(f, mode, wait=True, **kw):
    out = []
    async with GSFDecoder(file_data=f, **kw) as s:
        head = s.file_headers
        async for g, lid in s.grains(loading_mode=mode):
            out.append((g, lid))
            HEADS.append(s.file_headers["id"])
            if wait:
                await g
    return head, out


async def a_stream(b, mode, size, **kw):
    return await a_session(RD.stream(b, [b[i:i + size] for i in range(0, len(b), size)]), mode, **kw)


async def a_load(b, kw):
    return await gsf.load(AsyncBytesIO(b), **kw)


def at(b, n):
    """A source positioned n octets in."""
    f = BytesIO(b"x" * n + b)
    f.seek(n)
    return f


# name -> (reader, grouped by segment, payloads skipped)
READERS = {
    "loads": (lambda b, kw: RD.flat(gsf.loads(b, **kw)), True, False),
    "load": (lambda b, kw: RD.flat(gsf.load(BytesIO(b), **kw)), True, False),
    "decode": (lambda b, kw: RD.flat(GSFDecoder(**kw).decode(b)), True, False),
    "aload": (lambda b, kw: RD.flat(aio.run(a_load(b, kw))), True, False),
    "legacy": (lambda b, kw: s_legacy(BytesIO(b), kw), False, False),
    "legacy_lazy": (lambda b, kw: s_legacy(BytesIO(b), kw, load_lazily=True), False, False),
    "legacy_skip": (lambda b, kw: s_legacy(BytesIO(b), kw, skip_data=True), False, True),
    "stream_now": (lambda b, kw: aio.run(a_stream(b, Mode.LOAD_IMMEDIATELY, 50, **kw)), False, False),
    "stream_skip": (lambda b, kw: aio.run(a_stream(b, Mode.LOAD_NEVER, 7, **kw)), False, True),
}
for _m in Mode:
    _s = _m is Mode.LOAD_NEVER
    READERS["sync_" + _m.name] = (lambda b, kw, m=_m: s_session(BytesIO(b), m, **kw), False, _s)
    READERS["pipe_" + _m.name] = (lambda b, kw, m=_m: s_session(
        InputStreamWrapper(BufferedReader(Chunky(b, lambda p: 64, False), 64)), m, **kw), False, _s)
    READERS["middle_" + _m.name] = (lambda b, kw, m=_m: s_session(at(b, 13), m, **kw), False, _s)
    READERS["async_" + _m.name] = (lambda b, kw, m=_m: aio.run(a_session(AsyncBytesIO(b), m, **kw)), False, _s)
    READERS["afile_" + _m.name] = (lambda b, kw, m=_m: aio.run(a_session(AsyncFileWrapper(BytesIO(b)), m, **kw)),
                                   False, _s)


class C08(Check):
    id = "C08"
    rule = ("every concatenation of up to N files (N=3 quick, 4 thorough) from a set of 10 covering the three versions, "
            "empty and non-empty files, with and without terminators, with unknown and fill blocks before the header, "
            "between and after, whose grains decode differently in each version; by every reading interface with "
            "concatenation on and off; with it off, also whether a second decoder on the same source reads the next "
            "file; outcome = the grains delivered")
    assumptions = ["each file of the set is valid by the format documents (the reference codec writes them)"]
    case_timeout = 30

    def prepare(self):
        self.parts = {(s, i): one(s, i) for s in range(4) for i in range(len(FILES))}

    def cases(self):
        for n in range(1, (4 if self.thorough else 3) + 1):
            for c in itertools.product(range(len(FILES)), repeat=n):
                yield "concat", {"files": list(c)}

    def compare(self, name, got, want, skip):
        if len(got) != len(want):
            raise Violation("%s: %d grains, the files hold %d" % (name, len(got), len(want)))
        for i, ((g, lid), w) in enumerate(zip(got, want)):
            w = dict(w)
            x = D.observe(g, lid, with_data=not skip)
            if skip:
                w.pop("data")
                x.pop("data", None)
                if w["type"] == "event":
                    w["hdr"] = x["hdr"]
            d = D.diff(x, w, "grain %d" % i)
            if d:
                raise Violation("%s: %s" % (name, d))

    def run(self, kind, case):
        ps = [self.parts[s, i] for s, i in enumerate(case["files"])]
        b = b"".join(p[2] for p in ps)
        every = [g for p in ps for g in p[1]]
        outcome = []
        for on in (True, False):
            kw = {} if on else {"support_concatenation": False}
            gs = every if on else ps[0][1]
            for name, (read, grp, skip) in READERS.items():
                self.stats.transitions += 1
                HEADS.clear()
                head, got = read(b, kw)
                if HEADS and HEADS != [p[0] for p in ps for _ in p[1]][:len(HEADS)]:
                    raise Violation("%s, concatenation %s: as the grains were delivered the session's headers were those "
                                    "of other files: %r" % (name, on, [[p[0] for p in ps].index(h) for h in HEADS]))
                label = "%s, concatenation %s" % (name, "on" if on else "off")
                want = gs
                if grp:
                    want = [g for g, _ in RD.grouped([(g, g["local_id"]) for g in gs])]
                # one-shot functions report a header once they have read everything
                ids = [p[0] for p in ps] if grp and on else [ps[0][0]]
                if head["id"] not in ids:
                    raise Violation("%s: the header is not the first file's" % label)
                self.compare(label, got, want, skip)
                outcome.append((len(got), head["id"]))
        # the next file can be read from where the first one ends
        if len(ps) > 1 and FILES[case["files"][0]][3]:
            for name, mode in (("sync", Mode.LOAD_IMMEDIATELY), ("sync", Mode.LOAD_NEVER),
                               ("sync", Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)):
                self.stats.transitions += 1
                f = BytesIO(b)
                with GSFDecoder(file_data=f, support_concatenation=False) as s:
                    for _ in s.grains(loading_mode=mode):
                        pass
                if FILES[case["files"][0]][2]:
                    f.seek(11, 1)            # the fill block after the terminator
                with GSFDecoder(file_data=f) as s:
                    if s.file_headers["id"] != ps[1][0]:
                        raise Violation("%s: a second decoder does not find the second file's header" % name)
                    self.compare("second decoder", list(s.grains(loading_mode=Mode.LOAD_IMMEDIATELY)),
                                 [g for p in ps[1:] for g in p[1]], False)

            async def go():
                async with AsyncBytesIO(b) as f:
                    async with GSFDecoder(file_data=f, support_concatenation=False) as s:
                        async for _ in s.grains(loading_mode=Mode.LOAD_IMMEDIATELY):
                            pass
                    if FILES[case["files"][0]][2]:
                        f.seek(11, 1)
                    out = []
                    async with GSFDecoder(file_data=f) as s:
                        if s.file_headers["id"] != ps[1][0]:
                            raise Violation("async: a second decoder does not find the second file's header")
                        async for g in s.grains(loading_mode=Mode.LOAD_IMMEDIATELY):
                            out.append(g)
                    return out
            self.compare("second asynchronous decoder", aio.run(go()), [g for p in ps[1:] for g in p[1]], False)
        return tuple(case["files"]), tuple(outcome)


CHECK = C08
