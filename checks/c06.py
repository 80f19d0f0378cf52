"""C06: files cut at every octet."""
from io import BytesIO

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R, readers as RD
from mc.refgsf import Block
from mc.sinks import Chunky
from mediagrains import gsf
from mediagrains.gsf import GSFDecoder, GSFDecodeError, GrainDataLoadingMode as Mode
from mc.stdin import InputStreamWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper

from io import BufferedReader


def one_file(v, gs, extras):
    f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "\u20ac")],
         "segments": [{"local_id": 1, "id": D.U2, "count": 2, "tags": [("s", "t")],
                       "flow": {"source_id": D.U1, "flow_id": D.U2, "format": "urn:f", "data": "{}"}},
                      {"local_id": 7, "id": D.UF, "count": -1, "tags": [], "flow": None}],
         "grains": [D.ref_of(g) for g in gs]}
    blocks = R.build(f)
    if extras:
        for i, x in enumerate(blocks):
            if x.tag == b"grai" and x.children:
                x.children.append(Block(b"fill", bytes(6)))
        blocks.insert(2, Block(b"zzzz", b"junk"))
    return R.serialise((v, 0), blocks)


def grai_ends(b, base):
    """(end of header and data, end of block) of every grain block of a file, from the block structure alone."""
    out = []
    p = 12
    while p < len(b):
        tag, size = b[p:p + 4], int.from_bytes(b[p + 4:p + 8], "little")
        if size == 0 and tag == b"grai":
            break
        if tag == b"grai":
            q, need, head = p + 10, p + 10, p + 10
            while q < p + size:
                t, s = b[q:q + 4], int.from_bytes(b[q + 4:q + 8], "little")
                if t in (b"gbhd", b"grdt"):
                    need = q + s
                if t == b"gbhd":
                    head = q + s
                q += s
            out.append((base + head, base + need, base + p + size))
        p += size
    return out


def file_set():
    m = D.menu()
    out = []
    for name, spec in FILES.items():
        b, gs, ends = b"", [], []
        n = 0
        for v, kinds, extras, *large in spec:
            part = []
            for k in kinds:
                # every payload octet differs, so a payload from the wrong place shows
                g = dict(m[k], local_id=(1, 7)[n % 2], ots=(1, n, n))
                if g["type"] not in ("event", "empty"):
                    g["data"] = bytes((n * 40 + x) & 255 for x in range(large[0] if large else 11 + n))
                part.append(g)
                n += 1
            x = one_file(v, part, extras)
            ends += grai_ends(x, len(b))
            b += x
            gs += part
        out.append((name, b, gs, ends))
    return {o[0]: o[1:] for o in out}


FILES = {
    "mixed9": [(9, (5, 0, 1), False)],
    "extras9": [(9, (3, 4, 2), True)],
    "seven": [(7, (2, 5), False)],
    "concat": [(9, (3,), False), (8, (), False), (7, (5,), True)],
    # of payloads larger than any buffer; cut where a power of two, or anything else of interest, is
    "large": [(9, (5, 0), False, 70001)],
}


# -- incremental readers: they put what they deliver in ``out`` and raise what they raise -----------------------------
def s_session(f, mode, out, **kw):
    with GSFDecoder(file_data=f, **kw) as s:
        out.append(s.file_headers)
        for g, lid in s.grains(loading_mode=mode):
            out.append((g, lid))


def s_legacy(f, out, **kw):
    dec = GSFDecoder(file_data=f)
    out.append(dec.decode_file_headers())
    for x in dec.grains(**kw):
        out.append(x)


async def a_session(f, mode, out, wait=True):
    async with GSFDecoder(file_data=f) as s:
        out.append(s.file_headers)
        async for g, lid in s.grains(loading_mode=mode):
            out.append((g, lid))
            if wait:
                await g


async def a_stream(b, mode, out, size):
    await a_session(RD.stream(b, [b[i:i + size] for i in range(0, len(b), size)]), mode, out)


def oneshot(load):
    def r(b, out):
        head, segs = load(b)
        out.append(head)
        out.extend((g, k) for k in segs for g in segs[k])
    return r


async def aload(b):
    return await gsf.load(AsyncBytesIO(b))


READERS = {
    "loads": (oneshot(gsf.loads), "grouped", None),
    "load": (oneshot(lambda b: gsf.load(BytesIO(b))), "grouped", None),
    "aload": (oneshot(lambda b: aio.run(aload(b))), "grouped", None),
    "legacy": (lambda b, out: s_legacy(BytesIO(b), out), None, None),
    "legacy_lazy": (lambda b, out: s_legacy(BytesIO(b), out, load_lazily=True), None, None),
    "legacy_skip": (lambda b, out: s_legacy(BytesIO(b), out, skip_data=True), None, "skip"),
    "stream": (lambda b, out: aio.run(a_stream(b, Mode.LOAD_IMMEDIATELY, out, 37)), None, None),
    "stream_skip": (lambda b, out: aio.run(a_stream(b, Mode.LOAD_NEVER, out, 37)), None, "skip"),
    "async_no_wait": (lambda b, out: aio.run(
        a_session(AsyncBytesIO(b), Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE, out, False)), None, None),
}
for _m in Mode:
    _s = "skip" if _m is Mode.LOAD_NEVER else None
    READERS["sync_" + _m.name] = (lambda b, out, m=_m: s_session(BytesIO(b), m, out), None, _s)
    READERS["pipe_" + _m.name] = (lambda b, out, m=_m: s_session(
        InputStreamWrapper(BufferedReader(Chunky(b, lambda p: 16, False), 16)), m, out), None, _s)
    READERS["raw_" + _m.name] = (lambda b, out, m=_m: s_session(Chunky(b, lambda p: 13), m, out), None, _s)
    READERS["async_" + _m.name] = (lambda b, out, m=_m: aio.run(a_session(AsyncBytesIO(b), m, out)), None, _s)
    READERS["afile_" + _m.name] = (lambda b, out, m=_m: aio.run(
        a_session(AsyncFileWrapper(BytesIO(b)), m, out)), None, _s)


class C06(Check):
    id = "C06"
    rule = ("every cut position of every file of the set (versions 7 to 9, all grain types, unknown and fill blocks, "
            "concatenations, with and without terminators), for every reading interface, source and loading mode; "
            "outcome = the delivered grains and how reading ended")
    assumptions = ["a cut removes a suffix of the file"]
    case_timeout = 20

    def prepare(self):
        self.files = file_set()
        self.whole = {}
        for name, (b, gs, ends) in self.files.items():
            if len(ends) != len(gs):
                raise RuntimeError("file set is wrong")

    def cases(self):
        for name, (b, gs, ends) in self.files.items():
            some = None
            if len(b) > 10000:
                marks = [x for e in ends for x in e] + [x - 70001 for e in ends for x in e[1:2]]
                some = {m + d for m in marks + [i << 12 for i in range(40)] for d in (-9, -8, -1, 0, 1)}
                some |= {m + (1 << s) for m in marks[-2:] for s in range(17)}
            for cut in range(len(b), -1, -1):
                if some is None or cut in some:
                    yield "cut", {"file": name, "cut": cut}
        if self.thorough:
            # every pair of grain kinds in every version
            for v in (7, 8, 9):
                m = [i for i, g in enumerate(D.menu()) if D.representable(g, v)]
                for x in m:
                    for y in m:
                        name = "%d:%d:%d" % (v, x, y)
                        FILES[name] = [(v, (x, y), (x + y) % 2 == 0)]
            self.files = file_set()
            for name, (b, gs, ends) in self.files.items():
                if ":" in name:
                    for cut in range(len(b), -1, -1):
                        yield "cut", {"file": name, "cut": cut}

    def run(self, kind, case):
        if case["file"] not in self.files:
            v, x, y = map(int, case["file"].split(":"))
            FILES[case["file"]] = [(v, (x, y), (x + y) % 2 == 0)]
            self.files = file_set()
        b, gs, ends = self.files[case["file"]]
        cut = case["cut"]
        c = b[:cut]
        must = sum(1 for e in ends if e[2] <= cut)          # blocks completely there
        may = sum(1 for e in ends if e[1] <= cut)           # header and payload completely there
        heads = sum(1 for e in ends if e[0] <= cut)
        outcome = []
        for name, (reader, order, skip) in READERS.items():
            self.stats.transitions += 1
            out = []
            try:
                reader(c, out)
                end = "stopped"
            except GSFDecodeError:
                end = "decode error"
            except Exception as e:
                raise Violation("%s: ended with %s: %s" % (name, type(e).__name__, e))
            got = out[1:]
            if order == "grouped":
                if end != "stopped":
                    continue
                want = gs[:len(got)]
                want = [g for k in dict.fromkeys(g["local_id"] for g in want) for g in want if g["local_id"] == k]
            else:
                want = gs[:len(got)]
            most = heads if skip else may
            if not must <= len(got) <= most:
                raise Violation("%s: delivered %d grains; %d are complete (%d with their payload)" %
                                (name, len(got), must, most))
            for i, ((g, lid), w) in enumerate(zip(got, want)):
                w = dict(w)
                if skip:
                    x = D.observe(g, lid, with_data=False)
                    w.pop("data")
                    x.pop("data", None)
                    if g.grain_type != "event" and g.data is not None and len(g.data):
                        raise Violation("%s: grain %d has data" % (name, i))
                    if w["type"] == "event":
                        w["hdr"] = x["hdr"]
                else:
                    x = D.observe(g, lid)
                d = D.diff(x, w, "grain %d" % i)
                if d:
                    raise Violation("%s: %s" % (name, d))
            outcome.append((len(got), end))
        return (case["file"], tuple(outcome), cut)


CHECK = C06
