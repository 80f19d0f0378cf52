"""C07: malformed files: documented defects and every single-octet fault."""
import copy
import pickle
from io import BytesIO

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R, readers as RD
from mc.refgsf import Block
from mediagrains import gsf
from mediagrains.gsf import (GSFDecoder, GSFDecodeError, GSFDecodeBadFileTypeError, GSFDecodeBadVersionError,
                             GrainDataLoadingMode as Mode)
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper
from mc.stdin import InputStreamWrapper


def tree(v, kinds):
    m = D.menu()
    gs = [dict(m[k], local_id=(1, 7)[n % 2], ots=(1, n + 1, n)) for n, k in enumerate(kinds)]
    f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "\u20ac")],
         "segments": [{"local_id": 1, "id": D.U2, "count": 2, "tags": [("s", "t")],
                       "flow": {"source_id": D.U1, "flow_id": D.U2, "format": "urn:f", "data": "{}"}},
                      {"local_id": 7, "id": D.UF, "count": -1, "tags": [], "flow": None}],
         "grains": [D.ref_of(g) for g in gs]}
    return gs, R.build(f)


FILES = {"a": (9, (5, 1)), "b": (9, (3, 2)), "c": (8, (4, 5)), "d": (7, (1, 3, 0))}


def payload_spans(b):
    """Octets that are grain payload, not structure."""
    out = set()
    p = 12
    while p < len(b):
        size = int.from_bytes(b[p + 4:p + 8], "little")
        if b[p:p + 4] == b"grai" and size:
            q = p + 10
            while q < p + size:
                s = int.from_bytes(b[q + 4:q + 8], "little")
                if b[q:q + 4] == b"grdt":
                    out |= set(range(q + 8, q + s))
                q += s
        p += max(8, size)
    return out


def plain(meta, data):
    return Raw(meta, data)


class Raw:
    """A grain factory's output that judges nothing: what the decoder found."""
    length = 0

    def __init__(self, meta, data):
        self.meta = meta
        self.data = data

    def __await__(self):
        async def go():
            if hasattr(self.data, "__await__"):
                self.data = await self.data
            return self.data
        return go().__await__()

    def seen(self, lid):
        m = dict(self.meta["grain"])
        return repr(sorted(m.items(), key=lambda x: x[0])), lid, None if self.data is None else bytes(self.data)


async def a_read(f, mode, out):
    async with GSFDecoder(file_data=f, parse_grain=plain) as s:
        out.append(s.file_headers)
        async for g, lid in s.grains(loading_mode=mode):
            await g
            out.append((g, lid))


def s_read(f, mode, out):
    with GSFDecoder(file_data=f, parse_grain=plain) as s:
        out.append(s.file_headers)
        for g, lid in s.grains(loading_mode=mode):
            out.append((g, lid))


def l_read(f, out):
    dec = GSFDecoder(file_data=f, parse_grain=plain)
    out.append(dec.decode_file_headers())
    out.extend(dec.grains())


async def st_read(b, mode, out):
    await a_read(RD.stream(b), mode, out)


READERS = {
    "sync": lambda b, o: s_read(BytesIO(b), Mode.LOAD_IMMEDIATELY, o),
    "sync_defer": lambda b, o: s_read(BytesIO(b), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, o),
    "pipe": lambda b, o: s_read(InputStreamWrapper(RD.Unseekable(b)), Mode.LOAD_IMMEDIATELY, o),
    "legacy": lambda b, o: l_read(BytesIO(b), o),
    "async": lambda b, o: aio.run(a_read(AsyncBytesIO(b), Mode.LOAD_IMMEDIATELY, o)),
    "async_defer": lambda b, o: aio.run(a_read(AsyncBytesIO(b), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, o)),
    "async_file": lambda b, o: aio.run(a_read(AsyncFileWrapper(BytesIO(b)), Mode.LOAD_IMMEDIATELY, o)),
    "stream": lambda b, o: aio.run(st_read(b, Mode.LOAD_IMMEDIATELY, o)),
}
ONESHOT = {
    "loads": lambda b: gsf.loads(b, parse_grain=plain),
    "load": lambda b: gsf.load(BytesIO(b), parse_grain=plain),
    "aload": lambda b: aio.run(RD._aload(b, parse_grain=plain)),
}


def attempt(r, b):
    out = []
    err = None
    try:
        r(b, out)
    except GSFDecodeError as e:
        err = e
    return out, err


def defects():
    """name -> (octets, class, attributes, grains delivered first or None if none can be)"""
    gs, blocks = tree(9, (5, 1))
    good = R.serialise((9, 0), blocks)
    d = {}
    for sig in (b"SSBBgrsX", b"XSBBgrsg", b"SSBBesse", b"ssbbgrsg", b"RIFF\x00\x00\x00\x00", b"SSB grsg",
                b"grsgSSBB", b"\x00" * 8):
        d["signature %r" % sig] = (sig + good[8:], GSFDecodeBadFileTypeError,
                                   {"filetype": sig.split(b"\x00")[0].decode()}, None)
    d["signature not text"] = (b"\xff\xfe\xfd\xfc" + good[4:], GSFDecodeError, {}, None)
    for v in [0, 1, 2, 3, 4, 5, 6, 10, 11, 255, 256 + 9, 65535]:
        for minor in (0, 1, 65535):
            d["version %d.%d" % (v, minor)] = (
                good[:8] + v.to_bytes(2, "little") + minor.to_bytes(2, "little") + good[12:],
                GSFDecodeBadVersionError, {"major": v, "minor": minor}, None)
    head = [x for x in blocks if x.tag == b"head"]
    rest = [x for x in blocks if x.tag != b"head"]
    d["no head"] = (R.serialise((9, 0), rest), GSFDecodeError, {}, None)
    d["nothing after the file header"] = (good[:12], GSFDecodeError, {}, None)
    d["only unknown blocks"] = (R.serialise((9, 0), [Block(b"zzzz", b"x"), Block(b"fill", b"")]), GSFDecodeError, {},
                                None)
    for n in range(1, 12):
        d["only %d octets" % n] = (good[:n], GSFDecodeError, {}, None)
    d["empty"] = (b"", GSFDecodeError, {}, None)
    pos = good.index(b"grai")
    second = good.index(b"grai", pos + 8)
    d["second file of another type"] = (good[:pos] + b"SSBBesse" + good[pos:], GSFDecodeError, {}, 0)
    d["second file of another type, later"] = (good + b"SSBBesse\x09\0\0\0", GSFDecodeError, {}, 2)
    d["second file of another version"] = (good + b"SSBBgrsg\x06\0\0\0" + good[12:], GSFDecodeBadVersionError,
                                           {"major": 6, "minor": 0}, 2)
    d["second file without head"] = (good + good[:12], GSFDecodeError, {}, 2)
    for n, at in ((0, pos), (1, second)):
        d["tag of grain %d not text" % n] = (good[:at] + b"\xffrai" + good[at + 4:], GSFDecodeError, {}, n)
        g = good.index(b"gbhd", at)
        for t in (b"grdt", b"fill", b"head", b"grai"):
            d["%r instead of the header of grain %d" % (t, n)] = (good[:g] + t + good[g + 4:], GSFDecodeError, {}, n)
    # a few octets too many in places that hold only blocks
    for extra in (1, 4, 7):
        for where, before in (("head", None), ("segm", None), ("gbhd", 0), ("cghd", 0), ("vghd", 1)):
            gs2, bl = tree(9, (kind_of("coded_video"), kind_of("video")))
            if not stretch(bl, where.encode(), extra):
                raise RuntimeError("no %s block" % where)
            d["%d extra octets in %s" % (extra, where)] = (R.serialise((9, 0), bl), GSFDecodeError, {}, before)
    # blocks that go on beyond the block they are in
    for tag, before in ((b"gbhd", 0), (b"grdt", 0), (b"cghd", 0), (b"unof", 0), (b"segm", None), (b"flow", None),
                        (b"tag ", None)):
        for extra in (1, 100, 1 << 31):
            gs2, bl = tree(9, (kind_of("coded_video"), kind_of("video")))
            x = find(bl, tag)
            x.size = len(x.body()) + 8 + extra
            b = R.serialise((9, 0), bl)
            d["%s %d octets too long" % (tag.decode(), extra)] = (b, GSFDecodeError, {}, before)
    return d


def kind_of(name):
    return [i for i, g in enumerate(D.menu()) if g["type"] == name and (
        name != "coded_video" or g["hdr"]["unit_offsets"])][0]


class Junk(Block):
    def bytes(self):
        return self.payload


def find(blocks, tag):
    for x in blocks:
        if x.tag == tag:
            return x
        y = find(x.children, tag)
        if y is not None:
            return y
    return None


def stretch(blocks, tag, n):
    """Add n octets, too few to be a block, at the end of the first block with a tag."""
    x = find(blocks, tag)
    if x is not None:
        x.children.append(Junk(b"", bytes(n)))
    return x is not None


class C07(Check):
    id = "C07"
    rule = ("every documented defect, and every single-octet fault (every structural octet of every file times V "
            "substitute values: 0, 1, 255, 127, 128, +-1 and all single-bit flips; all 255 values in thorough), "
            "through eleven readers; sync, async, stream, deferred and one-shot readers must deliver the same and end "
            "the same way; outcome = delivered grains and error")
    assumptions = ["grain classes are not involved: a factory that records what the decoder found is used"]
    case_timeout = 10

    def prepare(self):
        self.files = {}
        for k, (v, kinds) in FILES.items():
            gs, blocks = tree(v, kinds)
            b = R.serialise((v, 0), blocks)
            self.files[k] = (gs, b, payload_spans(b))
        self.defects = defects()

    def cases(self):
        for name in self.defects:
            yield "defect", {"name": name}
        for k, (gs, b, skip) in self.files.items():
            for p in range(len(b)):
                if p in skip:
                    continue
                old = b[p]
                vals = set(range(256)) if self.thorough else \
                    {0, 1, 255, 127, 128, (old + 1) & 255, (old - 1) & 255} | {old ^ (1 << i) for i in range(8)}
                for x in sorted(vals - {old}):
                    yield "fault", {"file": k, "pos": p, "value": x}

    def run(self, kind, case):
        if kind == "defect":
            b, cls, attrs, n = self.defects[case["name"]]
            outs = self.everyone(b)
            for name, (out, err) in outs.items():
                if type(err) is not cls and not (cls is GSFDecodeError and isinstance(err, GSFDecodeError)):
                    raise Violation("%s: %s where %s is documented" % (name, type(err).__name__, cls.__name__))
                for k, v in attrs.items():
                    if getattr(err, k, None) != v:
                        raise Violation("%s: error's %s is %r, expected %r" % (name, k, getattr(err, k, None), v))
                if len(out) != (0 if n is None else n + 1):
                    raise Violation("%s: delivered %d items before the error" % (name, len(out)))
            return (case["name"], cls.__name__)
        gs, b, _ = self.files[case["file"]]
        b = b[:case["pos"]] + bytes([case["value"]]) + b[case["pos"] + 1:]
        outs = self.everyone(b)
        out, err = outs["sync"]
        return (type(err).__name__, [o.seen(lid) for o, lid in out[1:]], repr(out[:1]))

    def everyone(self, b):
        outs = {}
        first = None
        for name, r in READERS.items():
            self.stats.transitions += 1
            try:
                out, err = attempt(r, b)
            except Exception as e:
                raise Violation("%s: fails with %s: %s" % (name, type(e).__name__, e))
            outs[name] = (out, err)
            if err is not None:
                for how, f in (("pickled", lambda e: pickle.loads(pickle.dumps(e))), ("copied", copy.copy)):
                    try:
                        e = f(err)
                    except Exception as x:
                        raise Violation("%s: its %s cannot be %s: %s" % (name, type(err).__name__, how, x))
                    if type(e) is not type(err) or str(e) != str(err) or vars(e) != vars(err):
                        raise Violation("%s: its %r is %r once %s" % (name, err, e, how))
            view = (type(err).__name__, str(err), getattr(err, "offset", None), repr(out[:1]),
                    [g.seen(lid) for g, lid in out[1:]])
            if first is None:
                first = (name, view)
            elif view[0] != first[1][0]:
                raise Violation("%s ends with %s, %s with %s" % (name, view[:2], first[0], first[1][:2]))
            elif view[3:] != first[1][3:]:
                raise Violation("%s and %s deliver different things: %r, %r" %
                                (name, first[0], view[3:], first[1][3:]))
        for name, r in ONESHOT.items():
            self.stats.transitions += 1
            try:
                head, segs = r(b)
                got = None
            except GSFDecodeError as e:
                got = e
            except Exception as e:
                raise Violation("%s: fails with %s: %s" % (name, type(e).__name__, e))
            if type(got).__name__ != first[1][0]:
                raise Violation("%s ends with %s, %s with %s" % (name, type(got).__name__, first[0], first[1][:2]))
            if got is None and sum(len(x) for x in segs.values()) != len(first[1][4]):
                raise Violation("%s delivers another number of grains than %s" % (name, first[0]))
        return outs


CHECK = C07
