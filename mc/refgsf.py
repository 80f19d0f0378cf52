"""An independent reference codec for GSF, written from gsf_docs/gsf.md and gsf_docs/ssb.md only.

A file is a tree of blocks: ``Block(tag, fixed payload, children)``.  ``build`` makes the tree for an abstract file,
``serialise`` writes it, ``parse`` reads bytes back into an abstract file and rejects anything the documents do not
allow.  Nothing here is shared with mediagrains.
"""
import struct
from dataclasses import dataclass, field


class Bad(Exception):
    pass


@dataclass
class Block:
    tag: bytes
    payload: bytes = b""
    children: list = field(default_factory=list)
    leaf: bool = False            # leaf blocks may carry extra trailing properties
    size: int = None              # override for the size field

    def body(self):
        return self.payload + b"".join(c.bytes() for c in self.children)

    def bytes(self):
        b = self.body()
        n = len(b) + 8 if self.size is None else self.size
        return self.tag + struct.pack("<I", n) + b


def u(v, n):
    if v < 0 or v >> (8 * n):
        raise Bad("%d does not fit %d octets" % (v, n))
    return v.to_bytes(n, "little")


def s(v, n):
    return v.to_bytes(n, "little", signed=True)


def fixstr(v, n):
    b = v.encode("utf-8")
    if len(b) > n:
        raise Bad("string too long")
    return b + bytes(n - len(b))


def varstr(v):
    b = v.encode("utf-8")
    return u(len(b), 2) + b


def ts(v, major, true=1):
    sign, sec, ns = v
    if major == 7:
        return u(sec, 6) + u(ns, 4)
    return u(true if sign >= 0 else 0, 1) + u(sec, 6) + u(ns, 4)


def rat(v):
    return u(v[0], 4) + u(v[1], 4)


def tag_block(kv):
    return Block(b"tag ", varstr(kv[0]) + varstr(kv[1]), leaf=True)


def head_block(f):
    y, mo, d, h, mi, se = f["created"]
    b = Block(b"head", f["id"].bytes + s(y, 2) + u(mo, 1) + u(d, 1) + u(h, 1) + u(mi, 1) + u(se, 1))
    for sg in f["segments"]:
        c = Block(b"segm", u(sg["local_id"], 2) + sg["id"].bytes + s(sg["count"], 8))
        if sg.get("flow"):
            fl = sg["flow"]
            data = fl["data"].encode("utf-8")
            c.children.append(Block(b"flow", fl["source_id"].bytes + fl["flow_id"].bytes + fixstr(fl["format"], 64) +
                                    u(len(data), 4) + data, leaf=True))
        c.children += [tag_block(kv) for kv in sg["tags"]]
        b.children.append(c)
    b.children += [tag_block(kv) for kv in f["tags"]]
    return b


def grai_block(g, major):
    true = g.get("true", 1)              # any non-zero octet is true to a reader
    kf_null = g.get("kf_null", 3)        # any octet over 1 says the key frame flag is unknown (version 9)
    gb = Block(b"gbhd", g["source_id"].bytes + g["flow_id"].bytes + (bytes(16) if major == 7 else b"") +
               ts(g["ots"], major, true) + ts(g["sts"], major, true) + rat(g["rate"]) + rat(g["duration"]))
    if g["timelabels"]:
        gb.children.append(Block(b"tils", u(len(g["timelabels"]), 2) + b"".join(
            fixstr(t, 16) + u(c, 4) + u(n, 4) + u(d, 4) + u(true if df else 0, 1)
            for (t, c, n, d, df) in g["timelabels"]), leaf=True))
    h = g.get("hdr")
    k = g["type"]
    if k == "video":
        b = Block(b"vghd", b"".join(u(h[x], 4) for x in ("format", "layout", "width", "height", "extension")) +
                  rat(h["aspect"]) + rat(h["pixel_aspect"]))
        if h["components"]:
            b.children.append(Block(b"comp", u(len(h["components"]), 2) + b"".join(
                b"".join(u(x, 4) for x in c) for c in h["components"]), leaf=True))
        gb.children.append(b)
    elif k == "coded_video":
        kf = {None: kf_null, True: 1 if major >= 9 else true, False: 0}[h["key_frame"]]
        to = 0x7fffffff if h["temporal_offset"] is None else h["temporal_offset"]
        b = Block(b"cghd", b"".join(u(h[x], 4) for x in ("format", "layout", "origin_width", "origin_height",
                                                         "coded_width", "coded_height")) + u(kf, 1) + s(to, 4))
        if h["unit_offsets"]:
            b.children.append(Block(b"unof", u(len(h["unit_offsets"]), 2) +
                                    b"".join(u(x, 4) for x in h["unit_offsets"]), leaf=True))
        gb.children.append(b)
    elif k == "audio":
        gb.children.append(Block(b"aghd", u(h["format"], 4) + u(h["channels"], 2) + u(h["samples"], 4) +
                                 u(h["sample_rate"], 4), leaf=True))
    elif k == "coded_audio":
        gb.children.append(Block(b"cahd", u(h["format"], 4) + u(h["channels"], 2) + u(h["samples"], 4) +
                                 u(h["priming"], 4) + u(h["remainder"], 4) + u(h["sample_rate"], 4), leaf=True))
    elif k == "event":
        gb.children.append(Block(b"eghd", u(0, 1), leaf=True))
    elif k != "empty":
        raise Bad(k)
    return Block(b"grai", u(g["local_id"], 2), [gb, Block(b"grdt", g["data"] or b"")])


def build(f):
    """The list of top level pieces: raw header bytes, then Blocks."""
    major, minor = f["version"]
    out = [Block(b"SSBB", None, size=0), head_block(f)] + [grai_block(g, major) for g in f["grains"]]
    if f.get("terminator", True):
        out.append(Block(b"grai", b"", size=0))
    return out


def header(version):
    return b"SSBBgrsg" + u(version[0], 2) + u(version[1], 2)


def serialise(version, blocks):
    return header(version) + b"".join(b.bytes() for b in blocks if b.tag != b"SSBB")


def encode(f):
    return serialise(f["version"], build(f))


# The numbers the documents give to the enumerated values (gsf.md)
DOC_FRAME = dict(
    MJPEG=0x200, DNxHD=0x201, MPEG2=0x202, AVCI=0x203, H264=0x204, DV=0x205, D10=0x206, VC2=0x207, VP8=0x208,
    H265=0x209, ALPHA_U8_1BIT=0x1080, U8_444=0x2000, U8_422=0x2001, U8_420=0x2003, U8_444_RGB=0x2010,
    ALPHA_U8=0x2080, YUYV=0x2100, UYVY=0x2101, AYUV=0x2102, RGB=0x2104, RGBx=0x2110, xRGB=0x2111, BGRx=0x2112,
    xBGR=0x2113, RGBA=0x2114, ARGB=0x2115, BGRA=0x2116, ABGR=0x2117, S16_444_10BIT=0x2804,
    S16_444_10BIT_RGB=0x2814, S16_422_10BIT=0x2805, S16_420_10BIT=0x2807, ALPHA_S16_10BIT=0x2884, v210=0x2906,
    S16_444_12BIT=0x3004, S16_444_12BIT_RGB=0x3014, S16_422_12BIT=0x3005, S16_420_12BIT=0x3007,
    ALPHA_S16_12BIT=0x3084, S16_444=0x4004, S16_444_RGB=0x4014, S16_422=0x4005, S16_420=0x4007, ALPHA_S16=0x4084,
    v216=0x4105, S32_444=0x8008, S32_444_RGB=0x8018, S32_422=0x8009, S32_420=0x800b, ALPHA_S32=0x8088,
    UNKNOWN=0xfffffffe, INVALID=0xffffffff)
DOC_LAYOUT = dict(FULL_FRAME=0, SEPARATE_FIELDS=1, SINGLE_FIELD=2, MIXED_FIELDS=3, SEGMENTED_FRAME=4,
                  UNKNOWN=0xfffffffe)
DOC_AUDIO = dict(
    S16_PLANES=0, S16_PAIRS=1, S16_INTERLEAVED=2, S24_PLANES=4, S24_PAIRS=5, S24_INTERLEAVED=6, S32_PLANES=8,
    S32_PAIRS=9, S32_INTERLEAVED=10, S64_INVALID=12, FLOAT_PLANES=0x18, FLOAT_PAIRS=0x19, FLOAT_INTERLEAVED=0x1a,
    DOUBLE_PLANES=0x2c, DOUBLE_PAIRS=0x2d, DOUBLE_INTERLEAVED=0x2e, MP1=0x200, AAC=0x201, OPUS=0x202,
    INVALID=0xffffffff)


# -- reader -----------------------------------------------------------------------------------------------------------
class Cur:
    def __init__(self, b, pos, end):
        self.b, self.pos, self.end = b, pos, end

    def take(self, n):
        if self.pos + n > self.end:
            raise Bad("block content overruns its block at %d" % self.pos)
        r = self.b[self.pos:self.pos + n]
        self.pos += n
        return r

    def u(self, n):
        return int.from_bytes(self.take(n), "little")

    def s(self, n):
        return int.from_bytes(self.take(n), "little", signed=True)

    def fixstr(self, n):
        r = self.take(n)
        t = r.split(b"\0", 1)[0]
        if r[len(t):].strip(b"\0"):
            raise Bad("junk after string terminator")
        return t.decode("utf-8")

    def varstr(self):
        return self.take(self.u(2)).decode("utf-8")

    def ts(self, major):
        sign = 1
        if major != 7:
            f = self.u(1)
            if f not in (0, 1):
                raise Bad("sign is not a boolean")
            sign = 1 if f else -1
        v = (sign, self.u(6), self.u(4))
        if v[2] >= 10 ** 9:
            raise Bad("nanoseconds out of range")
        return v

    def rat(self):
        return (self.u(4), self.u(4))

    def bool(self):
        v = self.u(1)
        if v not in (0, 1):
            raise Bad("not a boolean")
        return bool(v)

    def block(self):
        start = self.pos
        tag = self.take(4)
        size = self.u(4)
        if size == 0 and tag == b"grai":
            return tag, None
        if size < 8 or start + size > self.end:
            raise Bad("block %r at %d has size %d which does not nest" % (tag, start, size))
        sub = Cur(self.b, self.pos, start + size)
        self.pos = start + size
        return tag, sub

    def done(self, what):
        if self.pos != self.end:
            raise Bad("%d stray octets at the end of %s" % (self.end - self.pos, what))


def parse(b, check_counts=True):
    """Parse one GSF file strictly as a writer must produce it."""
    c = Cur(bytes(b), 0, len(b))
    if c.take(8) != b"SSBBgrsg":
        raise Bad("bad signature")
    version = (c.u(2), c.u(2))
    major = version[0]
    if major not in (7, 8, 9):
        raise Bad("bad version")
    f = {"version": version, "segments": [], "tags": [], "grains": [], "terminator": False}
    tag, h = c.block()
    if tag != b"head":
        raise Bad("no head block")
    import uuid
    f["id"] = uuid.UUID(bytes=h.take(16))
    f["created"] = (h.s(2), h.u(1), h.u(1), h.u(1), h.u(1), h.u(1))
    ids = set()
    while h.pos < h.end:
        tag, x = h.block()
        if tag == b"segm":
            sg = {"local_id": x.u(2), "id": uuid.UUID(bytes=x.take(16)), "count": x.s(8), "flow": None, "tags": []}
            while x.pos < x.end:
                tag, y = x.block()
                if tag == b"flow":
                    if sg["flow"]:
                        raise Bad("two flow blocks")
                    sg["flow"] = {"source_id": uuid.UUID(bytes=y.take(16)), "flow_id": uuid.UUID(bytes=y.take(16)),
                                  "format": y.fixstr(64), "data": y.take(y.u(4)).decode("utf-8")}
                elif tag == b"tag ":
                    sg["tags"].append((y.varstr(), y.varstr()))
                else:
                    raise Bad("unexpected block %r in segm" % tag)
                y.done(tag)
            if sg["local_id"] in ids:
                raise Bad("duplicate local id")
            ids.add(sg["local_id"])
            f["segments"].append(sg)
        elif tag == b"tag ":
            f["tags"].append((x.varstr(), x.varstr()))
            x.done(tag)
        else:
            raise Bad("unexpected block %r in head" % tag)
    while c.pos < c.end:
        tag, x = c.block()
        if tag != b"grai":
            raise Bad("unexpected top level block %r" % tag)
        if x is None:
            f["terminator"] = True
            c.done("file after terminator")
            break
        f["grains"].append(_grain(x, major))
    if check_counts:
        for sg in f["segments"]:
            n = sum(1 for g in f["grains"] if g["local_id"] == sg["local_id"])
            if sg["count"] not in (-1, n):
                raise Bad("segment %d says %d grains, has %d" % (sg["local_id"], sg["count"], n))
    return f


def _grain(x, major):
    import uuid
    g = {"local_id": x.u(2), "timelabels": [], "type": "empty", "hdr": None}
    tag, h = x.block()
    if tag != b"gbhd":
        raise Bad("grai does not begin with gbhd")
    g["source_id"] = uuid.UUID(bytes=h.take(16))
    g["flow_id"] = uuid.UUID(bytes=h.take(16))
    if major == 7:
        h.take(16)
    g["ots"], g["sts"] = h.ts(major), h.ts(major)
    g["rate"], g["duration"] = h.rat(), h.rat()
    seen = set()
    while h.pos < h.end:
        tag, y = h.block()
        if tag in seen:
            raise Bad("duplicate %r" % tag)
        seen.add(tag)
        if tag != b"tils" and g["type"] != "empty":
            raise Bad("two grain type headers")
        if tag == b"tils":
            n = y.u(2)
            if n == 0:
                raise Bad("empty tils block")
            g["timelabels"] = [(y.fixstr(16), y.u(4), y.u(4), y.u(4), y.bool()) for _ in range(n)]
        elif tag == b"vghd":
            g["type"] = "video"
            d = {k: y.u(4) for k in ("format", "layout", "width", "height", "extension")}
            d["aspect"], d["pixel_aspect"] = y.rat(), y.rat()
            d["components"] = []
            if y.pos < y.end:
                tag2, z = y.block()
                if tag2 != b"comp":
                    raise Bad("unexpected %r in vghd" % tag2)
                d["components"] = [tuple(z.u(4) for _ in range(4)) for _ in range(z.u(2))]
                z.done("comp")
            g["hdr"] = d
        elif tag == b"cghd":
            g["type"] = "coded_video"
            d = {k: y.u(4) for k in ("format", "layout", "origin_width", "origin_height", "coded_width",
                                     "coded_height")}
            kf = y.u(1)
            d["key_frame"] = {0: False, 1: True}.get(kf) if (major >= 9 or kf < 2) else True
            to = y.s(4)
            d["temporal_offset"] = None if major >= 9 and to == 0x7fffffff else to
            d["unit_offsets"] = []
            if y.pos < y.end:
                tag2, z = y.block()
                if tag2 != b"unof":
                    raise Bad("unexpected %r in cghd" % tag2)
                d["unit_offsets"] = [z.u(4) for _ in range(z.u(2))]
                z.done("unof")
            g["hdr"] = d
        elif tag == b"aghd":
            g["type"] = "audio"
            g["hdr"] = {"format": y.u(4), "channels": y.u(2), "samples": y.u(4), "sample_rate": y.u(4)}
        elif tag == b"cahd":
            g["type"] = "coded_audio"
            g["hdr"] = {"format": y.u(4), "channels": y.u(2), "samples": y.u(4), "priming": y.u(4),
                        "remainder": y.u(4), "sample_rate": y.u(4)}
        elif tag == b"eghd":
            g["type"] = "event"
            g["hdr"] = {"event_payload_type": y.u(1)}
        else:
            raise Bad("unexpected block %r in gbhd" % tag)
        y.done(tag)
    tag, d = x.block()
    if tag != b"grdt":
        raise Bad("expected grdt, got %r" % tag)
    g["data"] = d.take(d.end - d.pos)
    x.done("grai")
    return g
