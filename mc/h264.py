"""Writes H.264 byte streams from the syntax tables of the standard, knowing where each access unit starts."""


class Bits:
    def __init__(self):
        self.b = []

    def u(self, n, v):
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]
        return self

    def ue(self, v):
        n = (v + 1).bit_length()
        return self.u(2 * n - 1, v + 1)

    def se(self, v):
        return self.ue(2 * v - 1 if v > 0 else -2 * v)

    def trailing(self):
        self.u(1, 1)
        while len(self.b) % 8:
            self.u(1, 0)
        return self

    def bytes(self):
        return bytes(int("".join(map(str, self.b[i:i + 8])), 2) for i in range(0, len(self.b), 8))


def nal(ref, typ, rbsp):
    out, zeros = bytearray([ref << 5 | typ]), 0
    for x in rbsp:
        if zeros >= 2 and x <= 3:
            out.append(3)
            zeros = 0
        out.append(x)
        zeros = zeros + 1 if x == 0 else 0
    if zeros:
        raise AssertionError("a NAL unit may not end in a zero byte")
    return bytes(out)


SPS = dict(profile=66, id=0, chroma=1, separate=0, depth=0, scaling=0, frame_num_bits=4, poc_type=0, poc_bits=4,
           delta_zero=0, mbs_w=2, map_h=1, frame_only=1, crop=None, vui=None, depth_c=None, bypass=0, flags=0, level=30,
           cycle=(1, -3), refs=1, gaps=0, mbaff=0, direct=1, ref=3)
HIGH = (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135)
# deltas of a scaling list of n entries; one which makes the next scale zero ends the list
LISTS = {"default": lambda n: [-8], "wave": lambda n: [j % 3 - 1 for j in range(n)], "flat": lambda n: [0] * n,
         "stop": lambda n: [4, 4, -16], "late": lambda n: [1] * (n - 1) + [-(8 + n - 1)],
         "wrap": lambda n: [127, 127, -5] + [0] * (n - 3)}
ODD = [[1, "default"]] + [[i, "wave"] for i in (3, 5, 7, 9, 11)]


def sps(**kw):
    c = dict(SPS, **kw)
    b = Bits().u(8, c["profile"]).u(8, c["flags"]).u(8, c["level"]).ue(c["id"])
    if c["profile"] in HIGH:
        b.ue(c["chroma"])
        if c["chroma"] == 3:
            b.u(1, c["separate"])
        b.ue(c["depth"]).ue(c["depth"] if c["depth_c"] is None else c["depth_c"]).u(1, c["bypass"])
        b.u(1, 1 if c["scaling"] else 0)
        if c["scaling"]:
            for i in range(12 if c["chroma"] == 3 else 8):
                kind = dict(c["scaling"]).get(i)
                b.u(1, 1 if kind else 0)
                for d in LISTS[kind](16 if i < 6 else 64) if kind else ():
                    b.se(d)
    b.ue(c["frame_num_bits"] - 4).ue(c["poc_type"])
    if c["poc_type"] == 0:
        b.ue(c["poc_bits"] - 4)
    elif c["poc_type"] == 1:
        b.u(1, c["delta_zero"]).se(-1).se(2).ue(len(c["cycle"]))
        for d in c["cycle"]:
            b.se(d)
    b.ue(c["refs"]).u(1, c["gaps"]).ue(c["mbs_w"] - 1).ue(c["map_h"] - 1).u(1, c["frame_only"])
    if not c["frame_only"]:
        b.u(1, c["mbaff"])
    b.u(1, c["direct"])
    if c["crop"]:
        b.u(1, 1)
        for v in c["crop"]:      # left, right, top, bottom in crop units
            b.ue(v)
    else:
        b.u(1, 0)
    v = c["vui"]
    b.u(1, 1 if v is not None else 0)
    if v is not None:
        if "sar" in v:
            b.u(1, 1).u(8, v["sar"][0])
            if v["sar"][0] == 255:
                b.u(16, v["sar"][1]).u(16, v["sar"][2])
        else:
            b.u(1, 0)
        b.u(1, 1).u(1, 0) if v.get("overscan") else b.u(1, 0)
        if v.get("signal"):
            b.u(1, 1).u(3, 5).u(1, 0).u(1, 1).u(8, 1).u(8, 1).u(8, 1)
        elif v.get("range"):
            b.u(1, 1).u(3, 2).u(1, 1).u(1, 0)
        else:
            b.u(1, 0)
        b.u(1, 1).ue(0).ue(1) if v.get("chroma_loc") else b.u(1, 0)
        if "timing" in v:
            b.u(1, 1).u(32, v["timing"][0]).u(32, v["timing"][1]).u(1, v.get("fixed", 1))
        else:
            b.u(1, 0)
        hrd = v.get("hrd", 0)
        for i in range(2):
            b.u(1, 1 if hrd & 1 << i else 0)
            if hrd & 1 << i:
                b.ue(0).u(4, 1).u(4, 2).ue(5).ue(6).u(1, 0).u(5, 23).u(5, 23).u(5, 23).u(5, 24)
        if hrd:
            b.u(1, 0)
        b.u(1, 0)
        if v.get("restrict"):
            b.u(1, 1).u(1, 1).ue(0).ue(1).ue(10).ue(10).ue(0).ue(1)
        else:
            b.u(1, 0)
    return c, nal(c["ref"], 7, b.trailing().bytes())


PPS = dict(id=0, sps=0, bottom=0, redundant=0, groups=None, entropy=0, l0=0, l1=0, weighted=0, bipred=0, qp=0, qs=0,
           chroma_qp=0, deblock=1, constrained=0, units=4, direction=0, rate=1, more=0, ref=3)


def pps(**kw):
    c = dict(PPS, **kw)
    b = Bits().ue(c["id"]).ue(c["sps"]).u(1, c["entropy"]).u(1, c["bottom"])
    g = c["groups"]
    if g is None:
        b.ue(0)
    else:
        n, t = g                # slice groups, map type
        b.ue(n - 1).ue(t)
        if t == 0:
            for i in range(n):
                b.ue(i)
        elif t == 2:
            for i in range(n - 1):
                b.ue(i).ue(i + 1)
        elif t in (3, 4, 5):
            b.u(1, c["direction"]).ue(c["rate"])
        elif t == 6:
            size = c["units"]
            b.ue(size - 1)
            for i in range(size):
                b.u((n - 1).bit_length(), i % n)
    b.ue(c["l0"]).ue(c["l1"]).u(1, c["weighted"]).u(2, c["bipred"]).se(c["qp"]).se(c["qs"]).se(c["chroma_qp"])
    b.u(1, c["deblock"]).u(1, c["constrained"]).u(1, c["redundant"])
    if c["more"]:
        b.u(1, 1).u(1, 1).u(6, 0).se(-2)    # 8x8 transforms, scaling lists (none present), second chroma qp
    return c, nal(c["ref"], 8, b.trailing().bytes())


def slice_(s, p, typ=1, ref=1, first_mb=0, slice_type=0, frame_num=0, colour=0, field=0, bottom=0, idr_id=0, lsb=0,
           delta_bottom=0, delta0=0, delta1=0, redundant=0, payload=b"\x5a"):
    """A slice (or partition A) with the header the parameter sets ask for."""
    b = Bits().ue(first_mb).ue(slice_type).ue(p["id"])
    if s["separate"]:
        b.u(2, colour)
    b.u(s["frame_num_bits"], frame_num)
    if not s["frame_only"]:
        b.u(1, field)
        if field:
            b.u(1, bottom)
    if typ == 5:
        b.ue(idr_id)
    if s["poc_type"] == 0:
        b.u(s["poc_bits"], lsb)
        if p["bottom"] and not field:
            b.se(delta_bottom)
    elif s["poc_type"] == 1 and not s["delta_zero"]:
        b.se(delta0)
        if p["bottom"] and not field:
            b.se(delta1)
    if p["redundant"]:
        b.ue(redundant)
    for x in payload:
        b.u(8, x)
    return nal(ref, typ, b.trailing().bytes())


def aud():
    return nal(0, 9, bytes([0x10]))


def sei():
    return nal(0, 6, bytes([5, 3, 0, 0, 1, 0x80]))


def other(typ, ref=0):
    return nal(ref, typ, bytes([0x42, 0, 0, 1, 0x80]))


def stream(units, start=4, first=None):
    """units: [[nal, ...], ...] access units.  Returns the bytes, and the offset at which each unit starts."""
    out, at = bytearray(), []
    for i, u in enumerate(units):
        for j, n in enumerate(u):
            zeros = (first if i == 0 and j == 0 and first is not None else start if j == 0 or start > 4 else 4 - (i + j) % 2) - 1
            out += bytes(zeros)
            if j == 0:
                at.append(len(out) - min(zeros, 3) if i else 0)
            out += b"\x01" + n
    return bytes(out), at


def size(s):
    """coded width, coded height, width, height"""
    cw, ch = s["mbs_w"] * 16, s["map_h"] * 16 * (2 - s["frame_only"])
    array = 0 if s["separate"] else s["chroma"]
    x, y = {0: (1, 1), 1: (2, 2), 2: (2, 1), 3: (1, 1)}[array]
    y *= 2 - s["frame_only"]
    l, r, t, b = s["crop"] or (0, 0, 0, 0)
    return cw, ch, cw - x * (l + r), ch - y * (t + b)
