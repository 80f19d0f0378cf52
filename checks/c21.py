"""C21: essence is cut into grains identically however it arrives."""
import io
import itertools
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc import h264 as H
from mc.core import Check, Violation
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, VideoGrain
from mc.stdin import InputStreamWrapper
from mediagrains.utils import ADTSAACGrainWrapper, GrainWrapper, H264GrainWrapper

SRC, FLOW = UUID(int=3), UUID(int=4)
ORIGINS = [Timestamp(0, 0), Timestamp(1, 0), Timestamp(1500000000, 0)]


class Pieces(io.RawIOBase):
    """An input which returns at most one delivered piece per read, as pipes and sockets do."""
    def __init__(self, pieces):
        self.pieces = [p for p in pieces if p]
        self.after_end = 0

    def read(self, n=-1):
        if not self.pieces:
            self.after_end += 1
            if self.after_end > 50:
                raise Violation("reads the ended input over and over")
            return b""
        if n is None or n < 0:
            out, self.pieces = b"".join(self.pieces), []
            return out
        if n == 0:
            return b""
        out, rest = self.pieces[0][:n], self.pieces[0][n:]
        if rest:
            self.pieces[0] = rest
        else:
            self.pieces.pop(0)
        return out


def deliver(data, how):
    """how: "whole", "piped" (through the tools' wrapper of stdin), ["pieces", a, b...] cut at these positions,
    ["every", n], or the same with "piped" in front."""
    if how == "whole":
        return io.BytesIO(data)
    if how[0] == "piped":
        return InputStreamWrapper(deliver(data, how[1]))
    if how[0] == "every":
        return Pieces([data[i:i + how[1]] for i in range(0, len(data), how[1])])
    cuts = [0] + list(how[1:]) + [len(data)]
    return Pieces([data[a:b] for a, b in zip(cuts, cuts[1:])])


# -- ADTS ---------------------------------------------------------------------------------------------------------------
FREQ = [96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350]
CHANNELS = {1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 6, 7: 8}


def adts(payload, freq=3, chan=2, crc=0, profile=1):
    n = len(payload) + (9 if crc else 7)
    h = bytes([0xFF, 0xF1 ^ (1 if crc else 0), profile << 6 | freq << 2 | chan >> 2, (chan & 3) << 6 | n >> 11,
               n >> 3 & 255, (n & 7) << 5 | 0x1F, 0xFC])
    return h + (b"\x12\x34" if crc else b"") + payload


# -- H.264 --------------------------------------------------------------------------------------------------------------
SPSS = {
    "base": {}, "big": dict(mbs_w=120, map_h=68, crop=(0, 0, 0, 4)),
    "poc1": dict(poc_type=1), "poc1zero": dict(poc_type=1, delta_zero=1), "poc2": dict(poc_type=2),
    "wide": dict(frame_num_bits=16, poc_bits=16),
    "fields": dict(frame_only=0, map_h=34, crop=(0, 0, 0, 2), frame_num_bits=16, poc_bits=16),
    "mono": dict(profile=100, chroma=0, crop=(1, 2, 3, 4), depth=2),
    "422": dict(profile=122, chroma=2, crop=(1, 2, 3, 4), depth=2), "444": dict(profile=244, chroma=3, crop=(1, 2, 3, 4)),
    "planes": dict(profile=244, chroma=3, separate=1, crop=(1, 2, 3, 4)),
    "scaling": dict(profile=100, scaling=H.ODD), "scaling444": dict(profile=244, chroma=3, scaling=H.ODD),
    "50": dict(vui={"timing": (1, 100)}), "29.97": dict(vui={"timing": (1001, 60000), "signal": 1, "overscan": 1}),
    "sar": dict(vui={"sar": (255, 4, 3), "chroma_loc": 1, "timing": (1, 50)}),
    "sar0": dict(vui={"sar": (255, 0, 0)}), "sar1": dict(vui={"sar": (1,)}), "sar16": dict(vui={"sar": (16,)}),
    "sar200": dict(vui={"sar": (200,)}),
}
FIELD_SPSS = {"fields25": dict(frame_only=0, map_h=9, vui={"timing": (1, 50)}),
              "fields29": dict(frame_only=0, map_h=9, mbaff=1, frame_num_bits=7, vui={"timing": (1001, 60000), "sar": (2,)}),
              "fields1": dict(frame_only=0, poc_type=1), "fields1zero": dict(frame_only=0, poc_type=1, delta_zero=1),
              "fields2": dict(frame_only=0, poc_type=2)}
PPSS = {"plain": {}, "bottom": dict(bottom=1), "redundant": dict(redundant=1), "both": dict(bottom=1, redundant=1)}
for _t in range(7):
    for _n in (2, 3, 5, 8):
        PPSS["fmo%d-%d" % (_t, _n)] = dict(groups=(_n, _t), redundant=1)

# What an SPS can differ in from the plainest; those which share no field are combined.
SPS_WAYS = [dict(profile=p) for p in (77, 88) + H.HIGH] + [dict(profile=100, chroma=c) for c in (0, 1, 2)]
SPS_WAYS += [dict(profile=244, chroma=3), dict(profile=244, chroma=3, separate=1)]
SPS_WAYS += [dict(depth=d) for d in (1, 6)] + [dict(depth_c=d) for d in (0, 4, 6)] + [dict(bypass=1)]
SPS_WAYS += [dict(profile=100, scaling=[[i, k]]) for i in range(8) for k in H.LISTS]
SPS_WAYS += [dict(profile=244, chroma=3, scaling=[[i, k]]) for i in (5, 6, 8, 11) for k in H.LISTS]
SPS_WAYS += [dict(profile=110, scaling=[[i, k] for i in range(8)]) for k in H.LISTS]
SPS_WAYS += [dict(id=i) for i in (1, 2, 30, 31)] + [dict(flags=f) for f in (0x40, 0xFC)] + [dict(level=v) for v in (9, 51, 255)]
SPS_WAYS += [dict(frame_num_bits=n) for n in (5, 8, 15, 16)] + [dict(poc_bits=n) for n in (5, 8, 15, 16)]
SPS_WAYS += [dict(poc_type=2)]
SPS_WAYS += [dict(poc_type=1, delta_zero=z, cycle=c) for z in (0, 1) for c in ([], [0], [5, -7, 0, 1 << 20], [1] * 255)]
SPS_WAYS += [dict(refs=n) for n in (0, 16)] + [dict(gaps=1), dict(direct=0), dict(frame_only=0), dict(frame_only=0, mbaff=1)]
SPS_WAYS += [dict(mbs_w=n) for n in (1, 7, 120, 256)] + [dict(map_h=n) for n in (2, 9, 68, 135)]
SPS_WAYS += [dict(crop=[int(i == j) for j in range(4)]) for i in range(4)] + [dict(crop=[0] * 4), dict(crop=[1, 2, 0, 3])]
SPS_WAYS += [dict(vui=v) for v in (
    {}, {"sar": (1,)}, {"sar": (2,)}, {"sar": (255, 64, 45)}, {"overscan": 1}, {"signal": 1}, {"range": 1}, {"chroma_loc": 1},
    {"hrd": 1}, {"hrd": 2}, {"hrd": 3}, {"restrict": 1}, {"timing": (1, 48)}, {"timing": (1001, 48000), "fixed": 0},
    {"timing": (1, 2000)}, {"timing": (0xFFFFFFFF, 0xFFFFFFFF)},
    {"sar": (255, 16, 11), "overscan": 1, "signal": 1, "chroma_loc": 1, "timing": (1001, 120000), "hrd": 3, "restrict": 1},
    {"sar": (14,), "range": 1, "timing": (2, 100)})]
PPS_WAYS = [dict(entropy=1), dict(bottom=1), dict(redundant=1), dict(weighted=1), dict(constrained=1), dict(deblock=0),
            dict(more=1), dict(ref=1)]
PPS_WAYS += [{f: v} for f in ("l0", "l1") for v in (1, 31)] + [dict(bipred=v) for v in (1, 2)] + [dict(id=v) for v in (2, 254, 255)]
PPS_WAYS += [{f: v} for f, vs in (("qp", (-26, 25)), ("qs", (-26, 25)), ("chroma_qp", (-12, 12))) for v in vs]
PPS_WAYS += [dict(groups=[n, t]) for n in (2, 3, 4, 5, 8) for t in range(7)]
PPS_WAYS += [dict(groups=[2, 3], direction=1), dict(groups=[4, 4], rate=99), dict(groups=[5, 6], units=1),
             dict(groups=[8, 6], units=99)]


def merge(ways):
    """The ways together, or None if two set the same field differently."""
    out = {}
    for w in ways:
        if any(out.get(k, v) != v for k, v in w.items()):
            return None
        out.update(w)
    # scaling lists and the like belong to the high profiles; planes are 4:4:4 only
    if ("depth" in out or "depth_c" in out or "bypass" in out) and out.get("profile", 66) not in H.HIGH:
        return None
    if any(i > 7 for i, _ in out.get("scaling", ())) and out.get("chroma") != 3:
        return None
    return out


KEY = (2, 4, 7, 9)


class Writer:
    """Access units of a stream, with what a grain of each should say."""
    def __init__(self, sname, pname):
        """Names of parameter sets, or what they differ in from the plainest."""
        s = {**SPSS, **FIELD_SPSS}[sname] if isinstance(sname, str) else sname
        p = PPSS[pname] if isinstance(pname, str) else pname
        self.set(s, p)
        self.num = self.lsb = self.idr = 0
        self.units, self.key = [], []
        self.seq = 0

    def set(self, s, p):
        self.s, self.sbytes = H.sps(**s)
        self.p, self.pbytes = H.pps(**dict({"sps": self.s["id"]}, **p))
        self.p2, self.p2bytes = H.pps(**dict({"sps": self.s["id"]}, **dict(p, id=self.p["id"] ^ 1)))

    def payload(self, n):
        self.seq += 1
        base = bytes([self.seq & 255, 0, 0, 1, 0x65, 0, 0, 0, 7, 0, 0, 2, 0x88])
        return (base * (n // len(base) + 1))[:n]

    def slice(self, **kw):
        n = kw.pop("n", 5)
        return H.slice_(self.s, kw.pop("p", self.p), payload=self.payload(n), frame_num=self.num, lsb=self.lsb, **kw)

    def step(self, ref=1):
        if ref:
            self.num = (self.num + 1) % (1 << self.s["frame_num_bits"])
        self.lsb = (self.lsb + 2) % (1 << self.s["poc_bits"])

    def add(self, nals, key):
        self.units.append(nals)
        self.key.append(key)

    def unit(self, kind, n=5):
        k, f = kind[0], kind[1:]
        pre = []
        if "a" in f:
            pre.append(H.aud())
        if k in "IGH":
            pre += [self.sbytes, self.pbytes] + ([self.p2bytes] if "2" in f else [])
        if "s" in f:
            pre.append(H.sei())
        if "x" in f:
            pre.append(H.other(13))
        post = [H.other(12)] if "f" in f else []
        post += [H.other(10)] if "e" in f else []
        if k in "Ii":
            self.num, self.idr = 0, (self.idr + 1) % 3
            if self.s["poc_type"] == 0:
                self.lsb = 0
            st = 2 if k == "I" else 7
            body = [self.slice(typ=5, ref=3, slice_type=st, idr_id=self.idr, n=n)]
            if "m" in f:
                body.append(self.slice(typ=5, ref=2, slice_type=2, idr_id=self.idr, first_mb=1, n=n))
            self.add(pre + body + post, True)
        elif k == "P":
            self.step()
            body = [self.slice(slice_type=0, n=n)]
            if "m" in f:
                body += [self.slice(slice_type=5, ref=3, first_mb=1, n=n), self.slice(slice_type=0, first_mb=9)]
            self.add(pre + body + post, False)
        elif k == "N":           # all intra, not IDR, each slice of another reference value
            self.step()
            self.add(pre + [self.slice(slice_type=2, ref=1, n=n), self.slice(slice_type=4, ref=2, first_mb=1),
                            self.slice(slice_type=9, ref=3, first_mb=2)] + post, True)
        elif k == "X":           # intra and predicted slices
            self.step()
            self.add(pre + [self.slice(slice_type=2, n=n), self.slice(slice_type=0, first_mb=1)] + post, False)
        elif k == "B":
            self.step(self.s["poc_type"])
            self.add(pre + [self.slice(slice_type=1, ref=0, n=n)] + post, False)
        elif k == "R":           # with a redundant picture, or none where the parameter sets have no such thing
            self.step()
            body = [self.slice(slice_type=2, n=n), self.slice(slice_type=2, first_mb=1)]
            if self.p["redundant"]:
                body += [self.slice(slice_type=0, redundant=1, n=n), self.slice(slice_type=0, redundant=2)]
            self.add(pre + body + post, True)
        elif k == "C":           # a change of picture parameter set
            self.step()
            self.add(pre + [self.slice(slice_type=0, n=n)], False)
            self.add([self.slice(slice_type=0, n=n, p=self.p2)] + post, False)
        elif k == "D":           # partitioned slices
            self.step()
            body = []
            for j in range(2):
                body += [self.slice(typ=2, slice_type=2 if j == 0 else 0, first_mb=j, n=n), H.other(3, 1),
                         H.other(4, 1)]
            self.add(pre + body + post, False)
        elif k == "A":           # auxiliary picture and coded extension slices
            self.step()
            self.add(pre + [self.slice(slice_type=0, n=n), H.other(19, 1), H.other(20, 1)] + post, False)
        elif k == "F":           # two fields
            self.step()
            fld = 1 if not self.s["frame_only"] else 0
            more = [self.slice(slice_type=7, field=fld, first_mb=j, ref=2, n=n) for j in (1, 2) if "m" in f]
            self.add(pre + [self.slice(slice_type=2, field=fld, n=n)] + more, True)
            if not fld:
                self.step()
            more = [self.slice(slice_type=5, field=fld, bottom=1, first_mb=j, ref=2) for j in (1, 2) if "m" in f]
            self.add([self.slice(slice_type=0, field=fld, bottom=1, n=n)] + more + post, False)
        elif k in "GH":          # two fields, of which the first is IDR: the top one, or the bottom one
            self.num, self.lsb, self.idr = 0, 0, (self.idr + 1) % 3
            more = [self.slice(typ=5, slice_type=2, ref=3, field=1, bottom=int(k == "H"), idr_id=self.idr, first_mb=j)
                    for j in (1, 2) if "m" in f]
            self.add(pre + [self.slice(typ=5, slice_type=7, ref=3, field=1, bottom=int(k == "H"), idr_id=self.idr,
                                       n=n)] + more, True)
            more = [self.slice(slice_type=0, field=1, bottom=int(k == "G"), first_mb=j) for j in (1, 2) if "m" in f]
            self.add([self.slice(slice_type=5, field=1, bottom=int(k == "G"), n=n)] + more + post, False)
        else:
            raise AssertionError(kind)


# what makes a slice the first of the next picture (7.4.1.2.4), one at a time: (SPS, PPS, changes, another picture?)
FIRSTS = [("base", "plain", {}, False), ("base", "plain", {"first_mb": 3}, False), ("base", "plain", {"slice_type": 7}, False),
          ("base", "plain", {"frame_num": 5}, True), ("base", "plain", {"lsb": 6}, True),
          ("base", "plain", {"ref": 2}, False), ("base", "plain", {"ref": 3}, False), ("base", "plain", {"ref": 0}, True),
          ("base", "plain", {"typ": 5}, True), ("base", "plain", {"p": 1}, True),
          ("base", "bottom", {"delta_bottom": 2}, True), ("base", "bottom", {"delta_bottom": -3}, True),
          ("poc1", "plain", {"delta0": 1}, True), ("poc1", "bottom", {"delta1": 1}, True),
          ("poc1", "bottom", {"delta1": -9}, True), ("poc1zero", "bottom", {}, False), ("poc2", "plain", {}, False),
          ("fields", "plain", {"field": 1}, True), ("planes", "plain", {"colour": 2}, False),
          ("base", "redundant", {"redundant": 1, "frame_num": 9, "lsb": 8}, False),
          ("wide", "both", {"frame_num": 65535}, True), ("wide", "both", {"frame_num": 1}, True),
          ("wide", "both", {"lsb": 257}, True), ("wide", "both", {"redundant": 1}, False)]
CHANGES = [({}, {}), (dict(frame_num_bits=16, poc_bits=5), {}), (dict(poc_type=1), dict(bottom=1)),
           (dict(frame_only=0, map_h=3), dict(redundant=1)), (dict(profile=244, chroma=3, separate=1), {}),
           (dict(poc_type=2, mbs_w=9, vui={"timing": (1, 100)}), dict(redundant=1, groups=(2, 6)))]
DELIMITERS = {6: True, 7: True, 8: True, 9: True, 15: True, 16: True, 17: True, 18: True, 10: False, 11: False, 12: False,
              13: False, 19: False}


class C21(Check):
    id = "C21"
    rule = "two executions differ when the stream, its cut or the way it is delivered differ"
    assumptions = ["H.264 streams have their parameter sets before the slices using them, hold no scalable extension, "
                   "and obey the syntax of the standard up to the cut",
                   "one AAC raw data block per ADTS frame",
                   "an incomplete unit at a cut may be a grain or be dropped, but the same for every delivery",
                   "video starting between frames may start at either neighbouring frame time",
                   "units are compared to those a writer of the stream meant, which follows 7.4.1.2.3 and 7.4.1.2.4"]

    # -- enumeration --------------------------------------------------------------------------------------------------
    def hows(self, n, pieces):
        yield "whole"
        yield ["piped", "whole"]
        for k in (1, 2, 3, 7):
            yield ["every", k]
        yield ["piped", ["every", 1]]
        yield ["piped", ["every", 5]]
        for r in range(1, pieces + 1):
            for cuts in itertools.combinations(range(1, n), r):
                yield ["pieces"] + list(cuts)

    def cases(self):
        t = self.thorough
        # raw
        kinds = [{"video": "U8_444", "w": 1, "h": 1}, {"video": "UYVY", "w": 2, "h": 1}, {"video": "S16_422_10BIT", "w": 2, "h": 1},
                 {"audio": "S16_INTERLEAVED", "channels": 1, "samples": 2},
                 {"audio": "S24_PAIRS", "channels": 1, "samples": 1}, {"audio": "S24_PLANES", "channels": 1, "samples": 1}]
        for c in kinds:
            unit = self.frame_size(c)
            for n in range(3 * unit + 2 if not t else 4 * unit + 2):
                yield "raw", {"kind": c, "n": n, "rate": "25", "origin": 0}
        for c in kinds:
            for rate in ("25", "50", "30000/1001", "24000/1001", "12/5"):
                for o in range(len(ORIGINS)):
                    yield "raw_times", {"kind": c, "rate": rate, "origin": o}
        for fmt in list(F.PLANAR) + list(F.PACKED):
            for w, h in ((2, 2), (48, 2), (6, 4)):
                yield "raw_times", {"kind": {"video": fmt, "w": w, "h": h}, "rate": "25", "origin": 0}
        for fmt in F.AUDIO:
            for ch, s in itertools.product((1, 2, 3), (1, 480, 1024, 1601)):
                for o in range(len(ORIGINS)):
                    yield "raw_times", {"kind": {"audio": fmt, "channels": ch, "samples": s}, "rate": "48000/%d" % s,
                                        "origin": o}
        # ADTS
        shapes = [(0, 0), (1, 0), (3, 0), (0, 1), (2, 1)]
        for seq in itertools.chain.from_iterable(itertools.product(range(len(shapes)), repeat=r)
                                                 for r in range(4 if not t else 5)):
            yield "aac", {"seq": list(seq), "freq": 3, "chan": 2, "origin": 0, "samples": 1024, "pieces": 1}
        for seq in ([2], [4], [0, 1], [3, 2]):
            yield "aac", {"seq": seq, "freq": 4, "chan": 1, "origin": 1, "samples": None, "pieces": 3 if t else 2}
        for freq in range(13):
            for chan in CHANNELS:
                for o in range(len(ORIGINS)):
                    for samples in (1024, 2048, None, 0):
                        yield "aac", {"seq": [2] * 5, "freq": freq, "chan": chan, "origin": o, "samples": samples,
                                      "pieces": 0}
        for big in (500, 8184, 8191 - 7):
            yield "aac", {"seq": [2], "freq": 3, "chan": 2, "origin": 0, "samples": 1024, "pieces": 0, "big": big}
        # H.264
        for s in SPSS:
            for p in PPSS:
                yield "h264", {"sps": s, "pps": p, "units": ["I", "P", "B", "R"], "hows": "few", "start": 4}
        kinds = ["I", "i", "P", "B", "N", "X", "R", "Pm", "Im", "F", "D", "A", "Ps", "Pa", "Ia", "Pf", "Pe", "Ps", "C",
                 "Ix"]
        for start in (4, 3, 6):
            for seq in itertools.product(kinds, repeat=2):
                for s, p in (("base", "redundant"), ("fields", "both")):
                    if start == 4 or s == "base":
                        yield "h264", {"sps": s, "pps": p, "units": ["I2"] + list(seq), "hows": "few", "start": start}
        for s, p in itertools.product(["fields"] + list(FIELD_SPSS), ("plain", "bottom", "redundant", "both")):
            for lead in ("I", "G", "H", "Gm", "Hma"):
                for seq in itertools.product(("F", "Fm", "Fma", "P", "Pm", "R"), repeat=2 if t else 1):
                    yield "h264", {"sps": s, "pps": p, "units": [lead] + list(seq), "hows": "few", "start": 4}
        if t:
            for seq in itertools.product(kinds, repeat=3):
                yield "h264", {"sps": "wide", "pps": "both", "units": ["I2"] + list(seq), "hows": "few", "start": 3}
        for units in (["I"], ["I", "P"], ["Ia", "Pa"], ["I", "Pm", "B"], ["Is", "Rs", "Fe", "N"]):
            for s, p in (("wide", "both"), ("50", "plain"), ("fields", "redundant")):
                yield "h264", {"sps": s, "pps": p, "units": units, "hows": "splits", "start": 4}
                yield "h264_cut", {"sps": s, "pps": p, "units": units, "start": 4}
        if t:
            for units in (["I", "P"], ["Ia", "Ba"]):
                for s, p in (("wide", "both"), ("50", "plain")):
                    yield "h264", {"sps": s, "pps": p, "units": units, "hows": "pairs", "start": 4}
            for seq in itertools.product(kinds, repeat=2):
                yield "h264_cut", {"sps": "fields", "pps": "both", "units": ["I2"] + list(seq), "start": 3}
        for size in (8150, 8170, 8192, 16300, 16384):
            for d in (range(-40, 12, 1) if t else range(-24, 8, 3)):
                yield "h264", {"sps": "50", "pps": "plain", "units": ["I", "P", "B"], "hows": "blocks", "start": 4,
                               "n": size + d}
        for i in range(len(FIRSTS)):
            yield "first", {"i": i}
        for typ in DELIMITERS:
            for s in ("base", "wide"):
                yield "delimiter", {"type": typ, "sps": s}
        for ways in (SPS_WAYS, PPS_WAYS):
            for r in (1, 2, 3) if t and ways is PPS_WAYS else (1, 2):
                for c in itertools.combinations(range(len(ways)), r):
                    if not t and r == 2 and sum(c) % 8 and any({"scaling", "groups"} & set(ways[i]) for i in c):
                        continue
                    if merge([ways[i] for i in c]) is not None:
                        yield "ways", {"of": "sps" if ways is SPS_WAYS else "pps", "ways": list(c)}
        for r in (2, 3):
            for seq in itertools.product(range(len(CHANGES)), repeat=r):
                for lead in ("", "a"):
                    for same in (True, False):
                        if r == 2 or t or same and not lead:
                            yield "changes", {"seq": list(seq), "lead": lead, "same": same}
        for rate in ("25", "30000/1001", "50"):
            for o in range(len(ORIGINS)):
                for s in ("base", "50", "29.97", "fields"):
                    yield "h264_times", {"sps": s, "rate": rate, "origin": o}

    def run(self, kind, case):
        return getattr(self, kind)(case)

    # -- common -------------------------------------------------------------------------------------------------------
    def wrap(self, cls, template, data, how):
        self.stats.transitions += 1
        w = cls(template, deliver(data, how))
        out = []
        for g in w.grains():
            out.append(g)
            if len(out) > len(data) + 5:
                raise Violation("more grains than bytes: it does not stop (%s)" % (how,))
        return out

    def times(self, grains, rate, first, how):
        for n, g in enumerate(grains):
            want = Timestamp.from_count(first + n, rate)
            if g.origin_timestamp != want or g.sync_timestamp != want:
                raise Violation("grain %d has origin %s and sync %s, expected %s (%s)"
                                % (n, g.origin_timestamp, g.sync_timestamp, want, how))
            if (g.source_id, g.flow_id) != (SRC, FLOW):
                raise Violation("grain %d has ids %s %s" % (n, g.source_id, g.flow_id))

    # -- raw ----------------------------------------------------------------------------------------------------------
    def frame_size(self, c):
        if "video" in c:
            return F.components(c["video"], c["w"], c["h"])[1]
        return F.audio_size(c["audio"], c["channels"], c["samples"])

    def raw_template(self, c, rate, origin):
        common = dict(src_id=SRC, flow_id=FLOW, origin_timestamp=origin, rate=rate, duration=1 / rate)
        if "video" in c:
            return VideoGrain(cog_frame_format=CogFrameFormat[c["video"]], width=c["w"], height=c["h"], **common)
        return AudioGrain(cog_audio_format=CogAudioFormat[c["audio"]], channels=c["channels"], samples=c["samples"],
                          sample_rate=48000, **common)

    def raw(self, case):
        c, n = case["kind"], case["n"]
        size = self.frame_size(c)
        rate = Fraction(case["rate"]) if "video" in c else Fraction(48000, c["samples"])
        data = bytes((i * 7 + 1) & 255 for i in range(n))
        pieces = 11 if n <= (12 if self.thorough else 9) else 2 if n <= 16 else 1
        first = None
        for how in self.hows(n, min(pieces, max(n - 1, 0))):
            grains = self.wrap(GrainWrapper, self.raw_template(c, rate, ORIGINS[case["origin"]]), data, how)
            got = [bytes(g.data) for g in grains]
            whole = [data[i:i + size] for i in range(0, n - n % size, size)]
            if got[:len(whole)] != whole or got[len(whole):] not in ([], [data[n - n % size:]] if n % size else []):
                raise Violation("%d bytes delivered as %r are cut into %r, frames have %d bytes"
                                % (n, how, [len(x) for x in got], size))
            if first is None:
                first = got
            elif got != first:
                raise Violation("delivered as %r the last grain is %r, and %r delivered whole"
                                % (how, got[-1:], first[-1:]))
            self.times(grains, rate, 0, how)
            if any(g.length != len(g.data) for g in grains):
                raise Violation("lengths %r" % ([g.length for g in grains],))
        return n, size, tuple(first)

    def raw_times(self, case):
        c, origin = case["kind"], ORIGINS[case["origin"]]
        rate = Fraction(case["rate"])
        size = self.frame_size(c)
        data = bytes(size) * 40 if size < 100 else bytes(size) * 7
        if "audio" in c:
            rate = Fraction(48000, c["samples"])
        t = self.raw_template(c, rate, origin)
        before = repr(t.meta)
        grains = self.wrap(GrainWrapper, t, data, "whole")
        if repr(t.meta) != before:
            raise Violation("the template changed")
        if len(grains) != len(data) // size or any(len(g.data) != size for g in grains):
            raise Violation("%d grains of %r bytes" % (len(grains), [len(g.data) for g in grains[:3]]))
        if "audio" in c:
            for n, g in enumerate(grains):
                want = origin + Timestamp.from_count(n * c["samples"], 48000)
                if g.origin_timestamp != want or g.sync_timestamp != want:
                    raise Violation("grain %d starts at %s (sync %s), expected %s" % (n, g.origin_timestamp,
                                                                                     g.sync_timestamp, want))
                if (g.samples, g.channels, g.sample_rate) != (c["samples"], c["channels"], 48000):
                    raise Violation("samples, channels, rate %r" % ((g.samples, g.channels, g.sample_rate),))
        else:
            k = grains[0].origin_timestamp.to_count(rate)
            if abs(grains[0].origin_timestamp - origin) >= Timestamp.from_count(1, rate):
                raise Violation("starts at %s, told to at %s" % (grains[0].origin_timestamp, origin))
            if Timestamp.from_count(origin.to_count(rate), rate) == origin and k != origin.to_count(rate):
                raise Violation("starts at %s, told to at %s" % (grains[0].origin_timestamp, origin))
            self.times(grains, rate, k, "whole")
            if any((g.width, g.height, g.cog_frame_format.name) != (c["w"], c["h"], c["video"]) for g in grains):
                raise Violation("another picture")
        if any(g.rate != rate or g.duration != 1 / rate for g in grains):
            raise Violation("rate and duration %r" % ((grains[0].rate, grains[0].duration),))
        if len({id(g.data) for g in grains}) != len(grains) or len({id(g.meta) for g in grains}) != len(grains):
            raise Violation("grains share their parts")
        return len(grains), tuple(str(g.origin_timestamp) for g in grains)

    # -- ADTS ---------------------------------------------------------------------------------------------------------
    def aac(self, case):
        shapes = [(0, 0), (1, 0), (3, 0), (0, 1), (2, 1)]
        frames = []
        for i, k in enumerate(case["seq"]):
            n, crc = shapes[k]
            n = case.get("big", n)
            # the payload of a frame may look like the start of another
            frames.append(adts((bytes([0xFF, 0xF1, 0x4C + i]) * (n // 3 + 1))[:n], case["freq"], case["chan"], crc))
        data = b"".join(frames)
        ends = list(itertools.accumulate(map(len, frames)))
        sr, samples = FREQ[case["freq"]], case["samples"] or 1024
        origin = ORIGINS[case["origin"]]
        first_count = origin.to_count(sr)

        def go(d, how):
            t = CodedAudioGrain(src_id=SRC, flow_id=FLOW, origin_timestamp=origin, samples=case["samples"], channels=None,
                                sample_rate=None, cog_audio_format=CogAudioFormat.AAC, rate=Fraction(0),
                                duration=Fraction(0))
            before = repr(t.meta)
            grains = self.wrap(ADTSAACGrainWrapper, t, d, how)
            if repr(t.meta) != before:
                raise Violation("the template changed")
            for n, g in enumerate(grains):
                want = Timestamp.from_count(first_count + n * samples, sr)
                if g.origin_timestamp != want or g.sync_timestamp != want:
                    raise Violation("frame %d at %s (sync %s), expected %s" % (n, g.origin_timestamp, g.sync_timestamp,
                                                                            want))
                if (g.channels, g.sample_rate, g.samples) != (CHANNELS[case["chan"]], sr, samples):
                    raise Violation("channels, sample rate, samples: %r, expected %r"
                                    % ((g.channels, g.sample_rate, g.samples), (CHANNELS[case["chan"]], sr, samples)))
                if g.rate != Fraction(sr, samples) or g.duration != Fraction(samples, sr):
                    raise Violation("rate %s duration %s" % (g.rate, g.duration))
                if g.cog_audio_format != CogAudioFormat.AAC or g.length != len(g.data):
                    raise Violation("format %r length %r" % (g.cog_audio_format, g.length))
            return [bytes(g.data) for g in grains]
        for how in self.hows(len(data), case["pieces"]):
            got = go(data, how)
            if got != frames:
                raise Violation("%d frames delivered as %r give grains of %r bytes, expected %r"
                                % (len(frames), how, [len(x) for x in got], [len(x) for x in frames]))
        if case["pieces"]:
            for cut in range(len(data)):
                whole = [f for f, e in zip(frames, ends) if e <= cut]
                results = [go(data[:cut], how) for how in ("whole", ["piped", "whole"], ["every", 1], ["every", 3])]
                self.cut(data, cut, whole, results)
        return tuple(frames)

    def cut(self, data, cut, whole, results):
        for got in results:
            rest = data[len(b"".join(whole)):cut]
            if got[:len(whole)] != whole:
                raise Violation("input ending after %d bytes: grains of %r bytes, the complete units have %r"
                                % (cut, [len(x) for x in got], [len(x) for x in whole]))
            if got[len(whole):] not in ([], [rest]):
                raise Violation("input ending after %d bytes: %d bytes after the complete units make grains of %r"
                                % (cut, len(rest), [len(x) for x in got[len(whole):]]))
            if got != results[0]:
                raise Violation("input ending after %d bytes: the grains depend on how it was delivered" % cut)

    # -- H.264 --------------------------------------------------------------------------------------------------------
    def h264_grains(self, data, how, rate=Fraction(25), origin=ORIGINS[0]):
        t = CodedVideoGrain(src_id=SRC, flow_id=FLOW, origin_timestamp=origin, rate=rate, duration=1 / rate,
                            origin_width=1920, origin_height=1080, coded_width=0, coded_height=0,
                            cog_frame_format=CogFrameFormat.H264)
        before = repr(t.meta)
        grains = self.wrap(H264GrainWrapper, t, data, how)
        if repr(t.meta) != before:
            raise Violation("the template changed")
        return grains

    def offsets(self, b):
        out, i = [], b.find(b"\0\0\1")
        while i >= 0:
            out.append(i)
            i = b.find(b"\0\0\1", i + 3)
        return out

    def written(self, case):
        w = Writer(case["sps"], case["pps"])
        for i, u in enumerate(case["units"]):
            w.unit(u, case.get("n", 5))
        start = case["start"]
        data, at = H.stream(w.units, start, first=case.get("first"))
        return w, data, at + [len(data)]

    def expected_rate(self, w, default=Fraction(25), field=False):
        v = w.s["vui"]
        if v and "timing" in v:
            return Fraction(v["timing"][1], v["timing"][0] * (1 if field else 2))
        return default

    def check_units(self, w, data, at, grains, how, rate, first=0):
        got = [bytes(g.data) for g in grains]
        want = [data[a:b] for a, b in zip(at, at[1:])]
        if got != want:
            raise Violation("delivered as %r: grains of %r bytes, the access units have %r"
                            % (how, [len(x) for x in got], [len(x) for x in want]))
        self.times(grains, rate, first, how)
        cw, ch, ow, oh = H.size(w.s)
        for i, g in enumerate(grains):
            if (g.coded_width, g.coded_height, g.origin_width, g.origin_height) != (cw, ch, ow, oh):
                raise Violation("grain %d: coded %sx%s, picture %sx%s, expected %r"
                                % (i, g.coded_width, g.coded_height, g.origin_width, g.origin_height, (cw, ch, ow, oh)))
            if g.is_key_frame is not w.key[i]:
                raise Violation("grain %d of %r: key frame %r, expected %r (%s)"
                                % (i, [len(x) for x in want], g.is_key_frame, w.key[i], how))
            if list(g.unit_offsets) != self.offsets(want[i]):
                raise Violation("grain %d: unit offsets %r, the units start at %r (%s)"
                                % (i, list(g.unit_offsets), self.offsets(want[i]), how))
            if g.rate != rate or g.duration != 1 / rate:
                raise Violation("grain %d: rate %s, duration %s, expected %s" % (i, g.rate, g.duration, rate))
            if g.length != len(want[i]) or g.cog_frame_format != CogFrameFormat.H264:
                raise Violation("grain %d: length %d, format %r" % (i, g.length, g.cog_frame_format))

    def h264(self, case):
        w, data, at = self.written(case)
        field = case["units"][0][0] in "GH"
        rate = self.expected_rate(w, field=field)
        hows = {"few": lambda: ["whole", ["piped", ["every", 1]] if len(data) < 40 else ["piped", ["every", 17]],
                                ["every", 11]],
                "splits": lambda: self.hows(len(data), 1), "pairs": lambda: self.hows(len(data), 2),
                "blocks": lambda: ["whole", ["piped", "whole"], ["every", 4096], ["every", 8191]]}[case["hows"]]()
        for how in hows:
            self.check_units(w, data, at, self.h264_grains(data, how), how, rate)
        return tuple(at), case["sps"], tuple(w.key)

    def ways(self, case):
        """Parameter sets with these differences: the pictures have their sizes, rate and cutting."""
        ways = SPS_WAYS if case["of"] == "sps" else PPS_WAYS
        way = merge([ways[i] for i in case["ways"]])
        w = Writer(*((way, "plain") if case["of"] == "sps" else ("wide", way)))
        for u in ("I", "Pm", "P", "R", "B"):
            w.unit(u)
        data, at = H.stream(w.units, 4)
        grains = self.h264_grains(data, "whole")
        rate = self.expected_rate(w)
        first = grains[0].origin_timestamp.to_count(rate) if grains else 0
        self.check_units(w, data, at + [len(data)], grains, "whole", rate, first)
        return case["of"], tuple(case["ways"])

    def changes(self, case):
        """Parameter sets which change within the stream, under their ids or under others."""
        seq = case["seq"]
        w = None
        for n, i in enumerate(seq):
            s, p = CHANGES[i]
            ids = {} if case["same"] else {"id": i}
            if w is None:
                w = Writer(dict(s, **ids), dict(p, **ids))
                first = w.s
            else:
                w.set(dict(s, **ids), dict(p, **ids))
            w.num = w.lsb = 0
            for u in ("I" + case["lead"], "P" + case["lead"], "R", "F"):
                w.unit(u)
        data, at = H.stream(w.units, 4)
        for how in ("whole", ["every", 13]):
            grains = self.h264_grains(data, how)
            # the sizes and the rate are those of the first picture
            w.s = first
            self.check_units(w, data, at + [len(data)], grains, how, self.expected_rate(w))
        return tuple(seq), tuple(at)

    def h264_cut(self, case):
        w, data, at = self.written(case)
        out = []
        for cut in range(len(data)):
            d = data[:cut]
            results = [[bytes(g.data) for g in self.h264_grains(d, how)]
                       for how in ("whole", ["piped", ["every", 9]], ["every", 5])]
            whole = [data[a:b] for a, b in zip(at, at[1:]) if b <= cut]
            rest = d[at[len(whole)]:]
            # the end of the last complete unit shows when the type of a delimiter, or a slice header, follows
            for got in results:
                merged = whole[:-1] + [whole[-1] + rest] if whole else []
                if whole and got == merged and (b"\1" not in rest[:-1] or len(rest) < 20 and self.only_slice(w, whole)):
                    continue
                if got[:len(whole)] != whole or got[len(whole):] not in ([], [rest]):
                    raise Violation("input ending after %d bytes: grains of %r bytes, the complete access units have %r"
                                    % (cut, [len(x) for x in got], [len(x) for x in whole]))
            if any(got != results[0] for got in results):
                raise Violation("input ending after %d bytes: the grains depend on how it was delivered" % cut)
            out.append(tuple(len(x) for x in results[0]))
        return tuple(out)

    def only_slice(self, w, whole):
        """the unit after these starts with its slice, and not with a delimiter"""
        return len(whole) < len(w.units) and (w.units[len(whole)][0][0] & 31) in (1, 2, 5)

    def first(self, case):
        """Two slices: are they of one picture?"""
        sname, pname, change, another = FIRSTS[case["i"]]
        w = Writer(sname, pname)
        change = dict(change)
        base = dict(frame_num=2, lsb=2, slice_type=0, ref=1, idr_id=1)
        if change.get("p") is not None:
            change["p"] = w.p2
        outs = []
        for swap in (False, True):
            a = dict(base)
            b = dict(base, **change)
            if change.get("redundant"):
                swap = False
            x, y = (b, a) if swap else (a, b)
            nals = [H.slice_(w.s, v.pop("p", w.p), **v) for v in (x, y)]
            lead = [w.sbytes, w.pbytes, w.p2bytes]
            units = [lead + nals[:1], nals[1:]] if another else [lead + nals]
            # and a third, which is certainly another picture, so that the last two are not told apart by the end
            units.append([H.aud(), H.slice_(w.s, w.p, **dict(base, frame_num=7))])
            data, at = H.stream(units, 4)
            for how in ("whole", ["every", 1]):
                got = [bytes(g.data) for g in self.h264_grains(data, how)]
                want = [data[p:q] for p, q in zip(at, at[1:] + [len(data)])]
                if got != want:
                    raise Violation("slices differing in %r (%s): grains of %r bytes, expected %r"
                                    % (FIRSTS[case["i"]], "swapped" if swap else "in order", [len(v) for v in got],
                                       [len(v) for v in want]))
                outs.append(tuple(len(v) for v in got))
        return tuple(outs)

    def delimiter(self, case):
        typ = case["type"]
        w = Writer(case["sps"], "plain")
        unit = {7: w.sbytes, 8: w.pbytes, 9: H.aud(), 6: H.sei()}.get(typ) or H.other(typ)
        a = H.slice_(w.s, w.p, frame_num=1, lsb=2)
        b = H.slice_(w.s, w.p, frame_num=2, lsb=4)
        lead = [w.sbytes, w.pbytes]
        units = [lead + [a], [unit, b]] if DELIMITERS[typ] else [lead + [a, unit], [b]]
        data, at = H.stream(units, 4)
        want = [data[p:q] for p, q in zip(at, at[1:] + [len(data)])]
        for how in ("whole", ["every", 1]):
            got = [bytes(g.data) for g in self.h264_grains(data, how)]
            if got != want:
                raise Violation("unit of type %d between pictures: grains of %r bytes, expected %r"
                                % (typ, [len(v) for v in got], [len(v) for v in want]))
        return typ, tuple(at)

    def h264_times(self, case):
        w = Writer(case["sps"], "plain")
        for u in ["I"] + ["P", "B", "N"] * 8:
            w.unit(u)
        data, at = H.stream(w.units, 4)
        rate = self.expected_rate(w, Fraction(case["rate"]))
        origin = ORIGINS[case["origin"]]
        grains = self.h264_grains(data, "whole", Fraction(case["rate"]), origin)
        k = grains[0].origin_timestamp.to_count(rate)
        if abs(grains[0].origin_timestamp - origin) >= Timestamp.from_count(1, rate):
            raise Violation("starts at %s, told to at %s" % (grains[0].origin_timestamp, origin))
        self.check_units(w, data, at + [len(data)], grains, "whole", rate, k)
        return case, str(grains[-1].origin_timestamp)


CHECK = C21
