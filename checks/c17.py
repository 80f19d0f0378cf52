"""C17: conversion between pixel formats."""
import itertools
from fractions import Fraction
from uuid import UUID

import numpy as np
from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc.core import Check, Violation
from mediagrains import grains as bg
from mediagrains import numpy as ng
from mediagrains.cogenums import CogFrameFormat, CogFrameLayout

SUPPORTED = list(F.PLANAR) + ["YUYV", "UYVY", "v216", "v210", "RGB", "RGBx", "xRGB", "BGRx", "xBGR"]
REFUSED = ["RGBA", "ARGB", "BGRA", "ABGR", "AYUV"]
ARGS = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(10, 2),
            sync_timestamp=Timestamp(11, 6), creation_timestamp=Timestamp(12, 4), rate=Fraction(30000, 1001),
            duration=Fraction(1001, 30000), cog_frame_layout=CogFrameLayout.SEPARATE_FIELDS)

# Rec. 709: luma weights; chroma are scaled colour differences
KR, KG, KB = 0.2126, 0.7152, 0.0722
CB, CR = 2 * (1 - KB), 2 * (1 - KR)


def extremes(bits):
    top = (1 << bits) - 1
    return sorted({0, 1, 2, (top >> 1) - 1, top >> 1, (top >> 1) + 1, top // 3, top - 1, top})


def few(bits):
    top = (1 << bits) - 1
    return [0, 1, top >> 1, (top >> 1) + 1, top - 1, top]


def from_rgb(c, bits):
    off = float(1 << (bits - 1))
    r, g, b = (c[k].astype(np.float64) for k in "RGB")
    y = KR * r + KG * g + KB * b
    return {"Y": y, "U": (b - y) / CB + off, "V": (r - y) / CR + off}


def from_yuv(c, bits):
    off = float(1 << (bits - 1))
    y, u, v = (c[k].astype(np.float64) for k in "YUV")
    u, v = u - off, v - off
    r, b = y + CR * v, y + CB * u
    return {"R": r, "G": (y - KR * r - KB * b) / KG, "B": b}


def spread(a, hs, vs):
    return np.repeat(np.repeat(a, hs, axis=1), vs, axis=0)


def gather(a, hs, vs):
    a = a.astype(np.float64)
    if hs == 2:
        a = (a[:, 0::2] + a[:, 1::2]) / 2
    if vs == 2:
        a = (a[0::2] + a[1::2]) / 2
    return a


class C17(Check):
    id = "C17"
    rule = "two executions differ when the pair of formats, the size, the picture or the kind of source buffer differ"
    assumptions = ["codes are within the active bits of their format",
                   "for a change of subsampling the size is one that both subsamplings divide; other sizes may be "
                   "refused, but must leave the source untouched",
                   "raising depth may fill the new low bits with anything (the library adds noise), the old code stays "
                   "in the top bits",
                   "a conversion that changes depth together with subsampling or colour may err by the sum of its steps: "
                   "1.5 codes of the coarser depth, or 4 with a change of colour (plus the fill of raised depth)"]

    def cases(self):
        pairs = [(a, b) for a in SUPPORTED for b in SUPPORTED]
        for a, b in pairs:
            yield "codes", {"a": a, "b": b}
        for a, b in pairs:
            yield "chroma", {"a": a, "b": b}
            yield "meta", {"a": a, "b": b}
        sizes = [(w, h) for w in range(1, 17 if self.thorough else 7) for h in range(1, 9 if self.thorough else 4)]
        for a, b in pairs:
            for w, h in sizes:
                for source in ("bytes", "bytearray", "padded", "tight") if (w, h) in ((2, 2), (4, 2)) else ("bytearray",):
                    if source in ("padded", "tight") and a == "v210":
                        continue
                    yield "size", {"a": a, "b": b, "w": w, "h": h, "source": source}
        near = [b for b in SUPPORTED if b == "v210" or F.subsampling(b) in ((2, 1, 10, "YUV"), (1, 1, 8, "RGB"))]
        for b in near + ["U8_420", "S16_444"]:
            for w in (range(1, 200) if self.thorough else list(range(1, 30)) + [47, 48, 49, 50, 95, 96, 97, 98, 144]):
                for a, c in (("v210", b), (b, "v210")):
                    yield "size", {"a": a, "b": c, "w": w, "h": 2, "source": "bytearray"}
        for a in SUPPORTED + REFUSED + ["MJPEG", "H264", "UNKNOWN"]:
            for b in REFUSED + ["MJPEG", "H264", "UNKNOWN", "INVALID"]:
                yield "refused", {"a": a, "b": b}
            yield "same", {"a": a}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    # -- the oracle -------------------------------------------------------------------------------------------------
    def expect(self, a, b, src):
        """{component: (low, high)} of the real values permitted for the codes of b."""
        ahs, avs, abits, akind = F.subsampling(a)
        bhs, bvs, bbits, bkind = F.subsampling(b)
        n = bbits - abits
        scale = 2.0 ** n
        unit = max(scale, 1.0)
        top = (1 << bbits) - 1
        resampled = (ahs, avs) != (bhs, bvs)
        out = {}
        if akind == bkind:
            for c in akind:
                v = src[c].astype(np.float64)
                if c in "UV" and resampled:
                    hs, vs = max(1, ahs // bhs), max(1, avs // bvs)
                    v = spread(v, hs, vs)
                    hs, vs = max(1, bhs // ahs), max(1, bvs // avs)
                    v = gather(v, hs, vs)
                    steps = (hs == 2) + (vs == 2)
                else:
                    steps = 0
                fill = scale - 1 if n > 0 else 0
                err = 0.5 * steps * unit if n else 0.5 * steps
                if n < 0:
                    err += 0.5
                low, high = v * scale - err, v * scale + fill + err
                out[c] = (np.minimum(low, top), np.minimum(high, top))
            return out
        full = {c: spread(src[c], ahs, avs) if c in "UV" else src[c] for c in akind}
        ideal = from_rgb(full, abits) if akind == "RGB" else from_yuv(full, abits)
        top_in = (1 << abits) - 1
        simple = n == 0 and not resampled
        err = 1.0 if simple else 4.0 * unit
        fill = 3.0 * (scale - 1) if n > 0 else 0
        for c in bkind:
            # clamped where the conversion of colour has its result
            v = np.clip(ideal[c], 0, top_in)
            if c in "UV":
                v = gather(v, bhs, bvs)
            v = v * scale
            # the blue and red weights are exact to four digits, the rest may be rounded to six
            e = err + (0.01 if c in "RB" else 5.1e-7 * 2.0 ** max(abits, bbits))
            out[c] = (v - e - fill, v + e + fill)
        return out

    def make(self, name, w, h, comps, source="bytearray"):
        raw = F.encode(name, w, h, comps)
        if source in ("padded", "tight"):
            layout, size = F.components(name, w, h)
            unit = F.PLANAR[name][0] if name in F.PLANAR else 4
            meta = bg.VideoGrain(cog_frame_format=CogFrameFormat[name], width=w, height=h, **ARGS).meta
            data, described, at = bytearray(b"\xEE" * unit * 2), [], 0
            for o, s, cw, ch, ln in layout:
                described.append(dict(offset=len(data), stride=s + unit, width=cw, height=ch,
                                      length=(s + unit) * ch - unit * (source == "tight")))
                for y in range(ch):
                    data += raw[at:at + s] + b"\xEE" * unit
                    at += s
                if source == "tight":
                    del data[-unit:]
            meta["grain"]["cog_frame"]["components"] = described
            g = ng.VideoGrain(meta=meta, data=data)
        else:
            data = bytearray(raw) if source == "bytearray" else raw
            g = ng.VideoGrain(cog_frame_format=CogFrameFormat[name], width=w, height=h, data=data, **ARGS)
        return g, data

    def meta(self, a, b):
        """What the grain says of itself is said of the converted one, whatever it is."""
        n = 0
        comps = F.decode(a, 4, 2, bytes(F.components(a, 4, 2)[1]))
        ways = [dict(cog_frame_layout=v) for v in CogFrameLayout]
        ways += [dict(rate=v) for v in (Fraction(0), Fraction(25), Fraction(1001, 7))]
        ways += [dict(duration=v) for v in (Fraction(0), Fraction(1, 50), Fraction(3))]
        ways += [dict(rate=Fraction(0), duration=Fraction(0))]
        ways += [{k: v} for k in ("origin_timestamp", "sync_timestamp")
                 for v in (Timestamp(0, 0), Timestamp(12, 4), Timestamp(5, 0, -1))]
        ways += [{k: UUID(int=9)} for k in ("src_id", "flow_id")]
        for way in ways:
            self.convert(a, b, 4, 2, comps, args=way)
            n += 1
        return a, b, n

    def convert(self, a, b, w, h, comps, source="bytearray", args={}):
        g, data = self.make(a, w, h, comps, source)
        for k, v in args.items():
            setattr(g, k, v)
        before, meta = bytes(data), repr(g.meta)
        try:
            out = g.convert(CogFrameFormat[b])
        finally:
            if bytes(data) != before or repr(g.meta) != meta or g.data.tobytes() != before:
                raise Violation("converting %s to %s altered the source" % (a, b))
        if out is g or np.shares_memory(out.data, g.data):
            raise Violation("the converted grain shares memory with the source")
        got = (out.cog_frame_format, out.width, out.height, out.source_id, out.origin_timestamp, out.sync_timestamp,
               out.rate, out.duration, out.cog_frame_layout, type(out))
        want = (CogFrameFormat[b], w, h, g.source_id, g.origin_timestamp, g.sync_timestamp, g.rate, g.duration,
                g.cog_frame_layout, type(g))
        if got != want:
            raise Violation("the converted grain has %r, expected %r" % (got, want))
        if a != b and (out.flow_id != g.flow_id_for_converted_flow(CogFrameFormat[b]) or out.flow_id == g.flow_id):
            raise Violation("the converted grain has flow %s" % out.flow_id)
        if source in ("padded", "tight") and a == b:
            if out.data.tobytes() != before:
                raise Violation("converting to the same format altered the data")
            return comps
        layout, size = F.components(b, w, h)
        if out.data.nbytes != size or [(c.offset, c.stride, c.width, c.height, c.length) for c in out.components] != \
                layout:
            raise Violation("the converted grain is not laid out as %s of %dx%d" % (b, w, h))
        return F.decode(b, w, h, bytes(out))

    def judge(self, a, b, w, h, src, got):
        bits = F.subsampling(b)[2]
        top = (1 << bits) - 1
        if F.subsampling(a)[:3] == F.subsampling(b)[:3] and F.subsampling(a)[3] == F.subsampling(b)[3]:
            for c in got:
                if not np.array_equal(got[c], src[c]):
                    y, x = (int(i[0]) for i in np.nonzero(got[c] != src[c]))
                    raise Violation("repacking %s to %s: %s at %d,%d is %d, the source has %d"
                                    % (a, b, c, x, y, got[c][y, x], src[c][y, x]))
            return
        want = self.expect(a, b, src)
        for c in got:
            low, high = want[c]
            bad = (got[c] < low) | (got[c] > high) | (got[c] > top) | (got[c] < 0)
            # clamping at zero
            bad &= ~((got[c] == 0) & (low <= 0) & (high >= 0))
            if bad.any():
                y, x = (int(i[0]) for i in np.nonzero(bad))
                ys, xs = (y * src[k].shape[0] // got[c].shape[0] for k in src), \
                    (x * src[k].shape[1] // got[c].shape[1] for k in src)
                where = {k: int(src[k][j, i]) for k, j, i in zip(src, ys, xs)}
                raise Violation("%s to %s: %s at %d,%d is %d, expected %.2f to %.2f (from %r)"
                                % (a, b, c, x, y, got[c][y, x], low[y, x], high[y, x], where))

    # -- pictures ---------------------------------------------------------------------------------------------------
    def codes(self, a, b):
        """Every code (or all extremes and their combinations) in uniform 2x2 blocks."""
        hs, vs, bits, kind = F.subsampling(a)
        if kind == F.subsampling(b)[3]:
            if bits <= 16:
                vals = np.arange(1 << bits, dtype=np.int64)
            else:
                vals = np.array(sorted({max(0, min((1 << bits) - 1, k * (1 << s) + d)) for s in range(bits)
                                        for k in (1, 3, 5) for d in range(-3, 4)} |
                                       {k << (bits - 8) for k in range(256)}), dtype=np.int64)
            n = len(vals)
            blocks = [vals, vals[(np.arange(n) * 7 + 3) % n], vals[::-1]]
        else:
            vals = extremes(bits) if self.thorough or F.subsampling(b)[2] == bits else few(bits)
            if self.thorough:
                vals = sorted({*vals, *(((1 << bits) - 1) * k // 15 for k in range(16))})
            blocks = [np.array(v, dtype=np.int64) for v in zip(*itertools.product(vals, repeat=3))]
        n = len(blocks[0])
        cols = 64
        rows = -(-n // cols)
        comps = {}
        for c, v in zip(kind, blocks):
            v = np.concatenate([v, np.zeros(rows * cols - n, dtype=np.int64) + v[0]]).reshape(rows, cols)
            f = (2 // hs, 2 // vs) if c in "UV" else (2, 2)
            comps[c] = spread(v, *f)
        w, h = cols * 2, rows * 2
        got = self.convert(a, b, w, h, comps)
        self.judge(a, b, w, h, comps, got)
        if kind != F.subsampling(b)[3] and F.subsampling(b)[:3] == (hs, vs, bits) == (1, 1, bits) and bits > 16:
            self.linear(a, b, bits, [comps[c] for c in kind], got)
        self.stats.notes["pixels"] = self.stats.notes.get("pixels", 0) + w * h
        return a, b

    def linear(self, a, b, bits, given, got):
        """Where no result is at an end of the scale, some fixed weights explain them all to within one code."""
        top = (1 << bits) - 1
        x = np.stack([np.asarray(v, dtype=np.float64).ravel() / top for v in given] + [np.ones(given[0].size)], axis=1)
        for c, y in got.items():
            y = np.asarray(y, dtype=np.float64).ravel()
            use = (y > 0) & (y < top)
            weights = np.linalg.lstsq(x[use], y[use], rcond=None)[0]
            off = np.abs(x[use] @ weights - y[use])
            if off.max() > 2:
                raise Violation("%s to %s: %s is up to %.1f codes off any fixed weighting of the source"
                                % (a, b, c, off.max()))

    def chroma(self, a, b):
        """Every combination of extreme codes in the four pixels of a block."""
        hs, vs, bits, kind = F.subsampling(a)
        top = (1 << bits) - 1
        vals = [0, 1, 2, top // 2, top - 1, top]
        quads = np.array(list(itertools.product(vals, repeat=4)), dtype=np.int64)
        n = len(quads)
        cols = 36
        rows = n // cols
        comps = {}
        for i, c in enumerate(kind):
            q = quads[(np.arange(n) * (1, 5, 7)[i] + 11 * i) % n].reshape(rows, cols, 2, 2)
            full = q.transpose(0, 2, 1, 3).reshape(rows * 2, cols * 2)
            comps[c] = full[::vs, ::hs] if c in "UV" else full
        w, h = cols * 2, rows * 2
        got = self.convert(a, b, w, h, comps)
        if F.subsampling(b)[3] == kind:
            self.judge(a, b, w, h, comps, got)
        else:
            # a block's chroma may be clamped before or after it is averaged
            y = {c: got[c] for c in got if c not in "UV"}
            if F.subsampling(b)[3] == "RGB" or F.subsampling(b)[:2] == (1, 1):
                y = got
            self.judge(a, b, w, h, comps, y)
        return a, b

    def size(self, a, b, w, h, source):
        hs, vs, bits, kind = F.subsampling(a)
        comps = {}
        for i, (c, s) in enumerate(F.shapes(a, w, h).items()):
            n = s[0] * s[1]
            comps[c] = (((np.arange(n, dtype=np.int64) * 73 + 31 * i + 5) * 2654435761 >> 7) % (1 << bits)).reshape(s)
        bhs, bvs, _, bkind = F.subsampling(b)
        resampled = (hs, vs) != (bhs, bvs)
        divides = w % max(hs, bhs) == 0 and h % max(vs, bvs) == 0
        # a conversion may go through v210's subsampling
        if "v210" in (a, b) and a != b and (hs, vs, kind) != (bhs, bvs, bkind):
            resampled = True
            divides = divides and w % 2 == 0
        if resampled and not divides:
            try:
                self.convert(a, b, w, h, comps, source)
            except Violation:
                raise
            except Exception as e:
                return a, b, w, h, type(e).__name__
            return a, b, w, h, "odd"
        got = self.convert(a, b, w, h, comps, source)
        self.judge(a, b, w, h, comps, got)
        return a, b, w, h, source

    def refused(self, a, b):
        if a == b:
            return None
        f = CogFrameFormat[a]
        if a not in SUPPORTED + REFUSED:
            try:
                g = ng.VideoGrain(cog_frame_format=f, width=4, height=2, data=bytearray(64), **ARGS)
            except NotImplementedError:
                return "no array"
        else:
            g = ng.VideoGrain(cog_frame_format=f, width=4, height=2, **ARGS)
        before = bytes(g), repr(g.meta)
        for convert in (g.convert, g.asformat):
            try:
                out = convert(CogFrameFormat[b])
            except NotImplementedError:
                if (bytes(g), repr(g.meta)) != before:
                    raise Violation("a refused conversion altered the grain")
                continue
            # a conversion that is offered must be right
            raise Violation("%s was converted to %s, which gave %s" % (a, b, out.cog_frame_format))
        return a, b

    def same(self, a):
        if a not in SUPPORTED + REFUSED:
            return None
        g = ng.VideoGrain(cog_frame_format=CogFrameFormat[a], width=4, height=2, **ARGS)
        g.data.view(np.uint8)[:] = range(g.data.nbytes)
        out = g.convert(CogFrameFormat[a])
        if out is g or bytes(out) != bytes(g) or out.meta != g.meta or np.shares_memory(out.data, g.data):
            raise Violation("converting %s to itself is not a deep copy" % a)
        if g.asformat(CogFrameFormat[a]) is not g:
            raise Violation("asformat made a new grain of the same format")
        for b in ("U8_444", "RGB", "v210"):
            if a in SUPPORTED and a != b:
                o1, o2 = g.asformat(CogFrameFormat[b]), g.convert(CogFrameFormat[b])
                if o1 is g or o1.cog_frame_format != o2.cog_frame_format or o1.flow_id != o2.flow_id:
                    raise Violation("asformat differs from convert")
        return a


CHECK = C17
