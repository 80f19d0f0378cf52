"""C24: PSNR."""
import math
import struct
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc.core import Check, Violation
from mediagrains import grains as bg
from mediagrains import numpy as ng
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.comparison import compute_psnr

COMMON = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
              creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))
VIDEO = list(F.PLANAR) + [p for p in F.PACKED if p != "v210"]
CODES = {"S16": "<h", "S32": "<i", "FLOAT": "<f", "DOUBLE": "<d"}


def component_order(name):
    if name in F.PLANAR:
        return F.PLANAR[name][4]
    order = F.PACKED[name][1]
    return "YUV" if "Y" in order else "".join(c for c in order if c in "RGB")


def video_places(name, w, h):
    """[[byte offset of each sample]] per component"""
    comps, size = F.components(name, w, h)
    out = []
    if name in F.PLANAR:
        item = F.PLANAR[name][0]
        for o, s, cw, ch, ln in comps:
            out.append([o + y * s + x * item for y in range(ch) for x in range(cw)])
        return out, item, size
    item = 2 if name == "v216" else 1
    order = F.PACKED[name][1]
    group = 2 if order.count("Y") == 2 else 1
    s = comps[0][1]
    for c in component_order(name):
        at = [i for i, k in enumerate(order) if k == c]
        width = w if len(at) == group else w // group
        out.append([y * s + ((x // len(at)) * len(order) + at[x % len(at)]) * item for y in range(h)
                    for x in range(width)])
    return out, item, size


def read(data, at, item):
    return int.from_bytes(data[at:at + item], "little")


def audio_read(name, data, at):
    t = F.AUDIO[name][2]
    if t == "S24":
        return int.from_bytes(data[at:at + 3], "little", signed=True)
    return struct.unpack_from(CODES[t], data, at)[0]


def audio_write(name, data, at, v):
    t = F.AUDIO[name][2]
    if t == "S24":
        data[at:at + 3] = (v & 0xFFFFFF).to_bytes(3, "little")
        if name == "S24_PLANES":
            data[at + 3] = 0xFF if v < 0 else 0
    else:
        struct.pack_into(CODES[t], data, at, v)


def definition(a, b, peak):
    """PSNR of two lists of samples, by exact arithmetic up to the logarithm."""
    from fractions import Fraction
    se = sum((Fraction(x) - Fraction(y)) ** 2 for x, y in zip(a, b))
    if se == 0:
        return float("inf")
    ratio = Fraction(peak) ** 2 * len(a) / se
    return 10.0 * (math.log10(ratio.numerator) - math.log10(ratio.denominator))


class C24(Check):
    id = "C24"
    rule = "two executions differ when formats, size, classes of the grains, or the place or magnitude of the error differ"
    assumptions = ["equality of the ratios is to one part in a thousand million",
                   "every component and channel has at least one sample"]

    def cases(self):
        sizes = [(2, 2), (4, 2), (6, 4)] + ([(8, 4), (16, 2), (48, 2)] if self.thorough else [])
        for name in VIDEO:
            for w, h in sizes + ([(3, 3), (5, 3)] if name in F.PLANAR else []) + (
                    [(1, 1), (3, 3), (1, 2)] if F.subsampling(name)[:2] == (1, 1) else []):
                for cls in ("bytes", "numpy", "mixed"):
                    if cls != "bytes" and (w, h) != (4, 2):
                        continue
                    yield "video", {"name": name, "w": w, "h": h, "cls": cls}
        for a in VIDEO + ["v210", "H264", "MJPEG"]:
            for b in VIDEO + ["v210", "H264", "MJPEG"]:
                yield "formats", {"a": a, "b": b}
        for name in F.AUDIO:
            for c in range(1, 6 if self.thorough else 4):
                for s in (1, 2, 3, 7) if self.thorough else (1, 3):
                    for cls in ("bytes", "numpy", "mixed"):
                        if cls != "bytes" and (c, s) != (2, 3):
                            continue
                        yield "audio", {"name": name, "c": c, "s": s, "cls": cls}
        for a in list(F.AUDIO) + ["AAC", "OPUS"]:
            for b in list(F.AUDIO) + ["AAC", "OPUS"]:
                yield "audio_formats", {"a": a, "b": b}
        for a in ("video", "audio", "event", "coded_video", "coded_audio", "empty"):
            for b in ("video", "audio", "event", "coded_video", "coded_audio", "empty"):
                yield "types", {"a": a, "b": b}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    def grains(self, cls, args, da, db, video):
        B, N = (bg.VideoGrain, ng.VideoGrain) if video else (bg.AudioGrain, ng.AudioGrain)
        ca, cb = {"bytes": (B, B), "numpy": (N, N), "mixed": (B, N)}[cls]
        return ca(data=da, **args, **COMMON), cb(data=db, **args, **COMMON)

    def judge(self, ga, gb, want, what, max_val=None):
        before = bytes(ga), bytes(gb), repr(ga.meta), repr(gb.meta)
        got = compute_psnr(ga, gb) if max_val is None else compute_psnr(ga, gb, max_val=max_val)
        back = compute_psnr(gb, ga) if max_val is None else compute_psnr(gb, ga, max_val)
        if (bytes(ga), bytes(gb), repr(ga.meta), repr(gb.meta)) != before:
            raise Violation("computing PSNR altered a grain")
        if list(got) != list(back):
            raise Violation("%s: PSNR is %r one way and %r the other" % (what, got, back))
        if len(got) != len(want):
            raise Violation("%s: %d values of PSNR, expected %d" % (what, len(got), len(want)))
        for i, (g, w) in enumerate(zip(got, want)):
            if math.isinf(w) != math.isinf(g) or (not math.isinf(w) and abs(g - w) > 1e-9 * max(1, abs(w))) or g != g:
                raise Violation("%s: PSNR of component %d is %r, by definition it is %r" % (what, i, g, w))
        return tuple(want)

    def video(self, name, w, h, cls):
        places, item, size = video_places(name, w, h)
        bits = F.subsampling(name)[2]
        top = (1 << bits) - 1
        base = bytearray(b"\x33" * size)
        for c, p in enumerate(places):
            for i, at in enumerate(p):
                base[at:at + item] = ((i * 977 + c * 331) * 2654435761 % (top + 1)).to_bytes(item, "little")
        args = dict(cog_frame_format=CogFrameFormat[name], width=w, height=h)
        out = []

        def one(da, db, what, max_val=None):
            want = [definition([read(da, at, item) for at in p], [read(db, at, item) for at in p], max_val or top)
                    for p in places]
            ga, gb = self.grains(cls, args, da, db, True)
            out.append(self.judge(ga, gb, want, "%s %dx%d %s" % (name, w, h, what), max_val))
        one(base, bytearray(base), "identical")
        same = self.grains(cls, args, bytearray(base), bytearray(base), True)[0]
        self.judge(same, same, [float("inf")] * len(places), "%s %dx%d with itself" % (name, w, h))
        for c, p in enumerate(places):
            for i, at in enumerate(p):
                was = read(base, at, item)
                news = {0, top, (was + 1) & top, (was - 1) & top} if len(p) < 30 else {top - was}
                for new in sorted(news - {was}):
                    d = bytearray(base)
                    d[at:at + item] = new.to_bytes(item, "little")
                    one(base, d, "with sample %d of component %d changed from %d to %d" % (i, c, was, new))
        # everything wrong by as much as can be, in each component and in all
        for which in [(0,), (1,), (2,), (0, 1, 2)]:
            for lo, hi in ((0, top), (top, 0), (0, 1), (top - 1, top)):
                a, b = bytearray(base), bytearray(base)
                for c in which:
                    for at in places[c]:
                        a[at:at + item] = lo.to_bytes(item, "little")
                        b[at:at + item] = hi.to_bytes(item, "little")
                one(a, b, "components %r all %d against %d" % (which, lo, hi))
                one(a, b, "components %r all %d against %d" % (which, lo, hi), 1000)
        # bytes which are in no component do not count
        free = sorted(set(range(size)) - {at + k for p in places for at in p for k in range(item)})
        if free:
            d = bytearray(base)
            for at in free:
                d[at] ^= 0xFF
            one(base, d, "with padding changed")
        self.stats.transitions += len(out)
        return name, w, h, cls, len(out), out[1]

    def audio(self, name, c, s, cls):
        size = F.audio_size(name, c, s)
        t = F.AUDIO[name][2]
        places = [[F.audio_position(name, c, s, ch, i) for i in range(s)] for ch in range(c)]
        peak = {"S16": 1 << 15, "S24": 1 << 23, "S32": 1 << 31, "FLOAT": 1, "DOUBLE": 1}[t]
        real = t in ("FLOAT", "DOUBLE")
        values = [-1.0, -0.5, 0.0, 2.0 ** -20, 0.25, 1.0] if real else [-peak, -peak // 2, -1, 0, 1, 77, peak - 1]
        base = bytearray(size)
        for ch, p in enumerate(places):
            for i, at in enumerate(p):
                audio_write(name, base, at, values[(i * 3 + ch) % len(values)])
        args = dict(cog_audio_format=CogAudioFormat[name], channels=c, samples=s)
        out = []

        def one(da, db, what, max_val=None):
            shift = 256 if t == "S24" and max_val else 1
            want = [definition([audio_read(name, da, at) * shift for at in p],
                               [audio_read(name, db, at) * shift for at in p], max_val or peak) for p in places]
            ga, gb = self.grains(cls, args, da, db, False)
            out.append(self.judge(ga, gb, want, "%s, %d channels of %d, %s" % (name, c, s, what), max_val))
        one(base, bytearray(base), "identical")
        for ch, p in enumerate(places):
            for i, at in enumerate(p):
                was = audio_read(name, base, at)
                for new in values:
                    if new != was:
                        d = bytearray(base)
                        audio_write(name, d, at, new)
                        one(base, d, "with sample %d of channel %d changed from %r to %r" % (i, ch, was, new))
        for ch in range(c):
            for lo, hi in ((values[0], values[-1]), (values[-1], values[0]), (values[2], values[3])):
                a, b = bytearray(base), bytearray(base)
                for at in places[ch]:
                    audio_write(name, a, at, lo)
                    audio_write(name, b, at, hi)
                one(a, b, "channel %d all %r against %r" % (ch, lo, hi))
                one(a, b, "channel %d all %r against %r" % (ch, lo, hi), 10)
        self.stats.transitions += len(out)
        return name, c, s, cls, len(out), out[1]

    def refuses(self, a, b, what, errors=(NotImplementedError, AttributeError)):
        before = bytes(a or b""), bytes(b or b"")
        for x, y in ((a, b), (b, a)):
            try:
                got = compute_psnr(x, y)
            except errors:
                continue
            raise Violation("%s: PSNR is said to be %r" % (what, got))
        if (bytes(a or b""), bytes(b or b"")) != before:
            raise Violation("a refused computation altered a grain")

    def formats(self, a, b):
        ga = bg.VideoGrain(cog_frame_format=CogFrameFormat[a], width=4, height=2, **COMMON)
        gb = bg.VideoGrain(cog_frame_format=CogFrameFormat[b], width=4, height=2, **COMMON)
        raw = ("v210", "H264", "MJPEG")
        comparable = a not in raw and b not in raw and \
            F.subsampling(a) == F.subsampling(b) and component_order(a) == component_order(b)
        if not comparable:
            self.refuses(ga, gb, "%s against %s" % (a, b))
            return a, b, "refused"
        if a == b:
            for w, h in ((2, 2), (4, 4), (6, 2), (1, 1)):
                other = bg.VideoGrain(cog_frame_format=CogFrameFormat[a], width=w, height=h, **COMMON)
                self.refuses(ga, other, "%s of 4x2 against %dx%d" % (a, w, h))
            for x, y in ((None, ga.data), (None, None)):
                gx = bg.VideoGrain(cog_frame_format=CogFrameFormat[a], width=4, height=2, **COMMON)
                gy = bg.VideoGrain(cog_frame_format=CogFrameFormat[a], width=4, height=2, **COMMON)
                gx.data, gy.data = x, y
                self.absent(gx, gy)
        # the same samples in the two formats
        pa, ia, sa = video_places(a, 4, 2)
        pb, ib, sb = video_places(b, 4, 2)
        top = (1 << F.subsampling(a)[2]) - 1
        for c in range(3):
            for i in range(len(pa[c])):
                da, db = bytearray(sa), bytearray(sb)
                for k in range(3):
                    for j, (x, y) in enumerate(zip(pa[k], pb[k])):
                        v = (j * 911 + k * 77) % (top + 1)
                        da[x:x + ia] = v.to_bytes(ia, "little")
                        db[y:y + ib] = v.to_bytes(ib, "little")
                v = read(db, pb[c][i], ib) ^ 3
                db[pb[c][i]:pb[c][i] + ib] = v.to_bytes(ib, "little")
                ga.data, gb.data = da, db
                want = [definition([read(da, at, ia) for at in pa[k]], [read(db, at, ib) for at in pb[k]], top)
                        for k in range(3)]
                self.judge(ga, gb, want, "%s against %s" % (a, b))
        return a, b, "compared"

    def absent(self, gx, gy):
        """Without payloads there is nothing to compute."""
        try:
            got = compute_psnr(gx, gy)
        except (NotImplementedError, AttributeError, ValueError, TypeError):
            return
        if list(got):
            raise Violation("PSNR of grains without data is %r" % (got,))

    def audio_formats(self, a, b):
        def grain(f, c=2, s=3):
            kw = {} if f in F.AUDIO else {"data": bytearray(24)}
            return bg.AudioGrain(cog_audio_format=CogAudioFormat[f], channels=c, samples=s, **kw, **COMMON)
        if a != b or a not in F.AUDIO:
            self.refuses(grain(a), grain(b), "%s against %s" % (a, b))
            return a, b
        for c, s in ((1, 3), (3, 3), (2, 2), (2, 4), (3, 2)):
            self.refuses(grain(a), grain(b, c, s), "%s of 2x3 against %dx%d" % (a, c, s))
        gx, gy = grain(a), grain(a)
        gx.data = None
        self.absent(gx, gy)
        return a, b

    def types(self, a, b):
        def grain(t):
            cls = {"video": bg.VideoGrain, "audio": bg.AudioGrain, "event": bg.EventGrain, "empty": bg.GrainFactory,
                   "coded_video": bg.CodedVideoGrain, "coded_audio": bg.CodedAudioGrain}[t]
            kw = {"video": dict(cog_frame_format=CogFrameFormat.U8_444, width=2, height=2),
                  "audio": dict(cog_audio_format=CogAudioFormat.S16_PLANES, channels=1, samples=2),
                  "coded_video": dict(data=b"xx"), "coded_audio": dict(data=b"xx")}.get(t, {})
            return cls(**kw, **COMMON)
        if a == b and a in ("video", "audio"):
            if any(not math.isinf(v) for v in compute_psnr(grain(a), grain(b))):
                raise Violation("identical grains are not")
            return a, b
        for x, y in ((a, b), (b, a)):
            try:
                got = compute_psnr(grain(x), grain(y))
            except (AttributeError, NotImplementedError):
                continue
            raise Violation("PSNR of %s against %s is %r" % (x, y, got))
        return a, b


CHECK = C24
