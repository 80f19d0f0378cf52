"""C20: pattern generators."""
import itertools
import math
from fractions import Fraction
from uuid import UUID

import numpy as np

from mediatimestamp.immutable import TimeOffset, TimeRange, Timestamp
from mediatimestamp import CountRange, TimeValue, TimeValueRange

from mc import formats as F
from mc.core import Check, Violation
from mediagrains import numpy as ng
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.grains import AudioGrain, VideoGrain
from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K
from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay, StillPatternGenerator

SRC, FLOW = UUID(int=7), UUID(int=8)
VIDEO = [n for n, p in F.PLANAR.items() if p[4] == "YUV" and p[3] != 32]
RATES = ["25", "50", "30000/1001", "24000/1001", "60000/1001", "24", "1", "12/5", "120"]
BARS = [(0xFFFF, 0x8000, 0x8000), (0xE1FF, 0x0000, 0x9400), (0xB200, 0xABFF, 0x0000), (0x95FF, 0x2BFF, 0x15FF),
        (0x69FF, 0xD400, 0xEA00), (0x4C00, 0x5400, 0xFFFF), (0x1DFF, 0xFFFF, 0x6BFF), (0x0000, 0x8000, 0x8000)]
BLACK, WHITE, MID = 16, 235, 128        # of eight bit video; deeper formats scale these
COUNTS = [0, 1, 2, 3, 7, 29, 100, 1001, 30000, 86399999, 10 ** 9 + 1, -1, -3]


def plain_rows(name, w, h, value):
    """{component: list of rows} from value(component index, x, width of the component)"""
    out = []
    for i, c in enumerate("YUV"):
        rows, cols = F.shapes(name, w, h)[c]
        row = [value(i, x, cols) for x in range(cols)]
        out.append([row] * rows)
    return out


def lumasteps(name, w, h, n):
    scale = 1 << (F.PLANAR[name][3] - 8)
    black, span = BLACK * scale, (WHITE - BLACK) * scale

    def value(i, x, cols):
        return MID * scale if i else black + ((x * 8 // cols) * span) // 8
    return plain_rows(name, w, h, value)


def colourbars(intensity):
    def picture(name, w, h, n):
        shift = 16 - F.PLANAR[name][3]

        def value(i, x, cols):
            v = BARS[x * 8 // cols][i] >> shift
            return v if i else int(v * intensity)
        return plain_rows(name, w, h, value)
    return picture


def noise(name, w, h, n):
    top = (1 << F.PLANAR[name][3]) - 1
    return [[[(37 * x + 11 * y + 5 * i + 3) & top for x in range(F.shapes(name, w, h)[c][1])]
             for y in range(F.shapes(name, w, h)[c][0])] for i, c in enumerate("YUV")]


def overlaid(under, bar, speed):
    def picture(name, w, h, n):
        scale = 1 << (F.PLANAR[name][3] - 8)
        vs = F.PLANAR[name][2]
        out = [list(rows) for rows in under(name, w, h, n)]
        at = int(speed * n)
        for i in range(3):
            rows = len(out[i])
            if not rows:
                continue
            sub = vs if i else 1
            for y in range(bar // sub):
                line = (at // sub + y) % rows
                out[i][line] = [(MID if i else BLACK) * scale] * len(out[i][line])
        return out
    return picture


class VideoModel:
    def __init__(self, c):
        name, w, h = c["format"], c["w"], c["h"]
        self.name, self.w, self.h = name, w, h
        self.rate = Fraction(c["rate"])
        fmt = CogFrameFormat[name]
        self.fmt = fmt
        args = dict(rate=self.rate, cog_frame_format=fmt)
        base = c["base"]
        if base == "steps":
            gen, pic = LumaSteps(SRC, FLOW, w, h, **args), lumasteps
        elif base == "bars":
            kw = {} if c.get("intensity") is None else {"intensity": c["intensity"]}
            gen, pic = ColourBars(SRC, FLOW, w, h, **kw, **args), colourbars(kw.get("intensity", 0.75))
        else:
            pic = noise
            comps = noise(name, w, h, 0)
            vg = VideoGrain(src_id=SRC, flow_id=FLOW, origin_timestamp=Timestamp(99, 3), sync_timestamp=Timestamp(98, 2),
                            cog_frame_layout=CogFrameLayout.FULL_FRAME, width=w, height=h,
                            rate=self.rate, duration=1 / self.rate, cog_frame_format=fmt)
            vg.data[:] = self.encode(comps)
            gen = StillPatternGenerator(ng.VideoGrain(grain=vg) if base == "array" else vg)
        if c.get("bar") is not None:
            gen, pic = MovingBarOverlay(gen, height=c["bar"], speed=c["speed"]), overlaid(pic, c["bar"], c["speed"])
        self.gen, self.picture = gen, pic
        self.samples = 1
        self.bytes = {}

    def encode(self, comps):
        size = F.PLANAR[self.name][0]
        return b"".join(v.to_bytes(size, "little") for rows in comps for row in rows for v in row)

    def check(self, g, n, how):
        if type(g) is not VideoGrain and not isinstance(g, VideoGrain):
            raise Violation("%s yields %r" % (how, g))
        if (g.cog_frame_format, g.width, g.height) != (self.fmt, self.w, self.h):
            raise Violation("%s: grain of %r, %dx%d" % (how, g.cog_frame_format, g.width, g.height))
        comps = self.picture(self.name, self.w, self.h, n)
        want = self.encode(comps)
        got = bytes(g.data)
        if got != want:
            if len(got) != len(want):
                raise Violation("%s: picture %d has %d bytes, expected %d" % (how, n, len(got), len(want)))
            size = F.PLANAR[self.name][0]
            flat = [v for rows in comps for row in rows for v in row]
            real = [int.from_bytes(got[i:i + size], "little") for i in range(0, len(got), size)]
            for i, (a, b) in enumerate(zip(real, flat)):
                if abs(a - b) > (0 if self.picture is noise else 1):
                    raise Violation("%s: picture %d has value %d at %d, the pattern defines %d" % (how, n, a, i, b))
        self.bytes.setdefault(n, got)
        return got


class AudioModel:
    def __init__(self, c):
        self.name, self.samples, self.channels = c["format"], c["samples"], c["channels"]
        self.sample_rate, self.frequency, self.volume = c["sample_rate"], c["frequency"], c["volume"]
        self.rate = Fraction(self.sample_rate, self.samples)
        self.fmt = CogAudioFormat[self.name]
        args = dict(samples=self.samples, channels=self.channels, cog_audio_format=self.fmt,
                    sample_rate=self.sample_rate)
        kind = c.get("maker", "tone")
        if kind == "silence":
            self.gen = Silence(SRC, FLOW, **args)
            self.volume, self.frequency = 0.0, 0
        elif kind == "1k":
            self.gen = Tone1K(SRC, FLOW, volume=self.volume, **args)
            self.frequency = 1000
        else:
            self.gen = Tone(SRC, FLOW, frequency=self.frequency, volume=self.volume, **args)
        self.bytes = {}
        self.places = [np.array([F.audio_position(self.name, self.channels, self.samples, ch, k)
                                 for k in range(self.samples)]) // F.AUDIO[self.name][0] for ch in range(self.channels)]

    def check(self, g, n, how):
        if not isinstance(g, AudioGrain):
            raise Violation("%s yields %r" % (how, g))
        if (g.cog_audio_format, g.samples, g.channels, g.sample_rate) != (self.fmt, self.samples, self.channels,
                                                                         self.sample_rate):
            raise Violation("%s: grain of %r, %r samples, %r channels, %r Hz"
                            % (how, g.cog_audio_format, g.samples, g.channels, g.sample_rate))
        got = bytes(g.data)
        want = F.audio_size(self.name, self.channels, self.samples)
        if len(got) != want:
            raise Violation("%s: %d bytes of samples, expected %d" % (how, len(got), want))
        if self.bytes.get(n) == got:
            return got
        size, _, kind = F.AUDIO[self.name]
        bits = {"S16": 16, "S24": 24, "S32": 32}.get(kind)
        phase = [(self.frequency * (n * self.samples + k)) % self.sample_rate for k in range(self.samples)]
        v = self.volume * np.sin(np.array(phase) * (2 * math.pi / self.sample_rate))
        raw = np.frombuffer(got, dtype=np.uint8).reshape(-1, size)
        if bits:
            values = np.zeros(len(raw), dtype=np.int64)
            for i in range(size):
                values |= raw[:, i].astype(np.int64) << (8 * i)
            values = np.where(raw[:, size - 1] >= 128, values - (1 << (8 * size)), values)
            lim = 1 << (bits - 1)
            want, tolerance = np.clip(v * lim, -lim, lim - 1), 1 + lim * 1e-9
        else:
            values = np.frombuffer(got, dtype="<f%d" % size)
            want, tolerance = v, 1e-6 if size == 4 else 1e-9
        for ch in range(self.channels):
            bad = np.abs(values[self.places[ch]] - want) > tolerance
            if bad.any():
                k = int(bad.argmax())
                raise Violation("%s: sample %d of channel %d of grain %d is %r, the tone is %r there"
                                % (how, k, ch, n, values[self.places[ch]][k], v[k]))
        self.bytes[n] = got
        return got


class Timed:
    """Something that is at a time, as other libraries define it."""
    def __init__(self, t):
        self.t = t

    def __mediatimestamp__(self):
        return self.t

    def __mediatimeoffset__(self):
        return self.t


class Ranged:
    def __init__(self, r):
        self.r = r

    def __mediatimerange__(self):
        return self.r


class C20(Check):
    id = "C20"
    rule = "two executions differ when the generator's configuration or the accesses made to it differ"
    assumptions = ["a key that is not the time of a grain names no grain; keys within rounding of one are not tried for "
                   "tones, which are addressed in samples",
                   "ranges start and end at times of grains; integer keys are not tried for tones",
                   "values of luma bars may be rounded either way; samples may be one step off",
                   "pictures have at least one chroma line when they carry a moving bar"]

    def cases(self):
        t = self.thorough
        sizes = [(1, 2), (2, 2), (5, 3), (7, 1), (8, 4), (9, 2), (15, 2), (16, 2), (17, 5), (33, 3), (40, 6)]
        if t:
            sizes = [(w, h) for w in range(1, 41) for h in (1, 2, 3, 5)] + [(w, 2) for w in range(41, 201)]
        for name in VIDEO:
            for w, h in sizes:
                yield "picture", {"base": "steps", "format": name, "w": w, "h": h, "rate": "25"}
                for intensity in (None, 0.75, 1.0, 0.5, 0.0):
                    yield "picture", {"base": "bars", "format": name, "w": w, "h": h, "rate": "25",
                                      "intensity": intensity}
        for name in VIDEO:
            for base in ("steps", "bars", "still", "array"):
                for w, h in ((9, 4), (16, 7)) if not t else ((9, 4), (16, 7), (2, 2), (1, 9), (24, 12)):
                    for bar in ((0, 1, 2, 3, 5, 20) if not t else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20)):
                        for speed in ((1.0, 0.5, 2, -1.0) if not t else (1.0, 0.5, 2, -1.0, 0.0, 1.5, -0.3, 100)):
                            yield "picture", {"base": base, "format": name, "w": w, "h": h, "rate": "30000/1001",
                                              "bar": bar, "speed": speed}
        # timing: any rate, any count, no drift
        for base in ("steps", "bars", "still", "array"):
            for rate in RATES:
                for bar in (None, 2):
                    yield "timing", {"base": base, "format": "U8_420", "w": 9, "h": 14, "rate": rate, "bar": bar,
                                     "speed": 1.0}
        for name in F.AUDIO:
            for samples in (1, 3, 48):
                for channels in (1, 2, 3, 5) if not t else range(1, 10):
                    for freq, vol, sr in ((1000, 0.5, 48000), (7, 1.0, 480), (0, 1.0, 480), (120, 1.0, 480),
                                          (44, 0.1, 441), (240, 0.5, 480), (10, 0.0, 480), (479, 0.5, 480),
                                          (481, 0.5, 480)):
                        yield "tone", {"format": name, "samples": samples, "channels": channels, "sample_rate": sr,
                                       "frequency": freq, "volume": vol}
        for name in ("S16_INTERLEAVED", "S24_PAIRS", "FLOAT_PLANES"):
            for samples, sr in itertools.product((1, 7, 1600, 1601, 1920), (48000, 44100, 96000, 8000)):
                if not t and sr in (96000, 8000) and samples in (7, 1600):
                    continue
                for freq in ((1, 440, 1000, 997, 11025) if t else (440, 1000, 11025)):
                    yield "tone", {"format": name, "samples": samples, "channels": 1, "sample_rate": sr,
                                   "frequency": freq, "volume": 0.5}
                for maker in ("1k", "silence"):
                    yield "tone", {"format": name, "samples": samples, "channels": 1, "sample_rate": sr,
                                   "frequency": 0, "volume": 0.25, "maker": maker}
        for fmt in CogFrameFormat:
            if fmt.name not in VIDEO:
                yield "refused", {"video": fmt.name}
        for fmt in CogAudioFormat:
            if fmt.name not in F.AUDIO:
                yield "refused", {"audio": fmt.name}
        # histories of accesses
        configs = [{"base": "steps", "format": "U8_420", "w": 9, "h": 4, "rate": "30000/1001", "bar": None,
                    "speed": 1.0},
                   {"base": "bars", "format": "S16_422_10BIT", "w": 9, "h": 4, "rate": "25", "bar": None, "speed": 1.0},
                   {"base": "still", "format": "U8_444", "w": 3, "h": 4, "rate": "24000/1001", "bar": 2, "speed": 1.0},
                   {"format": "S16_PLANES", "samples": 5, "channels": 2, "sample_rate": 480, "frequency": 97,
                    "volume": 0.5},
                   {"format": "S24_PAIRS", "samples": 8, "channels": 1, "sample_rate": 48000, "frequency": 12000,
                    "volume": 0.5}]
        depth = 3 if t else 2
        for c in configs:
            for seq in itertools.product(ACCESSES, repeat=depth):
                yield "history", {"config": c, "accesses": list(seq)}

    def run(self, kind, case):
        return getattr(self, kind)(case)

    def model(self, c):
        return AudioModel(c) if "samples" in c else VideoModel(c)

    def one(self, m, g, n, how):
        """A grain is the n-th; returns its bytes, and spoils the grain so that sharing shows."""
        t = Timestamp.from_count(n, m.rate.numerator, m.rate.denominator)
        self.stats.transitions += 1
        if g.origin_timestamp != t or g.sync_timestamp != t:
            raise Violation("%s: grain %d at rate %s has origin %s and sync %s, expected %s"
                            % (how, n, m.rate, g.origin_timestamp, g.sync_timestamp, t))
        if g.rate != m.rate or g.duration != 1 / m.rate:
            raise Violation("%s: rate %s, duration %s, expected %s and %s" % (how, g.rate, g.duration, m.rate,
                                                                            1 / m.rate))
        if g.source_id != SRC or g.flow_id != FLOW:
            raise Violation("%s: ids %s %s" % (how, g.source_id, g.flow_id))
        got = m.check(g, n, how)
        d = memoryview(g.data).cast("B")
        d[:] = b"\xa5" * len(d)
        g.origin_timestamp = Timestamp(5, 5)
        g.sync_timestamp = Timestamp(6, 6)
        g.flow_id = UUID(int=99)
        return got

    def picture(self, case):
        m = self.model(case)
        out = []
        for n in (0, 1, 2, 5, 3, 17):
            out.append(self.one(m, m.gen[Timestamp.from_count(n, m.rate.numerator, m.rate.denominator)], n, "index"))
        return tuple(out)

    def keys(self, m, n):
        t = Timestamp.from_count(n, m.rate.numerator, m.rate.denominator)
        yield "Timestamp", t
        yield "TimeValue of a count", TimeValue(n, rate=m.rate)
        yield "TimeValue of a Timestamp", TimeValue(t)
        yield "TimeOffset", TimeOffset(t.sec, t.ns, t.sign)
        yield "what has a Timestamp", Timed(t)
        yield "count", n
        yield "TimeValue of a count without rate", TimeValue(n)

    def timing(self, case):
        m = self.model(case)
        for n in COUNTS:
            for what, key in self.keys(m, n):
                self.one(m, m.gen[key], n, what)
                if key not in m.gen:
                    raise Violation("grain %d (%s) is not in the generator" % (n, what))
            self.one(m, m.gen.get(TimeValue(n, rate=m.rate)), n, "get")
        half = Fraction(1, 2) / m.rate
        for n in (0, 1, 29, 86399999):
            for part in (half, half / 2, half * Fraction(3, 2)):
                ns = int((n / m.rate + part) * 10 ** 9)
                off = Timestamp(ns // 10 ** 9, ns % 10 ** 9)
                self.absent(m, off)
        return self.spans(m)

    def absent(self, m, off):
        for key in (off, TimeValue(off)):
            if key in m.gen:
                raise Violation("%s lies between grains and is in the generator" % off)
            try:
                g = m.gen[key]
            except KeyError:
                pass
            else:
                raise Violation("%s lies between grains and gives the grain of %s" % (off, g.origin_timestamp))
            marker = object()
            if m.gen.get(TimeValue(key)) is not None or m.gen.get(TimeValue(key), marker) is not marker:
                raise Violation("get of %s, between grains, does not return the default" % off)

    def spans(self, m):
        r = m.rate

        def at(n):
            return Timestamp.from_count(n, r.numerator, r.denominator)
        out = []
        for a, b in ((0, 0), (0, 1), (0, 7), (5, 9), (29, 31), (1000, 1004), (86399998, 86400001), (-2, 2)):
            forms = {
                "slice": lambda: m.gen[at(a):at(b)],
                "slice of counts": lambda: m.gen[TimeValue(a, rate=r):TimeValue(b, rate=r)],
                "slice of plain counts": lambda: m.gen[a:b],
                "CountRange": lambda: m.gen[CountRange(a, b, CountRange.INCLUSIVE)],
                "TimeValueRange without rate": lambda: m.gen[TimeValueRange(a, b)],
                "TimeRange [)": lambda: m.gen[TimeRange(at(a), at(b + 1), TimeRange.INCLUDE_START)],
                "TimeRange []": lambda: m.gen[TimeRange(at(a), at(b), TimeRange.INCLUSIVE)],
                "what has a TimeRange": lambda: m.gen[Ranged(TimeRange(at(a), at(b), TimeRange.INCLUSIVE))],
                "slice of what has a Timestamp": lambda: m.gen[Timed(at(a)):Timed(at(b))],
                "TimeRange ()": lambda: m.gen[TimeRange(at(a - 1), at(b + 1), TimeRange.EXCLUSIVE)],
                "TimeValueRange": lambda: m.gen[TimeValueRange(at(a), at(b), TimeRange.INCLUSIVE)],
                "rated TimeValueRange": lambda: m.gen[TimeValueRange(TimeValue(a, rate=r), TimeValue(b, rate=r),
                                                                     TimeRange.INCLUSIVE, rate=r)],
                "endless slice": lambda: itertools.islice(m.gen[at(a):], b + 1 - a),
                "endless range": lambda: itertools.islice(m.gen[TimeRange.from_start(at(a))], b + 1 - a),
            }
            for how, f in forms.items():
                n = a
                for g in f():
                    if n > b:
                        raise Violation("%s from %d to %d at %s goes on to %s" % (how, a, b, r, g.origin_timestamp))
                    self.one(m, g, n, how)
                    n += 1
                if n != b + 1:
                    raise Violation("%s from %d to %d at %s stops before %d" % (how, a, b, r, n))
            for step in (1, 2, 3):
                got = list(m.gen[at(a):at(b):step])
                if len(got) != len(range(a, b + 1, step)):
                    raise Violation("every %d from %d to %d: %d grains" % (step, a, b, len(got)))
                for g, n in zip(got, range(a, b + 1, step)):
                    self.one(m, g, n, "slice by %d" % step)
            if 10 ** 9 % r == 0:
                for step in (1, 2, 3):
                    if a % step or b % step:
                        continue        # a range at a rate begins and ends on its counts
                    # a step given as a time
                    d = TimeOffset.from_nanosec(step * 10 ** 9 // r)
                    want = [n for n in range(a, b + 1) if n % step == 0]
                    got = list(m.gen[at(a):at(b):d])
                    if len(got) != len(want):
                        raise Violation("every %s from %d to %d: %d grains" % (d, a, b, len(got)))
                    for g, n in zip(got, want):
                        self.one(m, g, n, "slice by %s" % d)
        for bad in (None, "1", 1.5, b"", (1, 2), object(), m):
            try:
                m.gen[bad]
            except ValueError:
                out.append("ValueError")
            else:
                raise Violation("%r is accepted as a key" % (bad,))
        for bad in (TimeRange.never(),):
            if list(m.gen[TimeValueRange(bad)] if bad.bounded_before() else ()):
                raise Violation("an empty range yields grains")
        for bad in (TimeRange.eternity(), TimeRange.from_end(at(3)), slice(None, at(3))):
            try:
                m.gen[bad]
            except ValueError:
                out.append("ValueError")
            else:
                raise Violation("a range without a start is accepted: %r" % (bad,))
        return tuple(out)

    def tone(self, case):
        m = self.model(case)
        out = []
        counts = (0, 1, 2, 3, 9, 1000, 48000, 86400 * 25, 1) if m.samples < 1000 else (0, 3, 1601)
        for n in counts:
            what, key = list(self.keys(m, n))[n % 2]
            out.append(hash(self.one(m, m.gen[key], n, what)))
        n = 3
        for g in m.gen[TimeValue(3, rate=m.rate):TimeValue(5, rate=m.rate)]:
            self.one(m, g, n, "slice")
            n += 1
        if n != 6:
            raise Violation("grains 3 to 5 end at %d" % n)
        if case["samples"] in (3, 7, 1601):
            for k in (1, 2, m.samples - 1, m.samples + 1):
                if k % m.samples:
                    self.absent(m, Timestamp.from_count(k, m.sample_rate))
        if case["samples"] == 48 and case["channels"] == 1:
            self.spans(m)
        return case["format"], case["channels"], case["frequency"], tuple(out)

    def refused(self, case):
        makers = []
        if "video" in case:
            fmt = CogFrameFormat[case["video"]]
            makers = [lambda: LumaSteps(SRC, FLOW, 4, 4, cog_frame_format=fmt),
                      lambda: ColourBars(SRC, FLOW, 4, 4, cog_frame_format=fmt),
                      lambda: MovingBarOverlay(StillPatternGenerator(VideoGrain(
                          src_id=SRC, flow_id=FLOW, cog_frame_format=fmt, width=4, height=4, rate=Fraction(25),
                          data=bytearray(64))), height=2)]
        else:
            fmt = CogAudioFormat[case["audio"]]
            makers = [lambda: Tone(SRC, FLOW, cog_audio_format=fmt), lambda: Tone1K(SRC, FLOW, cog_audio_format=fmt),
                      lambda: Silence(SRC, FLOW, cog_audio_format=fmt)]
        for f in makers:
            try:
                f()
            except ValueError:
                continue
            raise Violation("a generator of %s grains was made" % fmt.name)
        return case

    def history(self, case):
        m = self.model(case["config"])
        r = m.rate

        def at(n):
            return Timestamp.from_count(n, r.numerator, r.denominator)
        for a in case["accesses"]:
            op, args = a[0], a[1:]
            if op == "index":
                self.one(m, m.gen[at(args[0])], args[0], "index")
            elif op == "miss":
                t = at(args[0])
                self.absent(m, t + TimeOffset.from_nanosec(int(1e9 / r / 2)))
            elif op == "slice":
                n = args[0]
                for g in m.gen[at(args[0]):at(args[1]):args[2]]:
                    self.one(m, g, n, "slice")
                    n += args[2]
            elif op == "both":
                # two readers of one generator, in step
                i, j = iter(m.gen[at(0):]), iter(m.gen[at(args[0]):])
                for k in range(3):
                    g, h = next(i), next(j)
                    if g is h:
                        raise Violation("two readers were given one grain object")
                    self.one(m, g, k, "first of two")
                    self.one(m, h, args[0] + k, "second of two")
        # every grain is always the same
        for n, want in list(m.bytes.items()):
            if self.one(m, m.gen[TimeValue(n, rate=r)], n, "again") != want:
                raise Violation("grain %d differs when it is asked for again" % n)
        return tuple(sorted((n, hash(b)) for n, b in m.bytes.items()))


ACCESSES = [("index", 0), ("index", 1), ("index", 5), ("index", 3), ("index", 4804), ("miss", 0), ("miss", 2),
            ("slice", 0, 3, 1), ("slice", 2, 5, 1), ("slice", 1, 6, 2), ("both", 0), ("both", 1), ("both", 3)]
CHECK = C20
