"""C23: the timing of grains."""
import itertools
from decimal import Decimal
from fractions import Fraction
from math import floor
from uuid import UUID

from mediatimestamp.immutable import TimeOffset, TimeRange, Timestamp

from mc.core import Check, Violation
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, EventGrain, Grain, GrainFactory, VideoGrain

SRC, FLOW = UUID(int=5), UUID(int=6)
G = 10 ** 9
TYPES = ["empty", "event", "video", "coded_video", "audio", "coded_audio"]
VIDEO_RATES = ["25", "50", "30000/1001", "24000/1001", "60000/1001", "24", "1", "12/5", "120", "1/10", "90000", "1000000/7",
               "25025/1001"]
AUDIO_RATES = [48000, 44100, 96000, 88200, 192000, 32000, 22050, 11025, 8000, 7350, 1, 3, 2822400]
ORIGINS = [0, 1, 5, G - 1, G, 1500000000 * G, 1500000000 * G + 123456789, 417798915 * G + 5, -1, -G, -3 * G - 7,
           (1 << 47) * G + 999999999]
SAMPLES = [1, 2, 3, 480, 1024, 1601, 1602, 1920, 48000, (1 << 32) - 1]
OFFSETS = [0, 1, 2, 5, -1, -2, -7, 1000, None]

# the menus of the state search
MENU = {
    "origin": [0, 5, -G, 1500000000 * G + 40000000], "sync": [1, -2, 10 * G], "creation": [2, 3 * G + 1],
    "rate": ["25", "0", "30000/1001", "1/3"], "duration": ["1/25", "0", "1001/30000"],
    "samples": [1920, 1, 0], "sample_rate": [48000, 44100, 0], "offset": [0, 3, -2, None],
}
FIELDS = {"empty": [], "event": [], "video": [], "coded_video": ["offset"], "audio": ["samples", "sample_rate"],
          "coded_audio": ["samples", "sample_rate"]}
COMMON = ["origin", "sync", "creation", "rate", "duration"]


def ts(ns):
    return Timestamp(ns=abs(ns), sign=1 if ns >= 0 else -1)


def ns(t):
    if not isinstance(t, Timestamp):
        raise Violation("%r is not a timestamp" % (t,))
    return t.sign * (t.sec * G + t.ns)


def near(got, exact, what):
    """Is a timestamp the one of an exact time (in ns), of which only whole nanoseconds can be held?"""
    if not abs(ns(got) - exact) < 1:
        raise Violation("%s is %s, exactly %s ns" % (what, got, exact))


def make(kind, m):
    """The real grain with this timing."""
    common = dict(src_id=SRC, flow_id=FLOW, origin_timestamp=ts(m["origin"]), sync_timestamp=ts(m["sync"]),
                  creation_timestamp=ts(m["creation"]), rate=Fraction(m["rate"]), duration=Fraction(m["duration"]))
    if kind == "empty":
        return GrainFactory(**common)
    if kind == "event":
        return EventGrain(event_type="urn:x:t", topic="/t", **common)
    if kind == "video":
        return VideoGrain(cog_frame_format=CogFrameFormat.UYVY, width=2, height=1, **common)
    if kind == "coded_video":
        return CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, temporal_offset=m["offset"], is_key_frame=True,
                               origin_width=16, origin_height=16, coded_width=16, coded_height=16, data=b"x", **common)
    if kind == "audio":
        return AudioGrain(cog_audio_format=CogAudioFormat.S16_INTERLEAVED, channels=1, samples=m["samples"],
                          sample_rate=m["sample_rate"], data=b"", **common)
    return CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, channels=1, samples=m["samples"], priming=1, remainder=2,
                           sample_rate=m["sample_rate"], data=b"x", **common)


def nearest(x, rate):
    """The counts nearest to a time in ns (two if it is half way, to the nanosecond)."""
    exact = x * rate / G
    slack = rate / G
    lo = floor(exact)
    return [c for c in (lo, lo + 1) if abs(exact - c) <= Fraction(1, 2) + slack]


def grid(c, rate):
    """The time of a count, in whole ns towards zero"""
    v = abs(c) * G / rate
    return floor(v) if c >= 0 else -floor(v)


class C23(Check):
    id = "C23"
    rule = "two executions differ when the type, the timing values, or the history of assignments differ"
    assumptions = ["times are whole nanoseconds; exact times between two nanoseconds may be either of them",
                   "audio without samples covers no time; only that its time range can be asked for is checked",
                   "mediatimestamp does its arithmetic right"]

    # -- enumeration --------------------------------------------------------------------------------------------------
    def cases(self):
        t = self.thorough
        for kind in TYPES:
            for o in ORIGINS:
                for r in VIDEO_RATES + ["0"]:
                    if kind in ("audio", "coded_audio"):
                        for sr in AUDIO_RATES + [0]:
                            if r in ("25", "0", "30000/1001") or t:
                                yield "single", {"type": kind, "origin": o, "rate": r, "sample_rate": sr}
                    else:
                        yield "single", {"type": kind, "origin": o, "rate": r}
        for kind in ("video", "coded_video"):
            for r in VIDEO_RATES:
                for first in ([0, -20, 10 ** 6, 1 << 31, 10 ** 11] if Fraction(r) < 1000 else [0, -20, 10 ** 9]):
                    yield "consecutive", {"type": kind, "rate": r, "first": first, "n": 150 if not t else 4000}
        for kind in ("audio", "coded_audio"):
            for sr in AUDIO_RATES:
                for s in SAMPLES[:-1] + ["video"]:
                    for first in [0, -20 * 1920, 10 ** 6 + 1, (1 << 31) - 3, 72 * 10 ** 12]:
                        yield "consecutive", {"type": kind, "sample_rate": sr, "samples": s, "first": first,
                                      "n": 60 if not t else 1500}
        for order in itertools.permutations([0, 1, 2, 3]) if not t else itertools.permutations(range(6)):
            for r in ("25", "30000/1001", "24000/1001"):
                for first in (0, 1 << 31, -2):
                    yield "reordered", {"order": list(order), "rate": r, "first": first}
        for kind in TYPES:
            for given in itertools.product((0, 1), repeat=3):
                for how in ("arguments", "meta"):
                    yield "defaults", {"type": kind, "given": list(given), "how": how}
            for form in range(8):
                for form2 in range(8):
                    yield "forms", {"type": kind, "time": form, "rational": form2}

    def explore(self, part, nparts):
        super().explore(part, nparts)
        for i, kind in enumerate(TYPES):
            self.bfs("assign", {"type": kind}, self.alphabet, self.build, self.canon, 6 if self.thorough else 3, part, nparts,
                     3 * i)
            if self.enough():
                return

    def run(self, kind, case):
        if kind == "assign":
            return self.canon(self.build(case["config"], [tuple(o) for o in case["ops"]]))
        self.stats.transitions += 1
        return getattr(self, kind)(case)

    # -- the oracle ---------------------------------------------------------------------------------------------------
    def media_rate(self, kind, m):
        if kind in ("audio", "coded_audio"):
            return Fraction(m["sample_rate"]) or None
        if kind in ("video", "coded_video"):
            return Fraction(m["rate"]) or None
        return None

    def check(self, kind, g, m, at=""):
        """Everything about the timing of a grain against what it was made of."""
        def say(what):
            return "%s of %s grain %r%s" % (what, kind, m, at)
        for field, name in (("origin", "origin_timestamp"), ("sync", "sync_timestamp"), ("creation", "creation_timestamp")):
            if ns(getattr(g, name)) != m[field]:
                raise Violation("%s is %s" % (say(name), getattr(g, name)))
        for name in ("rate", "duration"):
            v = getattr(g, name)
            if not isinstance(v, Fraction) or v != Fraction(m[name]):
                raise Violation("%s is %r" % (say(name), v))
        for f, name in (("samples", "samples"), ("sample_rate", "sample_rate"), ("offset", "temporal_offset")):
            if f in FIELDS[kind] and getattr(g, name) != m[f]:
                raise Violation("%s is %r" % (say(name), getattr(g, name)))
        rate = self.media_rate(kind, m)
        if g.media_rate != rate or (rate is not None and not isinstance(g.media_rate, Fraction)):
            raise Violation("%s is %r, expected %r" % (say("media_rate"), g.media_rate, rate))
        o, last = m["origin"], Fraction(m["origin"])
        if kind in ("audio", "coded_audio") and rate:
            last += (m["samples"] - 1) * G / rate
        shift = Fraction(0)
        if kind == "coded_video" and m["offset"] is not None and rate:
            shift = m["offset"] * G / rate
        final = g.final_origin_timestamp()
        near(final, last, say("final_origin_timestamp"))
        if last == o and ns(final) != o:
            raise Violation("%s is %s" % (say("final_origin_timestamp"), final))
        near(g.presentation_origin_timestamp, o + shift, say("presentation_origin_timestamp"))
        if abs(ns(g.final_presentation_origin_timestamp()) - (last + shift)) >= 2 if shift and last != o else \
                abs(ns(g.final_presentation_origin_timestamp()) - (last + shift)) >= 1:
            raise Violation("%s is %s" % (say("final_presentation_origin_timestamp"), g.final_presentation_origin_timestamp()))
        tr, ptr = g.origin_timerange(), g.presentation_origin_timerange()
        if kind in ("audio", "coded_audio") and rate and m["samples"] == 0:
            return None
        if (tr.start, tr.end, tr.inclusivity) != (g.origin_timestamp, final, TimeRange.INCLUSIVE):
            raise Violation("%s is %s" % (say("origin_timerange"), tr))
        want = (g.presentation_origin_timestamp, g.final_presentation_origin_timestamp(), TimeRange.INCLUSIVE)
        if (ptr.start, ptr.end, ptr.inclusivity) != want:
            raise Violation("%s is %s, expected %s" % (say("presentation_origin_timerange"), ptr, want))
        return ns(final), ns(g.presentation_origin_timestamp), str(tr)

    def check_normalise(self, kind, g, m, values):
        rate = self.media_rate(kind, m)
        out = []
        for x in values:
            for cls in (Timestamp, TimeOffset):
                got = g.normalise_time(cls(ns=abs(x), sign=1 if x >= 0 else -1))
                if rate is None:
                    if ns(got) != x:
                        raise Violation("%s grain %r: %d ns is normalised to %s without a rate" % (kind, m, x, got))
                elif rate < G and not any(abs(ns(got) - grid(c, rate)) == 0 for c in nearest(x, rate)):
                    raise Violation("%s grain %r: %d ns is normalised to %s, the nearest at rate %s are %r"
                                    % (kind, m, x, got, rate, [grid(c, rate) for c in nearest(x, rate)]))
                elif rate < G // 4 and g.normalise_time(got) != got:
                    raise Violation("%s grain %r: normalising %s again gives %s" % (kind, m, got, g.normalise_time(got)))
                out.append(ns(got))
        for a, b in zip(values, values[1:]):
            for inc in (TimeRange.INCLUSIVE, TimeRange.INCLUDE_START, TimeRange.INCLUDE_END, TimeRange.EXCLUSIVE):
                a, b = min(a, b), max(a, b)
                tr = TimeRange(ts(a), ts(b), inc)
                got = g.normalise_time(tr)
                if rate is None:
                    if got != tr:
                        raise Violation("%s grain %r: %s is normalised to %s without a rate" % (kind, m, tr, got))
                elif got != tr.normalise(rate):
                    raise Violation("%s grain %r: %s is normalised to %s, expected %s" % (kind, m, tr, got,
                                                                                      tr.normalise(rate)))
        for tr in (TimeRange.eternity(), TimeRange.never(), TimeRange.from_start(ts(values[0])),
                   TimeRange.from_end(ts(values[0]))):
            got = g.normalise_time(tr)
            if got != (tr if rate is None else tr.normalise(rate)):
                raise Violation("%s grain %r: %s is normalised to %s" % (kind, m, tr, got))
        return tuple(out)

    # -- kinds --------------------------------------------------------------------------------------------------------
    def single(self, case):
        kind = case["type"]
        out = []
        samples = SAMPLES + [0] if "samples" in FIELDS[kind] else [None]
        offsets = OFFSETS if "offset" in FIELDS[kind] else [None]
        rate = Fraction(case["rate"])
        for s, off in itertools.product(samples, offsets):
            m = {"origin": case["origin"], "sync": case["origin"] ^ 1, "creation": 7, "rate": case["rate"],
                 "duration": str(1 / rate) if rate else "0", "samples": s, "sample_rate": case.get("sample_rate"),
                 "offset": off}
            if abs(m["origin"]) > 1 << 75 and (s or 0) > 48000:
                continue
            g = make(kind, m)
            out.append(self.check(kind, g, m))
            self.stats.transitions += 1
            if s in (None, 1920) and off in (None, 0):
                o = case["origin"] if abs(case["origin"]) < 1 << 70 else 0
                unit = int(G / self.media_rate(kind, m)) if self.media_rate(kind, m) else 1000
                out.append(self.check_normalise(kind, g, m, [o, o + 1, o - 1, o + unit, o + unit // 2 - 2,
                                                             o + unit // 2 + 3, o + 7 * unit - 3, o - 5 * unit + 1]))
        return tuple(out)

    def consecutive(self, case):
        """Consecutive grains abut."""
        kind, first, n = case["type"], case["first"], case["n"]
        if kind in ("video", "coded_video"):
            rate, media = Fraction(case["rate"]), Fraction(case["rate"])
            counts = [1] * n
        else:
            media = Fraction(case["sample_rate"])
            if case["samples"] == "video":       # as many samples as fit each frame at 29.97
                edges = [floor(i * media * Fraction(1001, 30000)) for i in range(n + 1)]
                counts = [b - a for a, b in zip(edges, edges[1:])]
                if min(counts) < 1:
                    return None
            else:
                counts = [case["samples"]] * n
            rate = media / max(counts)
        at, previous, out = first, None, []
        for i, s in enumerate(counts):
            o = grid(at, media)
            m = {"origin": o, "sync": o, "creation": 0, "rate": str(rate), "duration": str(1 / rate), "samples": s,
                 "sample_rate": case.get("sample_rate"), "offset": 0}
            g = make(kind, m)
            self.stats.transitions += 1
            self.check(kind, g, m)
            final = g.final_origin_timestamp()
            tr = g.normalise_time(g.origin_timerange())
            if final.to_count(media) != at + s - 1:
                raise Violation("grain of samples %d to %d of %s grains at %s: final_origin_timestamp %s is of sample %d"
                                % (at, at + s - 1, kind, media, final, final.to_count(media)))
            if g.normalise_time(g.origin_timestamp) != g.origin_timestamp:
                raise Violation("the time of sample %d at %s, %s, is normalised to %s"
                                % (at, media, g.origin_timestamp, g.normalise_time(g.origin_timestamp)))
            if previous is not None:
                if not (previous.end == tr.start and previous.inclusivity == tr.inclusivity == TimeRange.INCLUDE_START):
                    raise Violation("grains of %s samples at %s: %s is followed by %s" % (counts[i - 1], media, previous, tr))
            previous = tr
            at += s
        return at, str(previous)

    def reordered(self, case):
        """Coded frames in decoding order, presented in another."""
        rate = Fraction(case["rate"])
        seen = []
        for i, p in enumerate(case["order"]):
            o = grid(case["first"] + i, rate)
            m = {"origin": o, "sync": o, "creation": 0, "rate": case["rate"], "duration": str(1 / rate), "offset": p - i}
            g = make("coded_video", m)
            self.check("coded_video", g, m)
            seen.append((g.presentation_origin_timestamp.to_count(rate), g.normalise_time(g.presentation_origin_timerange())))
            if g.origin_timestamp.to_count(rate) != case["first"] + i:
                raise Violation("origin")
        want = [case["first"] + p for p in case["order"]]
        if [c for c, _ in seen] != want:
            raise Violation("frames presented at %r, expected %r" % ([c for c, _ in seen], want))
        ranges = [tr for _, tr in sorted(seen, key=lambda s: s[0])]
        for a, b in zip(ranges, ranges[1:]):
            if a.end != b.start:
                raise Violation("%s is followed by %s" % (a, b))
        return tuple(str(r) for r in ranges)

    def defaults(self, case):
        """What is not given: origin follows creation, sync follows origin."""
        kind = case["type"]
        names = ["creation_timestamp", "origin_timestamp", "sync_timestamp"]
        values = {n: ts(G * (i + 3) + i) for i, (n, x) in enumerate(zip(names, case["given"])) if x}
        lo = Timestamp.get_time()
        cls = {"empty": GrainFactory, "event": EventGrain, "video": VideoGrain, "coded_video": CodedVideoGrain,
               "audio": AudioGrain, "coded_audio": CodedAudioGrain}[kind]
        if case["how"] == "arguments":
            g = cls(src_id=SRC, flow_id=FLOW, **values)
        else:
            meta = {"grain": dict({"grain_type": kind, "source_id": str(SRC), "flow_id": str(FLOW)},
                                  **{k: str(v) for k, v in values.items()})}
            g = cls(meta=meta) if kind != "empty" else GrainFactory(meta=meta)
        hi = Timestamp.get_time()
        c = g.creation_timestamp
        if case["given"][0]:
            if c != values["creation_timestamp"]:
                raise Violation("created at %s, given %s" % (c, values))
        elif not lo <= c <= hi:
            raise Violation("created at %s, between %s and %s" % (c, lo, hi))
        o = values.get("origin_timestamp", c)
        s = values.get("sync_timestamp", o)
        if (g.origin_timestamp, g.sync_timestamp) != (o, s):
            raise Violation("%s grain given %r by %s: origin %s, sync %s, expected %s and %s"
                            % (kind, values, case["how"], g.origin_timestamp, g.sync_timestamp, o, s))
        return case["type"], tuple(case["given"])

    def time_form(self, form, v):
        return [lambda: ts(v), lambda: "%d:%d" % (v // G, v % G), lambda: TimeOffset(v // G, v % G), lambda: ts(v),
                lambda: Supports(v), lambda: Supports(v), lambda: ts(v).to_sec_nsec(), lambda: ts(v)][form]()

    def forms(self, case):
        """A value may be given in any of the forms documented."""
        kind = case["type"]
        m = {"origin": 1, "sync": 2, "creation": 3, "rate": "1", "duration": "1", "samples": 4, "sample_rate": 48000,
             "offset": 1}
        g = make(kind, m)
        for f, v in (("origin", 5 * G + 6), ("sync", 7 * G), ("creation", G - 1)):
            setattr(g, f + "_timestamp", self.time_form(case["time"], v))
            m[f] = v
            self.check(kind, g, m, " given as %r" % (self.time_form(case["time"], v),))
        for f, v in (("rate", Fraction(5, 2)), ("duration", Fraction(1, 4)), ("rate", Fraction(30))):
            x = [v, str(v), float(v), Decimal(v.numerator) / Decimal(v.denominator), str(float(v)), v, v, v][case["rational"]]
            if v == 30:
                x = [30, "30", 30.0, Decimal(30), "30/1", 30, 30, 30][case["rational"]]
            setattr(g, f, x)
            m[f] = str(v)
            self.check(kind, g, m, " given as %r" % (x,))
        # and to the constructor, as arguments and as metadata
        common = dict(origin_timestamp=self.time_form(case["time"], G), rate=[Fraction(5, 2), "5/2", 2.5, Decimal("2.5"),
                                                                             "2.5", Fraction(5, 2), Fraction(5, 2),
                                                                             Fraction(5, 2)][case["rational"]])
        cls = {"empty": GrainFactory, "event": EventGrain, "video": VideoGrain, "coded_video": CodedVideoGrain,
               "audio": AudioGrain, "coded_audio": CodedAudioGrain}[kind]
        built = []
        if not isinstance(common["origin_timestamp"], str):
            built.append(("arguments", cls(src_id=SRC, flow_id=FLOW, duration=Fraction(2, 5), sync_timestamp=ts(9),
                                           creation_timestamp=ts(8), **common)))
        meta = {"grain": dict({"grain_type": kind, "source_id": SRC, "flow_id": str(FLOW), "duration": common["rate"],
                               "sync_timestamp": common["origin_timestamp"], "creation_timestamp": "0:8"}, **common)}
        built.append(("metadata", cls(meta=meta)))
        for how, g in built:
            if ns(g.origin_timestamp) != G or g.rate != Fraction(5, 2) or ns(g.creation_timestamp) != 8 or \
                    ns(g.sync_timestamp) != (9 if how == "arguments" else G) or \
                    g.duration != (Fraction(2, 5) if how == "arguments" else Fraction(5, 2)):
                raise Violation("%s grain made with %s %r: %r" % (kind, how, common, g.meta))
        return case

    # -- state search -------------------------------------------------------------------------------------------------
    def alphabet(self, config, hist):
        for f in COMMON + FIELDS[config["type"]]:
            for i in range(len(MENU[f])):
                yield (f, i)

    NAMES = {"origin": "origin_timestamp", "sync": "sync_timestamp", "creation": "creation_timestamp",
             "offset": "temporal_offset"}

    def build(self, config, ops):
        kind = config["type"]
        m = {f: MENU[f][0] for f in MENU}
        m["sample_rate"], m["samples"] = 48000, 1920
        g = make(kind, m)
        other = make(kind, m)            # an untouched one
        kept = dict(m)
        self.check(kind, g, m, " as made")
        for n, (f, i) in enumerate(ops):
            v = MENU[f][i]
            m[f] = v
            if f in ("origin", "sync", "creation"):
                x = ts(v)
            elif f in ("rate", "duration"):
                x = Fraction(v)
            else:
                x = v
            setattr(g, self.NAMES.get(f, f), x)
            if n == len(ops) - 1:
                self.check(kind, g, m, " after assigning %r" % (ops,))
        if ops:
            self.check(kind, other, kept, " which was not touched")
        return kind, m

    def canon(self, out):
        return tuple(sorted((k, str(v)) for k, v in out[1].items()))


class Supports:
    """Anything with the conversion method."""
    def __init__(self, v):
        self.v = v

    def __mediatimestamp__(self):
        return ts(self.v)


CHECK = C23
