"""C12: a grain's properties, its metadata and its copies."""
import asyncio
import copy
import json
import pickle
from decimal import Decimal
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import TimeOffset, Timestamp

from mc import aio
from mc.core import Check, Violation, short
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.grains import (AudioGrain, CodedAudioGrain, CodedVideoGrain, EventGrain, Grain, GrainFactory,
                                VideoGrain)

U = [UUID("00000000-0000-0000-0000-000000000000"), UUID("c0ffee00-1111-4222-8333-444455556666"),
     UUID("ffffffff-ffff-ffff-ffff-ffffffffffff")]
TS = [Timestamp(0, 0), Timestamp(417798915, 999999999), Timestamp(5, 1, -1), Timestamp(281474976710655, 999999999),
      Timestamp(0, 1)]
CLASSES = {"empty": Grain, "video": VideoGrain, "audio": AudioGrain, "coded_video": CodedVideoGrain,
           "coded_audio": CodedAudioGrain, "event": EventGrain}
TL = [{"tag": "tl", "timelabel": {"frames_since_midnight": 7, "frame_rate_numerator": 30000,
                                  "frame_rate_denominator": 1001, "drop_frame": True}},
      {"tag": "", "timelabel": {"frames_since_midnight": 0, "frame_rate_numerator": 25, "frame_rate_denominator": 1,
                                "drop_frame": False}}]
EV = [{"path": "/a", "pre": 1, "post": [None, "x"]}, {"path": ""}, {"path": "/\u00e9", "post": {"a": 0}}]

# property -> [(value to assign, value expected back)], names that must read the same -------------------------------
same = lambda *vs: [(v, v) for v in vs]                                                            # noqa: E731
ids = [(U[1], U[1]), (str(U[2]), U[2]), (U[0], U[0])]
stamps = [(t, t) for t in TS] + [("12:34", Timestamp(12, 34)), (TimeOffset(3, 5), Timestamp(3, 5))]
rates = [(Fraction(30000, 1001), Fraction(30000, 1001)), (50, Fraction(50)), ("24000/1001", Fraction(24000, 1001)),
         (Fraction(0), Fraction(0)), (12.5, Fraction(25, 2)), (Fraction(1, 3), Fraction(1, 3))]
COMMON = {
    "source_id": ids, "src_id": ids, "flow_id": ids, "origin_timestamp": stamps, "sync_timestamp": stamps,
    "creation_timestamp": stamps, "rate": rates, "duration": rates,
    "timelabels": [([], []), (TL, TL), (TL[1:], TL[1:])],
}
aspect = [(Fraction(16, 9), Fraction(16, 9)), ("64/45", Fraction(64, 45)), (1, Fraction(1))]
ints = same(0, 1, 7, 4096)
PAYLOADS = [(b"", b""), (b"\0\xff", b"\0\xff"), (None, None), (bytearray(b"ba"), b"ba")]
vformats = same(CogFrameFormat.UNKNOWN, CogFrameFormat.U8_444, CogFrameFormat.v210, CogFrameFormat.S32_444)
cvformats = same(CogFrameFormat.UNKNOWN, CogFrameFormat.H264, CogFrameFormat.VC2)
layouts = same(*CogFrameLayout)
aformats = same(CogAudioFormat.INVALID, CogAudioFormat.S16_PLANES, CogAudioFormat.FLOAT_PAIRS)
caformats = same(CogAudioFormat.INVALID, CogAudioFormat.AAC, CogAudioFormat.OPUS)


class Lazy:
    """One-element stand-in for an iterable that can be walked once."""
    def __init__(self, vs):
        self.vs = vs

    def __iter__(self):
        return iter(list(self.vs))

    def __repr__(self):
        return "Lazy(%r)" % (self.vs,)


PROPS = {
    "empty": dict(COMMON, grain_type=same("empty", "odd"), data=PAYLOADS),
    "video": dict(COMMON, data=PAYLOADS, cog_frame_format=vformats, format=vformats, cog_frame_layout=layouts,
                  layout=layouts, width=ints, height=ints, extension=ints, source_aspect_ratio=aspect,
                  pixel_aspect_ratio=aspect),
    "audio": dict(COMMON, data=PAYLOADS, cog_audio_format=aformats, format=aformats, samples=ints, channels=ints,
                  sample_rate=same(0, 48000, 44100)),
    "coded_video": dict(COMMON, data=PAYLOADS, cog_frame_format=cvformats, format=cvformats, cog_frame_layout=layouts,
                        layout=layouts, coded_width=ints, coded_height=ints, origin_width=ints, origin_height=ints,
                        is_key_frame=same(None, True, False), temporal_offset=same(None, 0, -3, 2),
                        source_aspect_ratio=aspect, pixel_aspect_ratio=aspect,
                        unit_offsets=[([], []), ([0, 5, 9], [0, 5, 9]), (None, []), ((1, 2), [1, 2]),
                                      (Lazy([3, 4]), [3, 4])]),
    "coded_audio": dict(COMMON, data=PAYLOADS, cog_audio_format=caformats, format=caformats, samples=ints,
                        channels=ints, priming=ints, remainder=ints, sample_rate=same(0, 48000, 44100)),
    "event": dict(COMMON, event_type=same("", "urn:x", "\u00e9\""), topic=same("", "/t", "\u65e5\n"),
                  event_data=[([], []), (EV, EV), (EV[1:2], EV[1:2])]),
}
ALIASES = [("source_id", "src_id"), ("format", "cog_frame_format"), ("format", "cog_audio_format"),
           ("layout", "cog_frame_layout")]
# constructor keyword -> the property it sets, when they differ
KW = {"empty": ["src_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate", "duration"]}
KW["video"] = KW["empty"] + ["cog_frame_format", "width", "height", "cog_frame_layout", "data"]
KW["audio"] = KW["empty"] + ["cog_audio_format", "samples", "channels", "sample_rate", "data"]
KW["coded_video"] = KW["empty"] + ["cog_frame_format", "origin_width", "origin_height", "coded_width", "coded_height",
                                   "is_key_frame", "temporal_offset", "cog_frame_layout", "unit_offsets", "data"]
KW["coded_audio"] = KW["empty"] + ["cog_audio_format", "samples", "channels", "priming", "remainder", "sample_rate",
                                   "data"]
KW["event"] = KW["empty"] + ["event_type", "topic"]
BASE = {"src_id": U[1], "flow_id": U[2], "origin_timestamp": Timestamp(10, 20), "sync_timestamp": Timestamp(30, 40),
        "creation_timestamp": Timestamp(50, 60), "rate": Fraction(25), "duration": Fraction(1, 25)}
BASE_OF = {
    "empty": {},
    "video": dict(cog_frame_format=CogFrameFormat.U8_444, width=4, height=2,
                  cog_frame_layout=CogFrameLayout.FULL_FRAME),
    "audio": dict(cog_audio_format=CogAudioFormat.S16_PLANES, samples=4, channels=2, sample_rate=48000),
    "coded_video": dict(cog_frame_format=CogFrameFormat.H264, origin_width=1920, origin_height=1080, coded_width=1920,
                        coded_height=1088, cog_frame_layout=CogFrameLayout.FULL_FRAME, data=b"nal"),
    "coded_audio": dict(cog_audio_format=CogAudioFormat.AAC, samples=1024, channels=2, priming=1, remainder=2,
                        sample_rate=48000, data=b"aac"),
    "event": dict(event_type="urn:e", topic="/t"),
}
# what an absent constructor argument means
DEFAULTS = {
    "empty": dict(rate=Fraction(0), duration=Fraction(0)),
    "video": dict(cog_frame_format=CogFrameFormat.UNKNOWN, width=1920, height=1080,
                  cog_frame_layout=CogFrameLayout.UNKNOWN),
    "audio": dict(cog_audio_format=CogAudioFormat.INVALID, samples=0, channels=0, sample_rate=48000),
    "coded_video": dict(cog_frame_format=CogFrameFormat.UNKNOWN, origin_width=1920, origin_height=1080,
                        is_key_frame=None, temporal_offset=None, cog_frame_layout=CogFrameLayout.UNKNOWN,
                        unit_offsets=[]),
    "coded_audio": dict(cog_audio_format=CogAudioFormat.INVALID, samples=0, channels=0, priming=0, remainder=0,
                        sample_rate=48000),
    "event": dict(event_type="", topic=""),
}
for _k in DEFAULTS:
    DEFAULTS[_k].setdefault("rate", Fraction(25))
    DEFAULTS[_k].setdefault("duration", Fraction(1, 25))
NO_ID = UUID(int=0)
NOT_IDS = ["f18ee944-0841-11e8-b0b0-17cef04bd429", "", 7, 0, bytes(16), "x", (), False]


def plain(v):
    """A list-like member as plain Python."""
    if isinstance(v, (list, tuple)) or hasattr(v, "insert"):
        return [dict(x) if hasattr(x, "keys") else x for x in v]
    return v


def payload(v):
    return None if v is None else bytes(v)


def snapshot(g, t):
    out = {}
    for p in PROPS[t]:
        v = getattr(g, p)
        out[p] = payload(v) if p == "data" else plain(v)
    out["grain_type"] = g.grain_type
    return out


def kwargs_of(t, changes):
    kw = dict(BASE)
    kw.update(BASE_OF[t])
    exp = {}
    for k, i in changes.items():
        if i is None:
            kw.pop(k, None)
            continue
        p = k if k in PROPS[t] else k
        kw[k] = PROPS[t][p][i][0]
    for k, v in kw.items():
        exp[k] = v
    for k, i in changes.items():
        if i is None:
            continue
        exp[k] = PROPS[t][k][i][1]
    return kw, exp


class Again:
    """A payload which can be asked for again, and cannot be had the first time."""
    def __init__(self, fetch):
        self.fetch, self.n = fetch, 0

    def __await__(self):
        self.n += 1
        if self.n == 1:
            raise OSError("planned")
        return self.fetch().__await__()


async def await_of(g):
    return await g


class C12(Check):
    id = "C12"
    rule = ("a state is the grain's metadata and payload after a history of assignments; histories reaching the same "
            "state are extended once")
    assumptions = ["values assigned are of the documented types", "grain_type is assigned on untyped grains only"]

    def expected(self, t, exp):
        out = {p: [] for p in ("timelabels",)}
        for p in PROPS[t]:
            if p in ("source_aspect_ratio", "pixel_aspect_ratio", "is_key_frame", "temporal_offset"):
                out[p] = None
            elif p in ("unit_offsets", "event_data"):
                out[p] = []
            elif p == "extension":
                out[p] = 0
            elif p == "grain_type":
                out[p] = "empty"
        for k, v in exp.items():
            out[k] = v
        for a, b in ALIASES:
            if b in exp and a in PROPS[t]:
                out[a] = out[b] = exp[b]
            if a in exp and b in PROPS[t]:
                out[a] = out[b] = exp[a]
        out["grain_type"] = t
        if "data" in out:
            out["data"] = payload(out["data"])
        return out

    def construct(self, t, route, kw):
        """A grain from keyword arguments, directly or through its metadata dictionary."""
        cls = CLASSES[t]
        if route == "class" and t != "empty":
            return cls(**kw)
        if route in ("class", "factory") and t == "empty":
            return GrainFactory(**{k: v for k, v in kw.items() if k != "data"})
        g = self.construct(t, "class", kw)
        data = g.data
        meta = copy.deepcopy(g.meta)
        if route == "json":
            return GrainFactory(json.loads(json.dumps(meta)), data)
        if route == "objects":
            # identifiers, timestamps and fractions given as objects in the dictionary
            gr = meta["grain"]
            gr["source_id"], gr["flow_id"] = UUID(gr["source_id"]), UUID(gr["flow_id"])
            for k in ("origin_timestamp", "sync_timestamp", "creation_timestamp"):
                gr[k] = Timestamp.from_tai_sec_nsec(gr[k])
            for k in ("rate", "duration"):
                gr[k] = Fraction(gr[k]["numerator"], gr[k]["denominator"])
            for k, enum in (("cog_frame", CogFrameFormat), ("cog_coded_frame", CogFrameFormat),
                            ("cog_audio", CogAudioFormat), ("cog_coded_audio", CogAudioFormat)):
                if k in gr:
                    gr[k]["format"] = enum(gr[k]["format"])
                    if "layout" in gr[k]:
                        gr[k]["layout"] = CogFrameLayout(gr[k]["layout"])
            return GrainFactory(meta, data)
        if route == "classmeta":
            return cls(meta, data)
        if route == "typed":
            # the class knows its type when the dictionary does not say
            if t == "empty":
                return cls(meta, data)
            del meta["grain"]["grain_type"]
            return cls(meta, data)
        raise RuntimeError(route)

    ROUTES = ["class", "factory", "json", "objects", "classmeta", "typed"]

    def verify(self, g, t, exp, deep):
        """Everything that must hold of a grain whose properties were last set to ``exp``."""
        cls = CLASSES[t]
        if type(g) is not cls:
            raise Violation("a %s where %s was asked for" % (type(g).__name__, cls.__name__))
        snap = snapshot(g, t)
        for p, v in exp.items():
            if p in snap and (snap[p] != v or (v is not None and isinstance(v, (bool, UUID, Timestamp)) and
                                               type(snap[p]) is not type(v))):
                raise Violation("%s reads %r, expected %r" % (p, snap[p], v))
        try:
            text = json.dumps(g.meta)
        except Exception as e:
            raise Violation("metadata is not JSON: %s" % e)
        if json.loads(text) != json.loads(json.dumps(json.loads(text))):
            raise Violation("JSON not stable")
        before = copy.deepcopy(g.meta)
        again = GrainFactory(json.loads(text), g.data)
        if t != "empty" or g.grain_type == "empty":
            if type(again) is not cls:
                raise Violation("metadata gives a %s, expected %s" % (type(again).__name__, cls.__name__))
        s2 = snapshot(again, t)
        if s2 != (snap if snap.get("data", 0) is not None else dict(snap, data=s2["data"])):
            raise Violation("grain from the metadata differs: %s" % self.difference(snap, s2))
        if snap.get("data", 0) is not None and not (again == g and g == again and not (again != g)):
            raise Violation("grain from the metadata is not equal to the original")
        for how, f in (("copy", copy.copy), ("deepcopy", copy.deepcopy),
                       ("pickle", lambda g: pickle.loads(pickle.dumps(g)))):
            c = f(g)
            if type(c) is not cls:
                raise Violation("%s is a %s" % (how, type(c).__name__))
            s2 = snapshot(c, t)
            if s2 != snap:
                raise Violation("%s differs: %s" % (how, self.difference(snap, s2)))
            if not (c == g and g == c) or c != g:
                raise Violation("%s is not equal to the original" % how)
            if (c.meta, c.has_data(), c.length) != (g.meta, g.has_data(), g.length):
                raise Violation("%s has data %r of length %r, original %r of %r" % (how, c.has_data(), c.length,
                                                                                   g.has_data(), g.length))
        if g.meta != before:
            raise Violation("looking at the grain changed its metadata")
        if deep:
            for p, choices in PROPS[t].items():
                for v, e in (choices[:1] + choices[-1:]):
                    c = copy.deepcopy(g)
                    setattr(c, p, v)
                    if p in ("timelabels",):
                        c.add_timelabel("new", 1, Fraction(25))
                    if p == "event_data":
                        c.append("/new", 1, 2)
                    if snapshot(c, t) != snap and (c == g or not c != g):
                        raise Violation("a grain with %s=%r assigned still equals the original" % (p, v))
                    if g.meta != before or snapshot(g, t) != snap:
                        raise Violation("assigning %s=%r on a deep copy changed the original" % (p, v))
            c = copy.deepcopy(g)
            self.scribble(c.meta)
            if t != "event" and isinstance(c.data, bytearray):
                c.data[:] = b"!" * (len(c.data) + 1)
            if g.meta != before or snapshot(g, t) != snap:
                raise Violation("scribbling over a deep copy changed the original")
        return snap

    def scribble(self, d):
        for k in list(d):
            if isinstance(d[k], dict):
                self.scribble(d[k])
            elif isinstance(d[k], list):
                for x in d[k]:
                    if isinstance(x, dict):
                        self.scribble(x)
                d[k].append("scribble")
            d[k] = "scribble" if not isinstance(d[k], dict) else d[k]

    def difference(self, a, b):
        return ", ".join("%s: %s -> %s" % (k, short(a.get(k), 60), short(b.get(k), 60)) for k in a
                         if a.get(k) != b.get(k)) or "equal properties"

    def apply(self, g, t, exp, op):
        p, i = op
        if p == "add_timelabel":
            g.add_timelabel("added", 3, Fraction(30000, 1001), True)
            exp["timelabels"] = exp["timelabels"] + [
                {"tag": "added", "timelabel": {"frames_since_midnight": 3, "frame_rate_numerator": 30000,
                                               "frame_rate_denominator": 1001, "drop_frame": True}}]
            return
        if p == "timelabels=self":
            g.timelabels = g.timelabels
            return
        if p == "unit_offsets=self":
            g.unit_offsets = g.unit_offsets
            return
        if p == "event_data=self":
            g.event_data = g.event_data
            return
        v, e = PROPS[t][p][i]
        v = copy.deepcopy(v)
        setattr(g, p, v)
        exp[p] = e if p != "data" else payload(e)
        for a, b in ALIASES:
            if p == a and b in PROPS[t]:
                exp[b] = e
            if p == b and a in PROPS[t]:
                exp[a] = e
        # what was assigned stays the caller's
        if p in ("timelabels", "event_data", "unit_offsets") and isinstance(v, list):
            v.append(v[0] if v else 99)

    def alphabet(self, t):
        out = [(p, i) for p, vs in PROPS[t].items() for i in range(len(vs))]
        out += [("add_timelabel", 0), ("timelabels=self", 0)]
        if t == "coded_video":
            out.append(("unit_offsets=self", 0))
        if t == "event":
            out.append(("event_data=self", 0))
        return out

    def build(self, config, ops):
        t, route = config["type"], config["route"]
        kw, exp = kwargs_of(t, config.get("changes", {}))
        if t in ("empty",):
            kw.pop("data", None)
        g = self.construct(t, route, kw)
        exp = self.expected(t, exp)
        if t in ("video", "audio") and "data" not in kw:
            exp["data"] = payload(g.data)           # the allocation is C15's subject
        if t == "empty":
            exp["data"] = None
        for k, v in DEFAULTS[t].items():
            if k not in kw:
                exp[k] = v
                for a, b in ALIASES:
                    if k == b and a in PROPS[t]:
                        exp[a] = v
        for k in ("src_id", "flow_id"):
            if k not in kw:
                exp[k] = NO_ID
                if k == "src_id":
                    exp["source_id"] = NO_ID
        if "origin_timestamp" not in kw:
            exp["origin_timestamp"] = kw.get("creation_timestamp", g.creation_timestamp)
        if "sync_timestamp" not in kw:
            exp["sync_timestamp"] = exp["origin_timestamp"]
        if t == "coded_video":
            exp.setdefault("coded_width", exp["origin_width"])
            exp.setdefault("coded_height", exp["origin_height"])
        if t in ("coded_video", "coded_audio") and exp.get("data") is None:
            exp["data"] = payload(g.data)
            if any(exp["data"]):
                raise Violation("allocated payload is not zero")
        if t in ("video", "audio") and exp.get("data") is None:
            exp["data"] = payload(g.data)
        if not ops:
            return g, self.verify(g, t, exp, len(config.get("changes", {})) < 2)
        for op in ops[:-1]:
            self.apply(g, t, exp, op)
        self.apply(g, t, exp, ops[-1])
        return g, self.verify(g, t, exp, self.thorough and len(ops) < 3 or len(ops) == 1)

    @staticmethod
    def canon(r):
        g, snap = r
        return json.dumps(g.meta, sort_keys=True), repr(type(g.data)), snap.get("data")

    # -- constructions ------------------------------------------------------------------------------------------
    def constructions(self):
        for t in CLASSES:
            fields = []
            for k in KW[t]:
                if t == "empty" and k in ("src_id", "flow_id"):
                    opts = []
                elif k in ("data",):
                    opts = [None]
                else:
                    opts = [None]
                # constructors take UUIDs, timestamps and numbers, not strings
                for i, (v, e) in enumerate(PROPS[t][k]):
                    if k in ("src_id", "flow_id") and not isinstance(v, UUID):
                        continue
                    if k.endswith("_timestamp") and not isinstance(v, Timestamp):
                        continue
                    if k == "unit_offsets" and isinstance(v, Lazy):
                        continue
                    opts.append(i)
                fields += [(k, i) for i in opts]
            for route in self.ROUTES:
                if route == "factory" and t != "empty":
                    continue
                yield {"type": t, "route": route, "changes": {}}
                for k, i in fields:
                    yield {"type": t, "route": route, "changes": {k: i}}
                if route in ("class",) or self.thorough:
                    for n, (k, i) in enumerate(fields):
                        for k2, i2 in fields[n + 1:]:
                            if k2 != k:
                                yield {"type": t, "route": route, "changes": {k: i, k2: i2}}

    # -- metadata dictionaries with things missing --------------------------------------------------------------
    def partial(self):
        tops = ["@_ns", "source_id", "flow_id", "origin_timestamp", "sync_timestamp", "creation_timestamp", "rate",
                "duration"]
        import itertools
        for t in CLASSES:
            inner = {"empty": [], "video": ["cog_frame"], "event": ["event_payload", "event_payload.type",
                                                                    "event_payload.topic", "event_payload.data"]}.get(t)
            if inner is None:
                sec = {"audio": "cog_audio", "coded_audio": "cog_coded_audio", "coded_video": "cog_coded_frame"}[t]
                keys = {"audio": ["format", "samples", "channels", "sample_rate"],
                        "coded_audio": ["format", "samples", "channels", "priming", "remainder", "sample_rate"],
                        "coded_video": ["format", "layout", "origin_width", "origin_height", "coded_width",
                                        "coded_height"]}[t]
                inner = [sec] + [sec + "." + k for k in keys]
            every = tops + inner
            for n in range(0, 4 if self.thorough else 3):
                for drop in itertools.combinations(every, n):
                    yield {"type": t, "drop": list(drop)}
            yield {"type": t, "drop": every}

    def partial_run(self, case):
        t = case["type"]
        kw, exp = kwargs_of(t, {})
        g0 = self.construct(t, "class", kw)
        meta = copy.deepcopy(g0.meta)
        for d in case["drop"]:
            at = meta["grain"]
            parts = d.split(".")
            if d == "@_ns":
                meta.pop("@_ns")
                continue
            for x in parts[:-1]:
                at = at.get(x, {})
            at.pop(parts[-1], None)
        want = copy.deepcopy(meta)
        g = GrainFactory(meta, g0.data)
        s0, s = snapshot(g0, t), snapshot(g, t)
        dropped = set()
        for d in case["drop"]:
            last = d.split(".")[-1]
            dropped.add(last)
            for a, b in ALIASES:
                if last == a:
                    dropped.add(b)
            if d == "source_id":
                dropped.add("src_id")
            if d == "event_payload":
                dropped |= {"event_type", "topic", "event_data"}
            if last == "type":
                dropped.add("event_type")
            if last == "data":
                dropped.add("event_data")
            if d.startswith("cog_") and "." not in d:
                dropped |= set(KW[t]) - set(KW["empty"])
                dropped |= {"format", "layout"}
        if t == "event" and g0.data is not None:
            dropped -= {"event_type", "topic", "event_data"}        # the payload supplies them
        for p in s:
            if p not in dropped and s[p] != s0[p]:
                raise Violation("%s reads %r, metadata said %r" % (p, s[p], s0[p]))
        for p, v in (("source_id", NO_ID), ("flow_id", NO_ID), ("rate", 0), ("duration", 0)):
            if p in dropped and s[p] != v:
                raise Violation("missing %s reads %r" % (p, s[p]))
        if "origin_timestamp" in dropped and s["origin_timestamp"] != s["creation_timestamp"]:
            raise Violation("missing origin timestamp")
        if "sync_timestamp" in dropped and s["sync_timestamp"] != s["origin_timestamp"]:
            raise Violation("missing sync timestamp")
        self.contained(want, g.meta, "")
        return self.verify(g, t, {}, False)

    # -- fractions in every form a metadata dictionary may hold them in -------------------------------------------
    FORMS = [(16, 16), ("16/9", Fraction(16, 9)), ("1.25", Fraction(5, 4)), (1.25, Fraction(5, 4)), (0, 0),
             (Decimal("2.5"), Fraction(5, 2)), (Fraction(64, 45), Fraction(64, 45)),
             ({"numerator": 3, "denominator": 2}, Fraction(3, 2))]

    def rational(self):
        places = {t: [("rate",), ("duration",)] for t in CLASSES}
        for t, sec in (("video", "cog_frame"), ("coded_video", "cog_coded_frame")):
            places[t] += [(sec, "source_aspect_ratio"), (sec, "pixel_aspect_ratio")]
        for t, ps in places.items():
            for via in ("factory", "class"):
                for n, a in enumerate(ps):
                    for i in range(len(self.FORMS)):
                        yield {"type": t, "via": via, "put": [[a, i]]}
                        for b in ps[n + 1:]:
                            for j in range(len(self.FORMS)):
                                yield {"type": t, "via": via, "put": [[a, i], [b, j]]}

    def rational_run(self, case):
        t = case["type"]
        kw, exp = kwargs_of(t, {})
        g0 = self.construct(t, "class", kw)
        meta = copy.deepcopy(g0.meta)
        exp = {p: v for p, v in snapshot(g0, t).items()}
        for place, i in case["put"]:
            at = meta["grain"]
            for x in place[:-1]:
                at = at[x]
            at[place[-1]] = self.FORMS[i][0]
            exp[place[-1]] = self.FORMS[i][1]
        g = (GrainFactory if case["via"] == "factory" else CLASSES[t])(meta, g0.data)
        return self.verify(g, t, exp, True)

    def contained(self, a, b, path):
        for k in a:
            if k not in b:
                raise Violation("metadata lost %s/%s" % (path, k))
            if isinstance(a[k], dict):
                self.contained(a[k], b[k], path + "/" + k)
            elif a[k] != b[k]:
                raise Violation("metadata changed %s/%s: %r -> %r" % (path, k, a[k], b[k]))

    # -- copies of grains whose payload has not arrived ----------------------------------------------------------
    def pending_run(self, case):
        t, how = case["type"], case["how"]
        kw, _ = kwargs_of(t, {})
        g0 = self.construct(t, "class", kw)
        content = b"0123456789"
        if t == "event":
            content = json.dumps({"type": "urn:p", "topic": "/p", "data": EV}).encode()
        loads = []

        async def fetch():
            loads.append(1)
            await asyncio.sleep(0)
            return bytearray(content) if case["mutable"] and t != "event" else content

        async def go():
            meta = copy.deepcopy(g0.meta)
            what = case.get("awaitable")
            g = GrainFactory(meta, fetch() if what is None else asyncio.ensure_future(fetch()) if what == "task"
                             else Again(fetch))
            try:
                g.length = 10
            except AttributeError:
                pass
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy}[how]
            if case.get("first") == "await":
                await g
            c = f(g)
            if (c.has_data(), c.length) != (g.has_data(), g.length):
                raise Violation("%s: has_data, length = %r, original %r" % (how, (c.has_data(), c.length),
                                                                           (g.has_data(), g.length)))
            if t != "event" and (c.data is None) != (g.data is None):
                raise Violation("%s has data %r, original %r" % (how, c.data, g.data))
            if what == "task":
                # both wait at once
                for x in await asyncio.gather(*[await_of(g if who == "original" else c) for who in case["order"]]):
                    if x is None:
                        raise Violation("awaiting one while another waits gives nothing")
            elif what == "again":
                for who in case["order"]:
                    try:
                        await (g if who == "original" else c)
                    except OSError:
                        pass
            else:
                for who in case["order"]:
                    await (g if who == "original" else c)
            if case.get("given"):
                # what is given in its place stays, and the other is as it was
                for x, y in ((g, c), (c, g)):
                    new = None if case["given"] == "none" else b"given"
                    x.data = new
                    if await x != new or x.data != new:
                        raise Violation("data is set to %r, and awaiting gives %r" % (new, await x))
                return t, how, case["given"]
            got_c, got_g = await c, await g
            if t == "event":
                got_c, got_g = json.loads(bytes(got_c)), json.loads(bytes(got_g))
                ref = json.loads(content)
            else:
                got_c, got_g, ref = bytes(got_c), bytes(got_g), content
            if got_c != ref or got_g != ref:
                raise Violation("after awaiting, %s has %s and the original %s" % (how, short(got_c, 80),
                                                                                  short(got_g, 80)))
            if not (c == g):
                raise Violation("%s is not equal to the original once both are loaded" % how)
            if how == "deepcopy" and case["mutable"] and t != "event":
                c.data[:] = b"!!!!"
                if bytes(g.data) != content:
                    raise Violation("the deep copy shares its payload")
            if len(loads) != 1 and what is None:
                raise Violation("loaded %d times" % len(loads))
            return t, how, case["order"]

        return aio.run(go())

    def pending(self):
        for t in CLASSES:
            for how in ("copy", "deepcopy"):
                for mutable in (False, True):
                    for first in ("copy", "await"):
                        for order in (["original"], ["copy"], ["original", "copy"], ["copy", "original"]):
                            yield {"type": t, "how": how, "mutable": mutable, "order": order, "first": first}
                    for order in (["original", "copy"], ["copy", "original"], ["copy", "copy"]):
                        for what in ("task", "again"):
                            yield {"type": t, "how": how, "mutable": mutable, "order": order, "awaitable": what}
                    if t != "event":
                        for given in ("none", "some"):
                            for order in ([], ["original"], ["copy"]):
                                yield {"type": t, "how": how, "mutable": mutable, "order": order, "given": given,
                                       "awaitable": "again"}

    # --------------------------------------------------------------------------------------------------------------
    def refused(self):
        for t in CLASSES:
            for keys in (["src_id"], ["flow_id"], ["src_id", "flow_id"]):
                for bad in range(len(NOT_IDS)):
                    for others in (False, True):
                        yield {"type": t, "keys": keys, "bad": bad, "others": others}

    def refused_run(self, case):
        """What is not an identifier is refused where it is given, and not found out when it is looked at."""
        t = case["type"]
        kw = {k: v for k, v in dict(BASE, **(BASE_OF[t] if case["others"] else {})).items()
              if case["others"] or k in ("src_id", "flow_id")}
        if t == "empty":
            kw.pop("data", None)
        for k in case["keys"]:
            kw[k] = NOT_IDS[case["bad"]]
        try:
            g = (GrainFactory if t == "empty" else CLASSES[t])(**kw)
        except AttributeError:
            return "refused"
        raise Violation("%s of %r makes a grain with %s, %s" % (case["keys"], NOT_IDS[case["bad"]],
                                                               g.meta["grain"]["source_id"],
                                                               g.meta["grain"]["flow_id"]))

    def explore(self, part, nparts):
        i = 0
        for kind, gen in (("construct", self.constructions()), ("partial", self.partial()),
                          ("pending", self.pending()), ("rational", self.rational()),
                          ("refused", self.refused())):
            for case in gen:
                i += 1
                if i % nparts == part:
                    self.execute(kind, case)
                    if self.enough():
                        return
        shift = 0
        for t in CLASSES:
            for route in self.ROUTES:
                if route == "factory" and t != "empty":
                    continue
                depth = (3 if route == "class" else 2) if self.thorough else (2 if route in ("class", "json") else 1)
                self.bfs("assign", {"type": t, "route": route}, lambda c, h: self.alphabet(c["type"]), self.build,
                         self.canon, depth, part, nparts, shift)
                shift += 3
                if self.enough():
                    return

    def run(self, kind, case):
        if kind == "construct":
            g, snap = self.build(case, [])
            return repr(sorted(snap.items()))
        if kind == "partial":
            return repr(sorted(self.partial_run(case).items()))
        if kind == "pending":
            return self.pending_run(case)
        if kind == "rational":
            return repr(sorted(self.rational_run(case).items()))
        if kind == "refused":
            return self.refused_run(case)
        if kind == "assign":
            self.build(case["config"], [tuple(o) for o in case["ops"]])
            return None
        raise RuntimeError(kind)


CHECK = C12
