"""Abstract grains: a finite domain of field values, construction through mediagrains' public API, and observation.

An abstract grain is the dict mc.refgsf uses; ``make`` builds the real grain for it and ``observe`` reads one back.
"""
import itertools
import json
from datetime import datetime, timedelta, timezone
from fractions import Fraction
from uuid import UUID

from mediagrains.grains import (AudioGrain, CodedAudioGrain, CodedVideoGrain, EventGrain, Grain, GrainFactory,
                                VideoGrain)
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediatimestamp.immutable import Timestamp

U0 = UUID(int=0)
U1 = UUID("c6f0e1a2-0001-4000-8000-0123456789ab")
U2 = UUID("c6f0e1a2-0002-4000-8000-fedcba987654")
UF = UUID(int=(1 << 128) - 1)
M32 = (1 << 32) - 1

# every field: baseline first, then the boundary values
COMMON = {
    "source_id": [U1, U2, U0, UF],
    "flow_id": [U2, U1, U0, UF],
    "ots": [(1, 417798915, 5), (1, 0, 0), (-1, 5, 1), (1, (1 << 40) + 3, 999999999), (-1, 0, 1),
            (1, 2 ** 24, 2 ** 16), (1, (1 << 48) - 1, 999999999)],
    "sts": [(1, 417798915, 10), (1, 0, 0), (-1, 7, 999999999), (1, (1 << 47), 256), (1, 0, 1)],
    "rate": [(25, 1), (0, 1), (30000, 1001), (M32, 1), (1, M32), (256, 65537)],
    "duration": [(1, 25), (0, 1), (1001, 30000), (M32, M32 - 1)],
    "timelabels": [[], [("a", 0, 25, 1, False)], [("0123456789abcdef", M32, 30000, 1001, True)],
                   [("\u00e9\u20ac", 1, 0, 1, False), ("", 256, 60, 1, True), ("x" * 15, 65536, M32, 1, False)],
                   [("a", 0, 25, 1, False), ("a", 0, 25, 1, False)], [(" a\t", (1 << 31) + 1, 24, 1, True)]],
    "local_id": [1, 0, 2, 65535],
}
COMPS = [(4, 2, 4, 8), (2, 2, 2, 4), (2, 2, 2, 4)]
HDR = {
    "video": {
        "format": [int(CogFrameFormat.U8_422)] + [int(f) for f in CogFrameFormat if f != CogFrameFormat.U8_422],
        "layout": [int(x) for x in CogFrameLayout],
        "width": [4, 0, 1920, M32], "height": [2, 0, 1080, M32], "extension": [0, 1, M32],
        "aspect": [(0, 1), (16, 9), (1, M32)], "pixel_aspect": [(0, 1), (1, 1), (64, 45)],
        "components": [COMPS, [], [(4, 2, 8, 16)], [(M32, M32, M32, 1), (0, 0, 0, 0)],
                       [(1, 1, 1, 1)] * 300],
    },
    "coded_video": {
        "format": [int(CogFrameFormat.H264)] + [int(f) for f in CogFrameFormat if f != CogFrameFormat.H264],
        "layout": [int(x) for x in CogFrameLayout],
        "origin_width": [1920, 0, M32], "origin_height": [1080, 0, M32],
        "coded_width": [1920, 0, M32], "coded_height": [1088, 0, M32],
        "key_frame": [True, False, None],
        "temporal_offset": [0, -1, 5, -(1 << 31), (1 << 31) - 2, None],
        "unit_offsets": [[], [0], [0, 6, 7, M32], [5, 5], list(range(300))],
    },
    "audio": {
        "format": [int(x) for x in CogAudioFormat],
        "channels": [2, 0, 1, 65535], "samples": [1920, 0, 1, M32], "sample_rate": [48000, 0, 44100, M32],
    },
    "coded_audio": {
        "format": [int(CogAudioFormat.AAC)] + [int(x) for x in CogAudioFormat if x != CogAudioFormat.AAC],
        "channels": [2, 0, 65535], "samples": [1024, 0, M32], "priming": [0, 1, M32], "remainder": [0, 2, M32],
        "sample_rate": [48000, 0, M32],
    },
    "event": {
        "event_type": ["urn:x:type", "", "\u00e9\u4e2d\U0001f600\"\\"],
        "topic": ["/t", "", "\u2028\n"],
        "event_data": [[], [{"path": "/a"}], [{"path": "/a", "pre": "x", "post": 1}],
                       [{"path": "", "post": {"k": [1, 2.5, True, "\u00e9"]}}, {"path": "/b", "pre": False}]],
    },
    "empty": {},
}
DATA = [b"\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f\x10", b"", b"\x00", b"grai\x00\x00\x00\x00",
        b"SSBBgrsg\x09\x00\x00\x00head\x1f\x00\x00\x00", bytes(range(256)) * 3]
TYPES = ["empty", "event", "audio", "coded_audio", "coded_video", "video"]


def fields(kind):
    d = {k: v for k, v in COMMON.items()}
    for k, v in HDR[kind].items():
        d["h." + k] = v
    if kind not in ("empty", "event"):
        d["data"] = DATA
    return d


def abstract(kind, dev):
    """The abstract grain of a type that departs from the baseline as ``dev`` says ({field: value index})."""
    f = fields(kind)
    v = {k: vals[dev.get(k, 0)] for k, vals in f.items()}
    g = {k: v[k] for k in COMMON}
    g["type"] = kind
    g["hdr"] = {k: v["h." + k] for k in HDR[kind]}
    if kind == "event":
        g["data"] = None
    elif kind == "empty":
        g["data"] = b""
    else:
        g["data"] = v["data"]
    return g


def deviations(kind, bound):
    """Every assignment with at most ``bound`` fields off the baseline, fewest first."""
    f = fields(kind)
    names = sorted(k for k in f if len(f[k]) > 1)
    for n in range(bound + 1):
        for combo in itertools.combinations(names, n):
            for idx in itertools.product(*[range(1, len(f[k])) for k in combo]):
                yield dict(zip(combo, idx))


def representable(g, major):
    """Is this abstract grain one the format version can carry?"""
    if major == 7 and (g["ots"][0] < 0 or g["sts"][0] < 0):
        return False
    if g["type"] == "coded_video" and major < 9:
        if g["hdr"]["key_frame"] is None or g["hdr"]["temporal_offset"] is None:
            return False
    return True


def to_ts(v):
    return Timestamp(v[1], v[2], v[0])


def from_ts(t):
    return (1 if t.sign >= 0 else -1, t.sec, t.ns)


def make(g):
    common = dict(src_id=g["source_id"], flow_id=g["flow_id"], origin_timestamp=to_ts(g["ots"]),
                  sync_timestamp=to_ts(g["sts"]), creation_timestamp=Timestamp(1, 0),
                  rate=Fraction(*g["rate"]), duration=Fraction(*g["duration"]))
    h = g["hdr"]
    k = g["type"]
    if k == "empty":
        r = GrainFactory(**common)
    elif k == "event":
        r = EventGrain(event_type=h["event_type"], topic=h["topic"], **common)
        r.event_data = [dict(x) for x in h["event_data"]]
    elif k == "audio":
        r = AudioGrain(cog_audio_format=CogAudioFormat(h["format"]), samples=h["samples"], channels=h["channels"],
                       sample_rate=h["sample_rate"], data=g["data"], **common)
    elif k == "coded_audio":
        r = CodedAudioGrain(cog_audio_format=CogAudioFormat(h["format"]), samples=h["samples"],
                            channels=h["channels"], sample_rate=h["sample_rate"], priming=h["priming"],
                            remainder=h["remainder"], data=g["data"], **common)
    elif k == "coded_video":
        r = CodedVideoGrain(cog_frame_format=CogFrameFormat(h["format"]),
                            cog_frame_layout=CogFrameLayout(h["layout"]), origin_width=h["origin_width"],
                            origin_height=h["origin_height"], coded_width=h["coded_width"],
                            coded_height=h["coded_height"], is_key_frame=h["key_frame"],
                            temporal_offset=h["temporal_offset"], unit_offsets=list(h["unit_offsets"]) or None,
                            data=g["data"], **common)
    elif k == "video":
        r = VideoGrain(cog_frame_format=CogFrameFormat(h["format"]), cog_frame_layout=CogFrameLayout(h["layout"]),
                       width=h["width"], height=h["height"], data=g["data"], **common)
        r.extension = h["extension"]
        if h["aspect"][0]:
            r.source_aspect_ratio = Fraction(*h["aspect"])
        if h["pixel_aspect"][0]:
            r.pixel_aspect_ratio = Fraction(*h["pixel_aspect"])
        while len(r.components):
            del r.components[len(r.components) - 1]
        off = 0
        for (w, hh, st, ln) in h["components"]:
            r.components.append({"width": w, "height": hh, "stride": st, "length": ln, "offset": off})
            off += ln
    for (tag, count, n, d, df) in g["timelabels"]:
        r.add_timelabel(tag, count, Fraction(n, d), df)
    return r


CLASSES = {"video": VideoGrain, "audio": AudioGrain, "coded_video": CodedVideoGrain, "coded_audio": CodedAudioGrain,
           "event": EventGrain, "empty": Grain}


def rat(f):
    f = Fraction(f)
    return (f.numerator, f.denominator)


def observe(r, local_id=None, with_data=True):
    """The abstract grain a real grain represents, read through its public properties."""
    k = r.grain_type
    g = {"type": k, "source_id": r.source_id, "flow_id": r.flow_id, "ots": from_ts(r.origin_timestamp),
         "sts": from_ts(r.sync_timestamp), "rate": rat(r.rate), "duration": rat(r.duration),
         "timelabels": [(t.tag, t.count) + rat(t.rate) + (t.drop_frame,) for t in r.timelabels],
         "local_id": local_id}
    h = {}
    if k == "video":
        off = 0
        h = {"format": int(r.cog_frame_format), "layout": int(r.cog_frame_layout), "width": r.width,
             "height": r.height, "extension": r.extension,
             "aspect": (0, 1) if r.source_aspect_ratio is None else rat(r.source_aspect_ratio),
             "pixel_aspect": (0, 1) if r.pixel_aspect_ratio is None else rat(r.pixel_aspect_ratio),
             "components": []}
        for c in r.components:
            h["components"].append((c.width, c.height, c.stride, c.length) if c.offset == off else
                                   ("offset", c.offset, "expected", off))
            off += c.length
    elif k == "coded_video":
        h = {"format": int(r.cog_frame_format), "layout": int(r.cog_frame_layout), "origin_width": r.origin_width,
             "origin_height": r.origin_height, "coded_width": r.coded_width, "coded_height": r.coded_height,
             "key_frame": r.is_key_frame, "temporal_offset": r.temporal_offset,
             "unit_offsets": list(r.unit_offsets)}
    elif k == "audio":
        h = {"format": int(r.cog_audio_format), "channels": r.channels, "samples": r.samples,
             "sample_rate": r.sample_rate}
    elif k == "coded_audio":
        h = {"format": int(r.cog_audio_format), "channels": r.channels, "samples": r.samples,
             "priming": r.priming, "remainder": r.remainder, "sample_rate": r.sample_rate}
    elif k == "event":
        h = {"event_type": r.event_type, "topic": r.topic,
             "event_data": [json.loads(json.dumps(dict(d))) for d in r.event_data]}
    g["hdr"] = h
    if k == "event":
        g["data"] = None
    elif with_data:
        g["data"] = b"" if r.data is None else bytes(r.data)
    if k in CLASSES and type(r) is not CLASSES[k]:
        g["class"] = type(r).__name__
    return g


def payload(g):
    """The octets the grain's data block must hold (event payloads are compared as JSON instead)."""
    if g["type"] == "event":
        h = g["hdr"]
        return json.dumps({"type": h["event_type"], "topic": h["topic"], "data": h["event_data"]}).encode("utf-8")
    return g["data"]


def ref_of(g, local_id=None):
    """The reference-codec form of an abstract grain."""
    r = dict(g)
    if local_id is not None:
        r["local_id"] = local_id
    if g["type"] == "event":
        r["hdr"] = {"event_payload_type": 0}
        r["data"] = payload(g)
    elif g["type"] == "empty":
        r["hdr"] = None
    return r


def diff(a, b, path=""):
    """First difference between two nested values, as text."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s only on one side (%r)" % (path, k, a.get(k, b.get(k)))
            d = diff(a[k], b[k], path + "." + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s has %d items, expected %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b or (isinstance(a, bool) != isinstance(b, bool)):
        sa, sb = repr(a), repr(b)
        return "%s is %s, expected %s" % (path, sa[:120], sb[:120])
    return None


# a small menu of distinct grains, one of each type plus a few with unusual headers, for history-style checks
def menu():
    m = [abstract("video", {}), abstract("audio", {"data": 3}), abstract("coded_video", {"h.unit_offsets": 2}),
         abstract("event", {"h.event_data": 3}), abstract("empty", {}), abstract("coded_audio", {"data": 4}),
         abstract("video", {"timelabels": 3, "data": 1}), abstract("coded_video", {"data": 5, "timelabels": 1})]
    for i, g in enumerate(m):
        g["ots"] = (1, 100 + i, i)
    return m


UTC = timezone.utc
CREATED = [datetime(2023, 4, 5, 6, 7, 8, tzinfo=UTC), datetime(1, 1, 1, 0, 0, 0, tzinfo=UTC),
           datetime(9999, 12, 31, 23, 59, 59, tzinfo=UTC), datetime(2024, 2, 29, 12, 0, 0, 999999, tzinfo=UTC),
           datetime(2023, 1, 1, 0, 30, 0, tzinfo=timezone(timedelta(hours=5, minutes=30))),
           datetime(2023, 12, 31, 23, 45, 0, tzinfo=timezone(-timedelta(hours=8))), datetime(2000, 1, 1, 1, 1, 1),
           datetime(1900, 1, 1, 0, 0, 0, tzinfo=timezone(timedelta(minutes=19, seconds=32)))]


def created_tuple(d):
    if d is None:
        return (0, 0, 0, 0, 0, 0)
    if d.tzinfo is not None:
        d = d.astimezone(UTC)
    return (d.year, d.month, d.day, d.hour, d.minute, d.second)
