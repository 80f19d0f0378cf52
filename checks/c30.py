"""C30: grains stand alone, and operations leave what they are given alone."""
import copy
import io
import itertools
import pickle
import json
from fractions import Fraction
from uuid import UUID

import numpy as np
from mediatimestamp.immutable import TimeOffset, Timestamp

from mc.core import Check, Violation
from mc import aio, gsfdom as D, h264 as H, refgsf as R
from checks.c12 import CLASSES, PROPS
from checks.c21 import Writer, adts
from mediagrains import grains as bg, gsf, numpy as ng
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.comparison import compare_grain, compare_grains_pairwise, compute_psnr
from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include
from mediagrains.comparison.options import PSNR as PSNROption
from mediagrains.gsf import GSFDecoder, GSFEncoder, GrainDataLoadingMode as Mode
from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K
from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay, StillPatternGenerator
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper

SRC, FLOW = UUID(int=3), UUID(int=4)
IDS = dict(src_id=SRC, flow_id=FLOW)
TIMES = dict(IDS, origin_timestamp=Timestamp(7, 8), sync_timestamp=Timestamp(9, 10),
             creation_timestamp=Timestamp(11, 12))


def octets(d):
    if d is None:
        return None
    if isinstance(d, np.ndarray):
        return d.tobytes()
    return bytes(d)


def plain(x):
    """The metadata as plain values."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if k != "creation_timestamp"}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (bool, str, type(None), float)):
        return x
    if isinstance(x, int):
        return int(x)
    return str(x)


def image(g):
    """All a grain has, as text (but for when it was made)."""
    return repr((type(g).__name__, plain(g.meta), octets(g.data), type(g.data).__name__, g.length))


# -- what makes grains: each gives (sources, a way to have the grains made of them) --------------------------------------
def gsf_file():
    m = D.menu()
    gs = []
    for n, g in enumerate(m):
        g = dict(g, local_id=1, ots=(1, n + 1, 0))
        if g["type"] not in ("event", "empty"):
            g["data"] = bytes(range(n, n + 16))
        gs.append(g)
    f = {"version": (9, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v")],
         "segments": [{"local_id": 1, "id": D.U2, "count": -1, "tags": [("a", "b")], "flow": None}],
         "grains": [D.ref_of(g) for g in gs]}
    return R.serialise((9, 0), R.build(f))


def p_session(mode):
    def make():
        f = io.BytesIO(gsf_file())

        def produce():
            f.seek(0)
            with GSFDecoder(file_data=f) as s:
                yield from (g for g, _ in s.grains(loading_mode=mode))
        return [], produce
    return make


def p_load():
    b = gsf_file()
    return [], lambda: iter(gsf.loads(b)[1][1])


def p_async(mode):
    def make():
        b = gsf_file()

        async def go():
            out = []
            async with GSFDecoder(file_data=AsyncBytesIO(b)) as s:
                async for g, _ in s.grains(loading_mode=mode):
                    await g
                    out.append(g)
            return out
        return [], lambda: iter(aio.run(go()))
    return make


def p_wrapper(what):
    def make():
        if what == "video":
            t = bg.VideoGrain(width=2, height=2, rate=Fraction(25), cog_frame_format=CogFrameFormat.U8_444, **TIMES)
            w, data = GrainWrapper, bytes(range(48))
        elif what == "audio":
            t = bg.AudioGrain(channels=2, samples=3, sample_rate=48000, rate=Fraction(16000),
                              cog_audio_format=CogAudioFormat.S16_INTERLEAVED, **TIMES)
            w, data = GrainWrapper, bytes(range(48))
        elif what == "aac":
            t = bg.CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, **TIMES)
            w, data = ADTSAACGrainWrapper, b"".join(adts(bytes([0x21 + i]) * 5, 3, 2) for i in range(4))
        else:
            t = bg.CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, origin_width=16, origin_height=16,
                                   unit_offsets=[0, 4], **TIMES)
            x = Writer("base", "redundant")
            for u in ("I", "P", "P", "I"):
                x.unit(u)
            w, data = H264GrainWrapper, H.stream(x.units, 4)[0]
        t.add_timelabel("x", 3, Fraction(25))
        return [t], lambda: w(t, io.BytesIO(data)).grains()
    return make


def still(fmt, array):
    g = bg.VideoGrain(width=4, height=4, rate=Fraction(25), cog_frame_format=fmt, **TIMES)
    g.data[:] = bytes(range(len(g.data))) if len(g.data) < 256 else bytes(len(g.data))
    g.add_timelabel("x", 3, Fraction(25))
    return ng.VideoGrain(grain=g) if array else g


def p_generator(what, fmt, array=False):
    def make():
        src = []
        if what == "steps":
            gen = LumaSteps(SRC, FLOW, 8, 4, cog_frame_format=fmt)
        elif what == "bars":
            gen = ColourBars(SRC, FLOW, 8, 4, cog_frame_format=fmt)
        elif what == "still":
            src.append(still(fmt, array))
            gen = StillPatternGenerator(src[0])
        elif what == "bar":
            gen = MovingBarOverlay(LumaSteps(SRC, FLOW, 8, 4, cog_frame_format=fmt), height=2)
        elif what == "still_bar":
            src.append(still(fmt, array))
            gen = MovingBarOverlay(StillPatternGenerator(src[0]), height=2)
        elif what == "tone":
            gen = Tone(SRC, FLOW, cog_audio_format=fmt, samples=6, frequency=8000, channels=2)
        elif what == "tone1k":
            gen = Tone1K(SRC, FLOW, cog_audio_format=fmt, samples=48)
        else:
            gen = Silence(SRC, FLOW, cog_audio_format=fmt, samples=6)
        return src, lambda: itertools.islice(gen[Timestamp(0, 0):], 3)
    return make


def p_overlays():
    """Two overlays of one generator."""
    gen = ColourBars(SRC, FLOW, 8, 4, cog_frame_format=CogFrameFormat.U8_422)
    a, b = MovingBarOverlay(gen, height=1), MovingBarOverlay(gen, height=2)

    def produce():
        for n in (0, 1):
            for x in (gen, a, b):
                yield x[Timestamp.from_count(n, 25)]
    return [], produce


def p_convert(a, b):
    def make():
        g = ng.VideoGrain(grain=still(CogFrameFormat[a], False))
        return [g], lambda: iter([g.convert(CogFrameFormat[b]) for _ in range(2)])
    return make


def p_deepcopy(i, array=False):
    def make():
        g = grain(i)
        if array:
            g = (ng.VideoGrain if g.grain_type == "video" else ng.AudioGrain)(grain=g)
        return [g], lambda: iter([copy.deepcopy(g), copy.deepcopy(copy.deepcopy(g)),
                                  pickle.loads(pickle.dumps(g))])
    return make


def p_defaults(t):
    def make():
        if t == "empty":
            return [], lambda: iter([bg.GrainFactory(**TIMES) for _ in range(2)])
        return [], lambda: iter([CLASSES[t](**TIMES) for _ in range(2)])
    return make


def p_arguments(i):
    """Grains made of one set of arguments."""
    def make():
        g = grain(i)
        labels, events = copy.deepcopy((LABELS, EVENTS))
        kw = dict(IDS)
        args = {"video": ("cog_frame_format", "width", "height"), "audio": ("cog_audio_format", "samples", "channels"),
                "coded_video": ("cog_frame_format", "unit_offsets"), "coded_audio": ("cog_audio_format", "samples"),
                "event": (), "empty": ()}[g.grain_type]
        kw.update({k: getattr(g, k) for k in args}, **TIMES)
        if "unit_offsets" in kw:
            kw["unit_offsets"] = [3, 4, 5]
        cls = bg.GrainFactory if g.grain_type == "empty" else CLASSES[g.grain_type]

        def produce():
            for _ in range(2):
                x = cls(**kw)
                if "unit_offsets" in kw:
                    x.unit_offsets = kw["unit_offsets"]
                x.timelabels = labels
                if g.grain_type == "event":
                    x.event_data = events
                yield x
        return [], produce
    return make


LABELS = [{"tag": "tl", "timelabel": {"frames_since_midnight": 7, "frame_rate_numerator": 25,
                                      "frame_rate_denominator": 1, "drop_frame": False}}]
EVENTS = [{"path": "/a", "pre": 1, "post": "b"}]


def grain(i):
    g = dict(D.menu()[i])
    if g["type"] not in ("event", "empty"):
        g["data"] = bytearray(range(16))
    r = D.make(g)
    if not list(r.timelabels):
        r.add_timelabel("x", 3, Fraction(25))
    return r


PRODUCERS = {"load": p_load, "overlays": p_overlays}
for _m in Mode:
    PRODUCERS["session_" + _m.name] = p_session(_m)
    PRODUCERS["async_" + _m.name] = p_async(_m)
for _w in ("video", "audio", "aac", "h264"):
    PRODUCERS["wrap_" + _w] = p_wrapper(_w)
for _f in ("U8_444", "U8_420", "S16_422_10BIT"):
    for _g in ("steps", "bars", "still", "bar", "still_bar"):
        PRODUCERS["%s_%s" % (_g, _f)] = p_generator(_g, CogFrameFormat[_f])
    PRODUCERS["still_array_%s" % _f] = p_generator("still", CogFrameFormat[_f], True)
    PRODUCERS["still_bar_array_%s" % _f] = p_generator("still_bar", CogFrameFormat[_f], True)
for _f in ("S16_PLANES", "S24_PAIRS", "S16_INTERLEAVED", "FLOAT_PLANES", "DOUBLE_INTERLEAVED"):
    for _g in ("tone", "tone1k", "silence"):
        PRODUCERS["%s_%s" % (_g, _f)] = p_generator(_g, CogAudioFormat[_f])
for _a, _b in (("U8_444", "U8_444"), ("U8_444", "U8_420"), ("U8_444", "RGB"), ("U8_422", "YUYV"), ("S16_422_10BIT", "v210")):
    PRODUCERS["convert_%s_%s" % (_a, _b)] = p_convert(_a, _b)
for _i in range(len(D.menu())):
    PRODUCERS["deepcopy_%d" % _i] = p_deepcopy(_i)
    PRODUCERS["arguments_%d" % _i] = p_arguments(_i)
for _t in CLASSES:
    PRODUCERS["defaults_" + _t] = p_defaults(_t)
PRODUCERS["deepcopy_array_video"] = lambda: (lambda g: ([g], lambda: iter([copy.deepcopy(g) for _ in range(2)])))(
    ng.VideoGrain(grain=still(CogFrameFormat.U8_422, False)))


# -- what is done to grains ------------------------------------------------------------------------------------------------
def deep(d):
    """Scribbles over everything in the metadata that can be changed in place."""
    if isinstance(d, dict):
        for k in list(d):
            deep(d[k])
            if not isinstance(d[k], (dict, list)):
                d[k] = "scribble"
        d["scribble"] = 1
    elif isinstance(d, list):
        for x in d:
            deep(x)
        for i, x in enumerate(d):
            if not isinstance(x, (dict, list)):
                d[i] = "scribble"
        d.append("scribble")


def s_meta(g):
    deep(g.meta)


def s_data(g):
    d = g.data
    if isinstance(d, np.ndarray):
        v = d.reshape(-1).view(np.uint8)
        v[:] = v ^ 0x55
    elif isinstance(d, (bytearray, memoryview)):
        for i in range(len(d)):
            d[i] ^= 0x55


def s_components(g):
    for c in getattr(g, "component_data", None) or ():
        c[...] = 1
    for k in ("components", "unit_offsets", "event_data", "timelabels"):
        v = getattr(g, k, None)
        if v is None:
            continue
        for x in list(v):
            for f, to in (("width", 77), ("offset", 5), ("tag", "scribble"), ("count", 99), ("path", "scribble"),
                          ("pre", "scribble")):
                if hasattr(x, f):
                    setattr(x, f, to)
        if len(v):
            v.append(v[0])
            del v[0]
        else:
            setattr(g, k, {"unit_offsets": [1, 2], "timelabels": LABELS, "event_data": EVENTS}.get(k, []))


def s_props(g):
    for p, vals in PROPS[g.grain_type].items():
        if p != "grain_type" and p != "data":
            setattr(g, p, vals[-1][0])
    g.add_timelabel("more", 5, Fraction(50))


def s_payload(g):
    if g.grain_type not in ("event", "empty"):
        g.data = bytearray(b"scribble")


SCRIBBLES = {"data": s_data, "components": s_components, "props": s_props, "payload": s_payload, "meta": s_meta}


# -- what is done with grains ----------------------------------------------------------------------------------------------
def u_dumps(g, h):
    gsf.dumps([g, h, g])


def u_streaming(g, h):
    with GSFEncoder(io.BytesIO(), streaming=True, segments=[{"local_id": 1}]) as enc:
        enc.add_grain(g)
        enc.add_grains([h, g])


def u_legacy(g, h):
    enc = GSFEncoder(io.BytesIO(), major=8)
    enc.add_segment()
    if all(D.representable(D.observe(x), 8) for x in (g, h)):
        enc.add_grain(g)
        enc.add_grain(h)
        enc.dump()


def u_async(g, h):
    async def go():
        async with GSFEncoder(AsyncBytesIO(), streaming=True, segments=[{"local_id": 1}]) as enc:
            await enc.add_grain(g)
            await enc.add_grains([h])
        async with GSFEncoder(AsyncBytesIO()) as enc:
            await enc.add_grain(h)
            await enc.add_grain(g)
        await g
    aio.run(go())


def u_compare(*opts):
    def use(g, h):
        r = compare_grain(g, h, *opts)
        str(r), repr(r), r.msg, bool(r)
        copy.deepcopy(r)
        [str(c) for c in r.children]
    return use


def u_pairwise(g, h):
    r = compare_grains_pairwise(iter([g, h, g]), iter([h, h]))
    str(r), bool(r)
    compare_grains_pairwise(iter([g, h]), iter([h, g]), return_last_only=True).msg


def u_psnr(g, h):
    for a, b in ((g, h), (g, g)):
        try:
            compute_psnr(a, b)
        except (AttributeError, NotImplementedError, ValueError):
            pass


def u_read(g, h):
    for x in (g, h):
        for p in PROPS[x.grain_type]:
            v = getattr(x, p)
            repr(v), str(v)
            if hasattr(v, "__len__"):
                len(v), list(v)
        repr(x), str(x), x == h, x != g, len(x), bool(x), list(x), x[0], tuple(x)
        json.dumps(x.meta, default=str)
        x.final_origin_timestamp(), x.origin_timerange(), x.presentation_origin_timerange()
        x.mediatimerange if hasattr(x, "mediatimerange") else None
        x.expected_length, x.length, x.media_rate if hasattr(x, "media_rate") else None
        x.has_data()
        try:
            bytes(x)
        except TypeError:
            pass
        for kw in ({}, {"rate": Fraction(50)}):
            pass
        x.normalise_time(Timestamp(5, 5))


def u_copy(g, h):
    for f in (copy.copy, copy.deepcopy, lambda g: pickle.loads(pickle.dumps(g))):
        x = f(g)
        image(x)
        g == x, x == g, compare_grain(g, x)


def u_templates(g, h):
    for x in (g, h):
        if x.grain_type == "video" and x.cog_frame_format == CogFrameFormat.U8_444 or x.grain_type == "audio":
            list(GrainWrapper(x, io.BytesIO(bytes(1000))).grains())
        if x.grain_type == "video":
            try:
                s = StillPatternGenerator(x)
                [s[Timestamp(i, 0)] for i in range(2)]
                m = MovingBarOverlay(s, height=2)
                [m[Timestamp(i, 0)] for i in range(3)]
            except (ValueError, TypeError):
                pass
        if x.grain_type == "coded_audio":
            list(ADTSAACGrainWrapper(x, io.BytesIO(adts(b"12345", 3, 2) * 2)).grains())
        if x.grain_type == "coded_video":
            w = Writer("base", "redundant")
            for u in ("I", "P"):
                w.unit(u)
            list(H264GrainWrapper(x, io.BytesIO(H.stream(w.units, 4)[0])).grains())


def u_array(g, h):
    for x in (g, h):
        try:
            a = {"video": ng.VideoGrain, "audio": ng.AudioGrain}[x.grain_type](grain=x)
        except (KeyError, NotImplementedError, ValueError):
            continue
        repr(a), str(a), a == x
        for c in getattr(a, "component_data", ()):
            np.asarray(c).sum()
        if x.grain_type == "video" and a.data is not None:
            for f in ("U8_444", "RGB", "v210", "S16_422_10BIT"):
                try:
                    a.convert(CogFrameFormat[f])
                except (NotImplementedError, ValueError):
                    pass


USES = {"dumps": u_dumps, "streaming": u_streaming, "legacy": u_legacy, "async": u_async, "compare": u_compare(),
        "compare_excluded": u_compare(Exclude.data, Exclude.timelabels, Include.creation_timestamp),
        "compare_metadata": u_compare(CompareOnlyMetadata),
        "compare_expected": u_compare(ExpectedDifference.origin_timestamp >= TimeOffset(0, 0), PSNROption.data > [1]),
        "pairwise": u_pairwise, "psnr": u_psnr, "read": u_read, "copy": u_copy, "templates": u_templates,
        "array": u_array}


def other(g):
    """One with other octets."""
    g.data[:] = bytes(x ^ 7 for x in bytes(g.data))
    return g


def subjects():
    out = {"menu_%d" % i: (lambda i=i: grain(i)) for i in range(len(D.menu()))}
    for f in ("U8_444", "U8_420", "S16_422_10BIT", "S32_444", "U8_444_RGB", "RGB", "YUYV", "v210", "v216"):
        out["video_" + f] = lambda f=f: still(CogFrameFormat[f], False)
        out["array_" + f] = lambda f=f: still(CogFrameFormat[f], True)
        out["other_" + f] = lambda f=f: other(still(CogFrameFormat[f], False))
    for f in ("S16_PLANES", "S16_PAIRS", "S24_INTERLEAVED", "S24_PLANES", "S32_INTERLEAVED", "FLOAT_PLANES",
              "FLOAT_INTERLEAVED", "DOUBLE_PLANES", "DOUBLE_INTERLEAVED", "DOUBLE_PAIRS"):
        def make(f=f, array=False):
            g = bg.AudioGrain(cog_audio_format=CogAudioFormat[f], samples=4, channels=2, sample_rate=48000,
                              rate=Fraction(12000), **TIMES)
            g.data[:] = bytes(x % 60 for x in range(len(g.data)))
            return ng.AudioGrain(grain=g) if array else g
        out["audio_" + f] = make
        out["audio_array_" + f] = lambda f=f, make=make: make(f, True)
        out["audio_other_" + f] = lambda f=f, make=make: other(make(f))
    b = gsf_file()

    def lazy(i):
        with GSFDecoder(file_data=io.BytesIO(b)) as s:
            return [g for g, _ in s.grains(loading_mode=Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE)][i]
    for i in range(len(D.menu())):
        out["lazy_%d" % i] = lambda i=i: lazy(i)
    return out


class C30(Check):
    id = "C30"
    rule = ("every producer of grains × every grain of it scribbled over in each of 5 ways (metadata, octets, members, "
            "every property, payload), as it is made or when all are × the producer used again; every operation × "
            "every pair of subjects; outcome = what the grains are")
    assumptions = ["creation timestamps are when a grain was made", "array grains made of a grain share its memory"]
    case_timeout = 60

    def prepare(self):
        self.pristine = {}
        self.subject = subjects()

    def clean(self, name):
        if name not in self.pristine:
            src, produce = PRODUCERS[name]()
            out = []
            for g in produce():
                out.append(image(g))
            self.pristine[name] = ([image(g) for g in src], out)
        return self.pristine[name]

    def cases(self):
        for name in PRODUCERS:
            n = len(self.clean(name)[1])
            for i in range(n):
                for s in SCRIBBLES:
                    for when in ("at once", "later"):
                        yield "producer", {"producer": name, "scribbles": [[i, s]], "when": when}
                if self.thorough:
                    for j in range(i + 1, n):
                        for s, t in itertools.product(SCRIBBLES, repeat=2):
                            yield "producer", {"producer": name, "scribbles": [[i, s], [j, t]], "when": "at once"}
            yield "producer", {"producer": name, "scribbles": [[i, s] for i in range(n) for s in SCRIBBLES],
                               "when": "later"}
        names = list(self.subject)
        for u in USES:
            for i, a in enumerate(names):
                for j, b in enumerate(names):
                    if self.thorough or j in (i, (i + 1) % len(names), (i + 2) % len(names), (i + 7) % len(names)):
                        yield "use", {"use": u, "a": a, "b": b}

    def run(self, kind, case):
        return getattr(self, kind)(case)

    def producer(self, c):
        before, want = self.clean(c["producer"])
        src, produce = PRODUCERS[c["producer"]]()
        todo = {}
        for i, s in c["scribbles"]:
            todo.setdefault(i, []).append(SCRIBBLES[s])
        for again in ("", " when they are made again"):
            got = []
            for i, g in enumerate(produce()):
                got.append(g)
                if image(g) != want[i]:
                    raise Violation("%s: grain %d is %s, it should be %s%s" % (c["producer"], i, image(g), want[i],
                                                                             again))
                if c["when"] == "at once" and i in todo and not again:
                    for s in todo[i]:
                        s(g)
            if len(got) != len(want):
                raise Violation("%s: %d grains, not %d%s" % (c["producer"], len(got), len(want), again))
            if c["when"] == "later" and not again:
                for i in todo:
                    for s in todo[i]:
                        s(got[i])
            for i, g in enumerate(got):
                if (again or i not in todo) and image(g) != want[i]:
                    raise Violation("%s: scribbling over %r changed grain %d: %s, it was %s%s" % (
                        c["producer"], c["scribbles"], i, image(g), want[i], again))
            for g, w in zip(src, before):
                if image(g) != w:
                    raise Violation("%s: what grains are made of became %s, it was %s" % (c["producer"], image(g), w))
        return c["producer"], len(got)

    def use(self, c):
        a, b = self.subject[c["a"]](), self.subject[c["b"]]()
        # lazy data is loaded by looking at it; a twin says what there is
        x, y = image(self.subject[c["a"]]()), image(self.subject[c["b"]]())
        made = a.creation_timestamp, b.creation_timestamp
        USES[c["use"]](a, b)
        if (image(a), image(b)) != (x, y) or (a.creation_timestamp, b.creation_timestamp) != made:
            raise Violation("%s of %s and %s changed one: %s and %s, they were %s and %s" % (
                c["use"], c["a"], c["b"], image(a), image(b), x, y))
        return c["use"], x, y


CHECK = C30
