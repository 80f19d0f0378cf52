"""C32: readers, writers, generators and the rest, used side by side or from several threads, do not disturb each other."""
import asyncio
import io
import itertools
import os
import pickle
import sys
import threading
from fractions import Fraction
from uuid import UUID

import numpy as np
from mediatimestamp.immutable import TimeOffset, Timestamp

from mc.core import Check, Violation, short
from mc import aio, env, gsfdom as D, h264 as H, refgsf as R
from mc.sinks import Sink
from checks.c21 import Writer, adts
from checks.c30 import image, still
from mediagrains import grains as bg, gsf, numpy as ng
from mediagrains.cogenums import CogAudioFormat as AF, CogFrameFormat as VF
from mediagrains.comparison import compare_grain, compare_grains_pairwise, compute_psnr
from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include
from mediagrains.comparison.options import PSNR as PSNROption
from mediagrains.gsf import GSFDecoder, GSFEncoder, GrainDataLoadingMode as Mode
from mediagrains.patterngenerators.audio import Silence, Tone, Tone1K
from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay, StillPatternGenerator
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper
from mediagrains.utils.iobytes import IOBytes

SRC, FLOW = UUID(int=3), UUID(int=4)
TIMES = dict(src_id=SRC, flow_id=FLOW, origin_timestamp=Timestamp(7, 8), sync_timestamp=Timestamp(9, 10),
             creation_timestamp=Timestamp(11, 12))
HERE = os.path.join(os.path.realpath(env.REPO), "mediagrains") + os.sep


def grains(k, n=3):
    """Different grains for different k; of 2 those of 0 in all but what they hold."""
    c, k = k, k & 1
    m = D.menu()
    out = []
    for i in range(n):
        g = dict(m[((5, 3, 0) if k == 0 else (1, 5, 2))[i % 3]], local_id=1 + (i + k) % 2, ots=(1, 10 * c + i, c))
        if g["type"] not in ("event", "empty"):
            g["data"] = bytes((100 * c + 7 * i + x) & 255 for x in range(8 + 5 * k + i))
        out.append(g)
    return out


def gsf_file(k):
    v = (9, 8)[k & 1]
    f = {"version": (v, 0), "id": (D.U1, D.U2)[k & 1], "created": (2023 + k, 4, 5, 6, 7, 8), "tags": [("k%d" % k, "v")],
         "segments": [{"local_id": i, "id": u, "count": -1, "tags": [("a", "b" * ((k & 1) + 1))], "flow": None}
                      for i, u in ((1, D.U1), (2, D.UF))],
         "grains": [D.ref_of(g) for g in grains(k)]}
    return R.serialise((v, 0), R.build(f))


CONVERSIONS = [("U8_422", "U8_444"), ("U8_444", "RGB"), ("S16_422_10BIT", "v210"), ("S16_422_10BIT", "U8_420"),
               ("RGB", "U8_422"), ("U8_422", "UYVY"), ("v210", "U8_422"), ("U8_422", "RGB"), ("S16_422_10BIT", "UYVY"),
               ("U8_444", "U8_422"), ("U8_420", "U8_444"), ("UYVY", "U8_444")]


# -- each gives what it comes to, step by step; k says which of two sets of values it works on ---------------------------
def a_session(mode):
    def act(k):
        with GSFDecoder(file_data=io.BytesIO(gsf_file(k))) as s:
            yield repr(s.file_headers)
            held = []
            for g, lid in s.grains(loading_mode=mode):
                yield lid, image(g) if mode in (Mode.LOAD_IMMEDIATELY, Mode.LOAD_NEVER) else g.origin_timestamp
                held.append(g)
            if mode in (Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE):
                yield [image(g) for g in held]
    return act


def a_legacy(k):
    d = GSFDecoder(file_data=io.BytesIO(gsf_file(k)))
    yield repr(d.decode_file_headers())
    for g, lid in d.grains():
        yield lid, image(g)


def a_cut(k):
    """A file which ends within the data of the last grain which has any, read without loading."""
    b = gsf_file(k)
    b = b[:b.index([g["data"] for g in grains(k) if g["data"]][-1]) + 3]
    try:
        with GSFDecoder(file_data=io.BytesIO(b)) as s:
            for g, lid in s.grains(loading_mode=Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE):
                yield lid, g.origin_timestamp
    except Exception as e:
        yield type(e).__name__, str(e)


def a_loads(k):
    head, segs = gsf.loads(gsf_file(k))
    yield repr(head), [(i, [image(g) for g in segs[i]]) for i in sorted(segs)]


def own_loop(agen):
    """The steps of an asynchronous generator, in an event loop of their own."""
    loop = aio.InlineLoop()
    try:
        while True:
            try:
                yield loop.run_until_complete(agen.__anext__())
            except StopAsyncIteration:
                return
    finally:
        loop.close()


def a_async(mode, wrap):
    def act(k):
        async def go():
            b = gsf_file(k)
            if wrap == "stream":
                r = asyncio.StreamReader()
                r.feed_data(b)
                r.feed_eof()
                f = AsyncStreamWrapper(reader=r)
            else:
                f = AsyncBytesIO(b) if wrap == "own" else AsyncFileWrapper(io.BytesIO(b))
            dec = GSFDecoder(file_data=f)
            s = await dec.__aenter__()
            yield repr(s.file_headers)
            held = []
            async for g, lid in s.grains(loading_mode=mode):
                if len(held) % 2 == 0:
                    await g
                yield lid, g.origin_timestamp
                held.append(g)
            if mode is Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE:
                await dec.__aexit__(None, None, None)
            else:
                for g in held:
                    await g
                await dec.__aexit__(None, None, None)
            yield [image(g) for g in held]
        return own_loop(go())
    return act


def encoder(f, k, streaming):
    enc = GSFEncoder(f, major=(9, 8)[k & 1], id=(D.U1, D.U2)[k & 1], created=D.CREATED[0], streaming=streaming,
                     tags=[("k%d" % k, "v")])
    for lid in (1, 2):
        s = enc.add_segment(id=UUID(int=lid + 10 * k), local_id=lid, tags=[("a%d" % lid, "\u20ac" * ((k & 1) + 1))])
        if lid == 2:
            s.add_flow(D.U1, D.U2, "urn:f%d" % k, "{}")
    return enc


def a_encoder(streaming, seekable):
    def act(k):
        f = io.BytesIO() if seekable else Sink()
        enc = encoder(f, k, streaming)
        yield "made"
        with enc as e:
            for g in grains(k):
                e.add_grain(D.make(g), segment_local_id=g["local_id"])
                yield "added"
        yield f.getvalue() if seekable else bytes(f.b)
    return act


def a_encoder_legacy(k):
    f = io.BytesIO()
    enc = encoder(f, k, False)
    enc.start_dump()
    for g in grains(k):
        yield "started"
        enc.segments[g["local_id"]].add_grain(D.make(g))
    enc.end_dump()
    yield f.getvalue()


def a_dumps(k):
    b = gsf.dumps([D.make(g) for g in grains(k)], tags=[("t%d" % k, "v")], segment_tags=[("s", "t%d" % k)])
    f = R.parse(b)
    yield [(s["tags"], s["count"]) for s in f["segments"]], f["tags"], f["grains"]


def a_encoder_async(streaming, own):
    def act(k):
        async def go():
            f = io.BytesIO()
            enc = encoder(AsyncFileWrapper(f), k, streaming)
            yield "made"
            e = await enc.__aenter__()
            for g in grains(k):
                await e.add_grain(D.make(g), segment_local_id=g["local_id"])
                yield "added"
            await enc.__aexit__(None, None, None)
            yield f.getvalue()
        return own_loop(go())
    return act


def a_wrapper(what):
    def act(k):
        c, k = k, k & 1
        if what == "video":
            t = bg.VideoGrain(width=2 + 2 * k, height=2, rate=Fraction(25 + 5 * k), cog_frame_format=(VF.U8_444, VF.U8_422)[k],
                              **TIMES)
            w, data = GrainWrapper, bytes(range(50 * c, 48 + 50 * c))
        elif what == "audio":
            t = bg.AudioGrain(channels=2 + k, samples=3, sample_rate=48000, rate=Fraction(16000),
                              cog_audio_format=AF.S16_INTERLEAVED, **TIMES)
            w, data = GrainWrapper, bytes(range(50 * c, 48 + 50 * c))
        elif what == "aac":
            t = bg.CodedAudioGrain(cog_audio_format=AF.AAC, **TIMES)
            w = ADTSAACGrainWrapper
            data = b"".join(adts(bytes([0x21 + i + 8 * c]) * (5 + 3 * k), 3 + k, 1 + k) for i in range(3))
        else:
            t = bg.CodedVideoGrain(cog_frame_format=VF.H264, origin_width=16, origin_height=16, **TIMES)
            x = Writer(("base", "wide")[k], ("redundant", "plain")[k])
            for u in (("I", "R", "Pm"), ("Im", "R", "Im", "R"), ("Im", "R", "R", "P"))[c]:
                x.unit(u)
            w, data = H264GrainWrapper, H.stream(x.units, 4 - k)[0]
        if k:
            t.add_timelabel("x", 3, Fraction(25))
        for g in w(t, io.BytesIO(data)).grains():
            yield image(g)
        yield image(t)
    return act


def a_generator(what):
    def act(k):
        c, k = k, k & 1
        vf = dict(cog_frame_format=(VF.U8_422, VF.S16_444_10BIT)[k], rate=Fraction(25 + k))
        af = dict(cog_audio_format=(AF.S16_INTERLEAVED, AF.S24_PLANES)[k], samples=6 + k, channels=1 + k)
        size = (8 + 4 * k, 4 + 2 * k)
        gen = {"steps": lambda: LumaSteps(SRC, FLOW, *size, **vf),
               "bars": lambda: ColourBars(SRC, FLOW, *size, intensity=(0.75, 0.5, 1.0)[c], **vf),
               "still": lambda: StillPatternGenerator(still((VF.U8_422, VF.U8_444)[k], bool(c))),
               "moving": lambda: MovingBarOverlay(LumaSteps(SRC, FLOW, *size, **vf), height=1 + k, speed=1.0 + c),
               "tone": lambda: Tone(SRC, FLOW, frequency=(8000, 6000)[k], volume=(0.5, 0.25, 0.75)[c], **af),
               "tone1k": lambda: Tone1K(SRC, FLOW, **af),
               "silence": lambda: Silence(SRC, FLOW, **af)}[what]()
        for g in itertools.islice(gen[Timestamp(c, 0):], 2):
            yield image(g)
        yield image(next(iter(gen[Timestamp(3, 0):])))
    return act


def a_compare(options, kind):
    def act(k):
        c, k = k, k & 1
        if kind == "video":
            a, b = still((VF.U8_422, VF.U8_444)[k], False), still((VF.U8_422, VF.U8_444)[k], False)
            b.data[c] ^= 0x11
        elif kind == "event":
            a, b = bg.EventGrain(**TIMES), bg.EventGrain(**TIMES)
            a.topic, b.topic = "/a", ("/b", "/a")[k]
            a.append("/p", 1, 2)
            b.append("/p", 1, c)
        else:
            a, b = (bg.AudioGrain(cog_audio_format=AF.S16_PLANES, samples=4 + k, channels=2, **TIMES) for _ in "ab")
            b.data[2 * c] ^= 0x11
        b.origin_timestamp += TimeOffset(0, c)
        opts = {"none": [], "meta": [CompareOnlyMetadata], "exclude": [Exclude.origin_timestamp, Exclude.topic],
                "include": [Include.creation_timestamp],
                "expect": [ExpectedDifference.origin_timestamp == TimeOffset(0, 1)],
                "psnr": [PSNROption.data > [20 + 10 * k] * 3]}[options]
        r = compare_grain(a, b, *opts)
        yield bool(r), str(r)
        r = compare_grains_pairwise(iter([a, b]), iter([a, b, a][:2 + k]), *opts)
        yield bool(r), str(r), [str(x) for x in r.children]
    return act


def a_psnr(k):
    c, k = k, k & 1
    a, b = (ng.VideoGrain(grain=still((VF.U8_422, VF.U8_444)[k], False)) for _ in "ab")
    b.data[0] ^= 1 + 4 * c
    yield repr(compute_psnr(a, b))
    a, b = (ng.AudioGrain(grain=bg.AudioGrain(cog_audio_format=(AF.S16_PLANES, AF.DOUBLE_INTERLEAVED)[k], samples=4,
                                              channels=2, **TIMES)) for _ in "ab")
    b.channel_data[0][1] = 3 + c
    yield repr(compute_psnr(a, b))


def a_convert(src, to):
    def act(k):
        c, k = k, k & 1
        g = bg.VideoGrain(width=12, height=4 + 2 * k, rate=Fraction(25), cog_frame_format=VF[src], **TIMES)
        n = len(g.data)
        g.data[:] = (bytes((i * (3 + 2 * c) + c) & (63 if src == "v210" and i % 4 == 3 else 255) for i in range(n))
                     if not src.startswith("S16")
                     else b"".join(((i * (37 + 2 * c) + c) & 1023).to_bytes(2, "little") for i in range(n // 2)))
        g = ng.VideoGrain(grain=g)
        yield image(g.convert(VF[to]))
        yield [x.tobytes() for x in g.component_data]
    return act


def a_array(k):
    v, k = k, k & 1
    g = ng.AudioGrain(grain=bg.AudioGrain(cog_audio_format=(AF.S24_INTERLEAVED, AF.S16_PAIRS)[k], samples=4 + 2 * k,
                                          channels=2 + k, **TIMES))
    for c in range(2 + k):
        for i, x in enumerate(g.channel_data[c]):
            g.channel_data[c][i] = 100 * c + i + v
    yield image(g)
    yield [x.tolist() for x in g.channel_data]


def a_grains(t):
    def act(k):
        c, k = k, k & 1
        if t == "event":
            g = bg.EventGrain(**TIMES)
            g.event_type, g.topic = "urn:%d" % k, "/t%d" % k
            yield image(g)
            g.append("/a%d" % k, {"x": c}, [c])
        else:
            g = {"video": lambda: bg.VideoGrain(cog_frame_format=(VF.U8_422, VF.v210)[k], width=8, height=2 + k, **TIMES),
                 "audio": lambda: bg.AudioGrain(cog_audio_format=(AF.S16_PLANES, AF.S32_PAIRS)[k], channels=1 + k,
                                                samples=3, **TIMES),
                 "coded_video": lambda: bg.CodedVideoGrain(cog_frame_format=(VF.H264, VF.VC2)[k], unit_offsets=[3 + k],
                                                           length=3 + k, **TIMES),
                 "coded_audio": lambda: bg.CodedAudioGrain(cog_audio_format=(AF.AAC, AF.OPUS)[k], samples=3 + k,
                                                           length=2, **TIMES),
                 "empty": lambda: bg.GrainFactory(**TIMES)}[t]()
            yield image(g)
        g.add_timelabel("x%d" % c, 3 + c, Fraction(25 + k))
        g.rate, g.duration = Fraction(30 + k), Fraction(1, 30 + k)
        yield image(g), str(g.presentation_origin_timerange()), [dict(x) for x in g.timelabels], str(g.media_rate)
        yield image(bg.GrainFactory(g.meta, g.data))
    return act


def a_iobytes(k):
    f = io.BytesIO(bytes(range(40 * k, 40 * k + 30)))
    b = IOBytes(f, 3 + (k & 1), 9)
    yield len(b), b[2 + k], f.tell()
    yield bytes(b), b == IOBytes(f, 3, 9)


def a_asyncio(k):
    async def go():
        async with AsyncBytesIO(bytes(range(30))) as f:
            f.seek(3 + (k & 1))
            yield await f.read(4), f.tell()
            async with AsyncFileWrapper(io.BytesIO((b"12345", b"123451234512345", b"54321")[k])) as w:
                yield await w.read(3 + (k & 1)), await w.write(b"xy"), w.tell()
                w.seek(0)
                yield await w.readall()
    return own_loop(go())


ACTORS = {"legacy": a_legacy, "loads": a_loads, "dumps": a_dumps, "encoder_legacy": a_encoder_legacy, "psnr": a_psnr,
          "array": a_array, "iobytes": a_iobytes, "asyncio": a_asyncio}
FAMILY = {"legacy": "read", "loads": "read", "dumps": "write", "encoder_legacy": "write", "psnr": "compare",
          "array": "numpy", "iobytes": "io", "asyncio": "io"}


def add(family, name, act):
    ACTORS[name] = act
    FAMILY[name] = family


for _m in Mode:
    add("read", "session_" + _m.name, a_session(_m))
    add("read", "async_own_" + _m.name, a_async(_m, "own"))
add("read", "cut", a_cut)
add("read", "async_file", a_async(Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, "file"))
add("read", "async_stream", a_async(Mode.LOAD_IMMEDIATELY, "stream"))
for _s in (True, False):
    for _k in (True, False):
        add("write", "encoder_%s_%s" % ("streaming" if _s else "whole", "file" if _k else "pipe"), a_encoder(_s, _k))
    add("write", "encoder_async_%s" % ("streaming" if _s else "whole"), a_encoder_async(_s, False))
for _w in ("video", "audio", "aac", "h264"):
    add("essence", "wrap_" + _w, a_wrapper(_w))
for _w in ("steps", "bars", "still", "moving", "tone", "tone1k", "silence"):
    add("generate", _w, a_generator(_w))
for _o, _k in (("none", "video"), ("none", "event"), ("meta", "video"), ("exclude", "event"), ("include", "video"),
               ("expect", "audio"), ("psnr", "video"), ("psnr", "audio")):
    add("compare", "compare_%s_%s" % (_o, _k), a_compare(_o, _k))
for _a, _b in CONVERSIONS[:10]:
    add("numpy", "convert_%s_%s" % (_a, _b), a_convert(_a, _b))
for _t in ("event", "video", "audio", "coded_video", "coded_audio", "empty"):
    add("grains", "grain_" + _t, a_grains(_t))


# -- what is asked for, each thing on its own ----------------------------------------------------------------------------
def still_of(fmt, size, fill):
    g = bg.VideoGrain(cog_frame_format=VF[fmt], width=size[0], height=size[1], rate=Fraction(25), **TIMES)
    n = 1 if fmt.startswith(("U8", "RGB", "UYVY")) else 2
    g.data[:] = b"".join(((i * 37 + fill) & (255 if n == 1 else 1023)).to_bytes(n, "little")
                         for i in range(len(g.data) // n))
    return g


def v_pattern(what, fmt, size, rate, value, ids):
    a = (UUID(int=ids), UUID(int=ids + 1), size[0], size[1])
    kw = dict(rate=Fraction(rate), cog_frame_format=VF[fmt])
    gen = {"steps": lambda: LumaSteps(*a, **kw),
           "bars": lambda: ColourBars(*a, intensity=(0.75, 0.5)[value], **kw),
           "still": lambda: StillPatternGenerator(still_of(fmt, size, value)),
           "moving": lambda: MovingBarOverlay(LumaSteps(*a, **kw), height=2, speed=1.0 + value),
           "high": lambda: MovingBarOverlay(LumaSteps(*a, **kw), height=2 + 2 * value)}[what]()
    return [image(g) for g in itertools.islice(gen[Timestamp(1, 0):], 2)]


def v_sound(what, fmt, samples, channels, rate, value):
    kw = dict(cog_audio_format=AF[fmt], samples=samples, channels=channels, sample_rate=rate)
    if what == "tone1k":
        gen = Tone1K(SRC, FLOW, volume=(0.5, 0.25)[value], **kw)
    elif what == "silence":
        gen = Silence(SRC, FLOW, **kw)
    else:
        gen = Tone(SRC, FLOW, frequency=(8000, 6000)[value & 1], volume=(0.5, 0.25)[value >> 1], **kw)
    return [image(g) for g in itertools.islice(gen[Timestamp(1, 0):], 2)]


def v_convert(way, size, fill):
    g = ng.VideoGrain(grain=still_of(way[0], size, fill))
    return image(g.convert(VF[way[1]])), [x.tobytes() for x in g.component_data]


def v_video(fmt, size, flags, how):
    if how == "given":
        n = len(bg.VideoGrain(cog_frame_format=VF[fmt], width=size[0], height=size[1], **TIMES).data)
        g = bg.VideoGrain(cog_frame_format=VF[fmt], width=size[0], height=size[1], data=bytearray(n), **TIMES)
    else:
        g = bg.VideoGrain(cog_frame_format=VF[fmt], width=size[0], height=size[1], **TIMES)
    h = ng.VideoGrain(grain=g)
    if flags:
        h.data[3] = 9
        g.components.append({"stride": 1, "width": 1, "height": 1, "offset": 0, "length": 1})
        g.add_timelabel("x", 1, Fraction(25))
    return image(g), image(h), [(x.shape, x.strides) for x in h.component_data], g.expected_length


def v_audio(fmt, samples, channels, value):
    g = bg.AudioGrain(cog_audio_format=AF[fmt], samples=samples, channels=channels, **TIMES)
    h = ng.AudioGrain(grain=g)
    for c in range(channels):
        h.channel_data[c][0] = c + value
    return image(g), image(h), [x.tolist() for x in h.channel_data], str(compute_psnr(h, ng.AudioGrain(
        grain=bg.AudioGrain(cog_audio_format=AF[fmt], samples=samples, channels=channels, **TIMES))))


def v_psnr(fmt, size, fill, other):
    return repr(compute_psnr(*(ng.VideoGrain(grain=still_of(fmt, size, n)) for n in (fill, fill + other))))


def v_wrap(what, value, rate, size, short):
    if what == "video":
        t = bg.VideoGrain(width=2 * size, height=2, rate=Fraction(rate), cog_frame_format=(VF.U8_444, VF.U8_422)[value],
                          **TIMES)
        w, data = GrainWrapper, bytes(range(48 - 5 * short))
    elif what == "audio":
        t = bg.AudioGrain(channels=size, samples=3, sample_rate=48000, rate=Fraction(rate),
                          cog_audio_format=(AF.S16_INTERLEAVED, AF.S32_INTERLEAVED)[value], **TIMES)
        w, data = GrainWrapper, bytes(range(48 - 5 * short))
    elif what == "aac":
        t = bg.CodedAudioGrain(cog_audio_format=AF.AAC, **TIMES)
        w, data = ADTSAACGrainWrapper, b"".join(adts(bytes([0x21 + i]) * (5 + size), 3 + value, size) for i in range(3))
        data = data[:len(data) - 2 * short]
    else:
        t = bg.CodedVideoGrain(cog_frame_format=VF.H264, origin_width=16, origin_height=16, rate=Fraction(rate), **TIMES)
        x = Writer(("base", "wide")[value], ("plain", "redundant")[size - 1])
        for u in ("Im", "R", "Pm", "N"):
            x.unit(u)
        w, data = H264GrainWrapper, H.stream(x.units, 4 - short)[0]
    return [image(g) for g in w(t, io.BytesIO(data)).grains()]


def v_write(streaming, version, tags, types, own):
    f = io.BytesIO()
    enc = GSFEncoder(f, major=version, id=(D.U1 if own else D.U2), created=D.CREATED[0], streaming=streaming,
                     tags=[("k", "v")] * tags)
    enc.add_segment(id=UUID(int=5), local_id=1 + own, tags=[("s", "t")] * tags)
    m = D.menu()
    with enc as e:
        for i in types:
            e.add_grain(D.make(dict(m[i], ots=(1, i, 0))), segment_local_id=1 + own)
    return f.getvalue()


async def data_of(g):
    await g
    return None if g.data is None else bytes(g.data)


def v_read(k, mode, how):
    b = gsf_file(k)
    if how == "loads":
        head, segs = gsf.loads(b)
        return repr(head), [(i, [image(g) for g in segs[i]]) for i in sorted(segs)]
    if how == "async":
        async def go():
            async with GSFDecoder(file_data=AsyncBytesIO(b)) as s:
                return repr(s.file_headers), [(lid, x.origin_timestamp, await data_of(x))
                                              async for x, lid in s.grains(loading_mode=Mode[mode])]
        loop = aio.InlineLoop()
        try:
            return loop.run_until_complete(go())
        finally:
            loop.close()
    with GSFDecoder(file_data=io.BytesIO(b)) as s:
        return repr(s.file_headers), [(lid, image(g) if mode != "LOAD_NEVER" else g.origin_timestamp)
                                      for g, lid in s.grains(loading_mode=Mode[mode])]


def v_compare(kind, options, value, more):
    a, b = (bg.AudioGrain(cog_audio_format=AF.S16_PLANES, samples=4, channels=2, **TIMES) if kind == "audio" else
            still_of("U8_422", (4, 2), 5) for _ in "ab")
    b.data[1] ^= value
    b.origin_timestamp += TimeOffset(0, more)
    opts = {"none": [], "meta": [CompareOnlyMetadata], "exclude": [Exclude.origin_timestamp],
            "include": [Include.creation_timestamp],
            "expect0": [ExpectedDifference.origin_timestamp == TimeOffset(0, 0)],
            "expect1": [ExpectedDifference.origin_timestamp == TimeOffset(0, 1)],
            "psnr20": [PSNROption.data > [20] * 3], "psnr90": [PSNROption.data > [90] * 3]}[options]
    r = compare_grain(a, b, *opts)
    p = compare_grains_pairwise(iter([a, b]), iter([a, b, a][:2 + more]), *opts)
    return bool(r), str(r), bool(p), str(p)


def wants():
    """(what is asked for, its arguments), by groups."""
    pics = ["U8_422", "U8_444", "U8_420", "S16_422_10BIT", "S16_444_10BIT"]
    yield "pattern", v_pattern, [(w, f, z, r, v, i) for w in ("steps", "bars", "still", "moving", "high") for f in pics
                                 for z in ((8, 4), (16, 4), (8, 8)) for r in (25, 30) for v in (0, 1) for i in (1, 5)]
    yield "sound", v_sound, [(w, f, n, c, r, v) for w in ("tone", "tone1k", "silence")
                             for f in ("S16_PLANES", "S16_INTERLEAVED", "S24_PAIRS", "FLOAT_PLANES") for n in (4, 6)
                             for c in (1, 2) for r in (48000, 32000) for v in range(4 if w == "tone" else 2)]
    yield "convert", v_convert, [(w, z, v) for w in CONVERSIONS for z in ((12, 4), (24, 4), (12, 8)) for v in (0, 9)]
    yield "video", v_video, [(f, z, n, h) for f in pics + ["v210", "RGB", "UYVY"] for z in ((12, 4), (24, 4), (12, 8))
                             for n in (False, True) for h in ("given", "made")]
    yield "audio", v_audio, [(f, n, c, v) for f in ("S16_PLANES", "S16_PAIRS", "S24_INTERLEAVED", "S32_PLANES",
                                                    "DOUBLE_INTERLEAVED") for n in (4, 6) for c in (1, 2, 3) for v in (0, 1)]
    yield "psnr", v_psnr, [(f, z, v, o) for f in pics + ["RGB"] for z in ((12, 4), (24, 4), (12, 8)) for v in (0, 9)
                           for o in (0, 3)]
    yield "wrap", v_wrap, [(w, v, r, z, n) for w in ("video", "audio", "aac", "h264") for v in (0, 1) for r in (16000, 25)
                           for z in (1, 2) for n in (0, 1)]
    yield "write", v_write, [(s, v, t, y, o) for s in (False, True) for v in (7, 8, 9) for t in (0, 1, 2)
                             for y in ((), (1,), (5, 1), (3, 0, 2)) for o in (False, True)]
    yield "read", v_read, [(k, m.name, h) for k in (0, 1, 2) for m in Mode for h in ("sync", "async", "loads")]
    yield "compare", v_compare, [(k, o, v, m) for k in ("audio", "video")
                                 for o in ("none", "meta", "exclude", "include", "expect0", "expect1", "psnr20", "psnr90")
                                 for v in (0, 17) for m in (0, 1)]


WANTS = {name: (f, args) for name, f, args in wants()}


def attempt(f):
    try:
        return f()
    except BaseException as e:
        return "fails: %s: %s" % (type(e).__name__, e)


def apart(f):
    """What f() comes to in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = attempt(f)
            with os.fdopen(w, "wb") as o:
                pickle.dump(out, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        b = i.read()
    os.waitpid(pid, 0)
    return pickle.loads(b)


def whole(name, k):
    return [repr(x) for x in ACTORS[name](k)]


class Tracer:
    """Counts the places passed in the package, and has something done as the chosen one is reached."""
    def __init__(self, at=None, do=None, limit=1):
        self.at, self.do, self.limit = at, do, limit
        self.seen, self.points, self.n = {}, 0, 0

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(HERE):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event != "line":
            return self.local
        key = (frame.f_code, frame.f_lineno)
        n = self.seen[key] = self.seen.get(key, 0) + 1
        if n <= self.limit:
            if self.points == self.at:
                sys.settrace(None)
                self.do()
                return None
            self.points += 1
        return self.local

    def run(self, f):
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(None)


class C32(Check):
    id = "C32"
    rule = ("one thing asked for after others which differ from it in one way; every pair of activities (readers, writers, wrappers, generators, comparisons, conversions, grains) on "
            "values of their own (of other shapes, and of the same) × every interleaving of their steps; one interrupted as it reaches every line of the "
            "package (first times) while another thread does the whole of the other; outcome = what each comes to")
    assumptions = ["a thread is interrupted once"]
    case_timeout = 60

    def prepare(self):
        sys.settrace(None)
        self.apart = {n: {} for n in WANTS}
        self.alone, self.points = {}, {}
        # each in a process of its own, before anything else is done in this one
        for name in ACTORS:
            for k in (0, 1, 2):
                self.alone[name, k] = apart(lambda: whole(name, k))
        for name in ACTORS:
            for k in (0, 1, 2):
                whole(name, k)
        for name in ACTORS:
            for k in (0, 1):
                for limit in (1, 2) if self.thorough else (1,):
                    t = Tracer(limit=limit)
                    t.run(lambda: whole(name, k))
                    self.points[name, k, limit] = t.points

    def cases(self):
        t = self.thorough
        names = sorted(ACTORS)
        for a in names:
            for b in names:
                same = FAMILY[a] == FAMILY[b]
                for j in (1, 2) if same or t else (1,):
                    na, nb = len(self.alone[a, 0]) + 1, len(self.alone[b, j]) + 1
                    for c in itertools.combinations(range(na + nb), na):
                        o = [int(i not in c) for i in range(na + nb)]
                        switches = sum(x != y for x, y in zip(o, o[1:]))
                        turns = o[:2 * min(na, nb)] == [0, 1] * min(na, nb)     # each after the other
                        if not turns and switches > ((99 if t and j == 1 else 4 if t else 3 if a == b else 2)
                                                     if same else 2 if t and j == 1 else 0):
                            continue
                        yield "steps", {"a": a, "b": b, "order": o, "j": j}
        for a in names:
            for b in names:
                same = FAMILY[a] == FAMILY[b]
                if (a == b and (t or not a.endswith(("NEVER", "IMMEDIATELY", "LOAD_DEFER_IF_POSSIBLE", "psnr_audio",
                                                     "file")))) or t and same:
                    for k, j in (((0, 1), (1, 0), (0, 2)) if t and a == b else
                                 ((0, 1),) if t or FAMILY[a] not in ("numpy", "generate") else ((0, 1), (0, 2))):
                        limit = 2 if t and a == b else 1
                        for at in range(self.points[a, k, limit]):
                            yield "thread", {"a": a, "b": b, "k": k, "j": j, "at": at, "limit": limit}

        def ways(p, q):
            return sum(x != y for x, y in zip(p, q))
        for name in WANTS:
            args = WANTS[name][1]
            first = {}
            for p in args:
                first.setdefault(p[0], p)
            if not t:
                args = [p for p in args if ways(p, first[p[0]]) <= 1]
            for p in args:
                then = [q for q in args if 0 < ways(p, q) < (3 if t else 2)]
                if then:
                    yield "after", {"what": name, "first": p, "then": then}

    def on_its_own(self, name, p):
        if p not in self.apart[name]:
            self.apart[name][p] = apart(lambda: repr(WANTS[name][0](*p)))
        return self.apart[name][p]

    def after(self, c):
        """One thing, then others: each is what it is in a process where nothing went before."""
        name = c["what"]
        f = WANTS[name][0]
        p = self.fixed(c["first"])
        then = [self.fixed(q) for q in c["then"]]
        want = [self.on_its_own(name, q) for q in then]

        got = apart(lambda: [attempt(lambda: repr(f(*q))) for q in [p] + then])
        for q, x, y in zip([p] + then, got, [self.on_its_own(name, p)] + want):
            self.stats.transitions += 1
            if x != y:
                raise Violation("%s%r after %r comes to %s, with nothing before it to %s" % (name, q, p, short(x, 250),
                                                                                          short(y, 250)))
        return name, p

    @staticmethod
    def fixed(p):
        return tuple(tuple(y) if isinstance(y, list) else y for y in p)

    def run(self, kind, case):
        return getattr(self, kind)(case)

    def differ(self, what, name, k, got):
        want = self.alone[name, k]
        if got != want:
            for i, (x, y) in enumerate(itertools.zip_longest(got, want)):
                if x != y:
                    raise Violation("%s: step %d of %s comes to %s, alone to %s" % (what, i, name, short(x, 250),
                                                                                  short(y, 250)))

    def steps(self, c):
        its = [iter(ACTORS[c["a"]](0)), iter(ACTORS[c["b"]](c["j"]))]
        out = [[], []]
        for w in c["order"]:
            self.stats.transitions += 1
            try:
                out[w].append(repr(next(its[w])))
            except StopIteration:
                pass
        for w, name in ((0, c["a"]), (1, c["b"])):
            self.differ("%s beside %s" % (c["a"], c["b"]), name, w and c["j"], out[w])
        return c["a"], c["b"]

    def thread(self, c):
        a, b, k, j = c["a"], c["b"], c["k"], c["j"]
        other = []

        def go():
            try:
                other.append(whole(b, j))
            except BaseException as e:
                other.append(["%s: %s" % (type(e).__name__, e)])

        def do():
            t = threading.Thread(target=go)
            t.start()
            t.join(30)
            if t.is_alive():
                other.append(["waits for the other"])
        tr = Tracer(c["at"], do, c["limit"])
        got = tr.run(lambda: whole(a, k))
        if not other:
            # what was done the first time only is not done again
            return None
        self.stats.transitions += 2
        what = "%s in another thread during %s" % (b, a)
        self.differ(what, a, k, got)
        self.differ(what, b, j, other[0])
        return a, b


CHECK = C32
