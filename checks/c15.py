"""C15: layout of frame and sample buffers."""
import copy
import itertools
import json
from io import BytesIO
from uuid import UUID

import numpy as np
from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc.core import Check, Violation
from mediagrains import cogenums
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.grains import (AudioGrain, CodedAudioGrain, CodedVideoGrain, GrainFactory, VideoGrain,
                                size_for_audio_format)
from mediagrains.utils.iobytes import IOBytes

COMMON = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
              creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))


TILE = bytes((7 * i + 1) % 251 for i in range(251))


class Convertible:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


KINDS = ["none", "bytes", "bytearray", "memoryview", "numpy", "lazy", "convertible", "short", "long"]


def supply(kind, size):
    b = (TILE * (size // 251 + 1))[:size]
    if kind == "none":
        return None, bytes(size)
    if kind == "short":
        b = b[:size // 2]
    if kind == "long":
        b = b + b"tail"
    return {"bytes": b, "short": b, "long": b, "bytearray": bytearray(b), "memoryview": memoryview(b),
            "numpy": np.frombuffer(b, dtype=np.uint8), "lazy": IOBytes(BytesIO(b"ab" + b + b"cd"), 2, len(b)),
            "convertible": Convertible(b)}[kind], b


class C15(Check):
    id = "C15"
    rule = "two executions differ when format, size, layout of the components or the way the buffer was supplied differ"
    assumptions = ["for picture sizes that the subsampling does not divide, chroma dimensions are rounded down, as the "
                   "library documents nothing and has always done so",
                   "alpha formats are only required to tile their buffer",
                   "a buffer is allocated for grains described by constructor arguments, not for bare metadata"]

    def cases(self):
        n = 20 if self.thorough else 9
        for name in list(F.PLANAR) + list(F.PACKED) + list(F.ALPHA):
            sizes = [(w, h) for w in range(n) for h in range(n)]
            sizes += [(w, 2) for w in (47, 48, 49, 95, 96, 97, 1920)] + [(1920, 1080), (1280, 720)]
            if self.thorough:
                sizes += [(w, h) for w in range(20, 200) for h in (1, 2, 3)]
            for w, h in sizes:
                big = w * h > 100000
                for kind in KINDS if not big else KINDS[:2]:
                    for layout in (list(CogFrameLayout) if self.thorough and w < 4 and h < 4 or (kind in KINDS[:2] and w < 3 and h == 2) else [CogFrameLayout.FULL_FRAME]):
                        yield "video", {"format": name, "w": w, "h": h, "data": kind, "layout": int(layout)}
        for name in F.OTHER + F.COMPRESSED:
            for kind in ("none", "bytes"):
                yield "unknown", {"format": name, "data": kind}
        for name in list(F.AUDIO) + ["AAC", "OPUS", "MP1", "UNKNOWN", "INVALID"]:
            counts = [(c, s) for c in range(n) for s in range(n)]
            counts += [(c, s) for c in (1, 2, 7, 8, 16, 17) for s in (1601, 1602, 1920)]
            if self.thorough:
                counts += [(c, s) for c in range(20, 33) for s in (1, 3, 480)]
            for c, s in counts:
                for kind in KINDS if c * s < 2000 else KINDS[:2]:
                    yield "audio", {"format": name, "channels": c, "samples": s, "data": kind}
        for t in ("coded_video", "coded_audio"):
            for length in (None, 0, 1, 1000):
                for kind in ("none", "bytes", "bytearray", "lazy", "convertible"):
                    yield "coded", {"type": t, "length": length, "data": kind}
        for fmt in CogFrameFormat:
            yield "facts", {"video": fmt.name}
        for fmt in CogAudioFormat:
            yield "facts", {"audio": fmt.name}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    def same_buffer(self, g, data, content, kind):
        if kind == "none":
            if type(g.data) is not bytearray or g.data != content:
                raise Violation("allocated %r of %d bytes, expected %d zero bytes" % (type(g.data), len(g.data),
                                                                                     len(content)))
            return
        if g.data is not data:
            raise Violation("the buffer supplied was replaced by a %s" % type(g.data).__name__)
        if bytes(g.data) != content or bytes(g) != content:
            raise Violation("the buffer supplied was altered")

    def video(self, format, w, h, data, layout):
        fmt = CogFrameFormat[format]
        if format in F.ALPHA:
            probe = VideoGrain(cog_frame_format=fmt, width=w, height=h, **COMMON)
            want = [(c.offset, c.stride, c.width, c.height, c.length) for c in probe.components]
            size = len(probe.data)
            at = 0
            for o, s, cw, ch, ln in want:
                if o != at or s * ch != ln or s < cw * F.ALPHA[format]:
                    raise Violation("components %r do not tile the buffer" % (want,))
                at += ln
            if at != size or not want or want[0][2:4] != (w, h):
                raise Violation("components %r in a buffer of %d" % (want, size))
        else:
            want, size = F.components(format, w, h)
        supplied, content = supply(data, size)
        before = bytes(supplied) if supplied is not None else None
        g = VideoGrain(cog_frame_format=fmt, width=w, height=h, cog_frame_layout=CogFrameLayout(layout), data=supplied,
                       **COMMON)
        got = [(c.offset, c.stride, c.width, c.height, c.length) for c in g.components]
        if got != want:
            raise Violation("%s %dx%d: components (offset, stride, width, height, length) %r, the format defines %r"
                            % (format, w, h, got, want))
        self.same_buffer(g, supplied, content, data)
        if before is not None and bytes(supplied) != before:
            raise Violation("the supplied buffer changed")
        if g.length != len(content) or g.expected_length != size:
            raise Violation("length %d and expected length %d for a buffer of %d and a format of %d"
                            % (g.length, g.expected_length, len(content), size))
        if (g.width, g.height, g.cog_frame_format, int(g.cog_frame_layout)) != (w, h, fmt, layout):
            raise Violation("width, height, format, layout %r" % ((g.width, g.height, g.cog_frame_format,
                                                                   g.cog_frame_layout),))
        # the same description as metadata says the same of the same buffer
        for meta in (copy.deepcopy(g.meta), json.loads(json.dumps(g.meta))):
            again = GrainFactory(meta, g.data)
            if again.expected_length != size or again.length != len(content) or again.data is not g.data or \
               [dict(c) for c in again.components] != [dict(c) for c in g.components]:
                raise Violation("the grain's metadata describes another layout")
        # components may come in any order, and lie over one another: the buffer ends where the last to end does
        several = [dict(c) for c in g.components]
        for order in (several[::-1], several[1:] + several[:1], several + several[:1]):
            del g.components[:]
            g.components.extend(order)
            if g.expected_length != size:
                raise Violation("expected length %d of components in another order, not %d" % (g.expected_length, size))
        if data == "none" and size:
            g.data[0] = 1
            g2 = VideoGrain(cog_frame_format=fmt, width=w, height=h, **COMMON)
            if any(g2.data) or g2.data is g.data:
                raise Violation("two grains share their buffer")
        return format, w, h, tuple(got), data

    def unknown(self, format, data):
        supplied, content = supply(data, 0 if data == "none" else 10)
        g = VideoGrain(cog_frame_format=CogFrameFormat[format], width=4, height=2, data=supplied, **COMMON)
        if data != "none":
            self.same_buffer(g, supplied, content, data)
            if g.length != 10:
                raise Violation("length %d" % g.length)
        elif format in F.OTHER and (len(g.data) or len(g.components) or g.expected_length):
            raise Violation("a buffer of %d bytes for a format that is not known" % len(g.data))
        return format, data

    def audio(self, format, channels, samples, data):
        fmt = CogAudioFormat[format]
        size = F.audio_size(format, channels, samples) if format in F.AUDIO else 0
        supplied, content = supply(data, size)
        g = AudioGrain(cog_audio_format=fmt, channels=channels, samples=samples, data=supplied, **COMMON)
        self.same_buffer(g, supplied, content, data)
        if g.length != len(content) or g.expected_length != size or size_for_audio_format(fmt, channels, samples) != size:
            raise Violation("%s, %d channels of %d: length %d, expected length %d; the format takes %d and the buffer "
                            "has %d" % (format, channels, samples, g.length, g.expected_length, size, len(content)))
        again = GrainFactory(json.loads(json.dumps(g.meta)), g.data)
        if again.expected_length != size or again.length != len(content) or again.data is not g.data:
            raise Violation("the grain's metadata describes another layout")
        # changing what the format is changes what is expected
        for other, (c, s) in itertools.product(list(F.AUDIO)[:3], ((1, 2), (3, 5))):
            again.cog_audio_format = CogAudioFormat[other]
            again.channels, again.samples = c, s
            if again.expected_length != F.audio_size(other, c, s):
                raise Violation("expected length %d after changing to %s" % (again.expected_length, other))
        return format, channels, samples, data

    def coded(self, type, length, data):
        cls = CodedVideoGrain if type == "coded_video" else CodedAudioGrain
        supplied, content = supply(data, 10)
        if data == "none":
            content = bytes(length or 0)
        g = cls(data=supplied, length=length, **COMMON)
        self.same_buffer(g, supplied, content, data)
        if g.length != len(content):
            raise Violation("length %d of a payload of %d" % (g.length, len(content)))
        return type, length, data

    def facts(self, video=None, audio=None):
        if video is not None:
            fmt = CogFrameFormat[video]
            if video in F.OTHER:
                return None
            for f, want in ((cogenums.COG_FRAME_IS_COMPRESSED, video in F.COMPRESSED),
                            (cogenums.COG_FRAME_IS_PACKED, video in F.PACKED),
                            (cogenums.COG_FRAME_IS_PLANAR, video in F.PLANAR or video in F.ALPHA),
                            (cogenums.COG_FRAME_IS_ALPHA, video in F.ALPHA)):
                if f(fmt) != want:
                    raise Violation("%s(%s) is %r" % (f.__name__, video, f(fmt)))
            if video in F.PLANAR:
                size, hs, vs, bits, kind = F.PLANAR[video]
                got = (cogenums.COG_FRAME_FORMAT_BYTES_PER_VALUE(fmt), 1 << cogenums.COG_FRAME_FORMAT_H_SHIFT(fmt),
                       1 << cogenums.COG_FRAME_FORMAT_V_SHIFT(fmt), cogenums.COG_FRAME_FORMAT_ACTIVE_BITS(fmt),
                       "RGB" if cogenums.COG_FRAME_IS_PLANAR_RGB(fmt) else "YUV")
                if got != F.PLANAR[video]:
                    raise Violation("%s is said to be %r" % (video, got))
                chroma = cogenums.PlanarChromaFormat["RGB" if kind == "RGB" else
                                                     "YUV_" + {(1, 1): "444", (2, 1): "422", (2, 2): "420"}[hs, vs]]
                if cogenums.COG_PLANAR_FORMAT(chroma, bits) != fmt:
                    raise Violation("COG_PLANAR_FORMAT does not give %s" % video)
                return got
            if video in F.PACKED and cogenums.COG_FRAME_IS_PLANAR_RGB(fmt):
                raise Violation("%s is said to be planar RGB" % video)
            return video
        fmt = CogAudioFormat[audio]
        if audio in F.AUDIO:
            size, arrangement, kind = F.AUDIO[audio]
            got = (cogenums.COG_AUDIO_FORMAT_SAMPLEBYTES(fmt), cogenums.COG_AUDIO_IS_PLANES(fmt),
                   cogenums.COG_AUDIO_IS_PAIRS(fmt), cogenums.COG_AUDIO_IS_INTERLEAVED(fmt),
                   cogenums.COG_AUDIO_IS_COMPRESSED(fmt), cogenums.COG_AUDIO_IS_INT(fmt),
                   cogenums.COG_AUDIO_IS_FLOAT(fmt), cogenums.COG_AUDIO_IS_DOUBLE(fmt))
            want = (size, arrangement == "PLANES", arrangement == "PAIRS", arrangement == "INTERLEAVED", False,
                    kind.startswith("S"), kind == "FLOAT", kind == "DOUBLE")
            if got != want:
                raise Violation("%s is said to be %r, expected %r" % (audio, got, want))
            return got
        if audio in ("AAC", "OPUS", "MP1") and not cogenums.COG_AUDIO_IS_COMPRESSED(fmt):
            raise Violation("%s is said to be uncompressed" % audio)
        return audio


CHECK = C15
