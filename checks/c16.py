"""C16: array views and the buffers of grains are the same memory."""
import asyncio
import pickle
import struct
from copy import copy, deepcopy
from io import BytesIO
from uuid import UUID

import numpy as np
from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc.core import Check, Violation
from mediagrains import grains as bg
from mediagrains import numpy as ng
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.utils.iobytes import IOBytes

COMMON = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
              creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))
TILE = bytes((37 * i + 11) % 251 for i in range(251))
VIDEO = list(F.PLANAR) + [p for p in F.PACKED if p != "v210"]
WRITEABLE = {"none", "bytearray", "memoryview", "numpy"}
KINDS = ["none", "bytes", "bytearray", "memoryview", "numpy", "lazy"]
ROUTES = ["arguments", "metadata", "positional", "grain", "setter", "await", "grain await", "context"]


def content_of(size, salt=0):
    return (TILE * (size // 251 + 2))[salt:salt + size]


def supply(kind, b):
    return {"none": None, "bytes": b, "bytearray": bytearray(b), "memoryview": memoryview(bytearray(b)),
            "numpy": np.frombuffer(bytearray(b), dtype=np.uint8), "lazy": IOBytes(BytesIO(b"ab" + b + b"cd"), 2, len(b)),
            }[kind]


def await_(x):
    async def go():
        return await x
    return asyncio.run(go())


def layout(name, w, h, pad):
    """[(offset, stride, width, height, length)] and total size, with padding around each component and line."""
    comps, size = F.components(name, w, h)
    if not pad:
        return comps, size
    unit = {1: 1, 2: 2, 4: 4}[item_size(name)]
    tight, pad = pad < 0, abs(pad)      # no padding after the last line of a component
    out, at = [], 0
    for _, line, cw, ch, _ in comps:
        at += 0 if tight else pad * unit
        stride = line + pad * unit
        length = max(0, stride * (ch - 1) + line) if tight else stride * ch
        out.append((at, stride, cw, ch, length))
        at += length
    return out, at + (0 if tight else pad * unit)


def item_size(name):
    if name in F.PLANAR:
        return F.PLANAR[name][0]
    return 2 if name == "v216" else 1


def places(name, w, h, comps):
    """{component name: (width, height, {(x, y): byte offset})}, in the order of the view list."""
    item = item_size(name)
    out = {}
    if name in F.PLANAR:
        for c, (o, s, cw, ch, ln) in zip(F.PLANAR[name][4], comps):
            out[c] = (cw, ch, {(x, y): o + y * s + x * item for x in range(cw) for y in range(ch)})
        return out
    o, s, cw, ch, ln = comps[0]
    order = F.PACKED[name][1]
    if len(order) == 4 and order.count("Y") == 2:
        group = 2
    else:
        group = 1
    names = "YUV" if "Y" in order else [c for c in order if c in "RGB"]
    for c in names:
        at = [i for i, k in enumerate(order) if k == c]
        width = w if len(at) == group else w // group
        out[c] = (width, h, {(x, y): o + y * s + ((x // len(at)) * len(order) + at[x % len(at)]) * item
                             for x in range(width) for y in range(h)})
    return out


def codec(name):
    """struct code of a stored item"""
    if name in F.AUDIO:
        return {"S16": "<h", "S32": "<i", "FLOAT": "<f", "DOUBLE": "<d"}[F.AUDIO[name][2]]
    return {1: "<B", 2: "<H", 4: "<I"}[item_size(name)]


def audio_places(name, channels, samples):
    return {c: (samples, 1, {(s, 0): F.audio_position(name, channels, samples, c, s) for s in range(samples)})
            for c in range(channels)}


def span(a):
    lo = hi = a.__array_interface__["data"][0]
    for n, s in zip(a.shape, a.strides):
        if n == 0:
            return None
        if s < 0:
            lo += (n - 1) * s
        else:
            hi += (n - 1) * s
    return lo, hi + a.itemsize


def inside(view, data, what):
    s = span(view)
    if s is None:
        return
    d = span(data)
    if d is None or s[0] < d[0] or s[1] > d[1]:
        raise Violation("%s reaches from byte %d to %d of a buffer of %d" % (what, s[0] - (d or s)[0], s[1] - (d or s)[0],
                                                                            data.nbytes))


class Facade:
    """Named views of a grain, as (view, x, y) access."""

    def __init__(self, g, name):
        self.g, self.name = g, name
        self.audio = name in F.AUDIO

    def view(self, c):
        if self.audio:
            return self.g.channel_data[c]
        return getattr(self.g.component_data, c)

    def all(self):
        return self.g.channel_data if self.audio else self.g.component_data

    @staticmethod
    def index(view, x, y):
        return (x, y) if view.ndim == 2 else (x,)


class C16(Check):
    id = "C16"
    rule = "two executions differ when the format, size, padding, route to the grain or kind of buffer differ"
    assumptions = ["24-bit audio is presented widened to 32 bits, which cannot be the same memory: for it the views hold "
                   "256 times the sample, and the buffer is never altered through them",
                   "writing is only possible where the supplied buffer is writeable",
                   "metadata describing components is consistent (stride at least a line, length at least up to the end of the last line) "
                   "and aligned to the item size"]

    def cases(self):
        n, m = (6, 5) if self.thorough else (4, 3)
        for name in VIDEO:
            for w in range(n + 1):
                for h in range(m + 1):
                    for pad in ((0, 1, 3, -1, -4) if self.thorough else (0, 3, -2)):
                        for kind in KINDS:
                            for route in ROUTES:
                                if not self.sensible(pad, kind, route):
                                    continue
                                if not self.thorough and route not in ("arguments", "metadata") and \
                                        (kind not in ("none", "bytearray", "lazy") or (w, h) != (3, 2)):
                                    continue
                                yield "video", {"name": name, "w": w, "h": h, "pad": pad, "kind": kind, "route": route}
                    yield "short", {"name": name, "w": w, "h": h}
        for w in range(0, 100, 1 if self.thorough else 7):
            yield "v210", {"w": w, "h": 2}
        n, m = (5, 6) if self.thorough else (4, 4)
        for name in F.AUDIO:
            for c in range(n + 1):
                for s in range(m + 1):
                    for kind in KINDS:
                        for route in ROUTES:
                            if self.sensible(0, kind, route):
                                yield "audio", {"name": name, "w": c, "h": s, "kind": kind, "route": route}
                    yield "short", {"name": name, "w": c, "h": s}

    @staticmethod
    def sensible(pad, kind, route):
        if kind == "none":
            return route == "arguments" and not pad
        return not (pad and route == "arguments")

    # -- construction -----------------------------------------------------------------------------------------------
    def make(self, name, w, h, pad, kind, route, content=None):
        """(array grain, supplied buffer, content)"""
        audio = name in F.AUDIO
        if audio:
            size = F.audio_size(name, w, h)
            comps = None
            args = dict(cog_audio_format=CogAudioFormat[name], channels=w, samples=h, **COMMON)
            B, N = bg.AudioGrain, ng.AudioGrain
        else:
            comps, size = layout(name, w, h, pad)
            args = dict(cog_frame_format=CogFrameFormat[name], width=w, height=h, **COMMON)
            B, N = bg.VideoGrain, ng.VideoGrain
        if content is None:
            content = content_of(size) if kind != "none" else bytes(size)
        data = supply(kind, content)
        if route == "arguments":
            return N(data=data, **args), data, content, comps

        def meta():
            m = deepcopy(B(**args).meta)
            if not audio:
                m["grain"]["cog_frame"]["components"] = [
                    dict(offset=o, stride=s, width=cw, height=ch, length=ln) for o, s, cw, ch, ln in comps]
            return m

        async def fetch():
            return data
        if route == "metadata":
            g = N(meta=meta(), data=data)
        elif route == "positional":
            g = N(meta(), data)
        elif route == "grain":
            b = B(meta=meta(), data=data)
            g = N(grain=b)
            if g.meta is not b.meta:
                raise Violation("the array grain does not share the grain's metadata")
        elif route == "setter":
            g = N(meta=meta(), data=bytes(size))
            g.data = data
        elif route in ("await", "context"):
            g = N(meta=meta(), data=bytes(size))
            g.data = fetch()
            if g.data is not None or list(Facade(g, name).all()):
                raise Violation("array views of data that has not been loaded")
            if route == "await":
                got = await_(g)
            else:
                async def go():
                    async with g as gg:
                        return gg.data
                got = asyncio.run(go())
            if got is not g.data:
                raise Violation("awaiting the grain gave something else than its data")
        elif route == "grain await":
            b = B(meta=meta(), data=bytes(size))
            b.data = fetch()
            g = N(grain=b)
            if g.data is not None or list(Facade(g, name).all()):
                raise Violation("array views of data that has not been loaded")
            await_(g)
        return g, data, content, comps

    # -- the oracle -------------------------------------------------------------------------------------------------
    def check_views(self, g, name, places, content):
        """The views of g hold what content has at the places."""
        f = Facade(g, name)
        views = f.all()
        if len(views) != len(places):
            raise Violation("%d views of %d components" % (len(views), len(places)))
        wide = name.startswith("S24")
        for i, (c, (cw, ch, where)) in enumerate(places.items()):
            v = f.view(c)
            if views[i] is not v and not (views[i] == v).all():
                raise Violation("view %d is not %s" % (i, c))
            if v.shape != ((cw, ch) if not f.audio else (cw,)):
                raise Violation("view %s has shape %r, expected %r" % (c, v.shape, (cw, ch)))
            if wide:
                if v.dtype != np.int32:
                    raise Violation("24-bit samples presented as %s" % v.dtype)
            else:
                inside(v, g.data, "view %s" % c)
                if span(v) is not None and not np.shares_memory(v, g.data):
                    raise Violation("view %s is not the memory of the grain's data" % c)
                code = codec(name)
            for (x, y), at in where.items():
                if wide:
                    want = int.from_bytes(content[at:at + 3], "little", signed=True) << 8
                    got = int(v[f.index(v, x, y)])
                else:
                    n = struct.calcsize(code)
                    want = content[at:at + n]
                    got = v[f.index(v, x, y)].tobytes()
                if got != want:
                    raise Violation("view %s at %d,%d is %r, the buffer has %r at byte %d" % (c, x, y, got, want, at))

    @staticmethod
    def alike(g, o, what):
        if (g == o) is not True or (o == g) is not True or (g != o) is not False or (o != g) is not False:
            raise Violation("the grain is not equal to %s with the same metadata and octets" % what)

    @staticmethod
    def unlike(g, o, what):
        if (g == o) is not False or (o == g) is not False or (g != o) is not True or (o != g) is not True:
            raise Violation("the grain is equal to %s" % what)

    def common(self, name, places, g, data, content, kind):
        if bytes(g) != content or g.length != len(content) or g.data.nbytes != len(content) or \
                g.data.tobytes() != content:
            raise Violation("the grain's data is %r, supplied %r" % (bytes(g)[:40], content[:40]))
        self.check_views(g, name, places, content)
        if data is not None and bytes(data) != content:
            raise Violation("the supplied buffer was altered")
        f = Facade(g, name)
        wide = name.startswith("S24")
        raw = g.data.view(np.uint8) if g.data.size else None
        now = bytearray(content)
        if len(content) and raw.flags.writeable != (kind in WRITEABLE):
            raise Violation("a buffer supplied as %s is %s" % (kind, "writeable" if raw.flags.writeable else "read-only"))
        if kind in WRITEABLE and not wide:
            code = codec(name)
            n = struct.calcsize(code)
            k = 0
            # through the view
            for c, (cw, ch, where) in places.items():
                v = f.view(c)
                for (x, y), at in where.items():
                    k += 1
                    new = bytes((b + 1 + k) % 128 for b in now[at:at + n])
                    v[f.index(v, x, y)] = struct.unpack(code, new)[0]
                    now[at:at + n] = new
                    if g.data.tobytes() != now:
                        raise Violation("writing %s at %d,%d changed the buffer to %r, expected %r"
                                        % (c, x, y, g.data.tobytes()[:60], bytes(now)[:60]))
                    if data is not None and bytes(data) != now:
                        raise Violation("writing through a view did not reach the supplied buffer")
            # through the buffer
            other = supply_view(data) if data is not None else raw
            for i in range(len(now)):
                for target in ((raw,) if data is None or i % 2 else (other,)):
                    now[i] = (now[i] + 3) % 128
                    target[i] = now[i]
            if len(now):
                self.check_views(g, name, places, bytes(now))
                if bytes(g) != now:
                    raise Violation("bytes of the grain do not follow its buffer")
        elif wide and len(content) and places:
            c = next(iter(places))
            v = f.view(c)
            if v.size:
                was = v.copy()
                if v.flags.writeable:
                    v[...] = 5 << 8
                if bytes(g) != content or (data is not None and bytes(data) != content):
                    raise Violation("writing to widened samples altered the buffer")
                if v.flags.writeable:
                    v[...] = was
        # copies
        before = g.data.tobytes()
        d, s = deepcopy(g), copy(g)
        p = pickle.loads(pickle.dumps(g))
        for what, o in (("deep copy", d), ("copy", s), ("pickled copy", p)):
            if type(o) is not type(g) or o.data.tobytes() != before or o.data.dtype != g.data.dtype:
                raise Violation("a %s differs" % what)
            self.check_views(o, name, places, before)
            self.alike(g, o, what)
        b = type(g).__mro__[1](meta=deepcopy(g.meta), data=before)
        self.alike(g, b, "a grain of bytes")
        self.alike(g, (deepcopy(g.meta), before), "a pair of metadata and bytes")
        self.alike(g, g, "itself")
        b.creation_timestamp = Timestamp(9, 9)
        self.unlike(g, b, "a grain with other metadata")
        for at in range(0, len(before), max(1, len(before) // 3)):
            changed = before[:at] + bytes([before[at] ^ 1]) + before[at + 1:]
            for c in (type(g), type(g).__mro__[1]):
                self.unlike(g, c(meta=deepcopy(g.meta), data=changed), "a grain with another octet %d" % at)
            self.unlike(g, (g.meta, changed), "a pair with another octet %d" % at)
        if before:
            self.unlike(g, (g.meta, None), "a pair without data")
        for x in (None, before, "", (), (g.meta,), (g.meta, before, 1)):
            self.unlike(g, x, "%r" % (x,))
        if g.data.size:
            if np.shares_memory(d.data, g.data):
                raise Violation("a deep copy shares memory")
            if np.shares_memory(p.data, g.data):
                raise Violation("a pickled copy shares memory")
            if not np.shares_memory(s.data, g.data):
                raise Violation("a shallow copy does not share memory")
            if not wide:
                for a in Facade(d, name).all():
                    for b in Facade(g, name).all():
                        if a.size and b.size and np.shares_memory(a, b):
                            raise Violation("a view of a deep copy shares memory")
            if not d.data.flags.writeable:
                raise Violation("a deep copy is not writeable")
            d.data.view(np.uint8)[:] = 7
            if g.data.tobytes() != before:
                raise Violation("writing to a deep copy altered the original")
            self.check_views(g, name, places, before)
        # replacing the data replaces the views
        fresh = content_of(len(content), 5)
        old = f.all()
        g.data = bytearray(fresh)
        self.check_views(g, name, places, fresh)
        if bytes(g) != fresh or s.data.tobytes() != before:
            raise Violation("replacing the data of a grain altered its copy")
        if not wide and g.data.size:
            for v in old:
                if v.size and np.shares_memory(v, g.data):
                    raise Violation("old views follow new data")
        g.data = None
        if g.data is not None or list(Facade(g, name).all()) or g.length != 0:
            raise Violation("views of data that was removed")

    def video(self, name, w, h, pad, kind, route):
        g, data, content, comps = self.make(name, w, h, pad, kind, route)
        if [(c.offset, c.stride, c.width, c.height, c.length) for c in g.components] != comps:
            raise Violation("the grain's components are not those described")
        self.common(name, places(name, w, h, comps), g, data, content, kind)
        return name, w, h, pad, kind, route

    def audio(self, name, w, h, kind, route):
        g, data, content, comps = self.make(name, w, h, 0, kind, route)
        self.common(name, audio_places(name, w, h), g, data, content, kind)
        return name, w, h, kind, route

    def v210(self, w, h):
        size = F.v210_stride(w) * h
        b = bytearray(content_of(size))
        g = ng.VideoGrain(cog_frame_format=CogFrameFormat.v210, width=w, height=h, data=b, **COMMON)
        if list(g.component_data) or g.data.tobytes() != b or (size and not np.shares_memory(
                g.data, np.frombuffer(b, dtype=np.uint8))):
            raise Violation("v210 data is not the supplied buffer")
        if g.data.dtype != np.uint32:
            raise Violation("v210 words presented as %s" % g.data.dtype)
        return w

    def short(self, name, w, h):
        """Every truncation of the buffer: no view may reach outside it."""
        audio = name in F.AUDIO
        full = F.audio_size(name, w, h) if audio else F.components(name, w, h)[1]
        unit = {"S24_PAIRS": 3, "S24_INTERLEAVED": 3}.get(name) or (F.AUDIO[name][0] if audio else item_size(name))
        key = []
        for size in range(0, full + 3 * unit, unit):
            args = dict(cog_audio_format=CogAudioFormat[name], channels=w, samples=h) if audio else \
                dict(cog_frame_format=CogFrameFormat[name], width=w, height=h)
            for route in range(2):
                # surrounded by other memory, which must not be visible
                hull = np.full(full + size + 8 * unit, 0xEE, dtype=np.uint8)
                data = hull[4 * unit:4 * unit + size]
                data[:] = 1
                cls = ng.AudioGrain if audio else ng.VideoGrain
                if route == 0:
                    g = cls(data=data, **args, **COMMON)
                else:
                    g = cls(data=bytes(full), **args, **COMMON)
                    g.data = data
                if g.data.nbytes != size:
                    raise Violation("data of %d bytes for a supply of %d" % (g.data.nbytes, size))
                f = Facade(g, name)
                views = f.all()
                for i, v in enumerate(views):
                    if not name.startswith("S24"):
                        inside(v, g.data, "%s %dx%d with %d of %d bytes: view %d" % (name, w, h, size, full, i))
                if size >= full and len(views) != (w if audio else 3):
                    raise Violation("%d views of a buffer that is long enough" % len(views))
                if size < full and audio and any(len(v) > h for v in views):
                    raise Violation("views longer than the grain")
                key.append(len(views))
        return name, w, h, tuple(key)

    # -- histories ----------------------------------------------------------------------------------------------------
    HISTORY = ["U8_444", "S16_422_10BIT", "S32_420", "U8_444_RGB", "UYVY", "YUYV", "v216", "RGB", "BGRA", "xBGR", "AYUV",
               "S16_PLANES", "S16_PAIRS", "S32_INTERLEAVED", "S24_PLANES", "S24_PAIRS", "DOUBLE_INTERLEAVED"]

    def build(self, config, ops):
        name, w, h = config["name"], config["w"], config["h"]
        g, data, content, comps = self.make(name, w, h, 0, "bytearray", "arguments")
        where = audio_places(name, w, h) if name in F.AUDIO else places(name, w, h, comps)
        grains, buffers, of = [g], [bytearray(content)], [0]
        wide = name.startswith("S24")
        for op in ops:
            op = tuple(op)
            if op[0] == "view":
                f = Facade(grains[op[1]], name)
                c = list(where)[op[2]]
                spots = list(where[c][2].items())
                (x, y), at = spots[op[3]]
                code = codec(name)
                new = bytes((b * 3 + 1) % 100 for b in buffers[of[op[1]]][at:at + struct.calcsize(code)])
                v = f.view(c)
                v[f.index(v, x, y)] = struct.unpack(code, new)[0]
                buffers[of[op[1]]][at:at + len(new)] = new
            elif op[0] == "byte":
                b = buffers[of[op[1]]]
                i = 0 if op[2] == 0 else len(b) - 1
                b[i] = (b[i] * 3 + 1) % 100
                grains[op[1]].data.view(np.uint8)[i] = b[i]
            elif op[0] == "set":
                fresh = content_of(len(content), 9)
                grains[op[1]].data = bytearray(fresh)
                buffers.append(bytearray(fresh))
                of[op[1]] = len(buffers) - 1
            elif op[0] == "hand":
                # one grain is given the array of another
                grains[op[2]].data = grains[op[1]].data
                of[op[2]] = of[op[1]]
            elif op[0] == "deep":
                grains.append(deepcopy(grains[op[1]]))
                buffers.append(bytearray(buffers[of[op[1]]]))
                of.append(len(buffers) - 1)
            elif op[0] == "pickle":
                grains.append(pickle.loads(pickle.dumps(grains[op[1]])))
                buffers.append(bytearray(buffers[of[op[1]]]))
                of.append(len(buffers) - 1)
            elif op[0] == "shallow":
                grains.append(copy(grains[op[1]]))
                of.append(of[op[1]])
            elif op[0] == "wrap":
                gg = grains[op[1]]
                grains.append(type(gg)(grain=gg))
                of.append(of[op[1]])
            for i, gg in enumerate(grains):
                want = bytes(buffers[of[i]])
                if gg.data.tobytes() != want:
                    raise Violation("grain %d has data %r, expected %r" % (i, gg.data.tobytes()[:40], want[:40]))
                if not wide:
                    self.check_views(gg, name, where, want)
        return grains, buffers, of

    @staticmethod
    def canon(r):
        grains, buffers, of = r
        order = {}
        return len(grains), [(order.setdefault(o, len(order)), bytes(buffers[o])) for o in of]

    def alphabet(self, config, hist):
        n = 1 + sum(1 for o in hist if o[0] in ("deep", "pickle", "shallow", "wrap"))
        wide = config["name"].startswith("S24")
        ops = []
        for i in range(n):
            if not wide:
                ops += [("view", i, c, e) for c in range(2) for e in (0, -1)]
            ops += [("byte", i, 0), ("byte", i, 1), ("set", i)]
            if n < 3:
                ops += [("deep", i), ("pickle", i), ("shallow", i), ("wrap", i)]
            ops += [("hand", i, j) for j in range(n) if j != i]
        return ops

    def explore(self, part, nparts):
        super().explore(part, nparts)
        shift = 0
        for name in self.HISTORY:
            if self.enough():
                return
            config = {"name": name, "w": 2, "h": 2}
            self.bfs("history", config, self.alphabet, self.build, self.canon, 4 if self.thorough else 2, part, nparts,
                     shift)
            shift += 3

    def run(self, kind, case):
        if kind == "history":
            self.build(case["config"], [tuple(o) for o in case["ops"]])
            return None
        return getattr(self, kind)(**case)


def supply_view(data):
    return data if not isinstance(data, np.ndarray) else data.view(np.uint8)


CHECK = C16
