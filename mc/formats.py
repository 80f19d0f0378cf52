"""What each raw format is, written from its name and definition and not from the library's bit fields.

Planar video: (bytes per value, horizontal subsampling, vertical subsampling, active bits, "YUV" | "RGB").
Packed video: (bytes per group of pixels, pixels in the group, granularity of a line in bytes).
"""
PLANAR = {}
for _bits, _size, _names in ((8, 1, "U8"), (10, 2, "S16_10BIT"), (12, 2, "S16_12BIT"), (16, 2, "S16"), (32, 4, "S32")):
    for _sub, _h, _v in (("444", 1, 1), ("422", 2, 1), ("420", 2, 2)):
        _base = _names.split("_")
        _n = _base[0] + "_" + _sub + ("_" + _base[1] if len(_base) > 1 else "")
        PLANAR[_n] = (_size, _h, _v, _bits, "YUV")
        if _sub == "444":
            PLANAR[_n + "_RGB"] = (_size, 1, 1, _bits, "RGB")
# one component of the size of the picture is all their names promise
ALPHA = {"ALPHA_U8_1BIT": 1, "ALPHA_U8": 1, "ALPHA_S16_10BIT": 2, "ALPHA_S16_12BIT": 2, "ALPHA_S16": 2, "ALPHA_S32": 4}
# name: (bytes per pixel, order of the components in a pixel or pixel pair)
PACKED = {
    "YUYV": (2, "YUYV"), "UYVY": (2, "UYVY"), "AYUV": (4, "AYUV"), "RGB": (3, "RGB"), "RGBx": (4, "RGBx"),
    "xRGB": (4, "xRGB"), "BGRx": (4, "BGRx"), "xBGR": (4, "xBGR"), "RGBA": (4, "RGBA"), "ARGB": (4, "ARGB"),
    "BGRA": (4, "BGRA"), "ABGR": (4, "ABGR"), "v216": (4, "UYVY"), "v210": (None, "v210"),
}
COMPRESSED = ["MJPEG", "DNxHD", "MPEG2", "AVCI", "H264", "DV", "D10", "VC2", "VP8", "H265"]
OTHER = ["UNKNOWN", "INVALID"]


def v210_stride(w):
    return -(-w // 48) * 128


def components(name, w, h):
    """[(offset, stride, width, height, length)] of the components, and the total size."""
    out = []
    if name in PLANAR:
        size, hs, vs, _, _ = PLANAR[name]
        at = 0
        for i in range(3):
            cw, chh = (w, h) if i == 0 else (w // hs, h // vs)
            out.append((at, cw * size, cw, chh, cw * chh * size))
            at += cw * chh * size
        return out, at
    if name == "v210":
        n = v210_stride(w)
    else:
        n = PACKED[name][0] * w
    return [(0, n, w, h, n * h)], n * h


# audio: (bytes per stored sample, arrangement, "int16" ...)
AUDIO = {}
for _t, _size in (("S16", 2), ("S24", 3), ("S32", 4), ("FLOAT", 4), ("DOUBLE", 8)):
    for _a in ("PLANES", "PAIRS", "INTERLEAVED"):
        AUDIO[_t + "_" + _a] = (4 if (_t, _a) == ("S24", "PLANES") else _size, _a, _t)


def audio_size(name, channels, samples):
    size, arrangement, _ = AUDIO[name]
    if arrangement == "PAIRS":
        channels = -(-channels // 2) * 2
    return size * channels * samples


def audio_position(name, channels, samples, channel, sample):
    """Byte offset of a sample of a channel."""
    size, arrangement, _ = AUDIO[name]
    if arrangement == "PLANES":
        return (channel * samples + sample) * size
    if arrangement == "INTERLEAVED":
        return (sample * channels + channel) * size
    return ((channel // 2) * 2 * samples + sample * 2 + channel % 2) * size


# -- pixels: {component: integer array [row, column]} to and from the bytes of a picture ------------------------------
def subsampling(name):
    """(horizontal, vertical) subsampling, depth and kind of a format."""
    if name in PLANAR:
        size, hs, vs, bits, kind = PLANAR[name]
        return hs, vs, bits, kind
    if name == "v210":
        return 2, 1, 10, "YUV"
    if name == "v216":
        return 2, 1, 16, "YUV"
    if name in ("UYVY", "YUYV"):
        return 2, 1, 8, "YUV"
    return 1, 1, 8, "YUV" if name == "AYUV" else "RGB"


def shapes(name, w, h):
    """{component: (rows, columns)}"""
    hs, vs, _, kind = subsampling(name)
    return {c: ((h, w) if kind == "RGB" or c == "Y" else (h // vs, w // hs)) for c in kind}


def encode(name, w, h, comps):
    import numpy as np
    hs, vs, bits, kind = subsampling(name)
    if name in PLANAR:
        dt = "<u%d" % PLANAR[name][0]
        return b"".join(np.ascontiguousarray(comps[c]).astype(dt).tobytes() for c in kind)
    if name == "v210":
        out = bytearray()
        seq = _sequence(w, h, comps)
        for y in range(h):
            line = seq[y]
            words = v210_stride(w) // 4
            line = np.concatenate([line, np.zeros(words * 3 - len(line), dtype=np.int64)]).reshape(words, 3)
            out += (line[:, 0] + (line[:, 1] << 10) + (line[:, 2] << 20)).astype("<u4").tobytes()
        return bytes(out)
    size = 2 if name == "v216" else 1
    order = PACKED[name][1]
    group = 2 if order.count("Y") == 2 else 1
    width = len(order) * w // group
    a = np.zeros((h, width), dtype=np.int64)
    for c in kind:
        at = [i for i, k in enumerate(order) if k == c]
        for j, i in enumerate(at):
            part = a[:, i::len(order)]
            src = comps[c][:, j::len(at)]
            n = min(part.shape[1], src.shape[1])
            part[:, :n] = src[:, :n]
    for k in "xA":
        if k in order and group == 1:
            a[:, order.index(k)::len(order)] = 0x5A
    return a.astype("<u%d" % size).tobytes()


def _sequence(w, h, comps):
    """rows of U Y V Y U Y V Y ..."""
    import numpy as np
    n = -(-w // 2) * 4
    seq = np.zeros((h, n), dtype=np.int64)
    cw = w // 2
    seq[:, 0:cw * 4:4] = comps["U"]
    seq[:, 2:2 + cw * 4:4][:, :cw] = comps["V"]
    for x in range(2):
        part = comps["Y"][:, x::2]
        seq[:, 1 + 2 * x::4][:, :part.shape[1]] = part
    return seq


def decode(name, w, h, data):
    import numpy as np
    kind = subsampling(name)[3]
    sh = shapes(name, w, h)
    if name in PLANAR:
        out, at = {}, 0
        size = PLANAR[name][0]
        for c in kind:
            n = sh[c][0] * sh[c][1]
            out[c] = np.frombuffer(data, dtype="<u%d" % size, count=n, offset=at).astype(np.int64).reshape(sh[c])
            at += n * size
        return out
    if name == "v210":
        words = np.frombuffer(data, dtype="<u4").astype(np.int64).reshape(h, v210_stride(w) // 4)
        seq = np.stack([words & 1023, (words >> 10) & 1023, (words >> 20) & 1023], axis=2).reshape(h, -1)
        y = np.zeros((h, w), dtype=np.int64)
        y[:, 0::2] = seq[:, 1::4][:, :-(-w // 2)]
        y[:, 1::2] = seq[:, 3::4][:, :w // 2]
        return {"Y": y, "U": seq[:, 0::4][:, :w // 2], "V": seq[:, 2::4][:, :w // 2]}
    size = 2 if name == "v216" else 1
    order = PACKED[name][1]
    group = 2 if order.count("Y") == 2 else 1
    a = np.frombuffer(data, dtype="<u%d" % size).astype(np.int64).reshape(h, len(order) * w // group)
    out = {}
    for c in kind:
        at = [i for i, k in enumerate(order) if k == c]
        out[c] = np.zeros(sh[c], dtype=np.int64)
        for j, i in enumerate(at):
            part = out[c][:, j::len(at)]
            part[:] = a[:, i::len(order)][:, :part.shape[1]]
    return out
