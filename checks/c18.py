"""C18: comparing two grains."""
import itertools
import operator
import struct
from copy import copy, deepcopy
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import TimeOffset, Timestamp

from mc import formats as F
from mc.core import Check, Violation, short
from mediagrains import grains as bg
from mediagrains import numpy as ng
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.comparison import compare_grain, compute_psnr
from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include, PSNR

U = [UUID(int=i) for i in range(5)]
TL = [{"tag": "tl", "timelabel": {"frames_since_midnight": 7, "frame_rate_numerator": 25,
                                  "frame_rate_denominator": 1, "drop_frame": False}}]


def tl(tag="tl", **kw):
    return {"tag": tag, "timelabel": dict(TL[0]["timelabel"], **kw)}


TLS = [[], [tl()], [tl("x")], [tl(frames_since_midnight=8)], [tl(frame_rate_numerator=50)],
       [tl(frame_rate_denominator=2)], [tl(drop_frame=True)], [tl(), tl()], [tl(), tl("x")], [tl("x"), tl()]]
EVS = [[], [{"path": "/a"}], [{"path": "/b"}], [{"path": "/a", "pre": 1}], [{"path": "/a", "post": 1}],
       [{"path": "/a", "pre": 1, "post": 2}], [{"path": "/a", "pre": 2, "post": 1}],
       [{"path": "/a", "post": {"k": [1, {"z": None}]}}], [{"path": "/a", "post": {"k": [1, {"z": 0}]}}],
       [{"path": "/a"}, {"path": "/b"}], [{"path": "/b"}, {"path": "/a"}], [{"path": "/a", "post": "1"}],
       [{"path": "/a", "pre": None}], [{"path": "/a", "pre": None, "post": None}]]
UOS = [[], [0], [1], [0, 5], [0, 6], [1, 5], [0, 5, 9], [5, 0], [0, 0]]

# compared field -> (value in the first grain, other values)
COMMON = {
    "src_id": (U[1], U[2], UUID(int=1 << 127 | 1)), "flow_id": (U[3], U[4], U[1]),
    "rate": (Fraction(25), Fraction(30000, 1001), Fraction(0)),
    "duration": (Fraction(1, 25), Fraction(1001, 30000), Fraction(1, 50)),
    "origin_timestamp": (Timestamp(10, 5), Timestamp(10, 6), Timestamp(9, 5)),
    "sync_timestamp": (Timestamp(20, 5), Timestamp(20, 4), Timestamp(0, 0)),
    "creation_timestamp": (Timestamp(30, 5), Timestamp(30, 6), Timestamp(0, 5)),
    "timelabels": (TLS[1], TLS[3], TLS[0], TLS[8]),
}
FIELDS = {
    "empty": dict(COMMON, data=(None, b"x")),
    "event": dict(COMMON, event_type=("urn:a", "urn:b", ""), topic=("/t", "/u", ""),
                  event_data=(EVS[1], EVS[2], EVS[5], EVS[0])),
    "audio": dict(COMMON, cog_audio_format=(CogAudioFormat.S16_PLANES, CogAudioFormat.S16_PAIRS,
                                            CogAudioFormat.FLOAT_PLANES),
                  samples=(4, 5, 0), channels=(2, 1, 3), sample_rate=(48000, 44100, 0),
                  data=(bytes(range(16)), bytes(range(15)) + b"\0", bytes(range(14)), None)),
    "coded_audio": dict(COMMON, cog_audio_format=(CogAudioFormat.AAC, CogAudioFormat.OPUS, CogAudioFormat.MP1),
                        samples=(1024, 1023, 0), channels=(2, 1, 0), sample_rate=(48000, 44100, 0),
                        priming=(0, 1, 2), remainder=(0, 1, 2), data=(b"abcd", b"abce", b"abc", None)),
    "video": dict(COMMON, cog_frame_format=(CogFrameFormat.U8_444, CogFrameFormat.U8_444_RGB, CogFrameFormat.UYVY),
                  width=(4, 2, 5), height=(2, 4, 0),
                  cog_frame_layout=(CogFrameLayout.FULL_FRAME, CogFrameLayout.MIXED_FIELDS, CogFrameLayout.UNKNOWN),
                  data=(bytes(range(24)), bytes(range(23)) + b"\0", bytes(range(25)), None)),
    "coded_video": dict(COMMON, cog_frame_format=(CogFrameFormat.H264, CogFrameFormat.VC2, CogFrameFormat.MJPEG),
                        coded_width=(1920, 1919, 0), coded_height=(1088, 1080, 0), origin_width=(1920, 1919, 0),
                        origin_height=(1080, 1088, 0), is_key_frame=(True, False, None), temporal_offset=(0, None, 1),
                        cog_frame_layout=(CogFrameLayout.FULL_FRAME, CogFrameLayout.MIXED_FIELDS,
                                          CogFrameLayout.UNKNOWN),
                        unit_offsets=([0, 2], [0, 3], [], [0, 2, 3]), data=(b"abcd", b"abce", b"abc", None)),
}
CLS = {"empty": lambda **kw: bg.GrainFactory(**kw), "event": bg.EventGrain, "audio": bg.AudioGrain,
       "coded_audio": bg.CodedAudioGrain, "video": bg.VideoGrain, "coded_video": bg.CodedVideoGrain}
ALIAS = {"src_id": "source_id", "cog_frame_format": "format", "cog_audio_format": "format",
         "cog_frame_layout": "layout"}
FORMAT = {"audio": "cog_audio_format", "coded_audio": "cog_audio_format", "video": "cog_frame_format",
          "coded_video": "cog_frame_format"}
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
LATER = ("timelabels", "event_data", "data")


def model(t, changes=()):
    m = {k: v[0] for k, v in FIELDS[t].items()}
    m.update(changes)
    return m


def make(t, m):
    g = CLS[t](**{k: v for k, v in m.items() if k not in LATER})
    for k in LATER:
        if k in m:
            setattr(g, k, deepcopy(m[k]))
    return g


def state(g):
    return repr(g.meta), None if g.data is None else bytes(g.data), g.length


def options(spec):
    out = []
    for o in spec:
        if o[0] == "exclude":
            out.append(getattr(Exclude, o[1]))
        elif o[0] == "include":
            out.append(getattr(Include, o[1]))
        elif o[0] == "metadata":
            out.append(CompareOnlyMetadata)
    return out


class C18(Check):
    id = "C18"
    rule = "two executions differ when the grains' types, the fields which differ, or the options differ"
    assumptions = ["creation timestamps count only when an option includes or constrains them, as documented",
                   "payloads in different formats or of different types are not compared, nor is the length of an "
                   "event grain of which an event field is excluded"]

    # ------------------------------------------------------------------------------------------------------- cases
    def cases(self):
        for t in FIELDS:
            names = list(FIELDS[t])
            alts = {k: list(range(1, len(FIELDS[t][k]))) for k in names}
            yield "fields", {"t": t, "changes": []}
            for k in names:
                for i in alts[k]:
                    yield "fields", {"t": t, "changes": [[k, i]]}
            for n in (2, 3) if self.thorough else (2,):
                for ks in itertools.combinations(names, n):
                    for v in itertools.product(*[alts[k] if self.thorough and n == 2 else alts[k][:1] for k in ks]):
                        yield "fields", {"t": t, "changes": [[k, i] for k, i in zip(ks, v)]}
        for a in FIELDS:
            for b in FIELDS:
                if a != b:
                    for k in [None] + list(COMMON):
                        yield "types", {"a": a, "b": b, "change": k}
        for name in list(F.PLANAR) + list(F.PACKED) + list(F.COMPRESSED):
            yield "payload", {"t": "video", "format": name}
        for name in list(F.AUDIO):
            yield "payload", {"t": "audio", "format": name}
        for t in ("coded_video", "coded_audio", "empty"):
            yield "payload", {"t": t, "format": None}
        for t in FIELDS:
            for i in range(len(TLS)):
                yield "nested", {"t": t, "field": "timelabels", "i": i}
        for i in range(len(EVS)):
            yield "nested", {"t": "event", "field": "event_data", "i": i}
        for i in range(len(UOS)):
            yield "nested", {"t": "coded_video", "field": "unit_offsets", "i": i}
        for t in FIELDS:
            for k, v in FIELDS[t].items():
                if k.endswith("timestamp"):
                    yield "expected", {"t": t, "field": k}
                elif isinstance(v[0], (int, Fraction)) and k not in ALIAS and k != "is_key_frame":
                    yield "expected", {"t": t, "field": k}
        for t in ("video", "audio"):
            for fmt in (("U8_444", "UYVY", "S16_422_10BIT", "RGB", "v210", "H264") if t == "video" else
                        ("S16_PLANES", "S24_PAIRS", "FLOAT_INTERLEAVED")):
                for cls in ("bytes", "numpy"):
                    if cls == "bytes" or fmt not in ("H264",):
                        yield "psnr", {"t": t, "fmt": fmt, "cls": cls}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    # ------------------------------------------------------------------------------------------------------ oracle
    def compare(self, a, b, opts, what):
        before = state(a), state(b)
        c = compare_grain(a, b, *opts)
        self.stats.transitions += 1
        if (state(a), state(b)) != before:
            raise Violation("%s: comparing altered a grain" % what)
        return c

    def expect(self, t, ma, mb, a, b, spec, what, tb=None, text=False):
        """ma and mb are the values of the fields of the two grains, of types t and tb"""
        tb = tb or t
        names = {o[1] for o in spec if o[0] == "exclude"} | ({"data"} if ["metadata"] in spec else set())
        fields = [k for k in ma if k in COMMON or t == tb]
        differ = {k for k in fields if ma[k] != mb[k]}
        if a.length != b.length:
            differ.add("length")
        if t != tb:
            differ.add("grain_type")
        excused = {k for k in fields + ["length", "grain_type"] if k in names or ALIAS.get(k) in names}
        if ["include", "creation_timestamp"] not in spec or "creation_timestamp" in names:
            excused.add("creation_timestamp")
        if t == tb == "event" and excused & {"event_type", "topic", "event_data"}:
            excused.add("length")
        if t != tb or (t in FORMAT and FORMAT[t] in differ) or "data" in names:
            differ.discard("data")
            excused.add("data")
        what = "%s with options %r" % (what, spec)
        for x, y, tag in ((a, b, ""), (b, a, " (exchanged)")):
            c = self.compare(x, y, options(spec), what)
            if bool(c) != (not differ - excused):
                raise Violation("%s%s is %s, the grains differ in %s of which %s is excused: %s" % (
                    what, tag, bool(c), sorted(differ), sorted(differ & excused), short(c.msg, 400)))
            failing = set(c.failing_attributes())
            if failing - ({"data"} & excused) != differ - ({"data"} & excused):
                raise Violation("%s%s: failing attributes are %s, the grains differ in %s" % (
                    what, tag, sorted(failing), sorted(differ)))
            for k in fields + ["length", "grain_type"]:
                if k == "data" and t != tb:
                    continue
                child = getattr(c, k)
                if k != "data" or "data" not in excused:
                    if bool(child) != (k not in differ):
                        raise Violation("%s%s: comparison of %s is %s" % (what, tag, k, bool(child)))
                if child.excluded() != (k in excused):
                    raise Violation("%s%s: comparison of %s %s excluded" % (
                        what, tag, k, "is" if child.excluded() else "is not"))
            if text:
                str(c), repr(c), c.msg
                for k in differ - excused:
                    if "❌" not in str(c):
                        raise Violation("%s%s: no failure is shown" % (what, tag))
                try:
                    c.no_such_attribute
                except AttributeError:
                    pass
                else:
                    raise Violation("a result has an attribute which grains do not")
        return tuple(sorted(differ)), tuple(sorted(excused))

    def specs(self, t, pairs, plain=True):
        names = [k for k in FIELDS[t] if k != "data"] + ["data", "length", "grain_type"]
        names += sorted({ALIAS[k] for k in FIELDS[t] if k in ALIAS}) + ["no_such_field"]
        inc = ["include", "creation_timestamp"]
        yield []
        yield [inc]
        yield [["metadata"]]
        yield [inc, ["include", "sync_timestamp"]]
        for k in names:
            if plain or self.thorough:
                yield [["exclude", k]]
            yield [inc, ["exclude", k]]
        if pairs:
            for x, y in itertools.combinations(names, 2):
                yield [inc, ["exclude", x], ["exclude", y]]

    # -------------------------------------------------------------------------------------------------------- kinds
    def fields(self, t, changes):
        ma = model(t)
        mb = model(t, {k: FIELDS[t][k][i] for k, i in changes})
        a, b = make(t, ma), make(t, mb)
        for k in ma:
            for g, m in ((a, ma), (b, mb)):
                v = getattr(g, k)
                v = None if v is None else bytes(v) if k == "data" else [dict(x) for x in v] \
                    if k in ("timelabels", "event_data") else list(v) if k == "unit_offsets" else v
                if v != m[k] and not (t == "event" and k == "event_data"):
                    raise Violation("could not set %s of %s to %r, it is %r" % (k, t, m[k], v))
        out = []
        for spec in self.specs(t, len(changes) < (3 if self.thorough else 2),
                               len(changes) < 2 or any(k == "creation_timestamp" for k, i in changes)):
            out.append(self.expect(t, ma, mb, a, b, spec, "%s grains changed in %s" % (t, changes),
                                   text=len(changes) < 2 and len(spec) < 3))
        if not changes:
            for g in (copy(a), deepcopy(a), a):
                self.expect(t, ma, ma, a, g, [["include", "creation_timestamp"]], "%s grain and its copy" % t)
        return t, changes, len(out), out[0]

    def types(self, a, b, change):
        ma, mb = model(a), model(b)
        if change:
            mb[change] = COMMON[change][1]
        ga, gb = make(a, ma), make(b, mb)
        out = []
        for spec in self.specs(a, False, False):
            if not self.thorough and len(spec) > 1 and spec[1][1] in model(a) and spec[1][1] not in COMMON:
                continue
            out.append(self.expect(a, ma, mb, ga, gb, spec, "%s against %s" % (a, b), tb=b))
            out.append(self.expect(a, ma, mb, ga, gb, spec + [["exclude", "grain_type"]], "%s against %s" % (a, b),
                                   tb=b))
            out.append(self.expect(a, ma, mb, ga, gb, spec + [["exclude", "grain_type"], ["exclude", "length"]],
                                   "%s against %s" % (a, b), tb=b))
        return a, b, change, out[0], out[1]

    def payloads(self, t, name):
        n = 24
        if t == "audio":
            n = max(48, F.audio_size(name, 2, 3))
        elif name in F.PLANAR or name in F.PACKED:
            n = F.components(name, 4, 2)[1]
        base = bytes((i * 37 + 11) % 256 for i in range(n))
        # a payload which is not a whole number of words, and one which is empty
        bases = [base, base[:7], b""]
        kind = F.AUDIO[name][2] if name in F.AUDIO else None
        if kind in ("FLOAT", "DOUBLE"):
            code = "<f" if kind == "FLOAT" else "<d"
            special = [float("nan"), float("inf"), -0.0, 0.0, 1e-40]
            bases.append(b"".join(struct.pack(code, v) for v in special))
            bases.append(b"".join(struct.pack(code, v) for v in special[3:2:-1] + special[2:3]))
            bases.append(struct.pack(code, 0.0) * 2)
            bases.append(struct.pack(code, -0.0) * 2)
        return bases

    def payload(self, t, format):
        m = model(t)
        if format:
            m[FORMAT[t]] = (CogFrameFormat if t == "video" else CogAudioFormat)[format]
        bases = self.payloads(t, format)
        out = []
        for base in bases:
            others = [None, b"", base, base + b"\0", base + base, bases[0]]
            others += [base[:i] for i in range(len(base))][::1 if self.thorough else 3] + [base[:-i] for i in range(9)]
            others += [base[i:] for i in range(1, 9)] + [base + b"\xff" * i for i in range(9)]
            for i in range(len(base)):
                for x in ([1 << k for k in range(8)] if self.thorough else (1, 0x80)):
                    others.append(base[:i] + bytes([base[i] ^ x]) + base[i + 1:])
            for i in range(len(base) - 1):
                if base[i] != base[i + 1]:
                    others.append(base[:i] + base[i + 1:i + 2] + base[i:i + 1] + base[i + 2:])
            if self.thorough:
                others += bases
            m1 = dict(m, data=base)
            a = make(t, m1)
            for d in others:
                m2 = dict(m, data=d)
                for form in (bytes, bytearray, memoryview) if d == base else (bytes,):
                    b = make(t, m2)
                    if d is not None:
                        b.data = form(d)
                    out.append(self.expect(t, m1, m2, a, b, [], "%s grains with payloads %s and %s" % (
                        format or t, short(base), short(d)), text=len(out) < 40))
            m2 = dict(m, data=None)
            x, y = make(t, m2), make(t, m2)
            out.append(self.expect(t, m2, m2, x, y, [], "%s grains without payloads" % t, text=True))
            if (t == "video" and (format in F.PLANAR or format in F.PACKED) or t == "audio") and base is bases[0]:
                cls = ng.VideoGrain if t == "video" else ng.AudioGrain
                for d in [base] + others[-20:]:
                    m2 = dict(m, data=d)
                    try:
                        b = cls(grain=make(t, m2))
                    except ValueError:
                        continue        # not a whole number of words
                    if bytes(b) != d:
                        continue
                    out.append(self.expect(t, m1, m2, a, b, [], "a plain and a numpy grain"))
        return t, format, len(out), len(set(out))

    def nested(self, t, field, i):
        values = {"timelabels": TLS, "event_data": EVS, "unit_offsets": UOS}[field]
        ma = model(t, {field: values[i]})
        a = make(t, ma)
        out = []
        for j, v in enumerate(values):
            mb = model(t, {field: v})
            b = make(t, mb)
            for spec in ([], [["exclude", field]], [["exclude", "rate"]], [["exclude", "length"]]):
                out.append(self.expect(t, ma, mb, a, b, spec, "%s %r and %r" % (field, values[i], v), text=True))
            c = getattr(self.compare(a, b, [], "nested"), field)
            for x in range(max(len(values[i]), len(v))):
                both = x < len(values[i]) and x < len(v)
                same = both and values[i][x] == v[x]
                if bool(c[x]) != same:
                    raise Violation("comparing %s %r and %r: entry %d is %s" % (field, values[i], v, x, bool(c[x])))
                if (x in c.failing_keys()) == same:
                    raise Violation("comparing %s %r and %r: failing entries are %r" % (
                        field, values[i], v, c.failing_keys()))
                if both and isinstance(v[x], dict):
                    p, q = values[i][x], v[x]
                    bad = {k for k in set(p) | set(q) if p.get(k, "absent") != q.get(k, "absent")}
                    if set(c[x].failing_keys()) != bad:
                        raise Violation("comparing %s %r and %r: failing keys of entry %d are %r" % (
                            field, values[i], v, x, c[x].failing_keys()))
                    for k in set(p) | set(q):
                        if bool(c[x][k]) != (k not in bad):
                            raise Violation("comparing %s %r and %r: %s is wrong" % (field, values[i], v, k))
            for x in (-1, 99, "no"):
                try:
                    c[x]
                except KeyError:
                    continue
                raise Violation("comparison of %s has an entry %r" % (field, x))
        return t, field, i, len(out)

    def expected(self, t, field):
        base = FIELDS[t][field][0]
        if field.endswith("timestamp"):
            unit = TimeOffset(0, 1)
            thresholds = [TimeOffset(0, 0), TimeOffset(0, 2), TimeOffset(0, 2, -1), TimeOffset(1, 0)]
            diffs = [TimeOffset(0, 0)] + [TimeOffset(0, n, s) for n in (1, 2, 3) for s in (1, -1)] + [TimeOffset(1, 0)]
        else:
            unit = 1
            thresholds = [0, 2, -2, Fraction(1, 2)]
            diffs = [0, 1, -1, 2, -2, 3, -3, Fraction(1, 2)]
            if isinstance(base, int):
                base += 10
                diffs = diffs[:-1]
        atoms = [(op, th) for op in OPS for th in thresholds]
        exprs = [(x,) for x in atoms] + [(x, j, y) for j in "&|," for x in atoms for y in atoms]
        if not self.thorough:
            some = field in ("origin_timestamp", "creation_timestamp", "width", "samples", "rate", "length")
            exprs = exprs[:len(atoms)] + exprs[len(atoms)::7 if some else 60]
        ma = model(t, {field: base})
        a = make(t, ma)
        n = 0
        E = getattr(ExpectedDifference, field)
        other = "sync_timestamp" if field == "origin_timestamp" else "origin_timestamp"
        for d in diffs:
            mb = model(t, {field: base - d})
            b = make(t, mb)
            mc = dict(mb, **{other: COMMON[other][1]})
            b2 = make(t, mc)
            b3 = make(t, dict(mb, creation_timestamp=COMMON["creation_timestamp"][1]))
            for e in exprs:
                one = [OPS[op](E, th) for op, th in e[::2]]
                val = [OPS[op](d, th) for op, th in e[::2]]
                if len(e) == 1:
                    opts, want = one, val[0]
                elif e[1] == ",":
                    opts, want = one, all(val)
                elif e[1] == "&":
                    opts, want = [one[0] & one[1]], all(val)
                else:
                    opts, want = [one[0] | one[1]], any(val)
                what = "%s of %s %s apart with %r" % (field, t, d, e)
                c = self.compare(a, b, opts, what)
                repr(opts)
                if bool(c) != want or bool(getattr(c, field)) != want or getattr(c, field).excluded():
                    raise Violation("%s is %s" % (what, bool(c)))
                if set(c.failing_attributes()) != (set() if want else {field}):
                    raise Violation("%s: failing attributes are %r" % (what, c.failing_attributes()))
                if len(e) == 1 and field != "creation_timestamp":
                    c = self.compare(a, b3, opts, what)
                    if bool(c) != want or not c.creation_timestamp.excluded():
                        raise Violation("%s, created at another time, is %s" % (what, bool(c)))
                    c = self.compare(a, b3, opts + [Include.creation_timestamp], what)
                    if c or c.creation_timestamp.excluded():
                        raise Violation("%s, with the time of creation included, is true" % what)
                if len(e) == 1 or n % 5 == 0:
                    str(c), repr(c)
                    c = self.compare(a, b2, opts, what)
                    if c or other not in c.failing_attributes() or bool(getattr(c, field)) != want:
                        raise Violation("%s, and another difference, is %s" % (what, bool(c)))
                    if not self.compare(a, b2, opts + [getattr(Exclude, other), getattr(Exclude, field)], what):
                        raise Violation("%s, all excluded, is false" % what)
                    if bool(self.compare(a, b2, [getattr(Exclude, other)] + opts, what)) != want:
                        raise Violation("%s, and an excluded difference, is %s" % (what, not want))
                    wrong = getattr(ExpectedDifference, other)
                    if not want and d != diffs[0] and self.compare(a, b, [OPS[e[0][0]](wrong, thresholds[0])], what) and \
                            field != "creation_timestamp":
                        raise Violation("%s: an expectation of %s excused it" % (what, other))
                n += 1
        # an expectation of one attribute cannot be combined with one of another
        for j in (operator.and_, operator.or_):
            for x in (getattr(ExpectedDifference, other) == unit, Exclude.data, 1):
                try:
                    j(E == unit, x)
                except (ValueError, TypeError):
                    continue
                raise Violation("expectations of %s and %r could be combined" % (field, x))
        return t, field, n

    def psnr(self, t, fmt, cls):
        if t == "video":
            comps = F.components(fmt, 6, 2)[1] if fmt in F.PLANAR or fmt in F.PACKED else 30
            m = model(t, {"cog_frame_format": CogFrameFormat[fmt], "width": 6, "height": 2,
                          "data": bytes((i * 5) % 256 for i in range(comps))})
        else:
            m = model(t, {"cog_audio_format": CogAudioFormat[fmt],
                          "data": bytes((i * 5) % 256 for i in range(F.audio_size(fmt, 2, 4)))})
            if "FLOAT" in fmt:
                m["data"] = struct.pack("<8f", *[i / 8 for i in range(8)])
        wrap = (lambda g: g) if cls == "bytes" else lambda g: (ng.VideoGrain if t == "video" else ng.AudioGrain)(grain=g)
        a = wrap(make(t, m))
        n = 0
        D = m["data"]
        for flips in ([], [1], [len(D) - 2], [1, len(D) // 2, len(D) - 2], list(range(0, len(D), 2))):
            d = bytearray(D)
            for i in flips:
                d[i] ^= 0x02
            b = wrap(make(t, dict(m, data=bytes(d))))
            try:
                values = compute_psnr(a, b)
            except NotImplementedError:
                values = None
                for op in ("<", ">="):
                    c = self.compare(a, b, [OPS[op](PSNR.data, [1.0, 1.0, 1.0])], "PSNR of %s" % fmt)
                    if c or c.failing_attributes() != ["data"] or c.data or c.data.excluded():
                        raise Violation("PSNR of %s, which is not supported, is accepted" % fmt)
                    str(c), repr(c), c.msg
                n += 2
                continue
            per = [[None, v, v + 0.5, v - 0.5] if v != float("inf") else [None, v, 10.0] for v in values]
            for th in itertools.product(*per):
                for op in ("<", "<=", ">", ">="):
                    want = all(x is None or OPS[op](v, x) for v, x in zip(values, th))
                    opts = [OPS[op](PSNR.data, list(th))]
                    what = "%s of PSNR %r %s %r" % (fmt, values, op, th)
                    c = self.compare(a, b, opts, what)
                    if bool(c) != want or bool(c.data) != want or c.failing_attributes() != ([] if want else ["data"]):
                        raise Violation("%s is %s: %s" % (what, bool(c), c.failing_attributes()))
                    n += 1
                    if n % 16 == 0:
                        str(c), repr(c), c.msg, repr(opts)
                        if bool(self.compare(b, a, opts, what)) != want:
                            raise Violation("%s is %s the other way about" % (what, not want))
                        both = opts + [PSNR.data >= [None, values[1]]]
                        if bool(self.compare(a, b, both, what)) != want:
                            raise Violation("%s, and another, is %s" % (what, not want))
                        b2 = wrap(make(t, dict(m, data=bytes(d), src_id=U[4])))
                        if self.compare(a, b2, opts, what):
                            raise Violation("%s excuses another difference" % what)
                        if not self.compare(a, b2, opts + [Exclude.src_id, Exclude.data], what):
                            raise Violation("%s with everything excluded is false" % what)
        # grains which have no PSNR
        loose = [PSNR.data >= [None], Exclude.length]
        sizes = [{"width": 4}, {"height": 4}] if t == "video" else [{"channels": 1}, {"samples": 2}]
        shapes = [dict(m, **s) for s in sizes]
        pairs = [(m, x) for x in shapes] + [(x, m) for x in shapes] + [
            (dict(m, data=None), m), (m, dict(m, data=None)), (dict(m, data=None), dict(m, data=None)),
            (m, dict(m, data=D[:8]))]
        for x, y in pairs:
            gx, gy = make(t, x), make(t, y)
            if gx.data is not None and gy.data is not None and cls == "numpy":
                gx, gy = wrap(gx), wrap(gy)
            opts = loose + [getattr(Exclude, k) for k in ("width", "height", "channels", "samples")]
            c = self.compare(gx, gy, opts, "PSNR of unlike %s" % fmt)
            if c or c.data:
                raise Violation("PSNR of unlike grains %s is accepted: %s" % (fmt, c.msg))
            if "data" not in c.failing_attributes():
                raise Violation("PSNR of unlike grains %s does not name the payload" % fmt)
            str(c)
            n += 1
        return t, fmt, cls, n


CHECK = C18
