"""C25: the hypothesis strategies.

Every strategy is a nondeterministic program whose only source of nondeterminism is the handful of primitive draws
hypothesis makes.  A primitive provider answers those from finite menus (every value of a small domain, the ends and
a few inner values of a large one), so that all behaviours are enumerated: the choice tree is walked with a bound on
the number of draws that leave their first answer.
"""
import copy
import math
import os
import re
import shutil
import tempfile
from fractions import Fraction
from io import BytesIO
from uuid import UUID

# hypothesis keeps its character tables somewhere: in a scratch directory, and not beside the installed package
_scratch = tempfile.mkdtemp()
os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = _scratch

from hypothesis.control import BuildContext
from hypothesis.errors import UnsatisfiedAssumption
from hypothesis.internal.conjecture.data import ConjectureData, StopTest
from hypothesis.internal.conjecture.providers import PrimitiveProvider
from hypothesis import strategies as st
from mediatimestamp.immutable import Timestamp

from mc import formats as F
from mc import gsfdom
from mc.core import Check, Chooser, Violation, explore_choices
from mediagrains import grains as G
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.gsf import dumps, loads
from mediagrains.hypothesis import strategies as S

TYPES = ("empty", "audio", "coded_audio", "video", "coded_video", "event")
CLASSES = {"empty": G.Grain, "audio": G.AudioGrain, "coded_audio": G.CodedAudioGrain, "video": G.VideoGrain,
           "coded_video": G.CodedVideoGrain, "event": G.EventGrain}
FUNCS = {"empty": S.empty_grains, "audio": S.audio_grains, "coded_audio": S.coded_audio_grains,
         "video": S.video_grains, "coded_video": S.coded_video_grains, "event": S.event_grains}
NOTSET = ("creation_timestamp", "origin_timestamp", "sync_timestamp", "rate", "duration")
DEFAULTS = {"rate": {"empty": Fraction(0)}, "duration": {"empty": Fraction(0)}}

TS = [Timestamp(7, 8), Timestamp(0, 0), Timestamp(3, 999999999, -1)]
ARGS = {"src_id": [UUID(int=5), UUID(int=0)], "flow_id": [UUID(int=6), UUID(int=0)], "creation_timestamp": TS,
        "origin_timestamp": TS, "sync_timestamp": TS,
        "rate": [Fraction(30000, 1001), 50, "60000/1001", Fraction(0)],
        "duration": [Fraction(1001, 30000), 2, "1/3", Fraction(0)]}
RAW_AUDIO = [CogAudioFormat[n] for n in F.AUDIO]
CODED_AUDIO = [CogAudioFormat.MP1, CogAudioFormat.AAC, CogAudioFormat.OPUS]
CODED_VIDEO = [CogFrameFormat[n] for n in F.COMPRESSED]
RAW_VIDEO = [CogFrameFormat[n] for n in list(F.PLANAR) + list(F.ALPHA) + list(F.PACKED)]
LAYOUTS = [x for x in CogFrameLayout if x is not CogFrameLayout.UNKNOWN]
EVENTS = [[], [{"path": "/a", "pre": 1, "post": None}],
          [{"path": "/b", "pre": None, "post": {"numerator": 1, "denominator": 2}}, {"path": "/c", "pre": "x", "post": True}]]
EXTRA = {
    "empty": {},
    "audio": {"format": [CogAudioFormat.FLOAT_PAIRS, CogAudioFormat.S16_PLANES, CogAudioFormat.S24_INTERLEAVED],
              "samples": [1920, 1], "channels": [2, 17], "sample_rate": [96000, 1]},
    "coded_audio": {"format": [CogAudioFormat.OPUS, CogAudioFormat.MP1], "samples": [1024, 1], "channels": [6, 1],
                    "sample_rate": [96000, 1], "priming": [3, 0, 65535], "remainder": [9, 0, 256]},
    "video": {"format": [CogFrameFormat.S16_422_10BIT, CogFrameFormat.v210, CogFrameFormat.RGB],
              "width": [16, 2], "height": [10, 2],
              "cog_frame_layout": [CogFrameLayout.SEGMENTED_FRAME, CogFrameLayout.FULL_FRAME]},
    "coded_video": {"format": [CogFrameFormat.VC2, CogFrameFormat.MJPEG], "coded_width": [16, 1],
                    "coded_height": [10, 1], "origin_width": [18, 1], "origin_height": [11, 1],
                    "cog_frame_layout": [CogFrameLayout.SINGLE_FIELD, CogFrameLayout.FULL_FRAME],
                    "is_key_frame": [True, False], "temporal_offset": [-3, 0, 5],
                    "unit_offsets": [[0, 4, 9], [], [7]]},
    "event": {"event_type": ["urn:x:y", ""], "topic": ["/t", ""], "event_data": EVENTS},
}
#: attributes every member of whose documented domain must be reachable
REACH = {"audio": {"format": RAW_AUDIO, "sample_rate": [48000, 44100]},
         "coded_audio": {"format": CODED_AUDIO, "sample_rate": [48000, 44100]},
         "video": {"format": RAW_VIDEO, "cog_frame_layout": LAYOUTS},
         "coded_video": {"format": CODED_VIDEO, "cog_frame_layout": LAYOUTS, "is_key_frame": [True, False]},
         "event": {}, "empty": {}}
#: attributes that must not be constant
VARIES = {"audio": ["samples", "channels"], "coded_audio": ["samples", "channels"], "video": [],
          "coded_video": ["temporal_offset", "unit_offsets"], "event": ["event_type", "topic", "event_data"],
          "empty": []}


class Provider(PrimitiveProvider):
    def __init__(self, cd, chooser=None):
        super().__init__(cd)
        self.chooser = chooser

    def pick(self, menu, what):
        m = []
        for x in menu:
            if not any(x == y and type(x) is type(y) and repr(x) == repr(y) for y in m):
                m.append(x)
        return m[self.chooser.choose(len(m), what)]

    def draw_boolean(self, p=0.5):
        if p <= 0 or p >= 1:
            return p >= 1
        return self.pick([False, True], "boolean")

    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        lo = -(1 << 80) if min_value is None else min_value
        hi = 1 << 80 if max_value is None else max_value
        if hi - lo <= 80:
            menu = sorted(range(lo, hi + 1), key=lambda v: (abs(v - shrink_towards), v < shrink_towards))
        else:
            menu = [v for v in (shrink_towards, 0, 1, 2, -1, 10 ** 9 - 1, 10 ** 9, lo, lo + 1, hi, hi - 1)
                    if lo <= v <= hi]
        return self.pick(menu, "integer")

    def draw_float(self, *, min_value=-math.inf, max_value=math.inf, allow_nan=True, smallest_nonzero_magnitude=0.0):
        small = smallest_nonzero_magnitude
        menu = [v for v in (0.0, 1.0, -0.0, -1.0, 0.5, min_value, max_value, small)
                if min_value <= v <= max_value and (v == 0 or abs(v) >= small)
                and not (v == 0 and math.copysign(1, v) < 0 and min_value == 0 and math.copysign(1, min_value) > 0)]
        return self.pick(menu + ([math.nan] if allow_nan else []), "float")

    def draw_string(self, intervals, *, min_size=0, max_size=10 ** 9):
        cs = [chr(intervals[0]), chr(intervals[-1])]
        return self.pick([c * n for n in (min_size, min_size + 1) if n <= max_size for c in cs], "string")

    def draw_bytes(self, min_size=0, max_size=10 ** 9):
        menu = [c * n for n in (min_size, min_size + 1) if n <= max_size for c in (b"\0", b"\xff", b"\1")]
        menu.insert(1, bytes((3 * i + 1) & 255 for i in range(min_size)))
        return self.pick(menu, "bytes")


def draw(strategy, chooser):
    """One draw from the strategy, or None if it rejected these choices."""
    cd = ConjectureData(random=None, provider=Provider, provider_kw={"chooser": chooser})
    try:
        with BuildContext(cd, is_final=False, wrapped_test=lambda: None):
            return cd.draw(strategy)
    except (StopTest, UnsatisfiedAssumption):
        return None


def get(g, name):
    if name == "src_id":
        return g.src_id
    if name == "format":
        return g.cog_audio_format if "audio" in g.grain_type else g.cog_frame_format
    if name == "event_data":
        return [{"path": d.path, "pre": d.pre, "post": d.post} for d in g.event_data]
    if name == "unit_offsets":
        return list(g.unit_offsets)
    return getattr(g, name)


def same(name, got, want):
    if name in ("rate", "duration"):
        return Fraction(got) == Fraction(want)
    if name == "is_key_frame":
        return got is want
    if name == "unit_offsets":
        return got == list(want or [])
    return got == want


PATH = re.compile(r"^[a-zA-Z0-9_\-]+[a-zA-Z0-9_\-/]*$")
EVENT_TYPE = re.compile(r"^urn:[a-z0-9][a-z0-9-]{0,31}:[a-z0-9()+,\-.:=@;$_!*'%/?#]+$")
STAMP = re.compile(r"^-?\d+:\d+$")


def plain(v):
    return (isinstance(v, (bool, int)) or isinstance(v, str) and STAMP.match(v)
            or isinstance(v, dict) and set(v) == {"numerator", "denominator"} and v["denominator"] > 0)


def domain(kind, name, v):
    """Is this a value the documentation allows for an attribute left open?"""
    if name in ("src_id", "flow_id"):
        return isinstance(v, UUID)
    if name.endswith("timestamp"):
        return isinstance(v, Timestamp)
    if name in ("rate", "duration"):
        return v >= 0
    if name == "format":
        return v in {"audio": RAW_AUDIO + [CogAudioFormat.S64_INVALID], "coded_audio": CODED_AUDIO,
                     "video": RAW_VIDEO, "coded_video": CODED_VIDEO}[kind]
    if name in ("samples", "channels"):
        return v >= 1
    if name == "sample_rate":
        return v in (48000, 44100)
    if name in ("priming", "remainder"):
        return v >= 0
    if name in ("width", "coded_width", "origin_width"):
        return v == 240
    if name in ("height", "coded_height", "origin_height"):
        return v == 135
    if name == "cog_frame_layout":
        return v in LAYOUTS
    if name == "is_key_frame":
        return isinstance(v, bool)
    if name == "temporal_offset":
        return isinstance(v, int)
    if name == "unit_offsets":
        return all(isinstance(x, int) and x >= 0 for x in v) and all(a <= b for a, b in zip(v, v[1:]))
    if name == "event_type":
        return bool(EVENT_TYPE.match(v))
    if name == "topic":
        return bool(PATH.match(v))
    if name == "event_data":
        return all(PATH.match(d["path"]) and plain(d["pre"]) and plain(d["post"]) for d in v)
    raise AssertionError(name)


def size_of(g):
    """The number of octets of payload the grain's own description implies, or None where it implies none."""
    if g.grain_type == "audio" and g.cog_audio_format.name in F.AUDIO:
        return F.audio_size(g.cog_audio_format.name, g.channels, g.samples)
    if g.grain_type == "video":
        name = g.cog_frame_format.name
        if name in F.ALPHA:
            return None
        if name in F.PLANAR and F.subsampling(name)[1] == 2 and g.height % 2 or F.subsampling(name)[0] == 2 and g.width % 2:
            return None
        return F.components(name, g.width, g.height)[1]
    return None


def described(g):
    d = gsfdom.observe(g)
    d["creation_timestamp"] = str(g.creation_timestamp)
    return d


def fits(g):
    """Can the fields of the file format carry this grain?"""
    nums = []
    for f in (g.rate, g.duration):
        nums += [f.numerator, f.denominator]
    return all(0 <= n < 1 << 32 for n in nums)


class C25(Check):
    id = "C25"
    rule = "two draws differ when the strategy, its arguments or the resulting grain differ"
    assumptions = ["each primitive draw of hypothesis is answered from a finite menu holding the whole of a small domain "
                   "and the ends and some inner values of a large one",
                   "at most a stated number of draws leave their first answer"]

    def cases(self):
        deep = 2 if self.thorough else 1
        for t in TYPES:
            for via in ("grains", "function"):
                for first in range(14):
                    yield "open", {"type": t, "via": via, "first": first, "bound": deep}
            for name, vals in list(ARGS.items()) + list(EXTRA[t].items()):
                for i in range(len(vals)):
                    for how in ("value", "just", "strategy"):
                        yield "given", {"type": t, "via": "function", "args": {name: [i, how]}, "bound": deep - 1}
                        yield "given", {"type": t, "via": "grains", "args": {name: [i, how]}, "bound": 0}
            names = list(ARGS) + list(EXTRA[t])
            for a, n in enumerate(names):
                for m in names[a + 1:]:
                    for h in ("value", "strategy"):
                        yield "given", {"type": t, "via": "function", "args": {n: [0, h], m: [0, "value"]},
                                        "bound": 1 if self.thorough else 0}
            yield "given", {"type": t, "via": "function", "args": {n: [0, "value"] for n in names}, "bound": deep}
            yield "given", {"type": t, "via": "function", "args": {n: [1, "strategy"] for n in names}, "bound": deep}
            notset = list(NOTSET) + (["priming", "remainder"] if t == "coded_audio" else [])
            for mask in range(1 << len(notset)):
                off = [n for i, n in enumerate(notset) if mask >> i & 1]
                yield "notset", {"type": t, "off": off, "bound": 1 if self.thorough or len(off) < 2 else 0}
            yield "reach", {"type": t}
        for t in TYPES:
            for first in range(14):
                yield "with_data", {"type": t, "first": first, "bound": deep}
        for name in list(F.AUDIO):
            for c, s in ((1, 1), (2, 3), (3, 2)) if not self.thorough else ((1, 1), (2, 3), (3, 2), (1, 8), (16, 2)):
                yield "template", {"type": "audio", "format": name, "a": c, "b": s,
                                   "bound": deep if c * s == 1 else 1}
        for name in list(F.PLANAR) + list(F.PACKED):
            for w, h in ((2, 2), (4, 2)) if not self.thorough else ((2, 2), (4, 2), (6, 4), (48, 2)):
                yield "template", {"type": "video", "format": name, "a": w, "b": h,
                                   "bound": deep if w * h == 4 else 1}
        for name in F.COMPRESSED:
            for n in (0, 1, 7):
                yield "template", {"type": "coded_video", "format": name, "a": n, "b": 0, "bound": deep}
        for name in ("AAC", "OPUS", "MP1"):
            for n in (0, 1, 7):
                yield "template", {"type": "coded_audio", "format": name, "a": n, "b": 0, "bound": deep}
        for lo in (None, 0, -3, Fraction(1, 2)):
            for hi in (None, 200, Fraction(7, 2)):
                for md in (None, max(Fraction(x or 0).denominator for x in (lo, hi)), 10):
                    yield "fractions", {"lo": None if lo is None else str(lo), "hi": None if hi is None else str(hi),
                                        "md": md}
        yield "uuids", {}
        yield "refused", {}

    # -- plumbing
    def main(self):
        try:
            return super().main()
        finally:
            shutil.rmtree(_scratch, True)

    def replay(self, fn):
        try:
            return super().replay(fn)
        finally:
            shutil.rmtree(_scratch, True)

    def explored(self, strategy, bound, judge, first=None):
        """Every draw within the bound is judged.  ``first`` keeps the runs whose first departure is at that draw (or,
        for the last slice, at any later one) so that one configuration can be split over workers."""
        drawn = rejected = 0

        def one(ch):
            return draw(strategy, ch)
        roots = explore_choices(one, bound) if first is None else self.slice(one, bound, first)
        for choices, g in roots:
            self.stats.transitions += len(choices)
            if g is None:
                rejected += 1
                continue
            drawn += 1
            try:
                judge(g)
            except Violation as e:
                raise Violation("%s (choices %r)" % (e, choices))
        if not drawn and first in (None, 0):
            raise Violation("the strategy never produced anything")
        self.stats.notes["draws"] = self.stats.notes.get("draws", 0) + drawn
        self.stats.notes["rejected_draws"] = self.stats.notes.get("rejected_draws", 0) + rejected
        return drawn

    def slice(self, one, bound, first, last=13):
        ch = Chooser()
        res = one(ch)
        if first == 0:
            yield tuple(ch.choices), res
        if bound < 1:
            return
        for i in range(len(ch.points)):
            if min(i, last) != first:
                continue
            for alt in range(1, ch.points[i][0]):
                stack = [tuple(ch.choices[:i]) + (alt,)]
                while stack:
                    prefix = stack.pop()
                    c2 = Chooser(prefix)
                    yield_res = one(c2)
                    yield tuple(c2.choices), yield_res
                    if sum(1 for c in c2.choices[:len(prefix)] if c) >= bound:
                        continue
                    for j in range(len(c2.points) - 1, len(prefix) - 1, -1):
                        for a in range(c2.points[j][0] - 1, 0, -1):
                            stack.append(tuple(c2.choices[:j]) + (a,))

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    def strategy(self, t, via, kwargs):
        return S.grains(t, **kwargs) if via == "grains" else FUNCS[t](**kwargs)

    def names(self, t):
        return list(ARGS) + list(EXTRA[t])

    def judge(self, t, g, given, off=()):
        if type(g) is not CLASSES[t] or g.grain_type != t:
            raise Violation("a %s grain strategy drew a %s of type %r" % (t, type(g).__name__, g.grain_type))
        for name in self.names(t):
            v = get(g, name)
            if name in given:
                if not any(same(name, v, w) for w in given[name]):
                    raise Violation("%s was fixed to %r and is %r" % (name, given[name], v))
            elif name in off or name in ("rate", "duration", "priming", "remainder"):
                pass
            elif not domain(t, name, v):
                raise Violation("%s was left open and is %r" % (name, v))
        for name, dflt in (("rate", Fraction(25)), ("duration", Fraction(1, 25))):
            if name not in given:
                want = DEFAULTS[name].get(t, dflt)
                if Fraction(getattr(g, name)) != want:
                    raise Violation("%s was not set and is %s" % (name, getattr(g, name)))
        if t == "coded_audio":
            for name in ("priming", "remainder"):
                if name not in given and getattr(g, name) != 0:
                    raise Violation("%s was not set and is %s" % (name, getattr(g, name)))
        if "origin_timestamp" in off and g.origin_timestamp != g.creation_timestamp:
            raise Violation("origin timestamp not set, is %s and creation is %s" % (g.origin_timestamp, g.creation_timestamp))
        if "sync_timestamp" in off and g.sync_timestamp != g.origin_timestamp:
            raise Violation("sync timestamp not set, is %s and origin is %s" % (g.sync_timestamp, g.origin_timestamp))
        if "creation_timestamp" in off:
            now = Timestamp.get_time()
            if not (abs(int((now - g.creation_timestamp).to_nanosec())) < 3600 * 10 ** 9):
                raise Violation("creation timestamp not set, is %s at %s" % (g.creation_timestamp, now))
        if t != "event":
            data = b"" if g.data is None else bytes(g.data)
            n = size_of(g)
            if data.strip(b"\0") or n is not None and len(data) != n or g.length != len(data):
                raise Violation("%d octets of data, %d non-zero, length %d, expected %r zeros"
                                % (len(data), len(data) - data.count(0), g.length, n))
        self.trip(g)

    def trip(self, g):
        """The grain survives being written to a file and read back."""
        if not fits(g):
            return
        head, segments = loads(dumps([g], tags=[], segment_tags=[]))
        got = [x for s in segments.values() for x in s]
        if len(got) != 1:
            raise Violation("%d grains read back" % len(got))
        d = gsfdom.diff(gsfdom.observe(got[0]), gsfdom.observe(g))
        if d:
            raise Violation("not the same once written and read: %s" % d)

    # -- kinds
    def open(self, type, via, first, bound):
        seen = []

        def judge(g):
            self.judge(type, g, {})
            seen.append(repr(described(g)))
        n = self.explored(self.strategy(type, via, {}), bound, judge, first)
        return (type, via, first, n, sorted(set(seen))[:50])

    def given(self, type, via, args, bound):
        kwargs, want = {}, {}
        for name, (i, how) in args.items():
            vals = ARGS.get(name) or EXTRA[type][name]
            v = vals[i]
            want[name] = [v]
            if how == "value":
                kwargs[name] = copy.deepcopy(v)
            elif how == "just":
                kwargs[name] = st.just(v)
            else:
                want[name] = [v, vals[i - 1]]
                kwargs[name] = st.sampled_from(want[name])
        seen = []

        def judge(g):
            self.judge(type, g, want)
            seen.append(repr([get(g, n) for n in sorted(args)]))
        n = self.explored(self.strategy(type, via, kwargs), bound, judge)
        return (type, via, sorted(args), n, sorted(set(seen)))

    def notset(self, type, off, bound):
        kwargs = {n: S.DONOTSET for n in off}
        n = self.explored(FUNCS[type](**kwargs), bound, lambda g: self.judge(type, g, {}, off))
        return (type, off, n)

    def reach(self, type):
        seen = {n: [] for n in self.names(type)}

        def judge(g):
            for n in seen:
                v = get(g, n)
                if v not in seen[n]:
                    seen[n].append(v)
        self.explored(FUNCS[type](), 1, judge)
        for n, want in REACH[type].items():
            missing = [w for w in want if w not in seen[n]]
            if missing:
                raise Violation("%s never takes %r" % (n, missing))
        for n in VARIES[type]:
            attr = {"format": "cog_audio_format" if "audio" in type else "cog_frame_format"}.get(n, n)

            def attribute(v):
                v = list(v or []) if n == "unit_offsets" else v
                if not domain(type, n, v):
                    raise Violation("strategy for %s drew %r" % (attr, v))
                if v not in seen[n]:
                    seen[n].append(v)
            self.explored(S.strategy_for_grain_attribute(attr, type), 4 if n == "unit_offsets" else 2, attribute)
        if type in ("audio", "video"):
            data = []
            self.explored(S.grains_with_data(type), 1, lambda g: data.append(bytes(g.data).strip(b"\0") != b""))
            if True not in data:
                raise Violation("data is always zero")
        for n in ["src_id", "flow_id", "creation_timestamp", "origin_timestamp", "sync_timestamp"] + VARIES[type]:
            if len(seen[n]) < 2:
                raise Violation("%s is always %r" % (n, seen[n]))
        for n in ("creation_timestamp", "origin_timestamp", "sync_timestamp"):
            if not any(v < Timestamp() for v in seen[n]) or not any(v > Timestamp() for v in seen[n]):
                raise Violation("%s has one sign only: %r" % (n, seen[n]))
        # asked for explicitly, a rate is any fraction that is not negative
        rates = []
        self.explored(FUNCS[type](rate=None, duration=None), 1,
                      lambda g: rates.append((Fraction(g.rate), Fraction(g.duration))))
        for i, n in enumerate(("rate", "duration")):
            got = {r[i] for r in rates}
            if len(got) < 3 or min(got) < 0:
                raise Violation("%s drawn from a strategy: %r" % (n, sorted(got)))
        return (type, {n: len(v) for n, v in seen.items()})

    def with_data(self, type, first, bound):

        def judge(g):
            if g.grain_type != type or type_of(g) is not CLASSES[type]:
                raise Violation("drew a %s" % type_of(g).__name__)
            for name in self.names(type):
                v = get(g, name)
                if name in ("rate", "duration", "priming", "remainder") or name.endswith(("width", "height")):
                    continue
                if not domain(type, name, v):
                    raise Violation("%s is %r" % (name, v))
            if type in ("video", "audio"):
                n = size_of(g)
                if n is not None and len(bytes(g.data)) != n:
                    raise Violation("%d octets of data, expected %d" % (len(g.data), n))
            if type == "audio" and g.cog_audio_format.name in F.AUDIO:
                self.finite(g)
            self.trip(g)
        n = self.explored(S.grains_with_data(type), bound, judge, first)
        return (type, first, n)

    def finite(self, g):
        import struct
        t = F.AUDIO[g.cog_audio_format.name][2]
        if t in ("FLOAT", "DOUBLE"):
            code = "<f" if t == "FLOAT" else "<d"
            for (v,) in struct.iter_unpack(code, bytes(g.data)):
                if not math.isfinite(v):
                    raise Violation("a sample is %r" % v)

    def template(self, type, format, a, b, bound):
        common = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
                      creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6), rate=Fraction(24), duration=Fraction(1, 24))
        if type == "audio":
            g = G.AudioGrain(cog_audio_format=CogAudioFormat[format], channels=a, samples=b, sample_rate=48000, **common)
        elif type == "video":
            g = G.VideoGrain(cog_frame_format=CogFrameFormat[format], width=a, height=b, **common)
        elif type == "coded_video":
            g = G.CodedVideoGrain(cog_frame_format=CogFrameFormat[format], origin_width=16, origin_height=9, length=a, **common)
        else:
            g = G.CodedAudioGrain(cog_audio_format=CogAudioFormat[format], samples=4, channels=2, length=a, **common)
        size = len(bytes(g.data))
        before = described(g)
        seen = set()
        plans = [("random", None, None)]
        fill = bytes((i * 7 + 1) & 255 for i in range(size))
        plans += [("value", fill, [fill]), ("strategy", st.sampled_from([fill, bytes(size)]), [fill, bytes(size)])]
        for how, arg, allowed in plans:
            def judge(r):
                if type_of(r) is not type_of(g) or r is g:
                    raise Violation("%s: drew a %s" % (how, type_of(r).__name__))
                d = bytes(r.data)
                if len(d) != size or r.length != size:
                    raise Violation("%s: %d octets of data and length %d, expected %d" % (how, len(d), r.length, size))
                if allowed is not None and d not in allowed:
                    raise Violation("%s: the data is not the data asked for" % how)
                if type == "audio":
                    self.finite(r) if allowed is None else None
                x = described(r)
                x["data"] = before["data"]
                e = gsfdom.diff(x, before)
                if e:
                    raise Violation("%s: the grain differs from its template: %s" % (how, e))
                e = gsfdom.diff(described(g), before)
                if e:
                    raise Violation("%s: the template was changed: %s" % (how, e))
                seen.add(d)
            self.explored(S.grains_from_template_with_data(g) if arg is None else
                          S.grains_from_template_with_data(g, data=arg), bound if arg is None else 1, judge)
        if size and len(seen) < 3:
            raise Violation("only %d payloads" % len(seen))
        return (type, format, size, len(seen))

    def fractions(self, lo, hi, md):
        kwargs = {}
        if md is not None:
            kwargs["max_denominator"] = md
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        seen = set()

        def judge(d):
            if not isinstance(d, dict) or set(d) != {"numerator", "denominator"}:
                raise Violation("drew %r" % (d,))
            f = Fraction(d["numerator"], d["denominator"])
            if (d["numerator"], d["denominator"]) != (f.numerator, f.denominator):
                raise Violation("%r is not in lowest terms" % (d,))
            if lo is not None and f < lo or hi is not None and f > hi or md is not None and f.denominator > md:
                raise Violation("%r is out of bounds" % (d,))
            seen.add(f)
        self.explored(S.fraction_dicts(lo, hi, **kwargs), 2, judge)
        self.explored(S.fraction_dicts(min_value=lo, max_value=hi, **kwargs), 2, judge)
        if len(seen) < 2:
            raise Violation("only %r" % seen)
        return (lo, hi, md, len(seen))

    def uuids(self):
        seen = []
        self.explored(S.shrinking_uuids(), 1, seen.append)
        if not all(isinstance(u, UUID) for u in seen) or len(set(seen)) < 3 or UUID(int=0) not in seen:
            raise Violation("drew %r" % seen)
        return len(seen)

    def refused(self):
        """What no strategy exists for is refused."""
        for call in (lambda: S.grains("noodles"), lambda: S.strategy_for_grain_attribute("noodles"),
                     lambda: S.strategy_for_grain_attribute("cog_audio_format", "empty"),
                     lambda: S.strategy_for_grain_attribute("cog_frame_format", "event")):
            try:
                call()
            except ValueError:
                continue
            raise Violation("not refused")
        for t in TYPES:
            try:
                S.grains(t, noodles=1)
            except TypeError:
                continue
            raise Violation("%s: unknown argument accepted" % t)
        return "refused"


def type_of(x):
    return type(x)


CHECK = C25
