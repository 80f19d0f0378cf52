"""C26: what a comparison's report says is true of what was compared."""
import itertools
import re
import struct
from copy import copy, deepcopy

from mc import formats as F
from mc.core import Check, Violation, short
from checks.c18 import (EVS, FIELDS, TLS, UOS, U, make, model)
from mediagrains import grains as bg
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.comparison import compare_grain, compare_grains_pairwise
from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include, PSNR

MARKS = {"excluded": "\u25ef", True: "\u2705", False: "\u274c"}
NAN = [b"\x00\x00\xc0\x7f", b"\x01\x00\xc0\x7f"]

# (grain type, format, struct code or octets of a word)
WORDS = [("video", "U8_444", "<B"), ("video", "UYVY", "<B"), ("video", "v210", "<I"), ("video", "v216", "<H"),
         ("video", "S16_422_10BIT", "<H"), ("video", "S32_444", "<I"), ("video", "H264", "<B"),
         ("audio", "S16_PLANES", "<h"), ("audio", "S24_PAIRS", 3), ("audio", "S24_INTERLEAVED", 3),
         ("audio", "S32_PLANES", "<i"), ("audio", "FLOAT_PAIRS", "<f"), ("audio", "DOUBLE_INTERLEAVED", "<d"),
         ("coded_video", None, "<B"), ("coded_audio", None, "<B"), ("empty", None, "<B")]

PLACE = re.compile(r"\b([ab])\.data\[(\d+)\] ==? (\S+?)(?=,| and |$)")
RATIO = re.compile(r"similarity (\S+?) to")
EXTRA = re.compile(r"\b([ab])\.data has (\d+) extra values")
LENGTH = re.compile(r"\b([ab])\.data is binary data with length (\d+)")
UNSET = re.compile(r"\b([ab])\.data is not set")
STEP = re.compile(r"(\w+)\s+a\[(\d+):(\d+)\] --> b\[(\d+):(\d+)\]\s+\((.*?)\) --> \((.*?)\)$")


def size_of(code):
    return code if isinstance(code, int) else struct.calcsize(code)


def words_of(code, data):
    n = size_of(code)
    data = data[:len(data) // n * n]
    if isinstance(code, int):
        return [int.from_bytes(data[i:i + n], "little", signed=True) for i in range(0, len(data), n)]
    return [struct.unpack(code, data[i:i + n])[0] for i in range(0, len(data), n)]


def letters(code):
    """The octets of a few words."""
    n = size_of(code)
    if code in ("<f", "<d"):
        out = [struct.pack(code, v) for v in (0.0, -0.0, 1.5)]
        return out + (NAN if code == "<f" else [struct.pack(code, float("inf"))])
    return [bytes(n), b"\1" + bytes(n - 1), b"\xff" * n]


def opaque(v):
    """Whether text cannot show v."""
    return " object at 0x" in repr(v)


def nodes(c, path=()):
    yield path, c
    for i, k in enumerate(c.children):
        yield from nodes(k, path + (i,))


class C26(Check):
    id = "C26"
    rule = "two executions differ when the grains compared or the options differ"
    assumptions = ["what is checked of a report is every value, position, count and length which it states, in the "
                   "forms in which it states them",
                   "the text says which octets differ only by words of the payload's format"]

    def cases(self):
        t = self.thorough
        for i, (kind, fmt, code) in enumerate(WORDS):
            n = len(letters(code))
            top = (4 if t else 3) if n == 3 else (3 if t else 2)
            for r in range(top + 1):
                for first in itertools.product(range(n), repeat=r):
                    yield "words", {"i": i, "first": list(first), "top": top}
            yield "absent", {"i": i}
            for length in (7, 40, 300) if not t else (7, 40, 199, 200, 201, 300):
                for base in ("steps", "flat", "halves"):
                    yield "long", {"i": i, "length": length, "base": base}
        for kind in FIELDS:
            names = list(FIELDS[kind])
            yield "tree", {"t": kind, "changes": []}
            for k in names:
                for j in range(1, len(FIELDS[kind][k])):
                    yield "tree", {"t": kind, "changes": [[k, j]]}
            for ks in itertools.combinations(names, 2):
                yield "tree", {"t": kind, "changes": [[k, 1] for k in ks]}
            if t:
                for ks in itertools.combinations(names, 3):
                    yield "tree", {"t": kind, "changes": [[k, 1] for k in ks]}
            for other in FIELDS:
                if other != kind:
                    yield "types", {"a": kind, "b": other}
            for i in range(len(TLS)):
                yield "nested", {"t": kind, "field": "timelabels", "i": i}
        for i in range(len(EVS)):
            yield "nested", {"t": "event", "field": "event_data", "i": i}
        for i in range(len(UOS)):
            yield "nested", {"t": "coded_video", "field": "unit_offsets", "i": i}
        for i in range(len(KEYS)):
            yield "keys", {"i": i}
        for n in range(5 if t else 4):
            for a in itertools.product(range(3), repeat=n):
                yield "pairs", {"a": list(a)}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    # -- payloads -----------------------------------------------------------------------------------------------------
    def grain(self, i, data):
        kind, fmt, code = WORDS[i]
        m = model(kind, {"data": data})
        if kind == "video":
            m["cog_frame_format"] = CogFrameFormat[fmt]
        elif kind == "audio":
            m["cog_audio_format"] = CogAudioFormat[fmt]
        return make(kind, m)

    def payload(self, i, x, y):
        """Compare payloads x and y, and check what is said of them."""
        code = WORDS[i][2]
        a, b = self.grain(i, x), self.grain(i, y)
        c = compare_grain(a, b)
        self.stats.transitions += 1
        text = str(c)
        what = "%s payloads %r and %r: " % (WORDS[i][1] or WORDS[i][0], short(x, 80), short(y, 80))
        if bool(c.data) != (x == y):
            raise Violation(what + "compared %s" % bool(c.data))
        if len(x or b"") == len(y or b""):
            self.report(c, a, b, what, copies=False)
        said = c.data.msg
        octets = {"a": x, "b": y}
        words = {k: None if v is None else words_of(code, v) for k, v in octets.items()}
        for k in UNSET.findall(said):
            if octets[k] is not None:
                raise Violation(what + "%s said not to be set" % k)
        for k, n in LENGTH.findall(said):
            if octets[k] is None or int(n) not in (len(octets[k]), len(words[k])):
                raise Violation(what + "%s" % said)
        if x is None or y is None:
            if x is not y and not (UNSET.findall(said)):
                raise Violation(what + "does not say which is not set: %s" % said)
            return said
        n = size_of(code)
        at = next((j for j, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y))) // n
        for k, j, v in PLACE.findall(said):
            j = int(j)
            if j >= len(words[k]) or str(words[k][j]) != v:
                raise Violation(what + "%s[%d] is not %s: %s" % (k, j, v, said))
            if j != at:
                raise Violation(what + "first differ at %d, said to at %d: %s" % (at, j, said))
        for k, m in EXTRA.findall(said):
            o = "b" if k == "a" else "a"
            if len(words[k]) - len(words[o]) != int(m) or octets[k][:len(words[o]) * n] != octets[o][:len(words[o]) * n]:
                raise Violation(what + said)
        steps = [s for s in map(STEP.search, str(c.data).split("\n")[1:])]
        if any(s is None for s in steps[:-1]) or (steps and steps[-1] is None and "etc" not in str(c.data)):
            raise Violation(what + "unreadable steps %s" % c.data)
        p = q = 0
        for s in steps:
            if s is None:
                continue
            tag, i1, i2, j1, j2 = s[1], *map(int, s.groups()[1:5])
            if (i1, j1) != (p, q):
                raise Violation(what + "steps do not follow each other: %s" % c.data)
            p, q = i2, j2
            u, v = words["a"][i1:i2], words["b"][j1:j2]
            if s[6] != ", ".join(map(str, u)) or s[7] != ", ".join(map(str, v)):
                raise Violation(what + "step %r does not show %r and %r" % (s[0], u, v))
            if (tag == "equal") != (u == v) or (tag == "insert" and u) or (tag == "delete" and v):
                raise Violation(what + "step %r of %r and %r" % (s[0], u, v))
        if steps and (steps[-1] is None) == ((p, q) == (len(words["a"]), len(words["b"]))):
            raise Violation(what + "the steps end at %d and %d: %s" % (p, q, c.data))
        if not bool(c.data) and not steps and words["a"] != words["b"] and not any(v != v for v in words["a"] + words["b"]):
            raise Violation(what + "no difference is shown")
        for r in RATIO.findall(said):
            if not 0 <= float(r) <= 1 or (float(r) == 1) != (words["a"] == words["b"]):
                raise Violation(what + said)
        if text.count(said) != 1:
            raise Violation(what + "the comparison of payloads is not part of the report")
        return said

    def words(self, i, first, top):
        ls = letters(WORDS[i][2])
        x = b"".join(ls[k] for k in first)
        out = []
        for r in range(top + 1):
            for second in itertools.product(range(len(ls)), repeat=r):
                out.append(self.payload(i, x, b"".join(ls[k] for k in second)))
        if size_of(WORDS[i][2]) > 1:
            for tail in (b"\1", b"\2"):
                for other in (b"", b"\1", b"\2"):
                    out.append(self.payload(i, x + tail, x + other))
        return i, tuple(first), tuple(out)

    def absent(self, i):
        return i, tuple(self.payload(i, x, y) for x, y in itertools.product(
            (None, b"", letters(WORDS[i][2])[1] * 2), repeat=2))

    def long(self, i, length, base):
        ls = letters(WORDS[i][2])
        w = {"steps": [ls[(k * k // 3) % len(ls)] for k in range(length)], "flat": [ls[1]] * length,
             "halves": [ls[0]] * (length // 2) + [ls[2]] * (length - length // 2)}[base]
        x = b"".join(w)
        out = []
        for at in sorted({0, 1, length // 2 - 1, length // 2, length - 2, length - 1}):
            for y in (w[:at] + [ls[0]] + w[at:], w[:at] + [ls[2]] + w[at + 1:], w[:at] + w[at + 1:], w[:at],
                      w[at:] + w[:at], w[:at] + [ls[2], ls[0]] + w[at + 2:] + [ls[1]],
                      w[:1] + [ls[2]] + w[2:at] + [ls[0]] + w[at + 1:]):
                out.append(self.payload(i, x, b"".join(y)))
        return i, length, base, tuple(out)

    # -- the tree of comparisons --------------------------------------------------------------------------------------
    def report(self, c, a, b, what, copies=True):
        """Everything the report says, in every form, agrees with the comparisons it is made of."""
        for path, n in nodes(c):
            text = str(n)
            lines = text.split("\n")
            mark = MARKS["excluded"] if n.excluded() else MARKS[bool(n)]
            if not lines[0].startswith(mark):
                raise Violation(what + "%s, which is %s, is shown as %r" % (n.identifier, mark, lines[0]))
            title = lines[0][len(mark):].strip()
            if n.children and lines[1:] != ["  " + s for k in n.children for s in str(k).split("\n")]:
                raise Violation(what + "%s shows %r for its parts" % (n.identifier, lines[1:]))
            parts = ["(%s)" % k.msg for k in n.children if not k and not k.excluded()]
            parts += ["<IGNORING: %s>" % k.msg for k in n.children if not k and k.excluded()]
            if n.msg != (title + ": " + "; ".join(parts) if parts else title):
                raise Violation(what + "the message of %s is %r, its failing parts say %r" % (n.identifier, n.msg, parts))
            attrs = [k.attr for k in n.children if not k and k.attr is not None]
            keys = [k.key for k in n.children if not k and k.key is not None]
            if (n.failing_attributes(), n.failing_keys()) != (attrs, keys):
                raise Violation(what + "%s names %r and %r, failing are %r and %r" % (
                    n.identifier, n.failing_attributes(), n.failing_keys(), attrs, keys))
            for k in n.children:
                if k.attr is not None and (getattr(n, k.attr) is not k or n.subcomparison_for_attribute(k.attr) is not k):
                    raise Violation(what + "%s of %s is another comparison" % (k.attr, n.identifier))
                if k.key is not None and (n[k.key] is not k or n.subcomparison_for_key(k.key) is not k):
                    raise Violation(what + "[%r] of %s is another comparison" % (k.key, n.identifier))
            for f, e in ((lambda: n.nothing_of_this_name, AttributeError), (lambda: n["nothing of this name"], KeyError),
                         (lambda: n.subcomparison_for_attribute("nothing"), KeyError),
                         (lambda: n.subcomparison_for_key("nothing"), KeyError)):
                try:
                    f()
                except e:
                    continue
                raise Violation(what + "%s has a part which was not compared" % n.identifier)
            self.leaf(n, a, b, title, what)
        shown = str(c)
        for f in (copy, deepcopy) if copies else ():
            d = f(c)
            if str(d) != shown or d.msg != c.msg or bool(d) != bool(c) or len(d.children) != len(c.children):
                raise Violation(what + "a %s of the result differs: %s" % (f.__name__, d))
        repr(c)

    def leaf(self, n, a, b, title, what):
        """The path of a comparison leads to what was compared, and its text shows that."""
        if n.attr == "data" or n.identifier.endswith(".data"):
            return
        held = {}
        for side, g in (("a", a), ("b", b)):
            try:
                held[side] = eval(n.identifier.format(side), {"a": g, "b": g, "len": len, "UUID": U[0].__class__})
            except (AttributeError, IndexError, KeyError):
                continue
        if not held and n.attr not in ("is_key_frame", "temporal_offset"):
            raise Violation(what + "%s is in neither grain" % n.identifier)
        for side, v in held.items():
            got = getattr(n, side)
            if got != v or type(got) is not type(v):
                raise Violation(what + "%s compares %r, the grain has %r" % (n.identifier.format(side), got, v))
        if n.children or n.identifier == "{}" or title in ("Lists match", "Mappings match"):
            return
        if len(held) == 1:
            side, v = next(iter(held.items()))
            if n or not (repr(v) in title or opaque(v)) or n.identifier.format(side) not in title:
                raise Violation(what + "%s, only in %s, is %s: %s" % (n.identifier, side, bool(n), title))
            return
        x, y = held["a"], held["b"]
        shown = [repr(x)] if x == y else [repr(x), repr(y)]
        try:
            if repr(x - y) in title:
                return
        except TypeError:
            pass
        if any(s not in title for s in shown) and not opaque(x):
            raise Violation(what + "%s of %r and %r says %r" % (n.identifier, x, y, title))

    def specs(self, t, changes):
        names = [k for k in FIELDS[t]] + ["length", "grain_type"]
        ks = [k for k, _ in changes]
        yield []
        yield [Include.creation_timestamp]
        for k in ks[:1] + [names[len(ks) % len(names)]] + ["length", "data"]:
            yield [getattr(Exclude, k)]
        if len(ks) > 1:
            yield [getattr(Exclude, k) for k in ks]
        yield [CompareOnlyMetadata, Include.creation_timestamp]
        yield [ExpectedDifference.length != 0]
        if t == "video":
            yield [PSNR.data > [None, 10.0, 10.0]]
            yield [PSNR.data > [10.0], Exclude.data]

    def two(self, a, b, opts, what):
        what = "%s with options %r: " % (what, opts)
        self.stats.transitions += 1
        c = compare_grain(a, b, *opts)
        self.report(c, a, b, what)
        return bool(c), re.sub("0x[0-9a-f]+", "", c.msg)

    def tree(self, t, changes):
        what = "%s with %r changed" % (t, changes)
        a, b = make(t, model(t)), make(t, model(t, {k: FIELDS[t][k][j] for k, j in changes}))
        out = []
        for opts in self.specs(t, changes):
            out.append(self.two(a, b, opts, what))
            if len(changes) < 2 or self.thorough:
                out.append(self.two(b, a, opts, what + " exchanged"))
        return t, str(changes), tuple(out)

    def types(self, a, b):
        x, y = make(a, model(a)), make(b, model(b))
        return a, b, tuple(self.two(x, y, o, "%s and %s" % (a, b)) for o in ([], [Exclude.grain_type], [Exclude.data]))

    def nested(self, t, field, i):
        vs = {"timelabels": TLS, "event_data": EVS, "unit_offsets": UOS}[field]
        out = []
        for j, v in enumerate(vs):
            a, b = make(t, model(t, {field: vs[i]})), make(t, model(t, {field: v}))
            for opts in ([], [getattr(Exclude, field)]):
                out.append(self.two(a, b, opts, "%s %r and %r" % (field, vs[i], v)))
        return t, field, i, tuple(out)

    def keys(self, i):
        """Entries of events may have any further names."""
        out = []
        for other in KEYS:
            gs = []
            for k in (KEYS[i], other):
                g = make("event", model("event"))
                g.meta["grain"]["event_payload"]["data"] = [dict({"path": "/a"}, **k)]
                gs.append(bg.EventGrain(meta=g.meta, data=None))
            a, b = gs
            c = compare_grain(a, b)
            what = "entries with %r and %r: " % (KEYS[i], other)
            if bool(c) != (KEYS[i] == other):
                raise Violation(what + str(c))
            self.report(c, a, b, what)
            failing = {k for k in set(KEYS[i]) | set(other) if k not in KEYS[i] or k not in other or KEYS[i][k] != other[k]}
            if c.event_data.children[1:] and set(c.event_data[0].failing_keys()) != failing:
                raise Violation(what + "failing keys %r" % (c.event_data[0].failing_keys(),))
            out.append(c.msg)
        return i, tuple(out)

    def pairs(self, a):
        gs = [make("empty", model("empty", {"src_id": U[k]})) for k in range(3)]
        out = []
        for n in range(4):
            for b in itertools.product(range(3), repeat=n):
                for last in (False, True):
                    what = "sequences %r and %r: " % (a, b)
                    c = compare_grains_pairwise([gs[k] for k in a], [gs[k] for k in b], return_last_only=last)
                    self.stats.transitions += 1
                    both = list(zip(a, b))
                    same = next((i for i, (x, y) in enumerate(both) if x != y), len(both))
                    text = str(c).split("\n")
                    for m in re.findall(r"entry (\d+)", text[0]):
                        if int(m) != same or list(a) == list(b):
                            raise Violation(what + text[0])
                    for m in re.findall(r"length (\d+)", text[0]):
                        if int(m) != len(a) or list(a) != list(b):
                            raise Violation(what + text[0])
                    if not text[0].startswith(MARKS[bool(c)]) or bool(c) != (list(a) == list(b)):
                        raise Violation(what + text[0])
                    if c.failing_keys() != ([] if c else [same]):
                        raise Violation(what + "failing keys are %r" % c.failing_keys())
                    for k in c.children:
                        if c[k.key] is not k or isinstance(k.key, str) and c[k.key[:1] + k.key[1:]] is not k:
                            raise Violation(what + "entry %r is another comparison" % k.key)
                        if k.key < len(both):
                            self.report(k, gs[a[k.key]], gs[b[k.key]], what)
                    if str(copy(c)) != str(c) or str(deepcopy(c)) != str(c):
                        raise Violation(what + "a copy differs")
                    out.append(text[0])
        return tuple(a), tuple(out)


KEYS = [{}, {"pre": 1}, {"also": 1}, {"also": 2}, {"{}": 1}, {"{x}": 1}, {"{": 1}, {"}": 1}, {"{0.a}": 1, "also": 1},
        {"a'b": 1}, {"line\nbreak": 1}, {"": 1}, {"also": {"{y}": ["{"]}}]
CHECK = C26
