"""C19: comparing two sequences of grains."""
import functools
import itertools
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import TimeOffset, Timestamp

from mc.core import Check, Violation
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.comparison import compare_grain, compare_grains_pairwise
from mediagrains.comparison.options import CompareOnlyMetadata, Exclude, ExpectedDifference, Include, PSNR
from mediagrains.grains import AudioGrain, CodedVideoGrain, EventGrain, VideoGrain

COMMON = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
              creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))
LATER = dict(COMMON, creation_timestamp=Timestamp(9, 9))
OTHER = dict(COMMON, src_id=UUID(int=7))
AUDIO = dict(cog_audio_format=CogAudioFormat.S16_PLANES, channels=1, samples=2)


def grains(letter):
    """A grain; C differs from A in creation timestamp only, B in source, D in its payload, E in type; S in format, T
    in format and payload, L in length; F from E in topic."""
    return {"A": lambda: AudioGrain(data=b"abcd", **AUDIO, **COMMON),
            "B": lambda: AudioGrain(data=b"abcd", **AUDIO, **OTHER),
            "C": lambda: AudioGrain(data=b"abcd", **AUDIO, **LATER),
            "D": lambda: AudioGrain(data=b"abce", **AUDIO, **COMMON),
            "S": lambda: AudioGrain(data=b"abcd", **dict(AUDIO, cog_audio_format=CogAudioFormat.S16_PAIRS), **COMMON),
            "T": lambda: AudioGrain(data=b"abce", **dict(AUDIO, cog_audio_format=CogAudioFormat.S16_PAIRS), **COMMON),
            "L": lambda: AudioGrain(data=b"abcdef", **AUDIO, **COMMON),
            "F": lambda: EventGrain(event_type="t", topic="/longer", **COMMON),
            "E": lambda: EventGrain(event_type="t", topic="/", **COMMON),
            "V": lambda: VideoGrain(cog_frame_format=CogFrameFormat.U8_444, width=2, height=2, **COMMON),
            "K": lambda: CodedVideoGrain(data=b"k", rate=Fraction(50), **COMMON)}[letter]()


OPTIONS = {
    "none": ([], [set("AC")]),
    "creation": ([Include.creation_timestamp], []),
    "source": ([Exclude.src_id], [set("ABC")]),
    "data": ([CompareOnlyMetadata], [set("ACD")]),
    "all": ([Include.creation_timestamp, Exclude.creation_timestamp, Exclude.source_id, Exclude.data], [set("ABCD")]),
    "later": ([ExpectedDifference.creation_timestamp >= TimeOffset(0, 0)], None),
    "psnr": ([PSNR.data >= [40.0]], [set("ACD")]),
    # what is let pass for one pair (payloads of two formats, the lengths of events) counts for the others
    "format": ([Exclude.format], [set(x) for x in ("AC", "AS", "AT", "CS", "CT", "DS", "DT")]),
    "topic": ([Exclude.topic, Exclude.data], [set("ACD"), set("EF"), set("ST")]),
}


def alike(name, x, y):
    if name == "later":
        a, b = grains(x), grains(y)
        return x == y or (x in "AC" and y in "AC" and a.creation_timestamp >= b.creation_timestamp)
    return x == y or any(x in g and y in g for g in OPTIONS[name][1])


@functools.lru_cache(None)
def alone(x, y, name):
    c = compare_grain(grains(x), grains(y), *OPTIONS[name][0])
    return bool(c), c.failing_attributes()


@functools.lru_cache(None)
def pristine(x):
    g = grains(x)
    return repr(g.meta), g.data


class Failed(Exception):
    pass


class Source:
    """An iterator which records the calls made to it, and may fail at a given one"""
    def __init__(self, name, items, log, fail=None):
        self.name, self.items, self.log, self.fail, self.ended = name, items, log, fail, False
        self.at = 0

    def __iter__(self):
        self.log.append((self.name, "iter"))
        return self

    def __next__(self):
        if self.ended:
            raise Violation("asked for a grain after the end of sequence %s" % self.name)
        self.log.append((self.name, self.at))
        if self.at == self.fail:
            self.ended = True
            raise Failed(self.name)
        if self.at == len(self.items):
            self.ended = True
            raise StopIteration
        self.at += 1
        return self.items[self.at - 1]


class C19(Check):
    id = "C19"
    rule = "two executions differ when a sequence, the options, the reporting mode or the form of the sequences differ"
    assumptions = ["a sequence does not contain None in place of a grain"]

    def cases(self):
        n = 6 if self.thorough else 4
        seqs = ["".join(s) for k in range(n + 1) for s in itertools.product("ABC", repeat=k)]
        for a in seqs:
            yield "pairs", {"a": a, "alphabet": "ABC", "n": n if len(a) < 6 else 4}
        m = 3 if self.thorough else 2
        for k in range(m + 1):
            for s in itertools.product("ABCDEVK", repeat=k):
                yield "pairs", {"a": "".join(s), "alphabet": "ABCDEVK", "n": m}
        for k in range(4 if self.thorough else 3):
            for s in itertools.product("ADSTLEF", repeat=k):
                yield "excused", {"a": "".join(s)}
        for k in (10, 100, 1000) if self.thorough else (10, 100):
            yield "long", {"k": k}
        for a in ["".join(s) for k in range(4) for s in itertools.product("AB", repeat=k)]:
            yield "failing", {"a": a}

    def run(self, kind, case):
        return getattr(self, kind)(**case)

    def check(self, a, b, name, last, form):
        ga, gb = [grains(x) for x in a], [grains(x) for x in b]
        opts = OPTIONS[name][0]
        log = []
        if form == "list":
            sa, sb = ga, gb
        elif form == "tuple":
            sa, sb = tuple(ga), tuple(gb)
        elif form == "generator":
            sa, sb = (g for g in ga), iter(gb)
        elif form == "same":
            sa = sb = gb = ga
        else:
            sa, sb = Source("a", ga, log), Source("b", gb, log)
        what = "%s against %s (%s) with options %s%s" % (a, b, form, name, ", last only" if last else "")
        c = compare_grains_pairwise(sa, sb, *opts, return_last_only=last) if last else \
            compare_grains_pairwise(sa, sb, *opts)
        self.stats.transitions += 1
        common = min(len(a), len(b))
        first = next((i for i in range(common) if not alike(name, a[i], b[i])), None)
        compared = common if first is None else first + 1
        equal = first is None and len(a) == len(b)
        if bool(c) != equal:
            raise Violation("%s is %s: %s" % (what, bool(c), c.msg[:300]))
        if len(c) != compared:
            raise Violation("%s: %d grains said to be compared, not %d" % (what, len(c), compared))
        results = list(range(compared)) + (["end"] if first is None and not equal else [])
        if last:
            results = results[-1:]
        if len(c.children) != len(results):
            raise Violation("%s reports %d comparisons, expected %d" % (what, len(c.children), len(results)))
        for child, i in zip(c.children, results):
            if i == "end":
                extra = (ga if len(a) > len(b) else gb)[common]
                got = child.a if len(a) > len(b) else child.b
                none = child.b if len(a) > len(b) else child.a
                if child or got is not extra or none is not None or child.key != common:
                    raise Violation("%s: the report of the extra grain is wrong: %s" % (what, child.msg[:200]))
                continue
            if child.a is not ga[i] or child.b is not gb[i]:
                raise Violation("%s: report %d is not of the grains at %d" % (what, i, i))
            if child.key != i or c[i] is not child:
                raise Violation("%s: report %d is filed under %r" % (what, i, child.key))
            if bool(child) != (i != first):
                raise Violation("%s: grains at %d are said to be %s" % (what, i, bool(child)))
            if (bool(child), child.failing_attributes()) != alone(a[i], b[i], name):
                raise Violation("%s: grains at %d compare otherwise alone" % (what, i))
        if c.failing_keys() != [k for k in ([first] if first is not None else [common] if not equal else [])]:
            raise Violation("%s: failing keys %r" % (what, c.failing_keys()))
        str(c), c.msg
        if len(a) + len(b) < 4:
            repr(c)
        if form == "source":
            for n, g in (("a", ga), ("b", gb)):
                asked = [k for m, k in log if m == n and k != "iter"]
                most = min(len(g), common) + 1 if first is None else first + 1
                if asked != list(range(len(asked))) or len(asked) > most:
                    raise Violation("%s: took %r from %s, at most %d were needed" % (what, asked, n, most))
            gap = 0
            for n, k in log:
                if k != "iter":
                    gap += 1 if n == "a" else -1
                    if abs(gap) > 1:
                        raise Violation("%s: one sequence is read ahead of the other" % what)
        for g, x in list(zip(ga, a)) + list(zip(gb, b)):
            if (repr(g.meta), g.data) != pristine(x):
                raise Violation("%s: a grain was altered" % what)
        return equal, first, compared

    def pairs(self, a, alphabet, n):
        out = set()
        count = 0
        for k in range(n + 1):
            for s in itertools.product(alphabet, repeat=k):
                b = "".join(s)
                for i, name in enumerate(OPTIONS):
                    if not self.thorough and len(a) + len(b) > 4 and name not in ("none", "creation"):
                        continue
                    if self.thorough and len(a) + len(b) > 9 and name != "none":
                        continue
                    small = len(a) + len(b) < 5 and (len(alphabet) == 3 or len(a) < 2)
                    for last in (False, True):
                        forms = ("list", "source", "tuple", "generator") if small else ("source",)
                        for form in forms if not last else forms[-1 - (not small):]:
                            out.add(self.check(a, b, name, last, form))
                            count += 1
        for last in (False, True):
            out.add(self.check(a, a, "creation", last, "same"))
        return a, alphabet, n, count, sorted(out, key=str)

    def excused(self, a):
        out = set()
        for b in itertools.product("ADSTLEF", repeat=len(a)):
            for name in ("format", "topic"):
                for last in (False, True):
                    out.add(self.check(a, "".join(b), name, last, "list"))
        return a, sorted(out, key=str)

    def long(self, k):
        for name in OPTIONS:
            for x in "ABCDST":
                for i in sorted({0, 1, 2, 3, 4, 5, k // 2, k - 1}):
                    self.check("A" * k, "A" * i + x + "A" * (k - i - 1), name, False, "list")
        for last in (False, True):
            for form in ("list", "source"):
                self.check("A" * k, "A" * k, "none", last, form)
                for i in sorted({0, 1, k // 2, k - 2, k - 1}):
                    self.check("A" * k, "A" * i + "B" + "A" * (k - i - 1), "none", last, form)
                    self.check("A" * k, "A" * i, "none", last, form)
                    self.check("A" * i, "A" * k, "none", last, form)
        return k

    def failing(self, a):
        n = 0
        for b in ["".join(s) for k in range(4) for s in itertools.product("AB", repeat=k)]:
            for last in (False, True):
                for which in "ab":
                    for at in range((len(a) if which == "a" else len(b)) + 1):
                        log = []
                        ga, gb = [grains(x) for x in a], [grains(x) for x in b]
                        fa = Source("a", ga, log, at if which == "a" else None)
                        fb = Source("b", gb, log, at if which == "b" else None)
                        common = min(len(a), len(b))
                        first = next((i for i in range(common) if a[i] != b[i]), common)
                        what = "%s against %s, failing at %d of %s" % (a, b, at, which)
                        try:
                            c = compare_grains_pairwise(fa, fb, return_last_only=last)
                        except Failed as e:
                            if str(e) != which or at > first:
                                raise Violation("%s failed" % what)
                        else:
                            if at < common and at <= first or a[:at] == b[:at] and at < len(a if which == "b" else b):
                                raise Violation("%s is %s" % (what, bool(c)))
                            if c and at <= len(a):
                                raise Violation("%s is true" % what)
                        n += 1
        return a, n


CHECK = C19
