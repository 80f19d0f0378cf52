"""C13: list-like members of grains against Python lists."""
import copy
import json
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc.core import Check, Violation, short
from mediagrains.cogenums import CogFrameFormat
from mediagrains.grains import AudioGrain, CodedVideoGrain, Grain, VideoGrain


def tl(tag, n, rate=Fraction(25), drop=False):
    return {"tag": tag, "timelabel": {"frames_since_midnight": n, "frame_rate_numerator": rate.numerator,
                                      "frame_rate_denominator": rate.denominator, "drop_frame": drop}}


def comp(n):
    return {"stride": 4 * n, "offset": n, "width": n, "height": 2, "length": 8 * n}


ITEMS = {"timelabels": [tl("a", 1), tl("b", 2, Fraction(30000, 1001), True), tl("", 0)],
         "components": [comp(1), comp(2), comp(0)],
         "unit_offsets": [0, 5, 9]}
SLICES = [(None, None, None), (1, None, None), (None, 1, None), (None, None, -1), (None, None, 2), (-1, None, None),
          (5, None, None), (1, 1, None), (2, 0, -1), (None, -1, None), (0, 2, None)]
INDICES = [-3, -1, 0, 1, 2, 5]


class Index:
    """An integer that is not an int."""
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


def ops_for(member):
    out = []
    for i in INDICES:
        out += [("get", i), ("del", i), ("pop", i)]
        out += [("set", i, v) for v in ((1, 2) if i in (0, -1) else (2,))]
        out += [("insert", i, v) for v in ((0, 2) if i in (0, 1) else (1,))]
    for s in SLICES:
        out += [("get", s), ("del", s)]
        out += [("setslice", s, vs, how) for vs, how in (((), "list"), ((1,), "list"), ((2, 0), "list"),
                                                         ((2, 0), "iter"), ((0, 1, 2), "tuple"))]
    out += [("setself", s) for s in SLICES[:4]]
    out += [("get", "x"), ("set", "x", 0), ("del", "x"), ("get", "index"), ("set", "index", 1), ("del", "index"),
            ("setslice", (None, None, None), None, "number")]
    out += [("append", v) for v in range(3)] + [("appenditem", 0), ("append4", 0)]
    out += [("extend", (), "list"), ("extend", (1, 2), "list"), ("extend", (0,), "iter"), ("extend", (), "self"),
            ("extend", (), "fresh"), ("iadd", (1,), "list"), ("iadd", (), "self"), ("iadd", (2, 1), "iter"),
            ("iaddattr", (1,), "list"), ("iaddattr", (), "self"), ("iaddattr", (0, 2), "iter")]
    out += [("pop",), ("reverse",), ("clear",), ("len",), ("bool",), ("list",), ("reversed",), ("eq",), ("neq",)]
    out += [(k, v) for k in ("remove", "count", "index", "in") for v in range(3)]
    out += [("edit", 0), ("edit", -1), ("editheld",), ("edititer",)]
    if member != "components":
        out += [("assign", (), "list"), ("assign", (1, 0), "list"), ("assign", (2,), "iter"), ("assign", (), "self"),
                ("assign", (), "reversed"), ("assign", (), "tail")]
    return out


def plain(v):
    if hasattr(v, "keys"):
        return copy.deepcopy(dict(v))
    return v


def attempt(f):
    try:
        return ("ok", f())
    except (IndexError, ValueError, TypeError, KeyError, AttributeError) as e:
        return ("raised", type(e).__name__)


class C13(Check):
    id = "C13"
    rule = ("a state is the contents of the list-like member and how the metadata holds it; histories reaching the same "
            "state are extended once")
    assumptions = ["the plain list stores copies of the items it is given, as the metadata must",
                   "sorting, concatenation and repetition are not part of the list-like interface"]

    def make(self, config):
        member, start = config["member"], config["start"]
        items = [copy.deepcopy(ITEMS[member][i]) for i in start] if start is not None else None
        common = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
                      creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))
        cls = config["cls"]
        if cls == "video":
            g = VideoGrain(cog_frame_format=CogFrameFormat.U8_444, width=2, height=2, **common)
            g.meta["grain"]["cog_frame"]["components"] = []
        elif cls == "coded_video":
            g = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, data=b"x", **common)
        elif cls == "audio":
            g = AudioGrain(data=b"", **common)
        else:
            g = Grain({"grain": {"grain_type": "empty", "creation_timestamp": "1:2"}}, b"")
        self.given = items
        if items is not None:
            if member == "timelabels":
                g.meta["grain"]["timelabels"] = items
            elif member == "components":
                g.meta["grain"]["cog_frame"]["components"] = items
            elif config.get("kw"):
                g = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, data=b"x", unit_offsets=items, **common)
            else:
                g.meta["grain"]["cog_coded_frame"]["unit_offsets"] = items
        elif config.get("kw"):
            g = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, data=b"x", unit_offsets=(0, 5), **common)
        return g

    def raw(self, g, member):
        gr = g.meta["grain"]
        if member == "timelabels":
            return gr.get("timelabels")
        if member == "components":
            return gr["cog_frame"]["components"]
        return gr["cog_coded_frame"].get("unit_offsets")

    def rest(self, g, member):
        d = copy.deepcopy(g.meta)
        gr = d["grain"]
        for at in (gr, gr.get("cog_frame", {}), gr.get("cog_coded_frame", {})):
            at.pop(member, None)
        return d

    def build(self, config, ops):
        member = config["member"]
        g = self.make(config)
        rest0 = self.rest(g, member)
        early = getattr(g, member)
        twin = self.make(config)
        given = self.given
        model = [plain(v) for v in early]
        other_seed = copy.deepcopy(ITEMS[member])
        other = Grain({"grain": {"grain_type": "empty", "creation_timestamp": "1:2"}}, b"")
        if member == "timelabels":
            other.timelabels = other_seed
        held = early[0] if len(early) and member != "unit_offsets" else None
        mheld = model[0] if model and member != "unit_offsets" else None
        for n, op in enumerate(ops):
            view = early if n % 2 == 0 else getattr(g, member)
            given_before = copy.deepcopy(given)
            args = []
            got = attempt(lambda: self.real(g, member, view, op, args, other, held))
            want = attempt(lambda: self.plain_op(model, member, op, mheld))
            if got[0] == "ok" and want[0] == "ok":
                same = got[1] == want[1]
            else:
                same = got == want
            if not same:
                raise Violation("%r gave %s, a list gives %s; contents %s" % (op, short(got, 200), short(want, 200),
                                                                             short(model, 200)))
            if mheld is not None and not any(m is mheld for m in model):
                held = mheld = None
            if op[0] in ("reverse", "setself", "assign", "iaddattr"):
                held = mheld = None         # items may have been put back as copies
            now = [plain(v) for v in getattr(g, member)]
            if now != model or [plain(v) for v in early] != model or len(early) != len(model):
                raise Violation("after %r the grain has %s, the list has %s" % (op, short(now, 300), short(model, 300)))
            raw = self.raw(g, member)
            if (raw or []) != model or any(type(x) not in (dict, int) for x in raw or []):
                raise Violation("after %r the metadata has %s" % (op, short(raw, 300)))
            try:
                back = json.loads(json.dumps(g.meta))
            except Exception as e:
                raise Violation("after %r the metadata is not JSON: %s" % (op, e))
            if back != g.meta:
                raise Violation("after %r the metadata does not survive JSON" % (op,))
            if self.rest(g, member) != rest0:
                raise Violation("%r changed other metadata" % (op,))
            for a, b in args:
                if a != b:
                    raise Violation("%r changed its argument %s into %s" % (op, short(b, 100), short(a, 100)))
            if config.get("kw") and given is not None and given != given_before:
                raise Violation("%r changed the list the grain was made from" % (op,))
            if held is not None and plain(held) != mheld:
                raise Violation("after %r an earlier view of an item reads %r, the item is %r" % (op, held, mheld))
            # the arguments are the caller's: changing them afterwards changes no grain
            for a, _ in args:
                if isinstance(a, list):
                    for x in a:
                        if isinstance(x, dict):
                            self.deface(x)
                    a.append(77)
                elif isinstance(a, dict):
                    self.deface(a)
            if [plain(v) for v in getattr(g, member)] != model:
                raise Violation("after %r, changing the argument changed the grain" % (op,))
        if [plain(v) for v in getattr(twin, member)] != ([copy.deepcopy(ITEMS[member][i]) for i in config["start"]]
                                                         if config["start"] is not None else
                                                         [0, 5] if config.get("kw") else []):
            raise Violation("another grain was changed")
        if member == "timelabels" and [plain(v) for v in other.timelabels] != ITEMS[member]:
            raise Violation("the grain an item came from was changed")
        return g, model

    def deface(self, d):
        for k in list(d):
            if isinstance(d[k], dict):
                self.deface(d[k])
            else:
                d[k] = -12345

    def arg(self, member, i, args):
        v = copy.deepcopy(ITEMS[member][i])
        if isinstance(v, dict):
            args.append((v, copy.deepcopy(v)))
        return v

    def argmany(self, member, vs, how, view, g, args):
        if how == "number":
            return 3
        if how == "self":
            return view
        if how == "fresh":
            return getattr(g, member)
        if how == "reversed":
            return reversed(view)
        if how == "tail":
            return view[1:]
        out = [copy.deepcopy(ITEMS[member][i]) for i in vs]
        if how == "list":
            args.append((out, copy.deepcopy(out)))
            return out
        return iter(out) if how == "iter" else tuple(out)

    def key(self, k):
        if isinstance(k, (tuple, list)):
            return slice(*k)
        return Index(0) if k == "index" else k

    def real(self, g, member, x, op, args, other, held):
        k = op[0]
        if k == "get":
            r = x[self.key(op[1])]
            return [plain(v) for v in r] if isinstance(op[1], (tuple, list)) else plain(r)
        if k == "set":
            x[self.key(op[1])] = self.arg(member, op[2], args)
        elif k == "setslice":
            x[self.key(op[1])] = self.argmany(member, op[2], op[3], x, g, args)
        elif k == "setself":
            x[self.key(op[1])] = x
        elif k == "del":
            del x[self.key(op[1])]
        elif k == "insert":
            x.insert(op[1], self.arg(member, op[2], args))
        elif k == "append":
            x.append(self.arg(member, op[1], args))
        elif k == "appenditem":
            # an item that is in the list already, or in another grain's
            x.append(x[op[1]])
        elif k == "append4":
            x.append(other.timelabels[1] if member == "timelabels" else
                     VideoGrain.COMPONENT(self.arg(member, 1, args)) if member == "components" else 7)
            if member == "timelabels":
                x[-1].count = 4444
        elif k == "extend":
            x.extend(self.argmany(member, op[1], op[2], x, g, args))
        elif k == "iadd":
            x += self.argmany(member, op[1], op[2], x, g, args)
        elif k == "iaddattr":
            v = self.argmany(member, op[1], op[2], x, g, args)
            if member == "timelabels":
                g.timelabels += v
            elif member == "components":
                g.components += v
            else:
                g.unit_offsets += v
        elif k == "assign":
            setattr(g, member, self.argmany(member, op[1], op[2], x, g, args))
        elif k == "pop":
            return plain(x.pop(*op[1:]))
        elif k in ("reverse", "clear"):
            return getattr(x, k)()
        elif k == "len":
            return len(x)
        elif k == "bool":
            return bool(len(x))
        elif k == "list":
            return [plain(v) for v in list(x)]
        elif k == "reversed":
            return [plain(v) for v in reversed(x)]
        elif k == "eq":
            fresh = getattr(g, member)
            raw = [plain(v) for v in x]
            return (x == raw, x == fresh, x == raw + [1], raw == x)
        elif k == "neq":
            raw = [plain(v) for v in x]
            return (x != raw, x != getattr(g, member), x != raw + [1], raw != x)
        elif k in ("remove", "count", "index"):
            return getattr(x, k)(self.arg(member, op[1], args))
        elif k == "in":
            return self.arg(member, op[1], args) in x
        elif k in ("edit", "editheld", "edititer"):
            if k == "edit":
                target = x[op[1]]
            elif k == "editheld":
                if held is None:
                    return None
                target = held
            else:
                target = None
                for v in x:
                    target = v
                if target is None:
                    return None
            if member == "timelabels":
                target.tag, target.count, target.rate, target.drop_frame = "edited", 99, Fraction(24), True
            elif member == "components":
                target.stride, target.offset, target.width, target.height, target.length = 6, 7, 8, 9, 10
                target["width"] = 11
            return None
        return None

    def plain_op(self, m, member, op, mheld):
        k = op[0]
        item = lambda i: copy.deepcopy(ITEMS[member][i])                                   # noqa: E731
        many = lambda vs, how: (3 if how == "number" else copy.deepcopy(m) if how in ("self", "fresh") else   # noqa: E731
                                copy.deepcopy(m[::-1]) if how == "reversed" else copy.deepcopy(m[1:]) if how == "tail"
                                else [item(i) for i in vs])
        if k == "get":
            return copy.deepcopy(m[self.key(op[1])])
        if k == "set":
            m[self.key(op[1])] = item(op[2])
        elif k == "setslice":
            m[self.key(op[1])] = many(op[2], op[3])
        elif k == "setself":
            m[self.key(op[1])] = copy.deepcopy(m)
        elif k == "del":
            del m[self.key(op[1])]
        elif k == "insert":
            m.insert(op[1], item(op[2]))
        elif k == "append":
            m.append(item(op[1]))
        elif k == "appenditem":
            m.append(copy.deepcopy(m[op[1]]))
        elif k == "append4":
            m.append(item(1) if member != "unit_offsets" else 7)
            if member == "timelabels":
                m[-1]["timelabel"]["frames_since_midnight"] = 4444
        elif k in ("extend", "iadd", "iaddattr"):
            m.extend(many(op[1], op[2]))
        elif k == "assign":
            m[:] = many(op[1], op[2])
        elif k == "pop":
            return copy.deepcopy(m.pop(*op[1:]))
        elif k in ("reverse", "clear"):
            return getattr(m, k)()
        elif k == "len":
            return len(m)
        elif k == "bool":
            return bool(m)
        elif k == "list":
            return copy.deepcopy(m)
        elif k == "reversed":
            return copy.deepcopy(m[::-1])
        elif k == "eq":
            return True, True, False, True
        elif k == "neq":
            return False, False, True, False
        elif k in ("remove", "count", "index"):
            return getattr(m, k)(item(op[1]))
        elif k == "in":
            return item(op[1]) in m
        elif k in ("edit", "editheld", "edititer"):
            if k == "edit":
                t = m[op[1]]
            elif k == "editheld":
                t = mheld
            else:
                t = m[-1] if m else None
            if t is None:
                return None
            if member == "timelabels":
                t["tag"] = "edited"
                t["timelabel"].update(frames_since_midnight=99, frame_rate_numerator=24, frame_rate_denominator=1,
                                      drop_frame=True)
            elif member == "components":
                t.update(stride=6, offset=7, width=11, height=9, length=10)
            return None
        return None

    @staticmethod
    def canon(r):
        g, model = r
        gr = g.meta["grain"]
        return repr(model), [k in at for k in ("timelabels", "unit_offsets")
                             for at in (gr, gr.get("cog_coded_frame", {}))]

    def configs(self):
        for cls, member in (("empty", "timelabels"), ("audio", "timelabels"), ("video", "timelabels"),
                            ("video", "components"), ("coded_video", "unit_offsets"), ("coded_video", "timelabels")):
            for start in (None, [], [0], [0, 1], [0, 1, 2], [0, 0, 1]):
                if start is None and member == "components":
                    continue
                yield {"cls": cls, "member": member, "start": start}
                if member == "unit_offsets":
                    yield {"cls": cls, "member": member, "start": start, "kw": True}

    def explore(self, part, nparts):
        shift = 0
        for config in self.configs():
            primary = (config["cls"], config["member"]) in (("empty", "timelabels"), ("video", "components"),
                                                            ("coded_video", "unit_offsets"))
            depth = 3 if self.thorough and primary else 2
            if not self.thorough and (not primary or config["start"] in ([0], [0, 1])):
                depth = 1
            alphabet = ops_for(config["member"])
            self.bfs("history", config, lambda c, h: alphabet, self.build, self.canon, depth, part, nparts, shift)
            shift += 3
            if self.enough():
                return

    def run(self, kind, case):
        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        self.build(case["config"], [tup(o) for o in case["ops"]])
        return None


CHECK = C13
