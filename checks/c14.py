"""C14: event grain payload and parsed event data."""
import copy
import json
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc import aio
from mc.core import Check, Violation, short
from mediagrains.grains import EventGrain, GrainFactory
from mediagrains.utils.iobytes import IOBytes
from io import BytesIO

VALUES = [0, "", False, [], {}, {"a": [1, None]}, "\u00e9\n\"", 1.5, -7]
DATA = [
    [],
    [{"path": "/a"}],
    [{"path": "/a", "pre": 1, "post": 2}, {"path": "", "post": 0}],
    [{"path": "/\u00e9", "pre": None, "post": {"x": [1]}}, {"path": "/b", "pre": False}, {"path": "/a"}],
]
GOOD = [("urn:x", "/t", 0), ("", "", 1), ("\u65e5\"", "\\", 2), ("urn:y", "/t", 3)]


def text(i):
    ty, to, d = GOOD[i]
    return json.dumps({"topic": to, "data": DATA[d], "type": ty}, ensure_ascii=(i % 2 == 0))


BAD = [b"", b"{", b"\xff\xfe", b"[]", b"5", b"null", b"{}", b'"type topic data"',
       b'{"type": "a", "topic": "b"}', b'{"type": "a", "data": []}', b'{"topic": "b", "data": []}',
       b'{"type": "a", "topic": "b", "data": null}', b'{"type": "a", "topic": "b", "data": 5}',
       b'{"type": "a", "topic": "b", "data": [5]}', b'{"type": "a", "topic": "b", "data": [null]}',
       b'{"type": "a", "topic": "b", "data": ["path"]}', b'{"type": "a", "topic": "b", "data": [{}]}',
       b'{"type": "a", "topic": "b", "data": [{"pre": 1}]}',
       b'{"type": "a", "topic": "b", "data": [{"path": "/ok"}, {"post": 1}]}',
       b'{"type": "a", "topic": "b", "data": [{"path": "/ok"}, []]}',
       b'{"type": "a", "topic": "b", "data": [{"path": "/ok"}]} trailing',
       b'{"type": "a", "topic": "b", "data": [{"path": "/ok"}'] + [None]


def canonical(m):
    return json.dumps(m, sort_keys=True)         # tells 0 from False, unlike ==


class Convertible:
    """Supports conversion to bytes and nothing else."""
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


def alphabet():
    out = []
    for i in range(len(GOOD)):
        for how in ("bytes", "str", "bytearray", "lazy"):
            out.append(("payload", i, how))
    out += [("bad", i, how) for i in range(len(BAD)) for how in ("bytes", "str")
            if not (how == "str" and (BAD[i] is None or BAD[i][:1] == b"\xff"))]
    out += [("type", v) for v in ("", "urn:n", "\u00e9")] + [("topic", v) for v in ("", "/n", "\"")]
    out += [("data", i, how) for i in range(len(DATA)) for how in ("list", "tuple", "items")]
    out += [("append", pre, post) for pre in (None, 0, 5) for post in (None, 1, 3, 5)]
    out += [("appendpath",)]
    for where in ("first", "last", "held"):
        for key in ("pre", "post"):
            out += [("item", where, key, v) for v in (None, 0, 2, 5)]
            out += [("key", where, key, v) for v in (1, 3)] + [("delkey", where, key)]
        out += [("item", where, "path", 6), ("key", where, "path", 6)]
    out += [("self",), ("selfdata",), ("hold",), ("reverse",), ("remove",), ("twin",), ("twindata",), ("copy",),
            ("deepcopy",), ("await",)]
    return out


OPS = alphabet()


class C14(Check):
    id = "C14"
    rule = ("a state is the event's type, topic and event list, with which item is held; histories reaching the same "
            "state are extended once")
    assumptions = ["event types, topics and paths are strings and values are JSON values"]

    def make(self, config):
        common = dict(src_id=UUID(int=1), flow_id=UUID(int=2), origin_timestamp=Timestamp(1, 2),
                      creation_timestamp=Timestamp(3, 4), sync_timestamp=Timestamp(5, 6))
        how = config["make"]
        p = config["payload"]
        ty, to, d = GOOD[p]
        model = {"type": ty, "topic": to, "data": copy.deepcopy(DATA[d])}
        if how == "kw":
            g = EventGrain(event_type=ty, topic=to, **common)
            g.event_data = copy.deepcopy(DATA[d])
        elif how == "data":
            g = EventGrain(data=text(p).encode(), event_type="old", topic="old", **common)
        elif how == "convertible":
            g = EventGrain(data=Convertible(text(p).encode()), **common)
        elif how == "meta":
            m = EventGrain(**common).meta
            m["grain"]["event_payload"] = copy.deepcopy(model)
            g = GrainFactory(m, None)
        elif how == "metadata":
            m = EventGrain(event_type="old", **common).meta
            g = GrainFactory(m, text(p).encode())
        elif how == "type data":
            m = EventGrain(**common).meta
            m["grain"]["grain_type"] = "data"
            del m["grain"]["event_payload"]
            g = GrainFactory(m, text(p).encode())
        elif how in ("pending", "pendingconv"):
            async def fetch():
                b = text(p).encode()
                return b if how == "pending" else Convertible(b)

            async def go():
                m = EventGrain(event_type="old", topic="old", **common).meta
                gg = GrainFactory(m, fetch())
                if gg.has_data():
                    raise Violation("has_data() before the payload was loaded")
                await gg
                return gg
            g = aio.run(go())
        else:
            raise RuntimeError(how)
        return g, model

    def check(self, g, m, what):
        d = g.data
        if type(d) is not bytes:
            raise Violation("after %s the payload is a %s" % (what, type(d).__name__))
        if json.loads(d.decode("utf-8")) != m or canonical(json.loads(d)) != canonical(m):
            raise Violation("after %s the payload is %s, expected %s" % (what, short(d, 300), short(m, 300)))
        if g.event_type != m["type"] or g.topic != m["topic"]:
            raise Violation("after %s type and topic are %r" % (what, (g.event_type, g.topic)))
        items = g.event_data
        if len(items) != len(m["data"]):
            raise Violation("after %s there are %d items, expected %d" % (what, len(items), len(m["data"])))
        for x, y in zip(items, m["data"]):
            if dict(x) != y or x != y or not (x == y) or len(x) != len(y) or set(x) != set(y) or x.path != y["path"]:
                raise Violation("after %s an item is %r, expected %r" % (what, dict(x), y))
            for k in ("pre", "post"):
                v = getattr(x, k)
                if v != y.get(k) or type(v) is not type(y.get(k)) or (k in x) != (k in y):
                    raise Violation("after %s %s reads %r in %r" % (what, k, v, y))
        if g.meta["grain"]["event_payload"] != m:
            raise Violation("after %s the metadata holds %s" % (what, short(g.meta["grain"]["event_payload"], 300)))
        if bytes(g) != d or g[1] != d or tuple(g) != (g.meta, d) or g.length != len(d) or not g.has_data():
            raise Violation("after %s bytes() %s, length %d, has_data %r for payload %s"
                            % (what, short(bytes(g), 100), g.length, g.has_data(), short(d, 100)))
        if json.loads(json.dumps(g.meta)) != g.meta:
            raise Violation("after %s the metadata is not JSON" % what)

    def build(self, config, ops):
        g, m = self.make(config)
        twin, mt = self.make(dict(config, payload=2))
        outside = copy.deepcopy({k: v for k, v in g.meta["grain"].items() if k != "event_payload"})
        self.check(g, m, "construction")
        held = hm = None
        if m["data"]:
            held, hm = g.event_data[0], m["data"][0]
        for op in ops:
            g, m, held, hm = self.step(g, m, held, hm, op, twin, mt)
            self.check(g, m, repr(op))
            self.check(twin, mt, repr(op) + " on another grain")
            if held is not None and (dict(held) != hm):
                raise Violation("after %r the item held reads %r, expected %r" % (op, dict(held), hm))
            if {k: v for k, v in g.meta["grain"].items() if k != "event_payload"} != outside:
                raise Violation("%r changed other metadata" % (op,))
        pos = next((i for i, x in enumerate(m["data"]) if x is hm), None)
        return g, m, pos if held is not None else "none", hm

    def step(self, g, m, held, hm, op, twin, mt):
        k = op[0]
        if k == "payload":
            s = text(op[1])
            ty, to, d = GOOD[op[1]]
            b = s.encode()
            g.data = s if op[2] == "str" else b if op[2] == "bytes" else bytearray(b) if op[2] == "bytearray" else \
                IOBytes(BytesIO(b"xx" + b + b"yy"), 2, len(b))
            m = {"type": ty, "topic": to, "data": copy.deepcopy(DATA[d])}
        elif k == "bad":
            v = BAD[op[1]]
            if op[2] == "str":
                v = v.decode("latin-1")
            try:
                g.data = v
            except Exception:
                pass
            else:
                raise Violation("malformed payload %r was accepted" % (v,))
            for how in (lambda: EventGrain(data=v, src_id=UUID(int=1)), lambda: GrainFactory(
                    {"grain": {"grain_type": "event"}}, v)):
                if v is None or op[2] == "str":
                    continue
                try:
                    how()
                except Exception:
                    continue
                raise Violation("a grain could be made from the malformed payload %r" % (v,))
        elif k == "type":
            g.event_type = op[1]
            m["type"] = op[1]
        elif k == "topic":
            g.topic = op[1]
            m["topic"] = op[1]
        elif k == "data":
            v = copy.deepcopy(DATA[op[1]])
            if op[2] == "items":
                v = [EventGrain.DATA(x) for x in v]
            g.event_data = tuple(v) if op[2] == "tuple" else v
            if op[2] == "list":
                v.append(5)
                for x in v[:-1]:
                    x["path"] = "defaced"
            elif op[2] == "items":
                for x in v:
                    x.path = "defaced"
                    x.pre = "defaced"
            m["data"] = copy.deepcopy(DATA[op[1]])
        elif k == "append":
            x = {"path": "/n"}
            kw = {}
            for key, i in (("pre", op[1]), ("post", op[2])):
                if i is not None:
                    x[key] = copy.deepcopy(VALUES[i])
                    kw[key] = copy.deepcopy(VALUES[i])
            g.append("/n", **kw)
            m["data"].append(x)
        elif k == "appendpath":
            g.append("/only")
            m["data"].append({"path": "/only"})
        elif k in ("item", "key", "delkey"):
            where, key = op[1], op[2]
            if where == "held":
                x, y = held, hm
            elif not m["data"]:
                x = y = None
            else:
                i = 0 if where == "first" else -1
                x, y = g.event_data[i], m["data"][i]
            if x is None:
                return g, m, held, hm
            if k == "delkey":
                try:
                    del x[key]
                    got = "done"
                except KeyError:
                    got = "KeyError"
                want = "done" if key in y else "KeyError"
                y.pop(key, None)
                if got != want:
                    raise Violation("deleting %s: %s, expected %s" % (key, got, want))
            else:
                v = None if op[3] is None else copy.deepcopy(VALUES[op[3]])
                if k == "item":
                    setattr(x, key, v)
                    if v is None:
                        y.pop(key, None)
                    else:
                        y[key] = v
                else:
                    x[key] = v
                    y[key] = v
        elif k == "self":
            g.data = g.data
            m["data"] = copy.deepcopy(m["data"])
        elif k == "selfdata":
            g.event_data = g.event_data
            m["data"] = copy.deepcopy(m["data"])
        elif k == "hold":
            if m["data"]:
                held, hm = g.event_data[-1], m["data"][-1]
        elif k == "reverse":
            g.event_data = list(reversed(g.event_data))
            m["data"] = copy.deepcopy(m["data"][::-1])
        elif k == "remove":
            g.event_data = g.event_data[1:]
            m["data"] = copy.deepcopy(m["data"][1:])
        elif k == "twin":
            g.data = twin.data
            m = copy.deepcopy(mt)
        elif k == "twindata":
            g.event_data = twin.event_data
            m["data"] = copy.deepcopy(mt["data"])
        elif k == "copy":
            c = copy.copy(g)
            self.check(c, m, "copying")
        elif k == "deepcopy":
            c = copy.deepcopy(g)
            self.check(c, m, "copying")
            c.append("/extra", 1, 2)
            c.event_type = "defaced"
            for x in c.event_data:
                x.path = "defaced"
        elif k == "await":
            async def go():
                async with g as h:
                    return h is g, await g
            same, d = aio.run(go())
            if not same or d != g.data:
                raise Violation("awaiting gives %r" % (d,))
        return g, m, held, hm

    @staticmethod
    def canon(r):
        g, m, pos, hm = r
        return canonical(m), repr(pos), canonical(hm) if pos is None else ""

    MAKES = ["kw", "data", "convertible", "meta", "metadata", "type data", "pending", "pendingconv"]

    def explore(self, part, nparts):
        shift = 0
        for make in self.MAKES:
            for p in range(len(GOOD)):
                deep = (make, p) in (("kw", 2), ("meta", 3))
                depth = 2 if deep or self.thorough else 1
                if self.thorough and deep:
                    depth = 3
                self.bfs("edits", {"make": make, "payload": p}, lambda c, h: OPS, self.build, self.canon, depth, part,
                         nparts, shift)
                shift += 3
                if self.enough():
                    return

    def run(self, kind, case):
        self.build(case["config"], [tuple(o) for o in case["ops"]])
        return None


CHECK = C14
