"""C02: the bytes written are the documented format, and every documented form is read."""
from fractions import Fraction
from io import BytesIO
import copy
import itertools

from mc.core import Check, Violation
from mc import gsfdom as D, refgsf as R, readers as RD
from mc.refgsf import Block
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat, CogFrameLayout
from mediagrains.gsf import GSFEncoder, loads

UNKNOWN = [
    lambda: Block(b"zzzz"),
    lambda: Block(b"fill", bytes(20)),
    lambda: Block(b"fill"),
    lambda: Block(b"hdr2", b"\xff" * 3),
    lambda: Block(b"grdx", b"grai\x00\x00\x00\x00SSBBgrsg\x09\x00\x00\x00"),
    lambda: Block(b"ztag", b"", [Block(b"tag ", R.varstr("k") + R.varstr("v")), Block(b"gbhd", bytes(70))]),
    lambda: Block(b"\xc3\xa9\xc3\xa9", b"\x00\x01\x02\x03\x04"),
    lambda: Block(b"big_", bytes(range(256)) * 270),
]
EXTRA = [b"\x00", b"\x01\x02\x03\x04\x05\x06\x07", b"zzzz\x08\x00\x00\x00", b"tag \x0c\x00\x00\x00\x00\x00\x00\x00",
         bytes(33)]


def ref_file(version, kinds=None, dev=None):
    """A file with one or two grains of a type and a full header."""
    gs = []
    for n, k in enumerate(kinds or []):
        g = D.abstract(k, {"timelabels": 3} if n % 2 == 0 else {})
        if k == "coded_video":
            g = D.abstract(k, {"timelabels": 3, "h.unit_offsets": 2})
        gs.append(dict(g, ots=(1, 100 + n, n), local_id=(1, 7)[n % 2]))
    f = {"version": version, "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v"), ("", "\u20ac")],
         "segments": [{"local_id": 1, "id": D.U1, "count": -1, "tags": [("s", "t"), ("s", "u")],
                       "flow": {"source_id": D.U1, "flow_id": D.U2, "format": "urn:x-nmos:format:video",
                                "data": "{\"\u00e9\": 1}"}},
                      {"local_id": 7, "id": D.UF, "count": len(gs) // 2, "tags": [], "flow": None}],
         "grains": gs}
    return f


def positions(blocks):
    """Every (path, index) at which another block may be inserted, and every path of a block that may carry extra
    properties.  The format documents: other blocks may sit between any two blocks, except that a grai block goes on
    directly with its gbhd."""
    ins, ext, order = [], [], []
    # top level: blocks[0] is the file header pseudo block
    for i in range(1, len(blocks) + 1):
        ins.append(((), i))

    def walk(b, path):
        tag = b.tag
        if b.leaf:
            ext.append(path)
        elif tag in (b"head", b"segm", b"gbhd", b"vghd", b"cghd"):
            for i in range(len(b.children) + 1):
                ins.append((path, i))
            for i in range(len(b.children) - 1):
                order.append((path, i))
        elif tag == b"grai" and b.children:
            for i in range(1, len(b.children) + 1):
                ins.append((path, i))
        for i, c in enumerate(b.children):
            walk(c, path + (i,))
    for i, b in enumerate(blocks):
        if i:
            walk(b, (i,))
    return ins, ext, order


def at(blocks, path):
    b = blocks[path[0]]
    for i in path[1:]:
        b = b.children[i]
    return b


STRINGS = ["ab\x00cd", "\x00", "\x00\x00junk", "\u20ac\x00\u20ac\x00", "a\x00"]
#: characters of one to four octets
WIDTHS = ["b", "\u00e9", "\u20ac", "\U0001f600"]
DATES = [(0, 0, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0), (9999, 12, 31, 23, 59, 59), (2024, 2, 29, 0, 0, 1), (1970, 1, 1, 0, 0, 0)]

READERS = ["loads", "sync_defer", "async_now", "stream_now"]


class C02(Check):
    id = "C02"
    rule = ("reading: for every grain type and format version, every file tree with at most N (1 quick, 2 thorough) "
            "insertions of unknown or fill blocks at any allowed position, extra properties on any leaf block, and "
            "swaps of sibling blocks, read through 4 interfaces; every documented enumeration value, boolean and null "
            "encoding.  writing: every grain with at most N (1 / 2) fields off the baseline, in every version, and "
            "every data container type, parsed by the strict reference parser; outcome = the decoded file")
    assumptions = ["the reference codec is a correct reading of gsf.md and ssb.md"]

    def cases(self):
        for v in (7, 8, 9):
            for kind in D.TYPES:
                blocks = R.build(ref_file((v, 0), [kind, kind]))
                ins, ext, order = positions(blocks)
                edits = [["ins", list(p), i, u] for p, i in ins for u in range(len(UNKNOWN))]
                edits += [["ext", list(p), e] for p in ext for e in range(len(EXTRA))]
                edits += [["swap", list(p), i] for p, i in order]
                for e in edits:
                    yield "read", {"version": v, "kind": kind, "edits": [e]}
                if self.thorough:
                    few = [e for e in edits if (e[0] == "ins" and e[3] in (0, 4, 5)) or
                           (e[0] == "ext" and e[2] in (0, 2)) or e[0] == "swap"]
                    for a, b in itertools.combinations(few, 2):
                        yield "read", {"version": v, "kind": kind, "edits": [a, b]}
                yield "everywhere", {"version": v, "kind": kind}
        for v in (7, 8, 9):
            for minor in (0, 1, 65535):
                for n in (0, 1, 3):
                    yield "minor", {"version": [v, minor], "grains": n, "terminator": n != 1}
            for t in (1, 2, 255):
                yield "bools", {"version": v, "true": t}
            for kf in range(0, 256):
                yield "keyframe", {"version": v, "kf": kf}
            for num in (0, 5):
                for den in (0, 1, 7):
                    yield "rational", {"version": v, "value": [num, den]}
        for v in (7, 8, 9):
            for i in range(len(STRINGS)):
                yield "strings", {"version": v, "i": i}
            for i in range(len(DATES)):
                yield "dates", {"version": v, "i": i}
        for table in ("frame", "layout", "audio"):
            yield "enum", {"table": table}
        for kind in D.TYPES:
            for dev in D.deviations(kind, 2 if self.thorough else 1):
                for v in (7, 8, 9):
                    if D.representable(D.abstract(kind, dev), v):
                        yield "write", {"type": kind, "dev": dev, "version": v}
        for v in (7, 8, 9):
            for c in range(len(CONTAINERS)):
                for kind in ("video", "audio", "coded_video", "coded_audio"):
                    yield "container", {"version": v, "type": kind, "container": c}
            for n in (255, 256, 257, 65535):
                for what in ("timelabels", "components", "unit_offsets"):
                    if n <= 257 or what == "unit_offsets":
                        yield "many", {"version": v, "n": n, "what": what}
            for n in (65535, 65536, 70000, 1 << 24):
                yield "large", {"version": v, "n": n}
            for combo in itertools.product(range(3), repeat=3):
                yield "write_file", {"version": v, "combo": list(combo)}
            for place in range(6):
                for short in range(6):
                    for ch in range(len(WIDTHS)):
                        yield "overlong", {"version": v, "place": place, "short": short, "char": ch}

    def run(self, kind, case):
        return getattr(self, "run_" + kind)(case)

    # -- reading --------------------------------------------------------------------------------------------------
    def check_read(self, f, b, readers=READERS):
        out = None
        for name in readers:
            head, gs = RD.FULL[name](b)
            out = [D.observe(g, k) for g, k in gs]
            want = [{k: v for k, v in g.items() if k not in ("true", "kf_null")} for g in f["grains"]]
            if name in RD.GROUPED:
                want = [w for k in dict.fromkeys(w["local_id"] for w in want) for w in want if w["local_id"] == k]
            d = D.diff(out, want, "grains") or D.diff(head_of(head), want_head(f), "head")
            if d:
                raise Violation("%s: %s" % (name, d))
            self.stats.transitions += 1
        return out

    def run_read(self, case):
        f = ref_file((case["version"], 0), [case["kind"]] * 2)
        blocks = self.encodable(f)
        # apply later positions first, so that the earlier ones stay valid
        for e in sorted(case["edits"], key=lambda e: (e[1], e[2]), reverse=True):
            if e[0] == "ins":
                lst = blocks if not e[1] else at(blocks, e[1]).children
                lst.insert(e[2], UNKNOWN[e[3]]())
            elif e[0] == "ext":
                at(blocks, e[1]).children.append(_raw(EXTRA[e[2]]))
            else:
                c = at(blocks, e[1]).children
                c[e[2]], c[e[2] + 1] = c[e[2] + 1], c[e[2]]
                if at(blocks, e[1]).tag == b"head" and {c[e[2]].tag, c[e[2] + 1].tag} == {b"segm"}:
                    f["segments"].reverse()
                if c[e[2]].tag == c[e[2] + 1].tag == b"tag ":
                    tags = f["tags"] if at(blocks, e[1]).tag == b"head" else f["segments"][0]["tags"]
                    tags.reverse()
        b = R.serialise(f["version"], blocks)
        return self.check_read(f, b)

    def encodable(self, f):
        return R.build(dict(f, grains=[D.ref_of(g) for g in f["grains"]]))

    def run_everywhere(self, case):
        """One unknown block at every allowed position at once, and extra properties on every leaf."""
        f = ref_file((case["version"], 0), [case["kind"]] * 2)
        for u in range(len(UNKNOWN)):
            blocks = self.encodable(f)
            ins, ext, _ = positions(blocks)
            for p in ext:
                at(blocks, p).children.append(_raw(EXTRA[u % len(EXTRA)]))
            for p, i in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
                lst = blocks if not p else at(blocks, p).children
                lst.insert(i, UNKNOWN[u]())
            out = self.check_read(f, R.serialise(f["version"], blocks))
        return out

    def run_strings(self, case):
        """A string ends at its first null character."""
        x = STRINGS[case["i"]]
        out = None
        for where in range(7):
            fs = []
            for v in (x, x.split("\x00")[0]):
                f = ref_file((case["version"], 0), ["video", "event"])
                if where == 0:
                    f["tags"][0] = (v, "v")
                elif where == 1:
                    f["tags"][0] = ("k", v)
                elif where == 2:
                    f["segments"][0]["tags"][1] = (v, "z")
                elif where == 3:
                    f["segments"][0]["tags"][1] = ("z", v)
                elif where == 4:
                    f["segments"][0]["flow"]["format"] = v
                else:
                    g = f["grains"][0]
                    g["timelabels"] = [(v,) + g["timelabels"][0][1:]] + list(g["timelabels"][1:])
                fs.append(f)
            out = self.check_read(fs[1], R.serialise(fs[0]["version"], self.encodable(fs[0])))
        return (case["i"], out)

    def run_dates(self, case):
        f = ref_file((case["version"], 0), ["audio"])
        f["created"] = DATES[case["i"]]
        return (DATES[case["i"]], self.check_read(f, R.serialise(f["version"], self.encodable(f))))

    def run_minor(self, case):
        f = ref_file(tuple(case["version"]), ["video", "event", "audio"][:case["grains"]])
        f["terminator"] = case["terminator"]
        blocks = self.encodable(f)
        return self.check_read(f, R.serialise(f["version"], blocks))

    def run_bools(self, case):
        gs = []
        for k in ("video", "coded_video"):
            for ot in ((1, 5, 6), (-1, 5, 6)):
                if case["version"] == 7 and ot[0] < 0:
                    continue
                gs.append(dict(D.abstract(k, {"timelabels": 3}), ots=ot, sts=ot, true=case["true"], local_id=1))
        f = dict(ref_file((case["version"], 0)), grains=gs)
        return self.check_read(f, R.serialise(f["version"], self.encodable(f)))

    def run_keyframe(self, case):
        kf = case["kf"]
        g = D.abstract("coded_video", {})
        if kf == 0:
            g["hdr"]["key_frame"] = False
        elif kf == 1 or case["version"] < 9:
            g["hdr"]["key_frame"] = True
            g["true"] = kf
        else:
            g["hdr"]["key_frame"] = None
            g["kf_null"] = kf
        f = dict(ref_file((case["version"], 0)), grains=[g])
        blocks = self.encodable(f)
        return self.check_read(f, R.serialise(f["version"], blocks), READERS[:1])

    def run_rational(self, case):
        """A zero numerator or denominator is a null value."""
        v = tuple(case["value"])
        val = (0, 1) if not (v[0] and v[1]) else (v[0], v[1])
        g = D.abstract("video", {})
        g.update(rate=v, duration=v, timelabels=[("a", 1, v[0], v[1], False)])
        g["hdr"].update(aspect=v, pixel_aspect=v)
        f = dict(ref_file((case["version"], 0)), grains=[g])
        b = R.serialise(f["version"], self.encodable(f))
        w = copy.deepcopy(g)
        w.update(rate=val, duration=val, timelabels=[("a", 1) + val + (False,)])
        w["hdr"].update(aspect=val, pixel_aspect=val)
        return self.check_read(dict(f, grains=[w]), b)

    def run_enum(self, case):
        """The enumerated values are numbered as documented, in both directions."""
        if case["table"] == "frame":
            table, enum, kind, field = R.DOC_FRAME, CogFrameFormat, "video", "format"
        elif case["table"] == "layout":
            table, enum, kind, field = R.DOC_LAYOUT, CogFrameLayout, "video", "layout"
        else:
            table, enum, kind, field = R.DOC_AUDIO, CogAudioFormat, "audio", "format"
        for name, num in table.items():
            g = D.abstract(kind, {})
            g["hdr"][field] = num
            f = dict(ref_file((9, 0)), grains=[g])
            head, gs = RD.FULL["loads"](R.serialise((9, 0), self.encodable(f)))
            attr = {"layout": "cog_frame_layout"}.get(field) or ("cog_frame_format" if kind == "video" else
                                                                  "cog_audio_format")
            got = getattr(gs[0][0], attr)
            if got is not enum[name]:
                raise Violation("%s %#x is read as %r, documented as %s" % (case["table"], num, got, name))
            setattr(gs[0][0], attr, enum[name])
            bio = BytesIO()
            with GSFEncoder(bio) as e:
                e.add_grain(gs[0][0])
            back = R.parse(bio.getvalue())["grains"][0]["hdr"][field]
            if back != num:
                raise Violation("%s %s is written as %#x, documented as %#x" % (case["table"], name, back, num))
            self.stats.transitions += 2
        return (case["table"], len(table))

    # -- writing --------------------------------------------------------------------------------------------------
    def check_write(self, b, gs, version, nseg=1):
        try:
            f = R.parse(b)
        except R.Bad as e:
            raise Violation("the file written is not valid: %s" % e)
        except (UnicodeDecodeError, ValueError) as e:
            raise Violation("the file written is not valid: %s" % e)
        if f["version"] != version:
            raise Violation("version field is %r, expected %r" % (f["version"], version))
        if not f["terminator"]:
            raise Violation("no terminator block")
        want = [D.ref_of(g) for g in gs]
        got = f["grains"]
        for g in got:
            if g["type"] == "event":
                self.check_event_json(g["data"])
        d = D.diff([_canon(g) for g in got], [_canon(g) for g in want], "grains")
        if d:
            raise Violation("the file written: " + d)
        return f

    def check_event_json(self, b):
        import json
        p = json.loads(b.decode("utf-8"))
        if set(p) != {"type", "topic", "data"}:
            raise Violation("event payload has keys %r" % sorted(p))

    def run_write(self, case):
        g = D.abstract(case["type"], case["dev"])
        bio = BytesIO()
        enc = GSFEncoder(bio, major=case["version"], minor=3)
        enc.add_segment(local_id=g["local_id"])
        with enc as e:
            e.add_grain(D.make(g), segment_local_id=g["local_id"])
        f = self.check_write(bio.getvalue(), [g], (case["version"], 3))
        if f["segments"][0]["count"] != 1:
            raise Violation("count is %d" % f["segments"][0]["count"])
        return case

    def run_container(self, case):
        """The payload's container type does not matter: sizes always count octets."""
        g = D.abstract(case["type"], {"data": 3})
        r = D.make(g)
        r.data = CONTAINERS[case["container"]](g["data"])
        bio = BytesIO()
        enc = GSFEncoder(bio, major=case["version"], streaming=bool(case["container"] % 2))
        enc.add_segment(local_id=1)
        with enc as e:
            e.add_grain(r)
        self.check_write(bio.getvalue(), [g], (case["version"], 0))
        return case

    def run_many(self, case):
        n = case["n"]
        g = D.abstract("coded_video" if case["what"] == "unit_offsets" else "video", {})
        if case["what"] == "timelabels":
            g["timelabels"] = [("t%d" % i, i, 25, 1, bool(i % 2)) for i in range(n)]
        elif case["what"] == "components":
            g["hdr"]["components"] = [(i, i + 1, i + 2, i + 3) for i in range(n)]
        else:
            g["hdr"]["unit_offsets"] = list(range(n))
        bio = BytesIO()
        with GSFEncoder(bio, major=case["version"]) as e:
            e.add_grain(D.make(g))
        self.check_write(bio.getvalue(), [g], (case["version"], 0))
        return self.check_read(dict(ref_file((case["version"], 0)), grains=[g]),
                               R.serialise((case["version"], 0), self.encodable(
                                   dict(ref_file((case["version"], 0)), grains=[g]))), READERS[:3])and case

    def run_large(self, case):
        n = case["n"]
        data = (b"\x00\x01grai\xff" * (n // 7 + 1))[:n]
        g = dict(D.abstract("coded_video", {}), data=data)
        g2 = dict(D.abstract("audio", {}), data=data[::-1])
        for streaming in (False, True):
            bio = BytesIO()
            enc = GSFEncoder(bio, major=case["version"], streaming=streaming)
            enc.add_segment()
            with enc as e:
                e.add_grain(D.make(g))
                e.add_grain(D.make(g2))
            self.check_write(bio.getvalue(), [g, g2], (case["version"], 0))
            for name in READERS:
                _, gs = RD.FULL[name](bio.getvalue())
                if [bytes(x.data) for x, _ in gs] != [g["data"], g2["data"]]:
                    raise Violation("%s: a payload of %d octets is not read back" % (name, n))
        return case

    def run_overlong(self, case):
        """Strings with more characters than there is room for are cut between characters."""
        limit = {4: 64, 5: 16}.get(case["place"], 65535)
        text = "a" * (limit - case["short"]) + WIDTHS[case["char"]] + "z" * 6
        cut = ""
        for c in text:
            if len((cut + c).encode("utf-8")) > limit:
                break
            cut += c
        at = [cut if case["place"] == i else "x" for i in range(6)]
        put = [text if case["place"] == i else "x" for i in range(6)]
        bio = BytesIO()
        enc = GSFEncoder(bio, major=case["version"], id=D.U2, created=D.CREATED[0], tags=[(put[0], put[1])])
        seg = enc.add_segment(id=D.U1, tags=[(put[2], put[3])])
        seg.add_flow(D.U1, D.U2, put[4], "{}")
        g = D.abstract("audio", {})
        label = (9, 25, 1, True)
        g["timelabels"] = [(put[5],) + label]
        with enc:
            enc.add_grain(D.make(g))
        g["timelabels"] = [(at[5],) + label]
        f = self.check_write(bio.getvalue(), [g], (case["version"], 0))
        d = D.diff({"tags": f["tags"], "segments": f["segments"]},
                   {"tags": [(at[0], at[1])],
                    "segments": [{"local_id": 1, "id": D.U1, "count": 1, "tags": [(at[2], at[3])],
                                  "flow": {"source_id": D.U1, "flow_id": D.U2, "format": at[4], "data": "{}"}}]}, "head")
        if d:
            raise Violation("the file written: " + d)
        loads(bio.getvalue())
        return (case["place"], cut[-3:])

    def run_write_file(self, case):
        """Header blocks: file tags, segments with tags and flows."""
        nt, ns, nf = case["combo"]
        bio = BytesIO()
        tags = [("k%d" % i, "\u20ac" * i) for i in range(nt)]
        enc = GSFEncoder(bio, major=case["version"], id=D.U2, created=D.CREATED[0], tags=tags)
        want = []
        for i in range(ns):
            stags = [("s", str(j)) for j in range((nt + i) % 3)]
            s = enc.add_segment(id=D.UUID(int=i + 1), local_id=3 * i + 1, tags=stags)
            fl = None
            if nf and i < nf:
                s.add_flow(D.U1, D.U2, "f" * (64 if i else 3), "{}" * i)
                fl = {"source_id": D.U1, "flow_id": D.U2, "format": "f" * (64 if i else 3), "data": "{}" * i}
            want.append({"local_id": 3 * i + 1, "id": D.UUID(int=i + 1), "count": 0, "tags": stags, "flow": fl})
        with enc:
            pass
        f = self.check_write(bio.getvalue(), [], (case["version"], 0))
        d = D.diff({k: f[k] for k in ("id", "created", "tags", "segments")},
                   {"id": D.U2, "created": D.created_tuple(D.CREATED[0]), "tags": tags, "segments": want}, "head")
        if d:
            raise Violation("the file written: " + d)
        return f["segments"]


class Bytesish:
    def __init__(self, b):
        self.b = b

    def __bytes__(self):
        return self.b


def _np(dt):
    def f(b):
        import numpy as np
        return np.frombuffer(b, dtype=dt).copy()
    return f


def _mv(fmt):
    return lambda b: memoryview(b).cast(fmt)


def _io(b):
    from mediagrains.utils.iobytes import IOBytes
    return IOBytes(BytesIO(b"xx" + b + b"yy"), 2, len(b))


CONTAINERS = [bytes, bytearray, memoryview, Bytesish, _np("uint8"), _np("uint16"), _np("int32"), _mv("H"), _io]


def _raw(b):
    class Raw:
        tag, leaf, children = b"raw ", False, []

        def bytes(self):
            return b
    return Raw()


def _canon(g):
    import json
    g = {k: v for k, v in g.items() if k not in ("true", "kf_null")}
    g["rate"], g["duration"] = (tuple(D.rat(Fraction(*g[k])) for k in ("rate", "duration")))
    if g["type"] == "event":
        g["data"] = json.loads(g["data"].decode("utf-8"))
    return g


def head_of(head):
    return {"id": head["id"], "created": D.created_tuple(head["created"]), "tags": [tuple(t) for t in head["tags"]],
            "segments": [{"local_id": s["local_id"], "id": s["id"], "count": s["count"],
                          "tags": [tuple(t) for t in s["tags"]], "flow": s.get("flow")} for s in head["segments"]]}


def want_head(f):
    return {"id": f["id"], "created": f["created"], "tags": f["tags"], "segments": f["segments"]}


CHECK = C02
