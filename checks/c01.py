"""C01: what is written to a GSF file is what is read back."""
from io import BytesIO

from mc.core import Check, Violation
from mc import gsfdom as D
from mediagrains.gsf import GSFEncoder, dumps, load, loads

TAGS = [[], [("k", "v")], [("", "")], [("\u00e9\U0001f600", "\u4e2d" * 50), ("k", "2"), ("k", "2")],
        [("x" * 65535, "y" * 65535)]]
FLOW = [None, {"format": "urn:x-nmos:format:video", "data": "{}"}, {"format": "", "data": ""},
        {"format": "f" * 64, "data": "{\"a\": \"\u00e9\u20ac\"}" * 40},
        {"format": " urn:x\t", "data": " %s\n" % ("z" * 70000)}]
SEGIDS = [[1], [], [0], [65535], [1, 2, 3], [7, 3, 65535], [2, 1]]


class C01(Check):
    id = "C01"
    rule = ("every grain of each of the 6 grain types that departs from a baseline grain in at most N header, timing, "
            "label or data fields (N=2 quick, 3 thorough; each field over its boundary values), in each format "
            "version that can represent it; and every combination of file-level metadata values; written and read "
            "back on the real code, outcome = the decoded grain or header; distinct = different decoded values")
    assumptions = ["field values outside the enumerated boundary sets behave like those inside them"]

    def cases(self):
        for kind in D.TYPES:
            for dev in D.deviations(kind, 3 if self.thorough else 2):
                for v in (7, 8, 9):
                    if D.representable(D.abstract(kind, dev), v):
                        yield "grain", {"type": kind, "dev": dev, "version": v}
        for v in (7, 8, 9):
            for n in (0, 1, 2, 3):
                for s in (0, 1):
                    yield "mixed", {"version": v, "n": n, "streaming": s}
            for c in range(len(D.CREATED)):
                for t in range(len(TAGS)):
                    for s in range(len(SEGIDS)):
                        for fl in range(len(FLOW)):
                            for streaming in (0, 1):
                                if not self.thorough and sum(map(bool, (c, t, s, fl))) > 2:
                                    continue
                                yield "head", {"version": v, "created": c, "tags": t, "segs": s, "flow": fl,
                                               "streaming": streaming}

    def run(self, kind, case):
        return getattr(self, "run_" + kind)(case)

    def run_grain(self, case):
        g = D.abstract(case["type"], case["dev"])
        v = case["version"]
        f = BytesIO()
        enc = GSFEncoder(f, major=v, minor=0)
        enc.add_segment(local_id=g["local_id"])
        with enc as e:
            e.add_grain(D.make(g), segment_local_id=g["local_id"])
        head, segs = loads(f.getvalue())
        if set(segs) != {g["local_id"]} or len(segs[g["local_id"]]) != 1:
            raise Violation("one grain in segment %d came back as %r" %
                            (g["local_id"], {k: len(x) for k, x in segs.items()}))
        out = D.observe(segs[g["local_id"]][0], g["local_id"])
        d = D.diff(out, g, "grain")
        if d:
            raise Violation("decoded " + d)
        return out

    def run_mixed(self, case):
        """Several grains of all types in one file keep their order, and neighbours do not disturb each other."""
        import itertools
        m = [g for g in D.menu() if D.representable(g, case["version"])]
        total = 0
        for combo in itertools.product(range(len(m)), repeat=case["n"]):
            gs = [m[i] for i in combo]
            if case["streaming"]:
                f = BytesIO()
                enc = GSFEncoder(f, major=case["version"], streaming=True)
                enc.add_segment(local_id=1)
                with enc as e:
                    for g in gs:
                        e.add_grain(D.make(g))
                b = f.getvalue()
            else:
                b = dumps([D.make(g) for g in gs], major=case["version"])
            head, segs = load(BytesIO(b))
            out = [D.observe(x, 1) for x in segs.get(1, [])]
            d = D.diff(out, gs, "grains")
            if d:
                raise Violation("grains %r: %s" % (combo, d))
            if head["segments"][0]["count"] != len(gs):
                raise Violation("count is %r for %d grains" % (head["segments"][0]["count"], len(gs)))
            total += 1
        self.stats.evaluations += total
        self.stats.transitions += total
        return ("mixed", case["version"], case["n"], total)

    def run_head(self, case):
        f = BytesIO()
        created = D.CREATED[case["created"]]
        tags = TAGS[case["tags"]]
        enc = GSFEncoder(f, major=case["version"], id=D.U1, created=created, tags=tags,
                         streaming=bool(case["streaming"]))
        want = {"id": D.U1, "created": D.created_tuple(created), "tags": [tuple(t) for t in tags], "segments": []}
        for n, lid in enumerate(SEGIDS[case["segs"]]):
            sid = D.UUID(int=n + 5)
            stags = TAGS[(case["tags"] + n) % len(TAGS)]
            seg = enc.add_segment(id=sid, local_id=lid, tags=stags)
            w = {"id": sid, "local_id": lid, "count": 0, "tags": [tuple(t) for t in stags]}
            fl = FLOW[case["flow"]] if n != 1 else None
            if fl is not None:
                seg.add_flow(D.U1, D.U2, fl["format"], fl["data"] if n == 0 else fl["data"].encode("utf-8"))
                w["flow"] = {"source_id": D.U1, "flow_id": D.U2, "format": fl["format"], "data": fl["data"]}
            want["segments"].append(w)
        with enc:
            pass
        head, segs = loads(f.getvalue())
        got = dict(head)
        c = got.pop("created")
        if c.tzinfo is None or c.utcoffset().total_seconds() != 0 or c.microsecond:
            raise Violation("created comes back as %r, not a whole second in UTC" % c)
        got["created"] = D.created_tuple(c)
        got["tags"] = [tuple(t) for t in got["tags"]]
        got["segments"] = [dict(s, tags=[tuple(t) for t in s["tags"]]) for s in got["segments"]]
        d = D.diff(got, want, "head")
        if d:
            raise Violation("decoded " + d)
        if segs:
            raise Violation("grains appeared from nowhere: %r" % segs)
        return got


CHECK = C01
