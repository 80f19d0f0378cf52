"""C03: operation histories of the encoder against an abstract encoder."""
from fractions import Fraction
from io import BytesIO

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R
from mc.fp import fingerprint
from mc.sinks import Sink, Writer
from mediagrains.grains import CodedVideoGrain
from mediagrains.cogenums import CogFrameFormat
from mediagrains.gsf import GSFEncoder, GSFEncodeError, GSFEncodeAddToActiveDump
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncStreamWrapper
from mediatimestamp.immutable import Timestamp

SEGID = D.UUID(int=0x5e6)
JUNK = b"junk" * 600


def grain(n):
    return CodedVideoGrain(src_id=D.U1, flow_id=D.U2, origin_timestamp=Timestamp(n + 1, 0),
                           creation_timestamp=Timestamp(1, 0), rate=Fraction(25, 1), duration=Fraction(1, 25),
                           cog_frame_format=CogFrameFormat.H264, origin_width=16, origin_height=16, coded_width=16,
                           coded_height=16, data=b"grain%d" % n)


class Model:
    def __init__(self):
        self.tags = []
        self.segs = {}             # local id -> {"id", "tags", "flow", "pending", "written"}
        self.order = []            # segment local ids, in the order of creation
        self.next = 1
        self.phase = "idle"        # idle, open (header not written yet), dumping
        self.n = 0                 # grains offered so far
        self.dumps = []            # finished dumps
        self.start = 0             # offset of the current dump in the output

    def find(self, sid, lid):
        if lid is None:
            c = sorted(k for k, s in self.segs.items() if sid is None or s["id"] == sid)
            return c[0] if c else None
        return lid if lid in self.segs else None


class State:
    pass


class C03(Check):
    id = "C03"
    rule = ("every operation history up to depth D of an encoder in every configuration (synchronous or asynchronous, "
            "streaming or all at once, seekable or unseekable output, empty or pre-filled output, context manager or "
            "deprecated dump calls), merging states whose complete object graphs are equal; at every state the output "
            "so far and the output after closing are strictly parsed and compared with the abstract encoder; "
            "states = distinct object graphs, transitions = operations applied")
    assumptions = ["grain contents do not influence which segment they go to (C01 covers contents)"]
    case_timeout = 30

    def configs(self):
        for sync in (True, False):
            for streaming in (True, False):
                for seekable in (True, False):
                    yield {"sync": sync, "streaming": streaming, "seekable": seekable, "legacy": False,
                           "junk": seekable, "major": 9}
        for seekable in (True, False):
            yield {"sync": True, "streaming": False, "seekable": seekable, "legacy": True, "junk": seekable,
                   "major": 7}

    def explore(self, part, nparts):
        for i, c in enumerate(self.configs()):
            depth = 5 if self.thorough else 3
            self.bfs("history", c, self.alphabet, self.build, self.canon, depth, part, nparts, 3 * i)
            if self.enough():
                return
        # longer histories of the operations that matter to counts and to reuse of the encoder
        for i, c in enumerate(self.configs()):
            depth = 7 if self.thorough else 5
            self.bfs("long", c, self.small_alphabet, self.build, self.canon, depth, part, nparts, 3 * i)
            if self.enough():
                return
        # encoders made with tags and segments of their own, whose local ids are in no order
        for i, c in enumerate(self.configs()):
            depth = 4 if self.thorough else 3
            self.bfs("built", dict(c, pre=True), self.built_alphabet, self.build, self.canon, depth, part, nparts,
                     3 * i)
            if self.enough():
                return
        # the same number of parts see different first operations

    def run(self, kind, case):
        return self.canon(self.build(case["config"], [tuple(o) for o in case["ops"]]))

    def small_alphabet(self, config, hist):
        return self.alphabet(config, hist, small=True)

    def built_alphabet(self, config, hist):
        for op in self.alphabet(config, hist):
            if op[0] in ("segment", "tag", "seg.tag", "seg.grains", "seg.flow", "grains"):
                continue
            yield op
            if op[0] == "grain" and op[2:] == (None, None):
                yield ("grain", op[1], None, 2)
                yield ("grain", op[1], 1, 9)
                yield ("segment", op[1], None, None)
                yield ("segment", op[1], 1, 5)

    def alphabet(self, config, hist, small=False):
        """What may be called next: open-encoder operations only while it is open."""
        is_open, nseg = False, int("pre" in config)
        for op in hist:
            if op[0] in ("enter", "start_dump"):
                is_open = True
            elif op[0] in ("exit", "end_dump"):
                is_open = False
            if op[0] in ("segment", "grain", "grains"):
                nseg += 1
        who = ["outer"] + (["open"] if is_open and not config["legacy"] else [])
        ops = []
        if is_open:
            ops.append(("end_dump",) if config["legacy"] else ("exit",))
        else:
            ops += [("start_dump",), ("dump",)] if config["legacy"] else [("enter",)]
        for w in who:
            ops.append(("grain", w, None, None))
            if not small:
                ops.append(("tag", w))
                ops.append(("grain", w, None, 3))
                ops.append(("grain", w, 1, None))
                ops.append(("grains", w, None, None))
            ops.append(("segment", w, None, None))
            ops.append(("segment", w, 1, 3))
        if nseg:
            ops.append(("seg.grain", 0))
            if not small:
                ops += [("seg.grains", -1), ("seg.tag", 0), ("seg.flow", -1)]
        return ops

    def canon(self, st):
        m = st.model
        ids = {}

        def rename(o):
            # auto-generated identifiers are random: number them by appearance
            if isinstance(o, D.UUID) and o not in (D.U1, D.U2, SEGID):
                return ids.setdefault(o, D.UUID(int=len(ids)))
            return o
        return fingerprint(st.enc, st.out, st.handles, m.__dict__, rename=rename)

    # -- one history ----------------------------------------------------------------------------------------------
    def build(self, config, ops):
        st = State()
        st.config = config
        st.model = Model()
        st.handles = []
        st.open = None
        created = D.CREATED[0]
        if config["sync"]:
            if config["seekable"]:
                st.out = BytesIO(JUNK if config["junk"] else b"")
                st.out.seek(7 if config["junk"] else 0)
            else:
                st.out = Sink()
            target = st.out
        elif config["seekable"]:
            st.out = target = AsyncBytesIO(JUNK if config["junk"] else b"")
        else:
            st.out = Writer()
            target = AsyncStreamWrapper(writer=st.out)
        pre = {}
        if "pre" in config:
            pre = {"tags": [("a", "b"), ("a", "c")],
                   "segments": [{"local_id": 7, "id": SEGID, "tags": [("x", "y")]}, {"local_id": 3, "id": D.U2},
                                {"local_id": 5, "id": SEGID}]}
        st.enc = GSFEncoder(target, major=config["major"], id=D.U1, created=created, streaming=config["streaming"],
                            **pre)
        st.model.tags += pre.get("tags", [])
        for s in pre.get("segments", []):
            self.new_segment(st.model, s["local_id"], s["id"], s.get("tags", []))
            if s["local_id"] not in st.enc.segments:
                raise Violation("segment %d given to the encoder is missing" % s["local_id"])
            st.handles.append(st.enc.segments[s["local_id"]])
        for op in ops:
            self.apply(st, op)
            self.check_now(st, op)
        # close on a second copy of the history, so that the state searched from is left as it is
        if not getattr(self, "_closing", False):
            self._closing = True
            try:
                c = self.build(config, list(ops))
                if c.model.phase == "idle" and (not c.model.dumps or any(s["pending"] for s in
                                                                         c.model.segs.values())):
                    self.apply(c, ("dump",) if config["legacy"] else ("enter",))
                if c.model.phase != "idle":
                    self.apply(c, ("end_dump",) if config["legacy"] else ("exit",))
                self.check_final(c)
                if len(ops) <= 4:
                    # whatever went before, an encoder which is closed takes everything again
                    tail = [("seg.tag", i) for i in range(len(c.handles))] + \
                        [("tag", "outer"), ("segment", "outer", None, None), ("seg.flow", -1)] + \
                        [("seg.grain", i) for i in range(len(c.handles) + 1)] + [("grain", "outer", None, None)] + \
                        ([("start_dump",), ("end_dump",)] if config["legacy"] else [("enter",), ("exit",)])
                    for op in tail:
                        self.apply(c, op)
                        self.check_now(c, op)
                    self.check_final(c)
            finally:
                self._closing = False
        return st

    def bytes_out(self, st):
        if isinstance(st.out, (BytesIO, AsyncBytesIO)):
            return bytes(st.out.getvalue())
        return bytes(st.out.b)

    def call(self, st, f, *a, **kw):
        """Returns ("ok", value) or ("rejected", error)."""
        try:
            r = f(*a, **kw)
            if hasattr(r, "__await__"):
                r = aio.run(r)
            return "ok", r
        except GSFEncodeError as e:
            return "rejected", e

    def expect(self, op, how, want, what):
        """want: "ok", "rejected" or "either"."""
        if want != "either" and how != want:
            raise Violation("%s is %s, expected %s (%s)" % (list(op), how, want, what))
        return how == "ok"

    def apply(self, st, op):
        m, enc = st.model, st.enc
        k = op[0]
        if k == "enter":
            m.start = 0 if st.config["seekable"] else len(self.bytes_out(st))
            st.open = enc.__enter__() if st.config["sync"] else aio.run(enc.__aenter__())
            m.phase = "open"
            if st.config["streaming"]:
                self.start(m, False)
        elif k == "start_dump":
            m.start = 0 if st.config["seekable"] else len(self.bytes_out(st))
            enc.start_dump()
            self.start(m, False)
        elif k == "dump":
            m.start = 0 if st.config["seekable"] else len(self.bytes_out(st))
            enc.dump()
            self.start(m, True)
            self.end(st)
        elif k == "end_dump":
            enc.end_dump()
            self.end(st)
        elif k == "exit":
            if st.config["sync"]:
                enc.__exit__(None, None, None)
            else:
                aio.run(enc.__aexit__(None, None, None))
            if m.phase == "open":
                self.start(m, True)
            self.end(st)
            st.open = None
        elif k == "tag":
            tag = ("k%d" % m.n, "v")
            m.n += 1
            how, _ = self.call(st, (enc if op[1] == "outer" else st.open).add_tag, *tag)
            want = "ok" if m.phase == "idle" else "rejected" if m.phase == "dumping" else \
                "ok" if op[1] == "open" else "either"
            if self.expect(op, how, want, m.phase):
                m.tags.append(tag)
        elif k == "segment":
            target = enc if op[1] == "outer" else st.open
            kw = {}
            if op[2] is not None:
                kw["id"] = SEGID
            if op[3] is not None:
                kw["local_id"] = op[3]
            lid = op[3] if op[3] is not None else m.next
            how, seg = self.call(st, target.add_segment, tags=[("in", "seg")], **kw)
            want = "ok" if m.phase == "idle" else "rejected" if m.phase == "dumping" else \
                "ok" if op[1] == "open" else "either"
            if lid in m.segs:
                want = "rejected"
            if self.expect(op, how, want, m.phase):
                if seg.local_id != lid or (op[2] is not None and seg.id != SEGID):
                    raise Violation("new segment has local id %r, expected %r" % (seg.local_id, lid))
                self.new_segment(m, lid, seg.id, [("in", "seg")])
                st.handles.append(seg)
        elif k in ("grain", "grains"):
            gs = self.take(m, 2 if k == "grains" else 1)
            target = enc if op[1] == "outer" else st.open
            kw = {}
            if op[2] is not None:
                kw["segment_id"] = SEGID
            if op[3] is not None:
                kw["segment_local_id"] = op[3]
            lid = m.find(kw.get("segment_id"), kw.get("segment_local_id"))
            if k == "grain":
                how, _ = self.call(st, target.add_grain, grain(gs[0]), **kw)
            else:
                how, _ = self.call(st, target.add_grains, (grain(g) for g in gs), **kw)
            want = "ok" if lid is not None or m.phase != "dumping" else "rejected"
            if self.expect(op, how, want, m.phase):
                if lid is None:
                    lid = op[3] if op[3] is not None else m.next
                    if lid not in enc.segments:
                        raise Violation("%s did not create segment %d: %r" % (list(op), lid, sorted(enc.segments)))
                    seg = enc.segments[lid]
                    if op[2] is not None and seg.id != SEGID:
                        raise Violation("the new segment does not have the requested id")
                    self.new_segment(m, lid, seg.id, [])
                    st.handles.append(seg)
                self.put(m, lid, gs)
        elif k in ("seg.grain", "seg.grains"):
            seg = st.handles[op[1]] if st.handles else None
            if seg is None:
                return
            gs = self.take(m, 2 if k == "seg.grains" else 1)
            if k == "seg.grain":
                how, _ = self.call(st, seg.add_grain, grain(gs[0]))
            else:
                how, _ = self.call(st, seg.add_grains, [grain(g) for g in gs])
            # an asynchronous stream may refuse grains it cannot write from a plain call, but must not lose them
            want = "ok" if m.phase != "dumping" or st.config["sync"] else "either"
            if self.expect(op, how, want, m.phase):
                self.put(m, seg.local_id, gs)
        elif k in ("seg.tag", "seg.flow"):
            seg = st.handles[op[1]] if st.handles else None
            if seg is None:
                return
            m.n += 1
            want = "rejected" if m.phase == "dumping" else "ok"
            if k == "seg.tag":
                tag = ("s%d" % m.n, "w")
                how, _ = self.call(st, seg.add_tag, *tag)
                if self.expect(op, how, want, m.phase):
                    m.segs[seg.local_id]["tags"].append(tag)
            else:
                data = "{\"n\": %d}" % m.n
                how, _ = self.call(st, seg.add_flow, D.U1, D.U2, "urn:f", data)
                if self.expect(op, how, want, m.phase):
                    m.segs[seg.local_id]["flow"] = {"source_id": D.U1, "flow_id": D.U2, "format": "urn:f",
                                                    "data": data}
        else:
            raise RuntimeError(op)

    def take(self, m, n):
        r = list(range(m.n, m.n + n))
        m.n += n
        return r

    def new_segment(self, m, lid, sid, tags):
        m.segs[lid] = {"id": sid, "tags": list(tags), "flow": None, "pending": [], "written": []}
        m.order.append(lid)
        m.next = max(m.next, lid + 1)

    def put(self, m, lid, gs):
        m.segs[lid]["written" if m.phase == "dumping" else "pending"] += gs

    def start(self, m, all_at_once):
        m.all_at_once = all_at_once
        m.phase = "dumping"
        for s in m.segs.values():
            s["written"], s["pending"] = s["pending"], []

    def end(self, st):
        m = st.model
        m.phase = "idle"
        exp = self.expected(m)
        m.dumps.append(exp)
        b = self.bytes_out(st)
        self.check_file(st, b[m.start:], exp, True)

    def expected(self, m):
        return {"tags": list(m.tags),
                "segments": [{"local_id": k, "id": m.segs[k]["id"], "tags": list(m.segs[k]["tags"]),
                              "flow": m.segs[k]["flow"]} for k in m.order],
                "grains": {k: list(m.segs[k]["written"]) for k in m.order if m.segs[k]["written"]},
                "all_at_once": m.all_at_once}

    def check_file(self, st, b, exp, complete):
        if not complete:
            exact = False
        else:
            exact = st.config["seekable"] or exp["all_at_once"]
        try:
            f = R.parse(b)
        except R.Bad as e:
            raise Violation("the output is not a valid file: %s" % e)
        if f["terminator"] != complete:
            raise Violation("terminator %s" % ("missing" if complete else "already there"))
        got = {}
        for g in f["grains"]:
            n = int(g["data"][5:])
            if g["ots"] != (1, n + 1, 0) or g["type"] != "coded_video":
                raise Violation("grain %d has a foreign header" % n)
            got.setdefault(g["local_id"], []).append(n)
        if complete or not (not st.config["sync"]):
            want = exp["grains"]
            if got != want:
                raise Violation("grains in the file by segment: %r, accepted: %r" % (got, want))
        segs = []
        for s in f["segments"]:
            s = dict(s)
            c = s.pop("count")
            n = len(exp["grains"].get(s["local_id"], []))
            if exact and c != n:
                raise Violation("segment %d says it has %d grains, it has %d" % (s["local_id"], c, n))
            if not exact and c not in (-1, n):
                raise Violation("segment %d says it has %d grains, it has %d" % (s["local_id"], c, n))
            segs.append(s)
        if (f["id"], f["created"]) != (D.U1, D.created_tuple(D.CREATED[0])):
            raise Violation("file id or creation time is wrong")
        d = D.diff(f["tags"], exp["tags"], "tags") or D.diff(segs, exp["segments"], "segments")
        if d:
            raise Violation("the file's header: " + d)

    def check_now(self, st, op):
        m = st.model
        if [(t.key, t.value) for t in st.enc.tags] != m.tags:
            raise Violation("after %s: tags are %r" % (list(op), [(t.key, t.value) for t in st.enc.tags]))
        if list(st.enc.segments) != m.order:
            raise Violation("after %s: segments are %r" % (list(op), list(st.enc.segments)))
        if m.phase == "dumping":
            self.check_file(st, self.bytes_out(st)[m.start:], self.expected(m), False)

    def check_final(self, st):
        b = self.bytes_out(st)
        if st.model.dumps:
            self.check_file(st, b[st.model.start:], st.model.dumps[-1], True)


CHECK = C03
