"""C28: inputs that fail, and tasks that are cancelled, while GSF files and essence are read."""
import asyncio
import errno
import io
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from checks.c02 import _raw, at, positions
from mc.core import Check, Chooser, Violation
from mc import aio, gsfdom as D, h264 as H, refgsf as R
from mc.stdin import InputStreamWrapper
from mediagrains import gsf
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, VideoGrain
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper, AsyncStreamWrapper
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper


class Source(io.RawIOBase):
    """An input whose k-th operation fails ("fault": k), and all later ones if "ever".  A read that fails has moved the
    position by "moved" octets.  No read returns more than "each" octets."""
    def __init__(self, b, plan=None, seekable=True):
        self.b, self.pos, self.plan, self._seekable = b, 0, plan or {}, seekable
        self.n = 0
        self.raised = []

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def _op(self, moved=0):
        k = self.plan.get("fault")
        n = self.n
        self.n += 1
        if k is not None and (n == k or (n > k and self.plan["ever"])):
            self.pos = min(max(self.pos, len(self.b)), self.pos + moved)
            e = OSError(errno.EIO, "planned")
            self.raised.append(e)
            raise e

    def tell(self):
        if self.plan.get("fault_seeks"):
            self._op()
        return self.pos

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        if self.plan.get("fault_seeks"):
            self._op()
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.b) + off
        return self.pos

    def readinto(self, b):
        n = min(len(b), max(0, len(self.b) - self.pos), self.plan.get("each", 1 << 30))
        self._op(min(n, self.plan.get("moved", 0)))
        b[:n] = self.b[self.pos:self.pos + n]
        self.pos += n
        return n


def file_of(gs, version=9, others=False):
    f = {"version": (version, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v")],
         "segments": [{"local_id": 1, "id": D.U2, "count": -1, "tags": [], "flow": None}],
         "grains": [D.ref_of(g) for g in gs]}
    blocks = R.build(f)
    if others:
        # unknown blocks wherever one can be, and more properties on every leaf, than the library knows
        ins, ext, _ = positions(blocks)
        for p in ext:
            at(blocks, p).children.append(_raw(b"later"))
        for p, i in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
            (at(blocks, p).children if p else blocks).insert(i, R.Block(b"xtra", b"grai\x00"))
    return R.serialise((version, 0), blocks)


def grains(kinds, first=0):
    m, out = D.menu(), []
    for n, k in enumerate(kinds, first):
        g = dict(m[k], local_id=1, ots=(1, n + 1, 0))
        if g["type"] not in ("event", "empty"):
            g["data"] = bytes((n * 40 + x + 1) & 255 for x in range(9 + n))
        out.append(g)
    return out


# -- readers: they put the head and the grains in `out`, and load what was deferred --------------------------------------
def use(g):
    return None if g.data is None or isinstance(g.data, bytes) else bytes(g.data)


def r_session(mode):
    def read(f, out):
        with GSFDecoder(file_data=f) as s:
            out.append(s.file_headers)
            for x in s.grains(loading_mode=mode):
                out.append(x)
    return read


def r_load(f, out):
    head, segs = gsf.load(f)
    out.append(head)
    out.extend((g, k) for k in segs for g in segs[k])


def r_legacy(**kw):
    def read(f, out):
        dec = GSFDecoder(file_data=f)
        out.append(dec.decode_file_headers())
        for x in dec.grains(**kw):
            out.append(x)
    return read


async def a_session(f, mode, out, wait):
    async with GSFDecoder(file_data=f) as s:
        out.append(s.file_headers)
        async for x in s.grains(loading_mode=mode):
            out.append(x)
            if wait:
                await x[0]


def r_async(mode, wait=True):
    return lambda f, out: aio.run(a_session(AsyncFileWrapper(f), mode, out, wait))


async def _aload(f, out):
    head, segs = await gsf.load(AsyncFileWrapper(f))
    out.append(head)
    out.extend((g, k) for k in segs for g in segs[k])


# name: (reader, may the source seek, how it is wrapped)
READERS = {"load": (r_load, True, None), "load_buffered": (r_load, True, lambda f: io.BufferedReader(f, 16)),
           "load_pipe": (r_load, False, InputStreamWrapper),
           "load_pipe_buffered": (r_load, False, lambda f: InputStreamWrapper(io.BufferedReader(f, 16))),
           "legacy": (r_legacy(), True, None), "legacy_lazy": (r_legacy(load_lazily=True), True, None),
           "legacy_skip": (r_legacy(skip_data=True), True, None),
           "aload": (lambda f, out: aio.run(_aload(f, out)), True, None)}
for _m in Mode:
    READERS["session_" + _m.name] = (r_session(_m), True, None)
    READERS["buffered_" + _m.name] = (r_session(_m), True, lambda f: io.BufferedReader(f, 16))
    READERS["pipe_" + _m.name] = (r_session(_m), False, InputStreamWrapper)
    READERS["async_" + _m.name] = (r_async(_m), True, None)
    READERS["async_buffered_" + _m.name] = (r_async(_m), True, lambda f: io.BufferedReader(f, 16))
    if _m is not Mode.LOAD_NEVER:
        READERS["async_no_wait_" + _m.name] = (r_async(_m, False), True, None)


class C28(Check):
    id = "C28"
    rule = ("reading: every reading interface, loading mode and source, every operation of the source failing, for "
            "once or from then on, with or without having moved; streams broken at every octet; essence cut from "
            "failing inputs.  deferred loads: every operation failing once, every load then made again.  cancelling: "
            "a task that loads or pulls cancelled at every point of every schedule with at most B deviations (B=1 "
            "quick, 2 thorough; two more for one configuration) and its I/O going on regardless, other tasks reading on; outcome = what was delivered "
            "and what failed")
    assumptions = ["tasks suspend only where they await I/O or one another",
                   "a read which a cancelled task began runs to its end, as it does in a thread",
                   "after a failure the reading in which it happened is not resumed"]
    case_timeout = 60

    def prepare(self):
        self.files = {}
        for name, kinds in (("two", (5, 0)), ("three", (3, 1, 5)), ("hollow", (1, 4, 2))):
            gs = grains(kinds)
            self.files[name] = (gs, file_of(gs, 8 if name == "hollow" else 9))
        a, b = grains((5,)), grains((3,), 1)
        self.files["concat"] = (a + b, file_of(a) + file_of(b))
        self.files["others"] = (self.files["two"][0], file_of(self.files["two"][0], others=True))
        self.counts = {}

    def explore(self, part, nparts):
        for i, (kind, case) in enumerate(self.cases()):
            if i % nparts == part:
                self.execute(kind, case)
                if self.enough():
                    return
        for i, (c, bound) in enumerate(self.configs()):
            if i % nparts == part:
                self.schedules("cancel", c, self.one, bound)
                if self.enough():
                    return

    def run(self, kind, case):
        if kind == "cancel":
            return self.one(case["config"], Chooser(case["choices"]))
        return getattr(self, kind)(case)

    # -- enumeration ---------------------------------------------------------------------------------------------------
    def cases(self):
        t = self.thorough
        for name in READERS:
            for file in self.files:
                for seeks in (False, True):
                    for each in (1 << 30, 5, 1) if t else ((1 << 30, 5) if file == "two" else (1 << 30,)):
                        for k in range(self.operations(name, file, seeks, each)):
                            for ever in (False, True):
                                for moved in (0,) if seeks or ever else (0, 1, 1 << 20):
                                    yield "reading", {"reader": name, "file": file,
                                                      "plan": {"fault": k, "ever": ever, "moved": moved,
                                                               "fault_seeks": seeks, "each": each}}
        for file, (gs, b) in self.files.items():
            for at in range(len(b)):
                for mode in Mode:
                    yield "stream", {"file": file, "at": at, "mode": mode.name}
            for mode in ("ALWAYS_DEFER_LOAD_IF_POSSIBLE", "ALWAYS_LOAD_DEFER_IF_POSSIBLE"):
                for how in ("sync", "async"):
                    for k in range(40):
                        for ever in (False, True):
                            for each in (1 << 30, 4):
                                yield "deferred", {"file": file, "mode": mode, "how": how, "ever": ever,
                                                   "fault": k, "each": each}
                                for n in range(1, len(gs) + 1) if k < 8 else ():
                                    yield "deferred", {"file": file, "mode": mode, "how": how, "ever": ever,
                                                       "fault": k, "each": each, "between": n}
        for what in ("video", "audio", "aac", "h264"):
            for each in (1 << 30, 7, 1):
                for k in range(400 if what == "h264" and each == 1 else 120):
                    for moved in (0, 1):
                        yield "essence", {"what": what, "fault": k, "each": each, "moved": moved}

    def operations(self, name, file, seeks, each):
        key = (name, file, seeks, each)
        if key not in self.counts:
            read, seekable, wrap = READERS[name]
            f = Source(self.files[file][1], {"fault_seeks": seeks, "each": each}, seekable)
            plan = f.plan
            plan["fault"], plan["ever"] = None, False
            out = []
            read(wrap(f) if wrap else f, out)
            self.counts[key] = f.n
        return self.counts[key]

    # -- failing inputs ------------------------------------------------------------------------------------------------
    def blame(self, e, raised, what):
        x, chain = e, []
        while x is not None and len(chain) < 20:
            chain.append(x)
            x = x.__cause__ or x.__context__
        if not any(x is y for x in chain for y in raised):
            raise Violation("%s fails with %s: %s, the input with %s" % (what, type(e).__name__, e, raised[:1]))

    def right(self, got, gs, skip, what, absent=False, complete=True):
        """What was delivered is the grains, or the first of them."""
        if len(got) > len(gs):
            raise Violation("%s: %d grains of %d" % (what, len(got), len(gs)))
        if complete and len(got) != len(gs):
            raise Violation("%s: it ends without an error after %d grains of %d" % (what, len(got), len(gs)))
        for i, ((g, lid), w) in enumerate(zip(got, gs)):
            w = dict(w)
            none = skip or (absent and g.grain_type != "event" and g.data is None)
            x = D.observe(g, lid, with_data=not none)
            if none:
                w.pop("data")
                x.pop("data", None)
            if w["type"] == "event" and (skip or absent):
                w["hdr"] = x["hdr"]
                w.pop("data", None)
                x.pop("data", None)
            d = D.diff(x, w, "grain %d" % i)
            if d:
                raise Violation("%s: %s" % (what, d))

    def reading(self, c):
        read, seekable, wrap = READERS[c["reader"]]
        gs, b = self.files[c["file"]]
        f = Source(b, c["plan"], seekable)
        out = []
        skip = "skip" in c["reader"] or "NEVER" in c["reader"]
        error = None
        try:
            read(wrap(f) if wrap else f, out)
        except Exception as e:
            error = e
            self.blame(e, f.raised, c["reader"])
        failed = len(f.raised)
        self.stats.transitions += f.n
        # lazy data is read when it is looked at; if that fails it can be looked at again
        if c["plan"]["ever"]:
            f.plan = {}
        else:
            for g, _ in out[1:]:
                try:
                    use(g)
                except Exception as e:
                    self.blame(e, f.raised, c["reader"] + ": looking at data")
        self.right(out[1:], gs, skip, "%s, %s, failure at %d" % (c["reader"], c["file"], c["plan"]["fault"]),
                   absent=error is not None or ("no_wait" in c["reader"] and not any(
                       m in c["reader"] for m in ("ALWAYS_LOAD", "IMMEDIATELY"))), complete=error is None)
        return c["reader"], c["file"], type(error).__name__, len(out), failed

    def stream(self, c):
        gs, b = self.files[c["file"]]
        mode = Mode[c["mode"]]
        out = []
        e = ConnectionResetError("planned")

        async def go():
            r = asyncio.StreamReader(loop=asyncio.get_event_loop(), limit=1 << 16)

            async def feed():
                for i in range(0, c["at"], 50):
                    r.feed_data(b[i:min(i + 50, c["at"])])
                    await asyncio.sleep(0)
                r.set_exception(e)
            t = asyncio.ensure_future(feed())
            try:
                await a_session(AsyncStreamWrapper(reader=r), mode, out, True)
            finally:
                await t
        error = None
        try:
            aio.run(go())
        except Exception as x:
            error = x
            self.blame(x, [e], "reading a stream")
        self.right(out[1:], gs, mode is Mode.LOAD_NEVER, "a stream that breaks after %d of %d octets" % (
            c["at"], len(b)), complete=error is None, absent=error is not None)
        return c["file"], c["mode"], type(error).__name__, len(out)

    def deferred(self, c):
        """Every grain is pulled, then the loads meet a failure; those that failed are made again."""
        gs, b = self.files[c["file"]]
        f = Source(b, {"fault": None, "ever": False, "fault_seeks": False, "each": c["each"]})
        mode = Mode[c["mode"]]
        got, log = [], []

        def arm():
            f.n = 0
            f.plan["fault"], f.plan["ever"] = c["fault"], c["ever"]

        def disarm():
            f.plan["fault"] = None

        def check(i, g, data, again):
            w = gs[i]
            if w["type"] == "event":
                x = D.observe(g)
                d = D.diff(x["hdr"], w["hdr"], "event")
                if d:
                    raise Violation("grain %d%s: %s" % (i, again, d))
            elif (None if data is None else bytes(data)) != (w["data"] or None) and bytes(data or b"") != w["data"]:
                raise Violation("grain %d has data %r%s, its own is %r" % (i, data, again, w["data"]))

        if c["how"] == "sync":
            with GSFDecoder(file_data=f) as s:
                for g, _ in s.grains(loading_mode=mode):
                    got.append(g)
                    if c.get("between") == len(got):
                        arm()
                        try:
                            check(len(got) - 1, g, use(g), "")
                        except OSError as e:
                            self.blame(e, f.raised, "a load")
                            log.append(-1)
                        disarm()
                if "between" not in c:
                    arm()
                for again in ("", " when asked again"):
                    for i, g in enumerate(got):
                        try:
                            check(i, g, g.data if g.grain_type == "event" or g.data is None else bytes(g.data), again)
                        except OSError as e:
                            if again:
                                raise Violation("grain %d cannot be loaded again: %s" % (i, e))
                            self.blame(e, f.raised, "a load")
                            log.append(i)
                    disarm()
        else:
            async def go():
                nonlocal got
                async with GSFDecoder(file_data=AsyncFileWrapper(f)) as s:
                    async for g, _ in s.grains(loading_mode=mode):
                        got.append(g)
                        if c.get("between") == len(got):
                            arm()
                            try:
                                check(len(got) - 1, g, await g, "")
                            except OSError as e:
                                self.blame(e, f.raised, "a load")
                                log.append(-1)
                            disarm()
                    if "between" not in c:
                        arm()
                    for again in ("", " when asked again"):
                        for i, g in enumerate(got):
                            try:
                                check(i, g, await g, again)
                            except OSError as e:
                                if again:
                                    raise Violation("grain %d cannot be loaded again: %s" % (i, e))
                                self.blame(e, f.raised, "a load")
                                log.append(i)
                                if g.grain_type != "event" and g.data is not None:
                                    raise Violation("grain %d has data after its load failed" % i)
                        disarm()
            aio.run(go())
        if len(got) != len(gs):
            raise Violation("%d grains of %d" % (len(got), len(gs)))
        self.stats.transitions += f.n
        if f.raised and not log:
            raise Violation("the input failed and no load did")
        return c["file"], c["mode"], c["how"], tuple(log)

    # -- essence -------------------------------------------------------------------------------------------------------
    def essence_of(self, what):
        src, flow = UUID(int=3), UUID(int=4)
        if what == "video":
            return GrainWrapper, VideoGrain(src_id=src, flow_id=flow, width=2, height=2, rate=Fraction(25),
                                            cog_frame_format=CogFrameFormat.U8_444), bytes(range(70))
        if what == "audio":
            return GrainWrapper, AudioGrain(src_id=src, flow_id=flow, channels=2, samples=3, sample_rate=48000,
                                            rate=Fraction(16000),
                                            cog_audio_format=CogAudioFormat.S16_INTERLEAVED), bytes(range(70))
        if what == "aac":
            from checks.c21 import adts
            data = b"".join(adts((bytes([0x21 + i]) * 5)[:1 + i], 3, 2) for i in range(4))
            return ADTSAACGrainWrapper, CodedAudioGrain(src_id=src, flow_id=flow, cog_audio_format=CogAudioFormat.AAC,
                                                        rate=Fraction(0), duration=Fraction(0)), data
        from checks.c21 import Writer
        w = Writer("base", "redundant")
        for u in ("I", "P", "P", "I"):
            w.unit(u)
        data, at = H.stream(w.units, 4)
        return H264GrainWrapper, CodedVideoGrain(
            src_id=src, flow_id=flow, cog_frame_format=CogFrameFormat.H264, origin_width=16, origin_height=16,
            coded_width=0, coded_height=0, rate=Fraction(25), duration=Fraction(1, 25),
            origin_timestamp=Timestamp(0, 0)), data

    def essence(self, c):
        wrapper, template, data = self.essence_of(c["what"])
        if c["what"] not in self.counts:
            self.counts[c["what"]] = [bytes(g.data) for g in wrapper(template, Source(data)).grains()]
        whole = self.counts[c["what"]]
        f = Source(data, {"fault": c["fault"], "ever": True, "each": c["each"], "moved": c["moved"]})
        got, error = [], None
        wrapper, template, data = self.essence_of(c["what"])
        try:
            for g in wrapper(template, f).grains():
                got.append(bytes(g.data))
        except Exception as e:
            error = e
            self.blame(e, f.raised, "cutting essence")
        if f.raised and error is None:
            raise Violation("the input fails after %d operations, and %d grains are made of it with no error"
                            % (c["fault"], len(got)))
        if got != whole[:len(got)] or (error is None and len(got) != len(whole)):
            raise Violation("grains of %r, not of %r" % (got, whole))
        self.stats.transitions += f.n
        return c["what"], len(got), type(error).__name__

    # -- cancelled tasks -----------------------------------------------------------------------------------------------
    def configs(self):
        b = 2 if self.thorough else 1
        yield {"file": "two", "src": "mem", "mode": "ALWAYS_DEFER_LOAD_IF_POSSIBLE", "victims": [[0]],
               "others": [[1]], "pull": "before"}, b + 2
        for src in ("file", "mem"):
            for mode in ("ALWAYS_DEFER_LOAD_IF_POSSIBLE", "ALWAYS_LOAD_DEFER_IF_POSSIBLE"):
                for file in ("two", "concat", "hollow"):
                    base = {"file": file, "src": src, "mode": mode}
                    n = len(self.files[file][0])
                    # a loader is cancelled; another loads other grains meanwhile, or the same
                    yield dict(base, victims=[[0]], others=[[1]], pull="before"), b
                    yield dict(base, victims=[[0]], others=[[0, 1]], pull="before"), b
                    yield dict(base, victims=[[1, 0]], others=[], pull="during"), b
                    yield dict(base, victims=[[0]], others=[[n - 1]], pull="during"), b
                    yield dict(base, victims=[[0], [1]], others=[], pull="before"), b
                    yield dict(base, victims=["pull"], others=[[0]], pull="during"), b
                yield {"file": "three", "src": src, "mode": mode, "victims": ["pull"], "others": [[0, 1]],
                       "pull": "during"}, b
                # a task which is being cancelled is cancelled again
                for n in (1, 2, 4):
                    base = {"file": "two", "src": src, "mode": mode, "twice": n}
                    yield dict(base, victims=[[0]], others=[[1]], pull="before"), b
                    yield dict(base, victims=[[0]], others=[[0, 1]], pull="before"), b
                    yield dict(base, victims=["pull"], others=[[0]], pull="during"), b

    def one(self, c, ch):
        gs, b = self.files[c["file"]]
        loop = aio.ThreadLoop(ch)
        asyncio.set_event_loop(loop)
        try:
            try:
                return loop.run_until_complete(self.session(c, gs, b, loop))
            except aio.Deadlock as e:
                raise Violation("tasks block for ever: %s" % e)
        finally:
            try:
                for t in asyncio.all_tasks(loop):
                    t._log_destroy_pending = False
            finally:
                asyncio.set_event_loop(None)
                loop.close()

    async def session(self, c, gs, b, loop):
        mode = Mode[c["mode"]]
        f = AsyncBytesIO(b) if c["src"] == "mem" else AsyncFileWrapper(io.BytesIO(b))
        seen, there = {}, [asyncio.Event() for _ in gs]
        log = []

        async def pause():
            await loop.run_in_executor(None, lambda: None)

        def check(n, g, got, who):
            w = gs[n]
            if w["type"] == "event":
                d = D.diff(D.observe(g)["hdr"], w["hdr"], "event")
                if d:
                    raise Violation("%s: grain %d: %s" % (who, n, d))
            elif bytes(got or b"") != (w["data"] or b""):
                raise Violation("%s: grain %d has data %r, its own is %r" % (who, n, got, w["data"]))

        async def pull(s, last=-1):
            async for g, lid in s.grains(loading_mode=mode):
                n = g.origin_timestamp.sec - 1
                if not 0 <= n < len(gs) or n <= last:
                    raise Violation("grain %d follows grain %d" % (n, last))
                x = D.observe(g, lid, with_data=False)
                wx = dict(gs[n])
                wx.pop("data")
                x.pop("data", None)
                if wx["type"] == "event":
                    wx["hdr"] = x["hdr"]
                d = D.diff(x, wx, "grain %d" % n)
                if d:
                    raise Violation(d)
                last = n
                seen[n] = g
                there[n].set()
                if c["pull"] == "during":
                    await pause()

        async def load(order, who):
            for n in order:
                await there[n].wait()
                await pause()
                check(n, seen[n], await seen[n], who)
                log.append((who, n))

        async with GSFDecoder(file_data=f) as s:
            puller = asyncio.ensure_future(pull(s))
            if c["pull"] == "before":
                await puller
            victims = [puller if v == "pull" else asyncio.ensure_future(load(v, "cancelled %d" % k))
                       for k, v in enumerate(c["victims"])]
            others = [asyncio.ensure_future(load(o, "other %d" % k)) for k, o in enumerate(c["others"])]
            for v in victims:
                # the point at which the task is cancelled is up to the schedule
                while not v.done() and loop.chooser.choose(2, "cancel") == 0:
                    await pause()
                v.cancel()
                if c.get("twice"):
                    for _ in range(c["twice"]):
                        await asyncio.sleep(0)
                    v.cancel()
                try:
                    await v
                    log.append("done")
                except asyncio.CancelledError:
                    log.append("cancelled")
            if puller not in victims:
                await puller
                if sorted(seen) != list(range(len(gs))):
                    raise Violation("grains %r of %d were delivered" % (sorted(seen), len(gs)))
            else:
                # the others may wait for grains that will not come
                for e, n in zip(there, range(len(gs))):
                    if n not in seen:
                        for o, k in zip(others, c["others"]):
                            if n in k:
                                o.cancel()
            for r in await asyncio.gather(*others, return_exceptions=True):
                if isinstance(r, Exception) and not isinstance(r, asyncio.CancelledError):
                    raise r if isinstance(r, Violation) else Violation(
                        "another task fails with %s: %s" % (type(r).__name__, r))
            # whatever was cancelled can be done after all
            for n in sorted(seen):
                check(n, seen[n], await seen[n], "loaded after the cancellation")
        return tuple(log), tuple(sorted(seen))


CHECK = C28
