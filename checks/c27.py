"""C27: outputs that fail, take data in pieces, or stop at any moment."""
import asyncio
import errno
import io
import itertools
import os
import resource
import shutil
import subprocess
import sys
import tempfile

from mc.core import Check, Chooser, Violation
from mc import aio, env, gsfdom as D, refgsf as R, readers as RD
from mediagrains import gsf
from mediagrains.gsf import GSFDecodeError, GSFEncoder, GrainDataLoadingMode as Mode
from mediagrains.utils.asyncbinaryio import AsyncBytesIOWrapper, AsyncFileWrapper, AsyncStreamWrapper, \
    AsyncBytesIO, OpenAsyncBinaryIO, wrap_in_executor

SEGS = [(1, D.U1), (7, D.U2)]


class Disk(io.RawIOBase):
    """An output which records what is done to it, takes writes in pieces, or fails, as planned.

    plan: {"each": n}             no write takes more than n octets
          {"at": k, "cut": n}     the k-th write takes n octets only
          {"fault": k, "torn": n, "ever": bool, "errno": e}
                                  the k-th operation fails, having written n octets if it is a write; "ever": and so do
                                  all later ones
    """
    def __init__(self, held=b"", seekable=True, plan=None):
        self.b = bytearray(held)
        self.pos = len(held) if seekable else 0
        self._seekable = seekable
        self.plan = plan or {}
        self.n = 0              # operations so far
        self.log = []           # ("write", position, octets) | ("truncate", size)
        self.raised = []
        self.writes = 0

    def writable(self):
        return True

    def readable(self):
        return False

    def seekable(self):
        return self._seekable

    def _fails(self):
        k = self.plan.get("fault")
        if k is not None and (self.n == k or (self.n > k and self.plan["ever"])):
            first = self.n == k
            self.n += 1
            e = OSError(self.plan.get("errno", errno.ENOSPC), "planned")
            self.raised.append(e)
            return e, first
        self.n += 1
        return None, False

    def _put(self, data):
        if len(data) and self.pos > len(self.b):
            self.b += bytes(self.pos - len(self.b))
        self.b[self.pos:self.pos + len(data)] = data
        if data:
            self.log.append(("write", self.pos, data))
        self.pos += len(data)

    def write(self, data):
        data = bytes(data)
        e, first = self._fails()
        if e is not None:
            if first:
                self._put(data[:min(self.plan["torn"], max(0, len(data) - 1))])
            raise e
        n = len(data)
        if "each" in self.plan:
            n = min(n, self.plan["each"])
        if self.plan.get("at") == self.writes:
            n = min(n, self.plan["cut"])
        self.writes += 1
        self._put(data[:n])
        return n

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        e, _ = self._fails()
        if e is not None:
            raise e
        return self.pos

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        e, _ = self._fails()
        if e is not None:
            raise e
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.b) + off
        return self.pos

    def truncate(self, size=None):
        if not self._seekable:
            raise io.UnsupportedOperation("truncate")
        e, _ = self._fails()
        if e is not None:
            raise e
        size = self.pos if size is None else size
        del self.b[size:]
        self.b += bytes(size - len(self.b))
        self.log.append(("truncate", size))
        return size


def ch_wait(loop):
    return loop.chooser.choose(2, "cancel") == 0


class AsyncDisk(OpenAsyncBinaryIO):
    """A Disk behind the library's interface for asynchronous files."""
    def __init__(self, disk):
        self.disk = disk

    async def read(self, size=-1):
        raise io.UnsupportedOperation("read")

    readinto = readall = read

    async def write(self, b):
        return self.disk.write(b)

    async def truncate(self, size=None):
        return self.disk.truncate(size)

    def tell(self):
        return self.disk.tell()

    def seek(self, off, whence=0):
        return self.disk.seek(off, whence)

    def seekable(self):
        return self.disk.seekable()

    def readable(self):
        return False

    def writable(self):
        return True


class Transport:
    """What asyncio.StreamWriter offers; errors come from drain."""
    def __init__(self, disk):
        self.disk, self.e = disk, None

    def write(self, b):
        if self.e is None:
            try:
                self.disk.write(b)
            except OSError as e:
                self.e = e

    async def drain(self):
        e, self.e = self.e, None
        if e is not None:
            raise e

    def close(self):
        pass


# -- the ways of writing: each gives the calls a program makes, as [(name, numbers of the grains added, call)] ----------
class Slow(AsyncDisk):
    """A Disk whose writes and truncation take a while."""
    @wrap_in_executor
    def write(self, b):
        return self.disk.write(b)

    @wrap_in_executor
    def truncate(self, size=None):
        return self.disk.truncate(size)


def encoder(f, v, streaming):
    enc = GSFEncoder(f, major=v, id=D.U1, created=D.CREATED[0], streaming=streaming, tags=[("k", "v")])
    for lid, sid in SEGS:
        s = enc.add_segment(id=sid, local_id=lid, tags=[("a", "\u20ac")])
        if lid == 7:
            s.add_flow(D.U1, D.U2, "urn:f", "{}")
    return enc


def sync(streaming, how, before=False):
    def calls(disk, items, v):
        enc = encoder(disk, v, streaming)
        box = []
        n = 0
        if before:
            n = (len(items) + 1) // 2
            for g, lid in items[:n]:
                enc.add_grain(D.make(g), segment_local_id=lid)
        yield "open", list(range(n)), lambda: box.append(enc.__enter__())
        if how == "many":
            for lid, grp in itertools.groupby(enumerate(items[n:], n), key=lambda x: x[1][1]):
                grp = list(grp)
                yield "add", [i for i, _ in grp], lambda grp=grp, lid=lid: box[0].add_grains(
                    (D.make(g) for _, (g, _) in grp), segment_local_id=lid)
        elif how.endswith("_many"):
            for lid, grp in itertools.groupby(enumerate(items[n:], n), key=lambda x: x[1][1]):
                grp = list(grp)
                if how == "segment_many":
                    yield "add", [i for i, _ in grp], lambda grp=grp, lid=lid: box[0].segments[lid].add_grains(
                        D.make(g) for _, (g, _) in grp)
                else:
                    yield "add", [i for i, _ in grp], lambda grp=grp, lid=lid: enc.add_grains(
                        (D.make(g) for _, (g, _) in grp), segment_local_id=lid)
        else:
            for i, (g, lid) in enumerate(items[n:], n):
                if how == "segment":
                    yield "add", [i], lambda g=g, lid=lid: box[0].segments[lid].add_grain(D.make(g))
                elif how == "encoder":
                    yield "add", [i], lambda g=g, lid=lid: enc.add_grain(D.make(g), segment_local_id=lid)
                else:
                    yield "add", [i], lambda g=g, lid=lid: box[0].add_grain(D.make(g), segment_local_id=lid)
        yield "close", [], lambda: enc.__exit__(None, None, None)
    return calls


def legacy(disk, items, v):
    enc = encoder(disk, v, False)
    yield "open", [], lambda: enc.start_dump()
    for i, (g, lid) in enumerate(items):
        yield "add", [i], lambda g=g, lid=lid: enc.add_grain(D.make(g), segment_local_id=lid)
    yield "close", [], lambda: enc.end_dump()


def legacy_dump(disk, items, v):
    enc = encoder(disk, v, False)
    for i, (g, lid) in enumerate(items):
        yield "add", [i], lambda g=g, lid=lid: enc.add_grain(D.make(g), segment_local_id=lid)
    yield "close", [], lambda: enc.dump()


def asyn(kind, streaming, many=False):
    def calls(disk, items, v):
        f = {"file": lambda: AsyncFileWrapper(disk), "plain": lambda: disk, "own": lambda: AsyncDisk(disk),
             "wrapper": lambda: AsyncBytesIOWrapper(disk),
             "stream": lambda: AsyncStreamWrapper(writer=Transport(disk))}[kind]()
        enc = encoder(f, v, streaming)
        box = []

        async def enter():
            box.append(await enc.__aenter__())
        yield "open", [], enter
        if many:
            for lid, grp in itertools.groupby(enumerate(items), key=lambda x: x[1][1]):
                grp = list(grp)
                yield "add", [i for i, _ in grp], lambda grp=grp, lid=lid: box[0].add_grains(
                    (D.make(g) for _, (g, _) in grp), segment_local_id=lid)
        else:
            for i, (g, lid) in enumerate(items):
                yield "add", [i], lambda g=g, lid=lid: box[0].add_grain(D.make(g), segment_local_id=lid)
        yield "close", [], lambda: enc.__aexit__(None, None, None)
    return calls


def asyn_later(via):
    """Every other grain is added by a call which cannot write: it waits for one which can."""
    def calls(disk, items, v):
        enc = encoder(AsyncDisk(disk) if via == "own" else disk, v, True)
        box = []

        async def enter():
            box.append(await enc.__aenter__())
        yield "open", [], enter
        for i, (g, lid) in enumerate(items):
            if i % 3 == 1 and i < len(items) - 1:
                yield "add", [i], lambda g=g, lid=lid: box[0].add_grain(D.make(g), segment_local_id=lid)
            elif via == "encoder":
                yield "later", [i], lambda g=g, lid=lid: enc.add_grain(D.make(g), segment_local_id=lid)
            else:
                yield "later", [i], lambda g=g, lid=lid: box[0].segments[lid].add_grain(D.make(g))
        yield "close", [], lambda: enc.__aexit__(None, None, None)
    return calls


# name: (calls, may the output seek, are grains written as they are added)
WRITERS = {
    "sync": (sync(False, "add"), True, False),
    "sync_unseekable": (sync(False, "add"), False, False),
    "streaming": (sync(True, "add"), True, True),
    "streaming_many": (sync(True, "many"), True, True),
    "streaming_segment_many": (sync(True, "segment_many"), True, True),
    "streaming_encoder_many": (sync(True, "encoder_many"), True, True),
    "streaming_segment": (sync(True, "segment"), True, True),
    "streaming_encoder": (sync(True, "encoder"), True, True),
    "streaming_before": (sync(True, "add", True), True, True),
    "streaming_unseekable": (sync(True, "add"), False, True),
    "legacy": (legacy, True, True),
    "legacy_unseekable": (legacy, False, True),
    "legacy_dump": (legacy_dump, True, False),
    "async_file": (asyn("file", False), True, False),
    "async_own": (asyn("own", False), True, False),
    "async_stream": (asyn("stream", False), False, False),
    "async_streaming_file": (asyn("file", True), True, True),
    "async_streaming_pipe": (asyn("file", True), False, True),
    "async_streaming_plain": (asyn("plain", True), True, True),
    "async_streaming_many": (asyn("file", True, True), True, True),
    "async_streaming_wrapper": (asyn("wrapper", True), True, True),
    "async_streaming_own": (asyn("own", True, True), True, True),
    "async_streaming_stream": (asyn("stream", True), False, True),
    "async_later_segment": (asyn_later("segment"), True, True),
    "async_later_encoder": (asyn_later("encoder"), False, True),
    "async_later_own": (asyn_later("own"), True, True),
}
READ = ("loads", "sync_now", "sync_defer", "async_now", "async_defer", "stream_now")


def grains(kinds):
    m = D.menu()
    out = []
    for n, k in enumerate(kinds):
        g = dict(m[k], local_id=(1, 7, 7, 1, 1, 1)[n % 6], ots=(1, n, n))
        if g["type"] not in ("event", "empty"):
            g["data"] = bytes((n * 40 + x + 1) & 255 for x in range(9 + n))
        out.append((g, g["local_id"]))
    return out


class C27(Check):
    id = "C27"
    rule = ("every writing interface on an output which (a) takes every write in pieces of at most n octets (n up to "
            "16), or any one write cut short at every octet; (b) fails at any one of its operations, for once or from "
            "then on, having written nothing, part or all but one of the octets, the program leaving, going on with "
            "the next grain or making the call again; (c) stops at any operation, with the last write torn at every octet, over an earlier "
            "file: what is left is read by six interfaces.  Tools with outputs that are full.  Outcome = what is in "
            "the output and which calls fail")
    assumptions = ["writes reach the output in the order they are made",
                   "outputs block until they take at least one octet"]
    case_timeout = 60

    def prepare(self):
        one = [(dict(g, local_id=7), 7) for g, _ in grains((5, 0, 2, 5))]
        self.sets = {"none": [], "one": one, "two": grains((5, 0)), "four": grains((3, 1, 2, 5)), "video": grains((5, 5, 5)),
                     "kinds": grains((0, 1, 2, 3, 4, 5, 6, 7))}
        self.sizes = {}
        self.memo = {}
        f = {"version": (9, 0), "id": D.UF, "created": (2020, 1, 1, 1, 1, 1), "tags": [],
             "segments": [{"local_id": 9, "id": D.UF, "count": 3, "tags": [], "flow": None}],
             "grains": [D.ref_of(dict(D.menu()[5], local_id=9, data=bytes(400))) for _ in range(3)]}
        self.old = R.serialise((9, 0), R.build(f))

    # -- enumeration ---------------------------------------------------------------------------------------------------
    def cases(self):
        t = self.thorough
        for name in WRITERS:
            for s in ("none", "two", "four") if not t else self.sets:
                if "later" in name:
                    if s == "two":
                        continue
                    s = {"four": "one"}.get(s, s)
                    if len({lid for _, lid in self.sets[s]}) > 1:
                        continue
                for v in (9, 8, 7) if t else ((9, 7) if s == "two" else (9,)):
                    if any(not D.representable(g, v) for g, _ in self.sets[s]):
                        continue
                    c = {"writer": name, "set": s, "v": v}
                    yield "crash", c
                    # the standard library's stream writers take everything
                    for n in () if name.endswith("_stream") else list(range(1, 17)) + [40, 100]:
                        yield "short", dict(c, plan={"each": n})
                    disk, _ = self.perform(c, {}, "leave")
                    for k, (what, *args) in enumerate(x for x in disk.log if x[0] == "write"):
                        if name.endswith("_stream"):
                            break
                        for cut in range(1, len(args[1])) if t or s == "two" else (1, 8, len(args[1]) - 1):
                            yield "short", dict(c, plan={"at": k, "cut": cut})
                    for k in range(disk.n):
                        for torn in (0, 1, 8, 40, 1 << 30):
                            for ever in (False, True):
                                for after in ("leave", "go on") + (() if torn or ever else ("again",)):
                                        # a dump cannot begin again where it can't seek
                                        if after == "again" and k and not (WRITERS[name][1] or WRITERS[name][2]):
                                            continue
                                        yield "fault", dict(c, plan={"fault": k, "torn": torn, "ever": ever}, after=after)
        for tool in ("wrap_video_in_gsf", "wrap_audio_in_gsf", "extract_gsf_essence", "gsf_probe"):
            for to in ("file", "stdout"):
                if (tool, to) != ("gsf_probe", "file"):
                    for size in (1, 200000) if not t else (1, 300, 9000, 200000):
                        yield "full", {"tool": tool, "to": to, "size": size, "space": None}
                    for space in (0, 100, 100000) if not t else (0, 1, 100, 5000, 100000, 190000):
                        if tool != "gsf_probe" or space <= 100:
                            yield "full", {"tool": tool, "to": to, "size": 200000, "space": space}

    def configs(self):
        for out in ("mem", "file", "pipe", "own"):
            for s in ("two", "four"):
                for many in (False, True):
                    for leave in (False, True):
                        yield {"out": out, "set": s, "many": many, "leave": leave}, 3 if self.thorough else 2
                        yield {"out": out, "set": s, "many": many, "leave": leave, "twice": True}, \
                            3 if self.thorough else 1

    def explore(self, part, nparts):
        super().explore(part, nparts)
        for i, (c, bound) in enumerate(self.configs()):
            if i % nparts == part and not self.enough():
                self.schedules("cancel", c, self.one, bound)

    # -- cancelled writers ---------------------------------------------------------------------------------------------
    def one(self, c, ch):
        loop = aio.ThreadLoop(ch)
        asyncio.set_event_loop(loop)
        try:
            return loop.run_until_complete(self.session(c, loop))
        except aio.Deadlock as e:
            raise Violation("tasks block for ever: %s" % e)
        finally:
            asyncio.set_event_loop(None)
            loop.close()

    async def session(self, c, loop):
        """A task which adds grains is cancelled at some point.  The session ends ("leave"), or another task goes on with
        a last grain first."""
        items = self.sets[c["set"]]
        disk = Disk(seekable=c["out"] != "pipe")
        f = {"mem": lambda: AsyncBytesIO(), "own": lambda: Slow(disk)}.get(c["out"], lambda: AsyncFileWrapper(disk))()
        enc = encoder(f, 9, True)
        added = []

        async def adder(box, todo):
            for i in todo:
                g, lid = items[i]
                await box.add_grain(D.make(g), segment_local_id=lid)
                added.append(i)

        async def many(box, todo):
            for lid in (1, 7):
                mine = [i for i in todo if items[i][1] == lid]
                await box.add_grains((D.make(items[i][0]) for i in mine), segment_local_id=lid)
                added.extend(mine)
        todo = list(range(len(items) - (0 if c["leave"] else 1)))
        async with enc as box:
            t = asyncio.ensure_future((many if c["many"] else adder)(box, todo))
            while not t.done() and ch_wait(loop):
                await loop.run_in_executor(None, lambda: None)
            t.cancel()
            if c.get("twice"):
                for _ in range(3):
                    await asyncio.sleep(0)
                t.cancel()
            try:
                await t
                how = "done"
            except asyncio.CancelledError:
                how = "cancelled"
            if not c["leave"]:
                await adder(box, [len(items) - 1])
        b = f.value() if c["out"] == "mem" else bytes(disk.b)
        try:
            got = R.parse(b, check_counts=False)
        except R.Bad as e:
            raise Violation("a task adding grains is cancelled and the file is not a GSF file: %s" % e)
        order = [i for lid in (1, 7) for i in todo if items[i][1] == lid] if c["many"] else todo
        there = []
        for g in got["grains"]:
            i = g["ots"][1 + 1]
            w = D.ref_of(items[i][0])
            for k in ("local_id", "ots", "data", "type"):
                if (g[k] or b"") != (w[k] or b""):
                    raise Violation("grain %d has %s %r, added was %r" % (i, k, g[k], w[k]))
            there.append(i)
        last = [] if c["leave"] else [len(items) - 1]
        n = len(there) - len(last)
        if there != order[:max(n, 0)] + last or not set(added) <= set(there):
            raise Violation("the file holds grains %r; %r were added before the cancellation%s" % (
                there, added, ", the last after it" if last else ""))
        for s in got["segments"]:
            n = sum(g["local_id"] == s["local_id"] for g in got["grains"])
            if s["count"] != (-1 if c["out"] == "pipe" else n):
                raise Violation("says segment %d has %d grains, it has %d" % (s["local_id"], s["count"], n))
        return how, tuple(there), tuple(added)

    # -- running -------------------------------------------------------------------------------------------------------
    def perform(self, c, plan, after, marks=None):
        """The disk, and [(call, grains, exception)]"""
        calls, seekable, _ = WRITERS[c["writer"]]
        disk = Disk(self.old if seekable else b"", seekable, plan)
        done = []

        async def go():
            failed = False
            for what, ns, call in calls(disk, self.sets[c["set"]], c["v"]):
                if failed and after == "leave" and what == "add":
                    continue
                try:
                    try:
                        r = call()
                        if r is not None and hasattr(r, "__await__"):
                            await r
                    except Exception:
                        if after != "again" or len(ns) > 1 and what == "add":
                            raise
                        done.append((what, ns, sys.exc_info()[1]))
                        r = call()
                        if r is not None and hasattr(r, "__await__"):
                            await r
                except Exception as e:
                    done.append((what, ns, e))
                    failed = True
                    if what == "open":
                        break               # a with statement does not leave what it did not enter
                else:
                    done.append((what, ns, None))
                if marks is not None:
                    marks.append((len(disk.log), what, ns))
        aio.run(go())
        self.stats.transitions += disk.n
        return disk, done

    def run(self, kind, case):
        if kind == "cancel":
            return self.one(case["config"], Chooser(case["choices"]))
        return getattr(self, kind)(case)

    def whole(self, c, b, missing=()):
        """Parses a finished file strictly and compares it with the grains added."""
        streams = WRITERS[c["writer"]][2]
        try:
            f = R.parse(bytes(b), check_counts=False)
        except R.Bad as e:
            return "is not a GSF file: %s" % e
        items = [g for i, (g, _) in enumerate(self.sets[c["set"]]) if i not in missing]
        if not streams or c["writer"] == "streaming_before":
            if not streams:
                items = [g for lid, _ in SEGS for g in items if g["local_id"] == lid]
            else:
                n = (len(self.sets[c["set"]]) + 1) // 2
                first = [g for g, _ in self.sets[c["set"]][:n] if g in items]
                items = [g for lid, _ in SEGS for g in first if g["local_id"] == lid] + \
                    [g for g in items if g not in first]
        want = [D.ref_of(g) for g in items]
        got = f["grains"]
        if len(got) != len(want):
            return "holds %d grains, %d were added" % (len(got), len(want))
        for i, (x, w) in enumerate(zip(got, want)):
            for k in ("local_id", "ots", "data", "type"):
                if (x[k] or b"") != (w[k] or b""):
                    return "grain %d has %s %r, added was %r" % (i, k, x[k], w[k])
        known = WRITERS[c["writer"]][1] or not streams
        for s in f["segments"]:
            n = sum(g["local_id"] == s["local_id"] for g in items)
            if s["count"] != (n if known else -1):
                return "says segment %d has %d grains, it has %d" % (s["local_id"], s["count"], n)
        return None

    def short(self, c):
        disk, done = self.perform(c, c["plan"], "leave")
        for what, ns, e in done:
            if e is not None:
                raise Violation("%s fails on an output that takes its data in pieces: %s: %s"
                                % (what, type(e).__name__, e))
        bad = self.whole(c, disk.b)
        if bad:
            raise Violation("on an output that takes its data in pieces every call succeeds and the file " + bad)
        base, _ = self.perform(c, {}, "leave")
        if disk.b != base.b:
            raise Violation("an output that takes its data in pieces is given other octets")
        return c["writer"], c["set"], disk.writes

    def fault(self, c):
        disk, done = self.perform(c, c["plan"], c["after"])
        if not disk.raised:
            raise Violation("%d operations are not done when none has failed" % (c["plan"]["fault"] + 1))
        errors = [(what, ns, e) for what, ns, e in done if e is not None]
        for what, ns, e in errors:
            x, chain = e, []
            while x is not None and len(chain) < 20:
                chain.append(x)
                x = x.__cause__ or x.__context__
            if not any(x is y for x in chain for y in disk.raised):
                raise Violation("%s fails with %s: %s, the output with %s" % (what, type(e).__name__, e,
                                                                             disk.raised[0]))
        if not errors:
            bad = self.whole(c, disk.b)
            if bad:
                raise Violation("the output fails at operation %d, every call succeeds, and the file %s"
                                % (c["plan"]["fault"], bad))
        elif c["after"] == "again":
            bad = None if any(len(ns) > 1 and what == "add" for what, ns, _ in errors) else \
                "" if len(errors) > 1 else self.whole(c, disk.b)
            if bad is not None:
                raise Violation("the output fails at operation %d, the call (%s) is made again, %s" % (
                    c["plan"]["fault"], errors[0][0], "and the file " + bad if bad else "and fails"))
        # grains whose call succeeded are there, if whatever failed wrote nothing
        elif c["plan"]["torn"] == 0 and not c["plan"]["ever"] and [w for w, _, _ in errors] == ["add"] and \
                len(errors[0][1]) == 1 and c["after"] == "go on":
            bad = self.whole(c, disk.b, errors[0][1])
            if bad:
                raise Violation("adding grain %d fails, nothing else does, and the file %s" % (errors[0][1][0], bad))
        if not (c["plan"]["torn"] and not c["plan"]["ever"]):
            self.prefix(c, bytes(disk.b), None, "after the failure", [ns for _, ns, _ in errors])
        return c["writer"], c["plan"]["fault"], tuple((w, type(e).__name__) for w, _, e in done), bytes(disk.b)

    # -- crash points --------------------------------------------------------------------------------------------------
    def crash(self, c):
        marks = []
        disk, done = self.perform(c, {}, "leave", marks)
        for what, ns, e in done:
            if e is not None:
                raise e
        bad = self.whole(c, disk.b)
        if bad:
            raise Violation("the file " + bad)
        streams = WRITERS[c["writer"]][2]
        b = bytearray(self.old if WRITERS[c["writer"]][1] else b"")
        states = set()
        touched = False

        def look(must, torn):
            x = bytes(b)
            if (x, must) in states:
                return
            states.add((x, must))
            if not touched and x == self.old:
                return                      # nothing has been done yet
            self.prefix(c, x, must, "stopped after %d of %d operations%s" % (k, len(disk.log), torn))
        for k, (op, *args) in enumerate(disk.log):
            must = [i for n, what, ns in marks if n <= k and what != "later" for i in ns] if streams else []
            must = range(max(must, default=-1) + 1)         # grains which waited are written with the next
            look(len(must), "")
            touched = True
            if op == "truncate":
                del b[args[0]:]
                b += bytes(args[0] - len(b))
            else:
                pos, data = args
                keep = bytes(b)
                for n in range(1, len(data)):
                    b[:] = keep + bytes(max(0, pos - len(keep)))
                    b[pos:pos + n] = data[:n]
                    look(len(must), ", %d octets into the next" % n)
                b[:] = keep + bytes(max(0, pos - len(keep)))
                b[pos:pos + len(data)] = data
        k = len(disk.log)
        look(len(self.sets[c["set"]]), "")
        if bytes(b) != bytes(disk.b):
            raise Violation("the operations logged do not make the file")
        return c["writer"], c["set"], c["v"], len(states)

    def reading(self, x):
        """[(reader, head, [(grain, local_id)], how it ended)] of the octets x"""
        if x in self.memo:
            return self.memo[x]
        if len(self.memo) > 4000:
            self.memo.clear()
        out = []
        for name in READ:
            got = []
            end = "stopped"
            try:
                READERS[name](x, got)
            except GSFDecodeError:
                end = "error"
            except Exception as e:
                raise Violation("%s: reading fails with %s: %s" % (name, type(e).__name__, e))
            self.stats.transitions += 1
            out.append((name, got[0] if got else None, [(D.observe(g, lid), lid) for g, lid in got[1:]], end))
        self.memo[x] = out
        return out

    def prefix(self, c, x, must, when, failed=()):
        """What is left reads as the head and the first of the grains, `must` of them or more; of the grains of a call
        that failed, the first may be there."""
        if x == self.old:
            return
        reading = list(self.reading(x))
        wrong = None
        for ns in itertools.product(*[range(len(g), -1, -1) for g in failed]):
            try:
                return self.prefix_of(c, reading, must, when, {i for n, g in zip(ns, failed) for i in g[len(g) - n:]})
            except Violation as e:
                wrong = wrong or e
        raise wrong

    def prefix_of(self, c, reading, must, when, lost):
        items = [g for i, (g, _) in enumerate(self.sets[c["set"]]) if i not in lost]
        streams = WRITERS[c["writer"]][2]
        if not streams:
            items = [g for lid, _ in SEGS for g in items if g["local_id"] == lid]
        elif c["writer"] == "streaming_before":
            n = (len(self.sets[c["set"]]) + 1) // 2
            first = [g for g, _ in self.sets[c["set"]][:n]]
            items = [g for lid, _ in SEGS for g in first if g["local_id"] == lid] + items[n:]
        for name, head, got, end in reading:
            if name == "loads":
                if end == "error":
                    continue
                want = items[:len(got)]
                want = [g for k in dict.fromkeys(g["local_id"] for g in want) for g in want if g["local_id"] == k]
            else:
                want = items[:len(got)]
            if len(got) > len(items):
                raise Violation("%s: %s reads %d grains of %d" % (when, name, len(got), len(items)))
            if must is not None and len(got) < must:
                raise Violation("%s: %s reads %d grains, %d had been added" % (when, name, len(got), must))
            if head is not None:
                if head["id"] != D.U1 or [tuple(t) for t in head["tags"]] != [("k", "v")] or \
                        [(s["local_id"], s["id"]) for s in head["segments"]] != SEGS:
                    raise Violation("%s: %s reads the head %r" % (when, name, head))
            for i, ((o, lid), w) in enumerate(zip(got, want)):
                d = D.diff(o, w, "grain %d" % i)
                if d:
                    raise Violation("%s: %s: %s" % (when, name, d))

    # -- tools ---------------------------------------------------------------------------------------------------------
    def full(self, c):
        """The output of a tool is a device with no space left, or has space for so many octets."""
        d = tempfile.mkdtemp(prefix="mc-c27-")
        try:
            src = os.path.join(d, "in")
            tool, size = c["tool"], c["size"]
            if tool.startswith("wrap"):
                open(src, "wb").write(bytes(size))
                args = ["--size", "2x2", "--format", "U8_444"] if "video" in tool else []
            else:
                args = []
                with open(src, "wb") as f, GSFEncoder(f) as e:
                    for i in range(1 + size // 500):
                        g = dict(D.menu()[5], local_id=1, ots=(1, i, i), data=bytes(500))
                        e.add_grain(D.make(g), segment_local_id=1)
            module, func = {"extract_gsf_essence": ("extract_from_gsf", "extract_gsf_essence"),
                            "gsf_probe": ("extract_from_gsf", "gsf_probe")}.get(tool, ("wrap_in_gsf", tool))
            dst = "/dev/full" if c["space"] is None else os.path.join(d, "out")
            out = [] if tool == "gsf_probe" else [dst if c["to"] == "file" else "-"]
            code = ("import sys; sys.path.insert(0, %r); from mc import env; env.setup(); "
                    "from mediagrains.tools.%s import %s as main; sys.argv = %r; main()"
                    % (env.VERIF, module, func, [tool, src] + out + args))

            def limit():
                if c["space"] is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (c["space"], c["space"]))
            with open(dst, "wb") as full:
                r = subprocess.run([sys.executable, "-c", code], stdin=subprocess.DEVNULL, timeout=60, cwd=d, preexec_fn=limit,
                                   stdout=full if c["to"] == "stdout" else subprocess.DEVNULL,
                                   stderr=subprocess.PIPE)
            if r.returncode == 0:
                raise Violation("%s succeeds though there is no space for its output" % tool)
            if not r.stderr:
                raise Violation("%s ends with %d and says nothing" % (tool, r.returncode))
            return tool, c["to"], r.returncode
        finally:
            shutil.rmtree(d)


def _session(b, mode, out):
    from mediagrains.gsf import GSFDecoder
    with GSFDecoder(file_data=io.BytesIO(b)) as s:
        out.append(s.file_headers)
        for g, lid in s.grains(loading_mode=mode):
            out.append((g, lid))


async def _asession(f, mode, out):
    from mediagrains.gsf import GSFDecoder
    async with GSFDecoder(file_data=f) as s:
        out.append(s.file_headers)
        async for g, lid in s.grains(loading_mode=mode):
            await g
            out.append((g, lid))


def _loads(b, out):
    head, segs = gsf.loads(b)
    out.append(head)
    out.extend((g, k) for k in segs for g in segs[k])


async def _stream(b, out):
    await _asession(RD.stream(b), Mode.LOAD_IMMEDIATELY, out)


READERS = {
    "loads": _loads,
    "sync_now": lambda b, out: _session(b, Mode.LOAD_IMMEDIATELY, out),
    "sync_defer": lambda b, out: _session(b, Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, out),
    "async_now": lambda b, out: aio.run(_asession(gsf_bytes(b), Mode.LOAD_IMMEDIATELY, out)),
    "async_defer": lambda b, out: aio.run(_asession(gsf_bytes(b), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, out)),
    "stream_now": lambda b, out: aio.run(_stream(b, out)),
}


def gsf_bytes(b):
    from mediagrains.utils.asyncbinaryio import AsyncBytesIO
    return AsyncBytesIO(b)


CHECK = C27
