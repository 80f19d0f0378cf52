"""C31: streams of any length take no more memory than short ones, and data nobody asks for is not read."""
import asyncio
import bisect
import gc
import io
import itertools
import os
import shutil
import sys
import tempfile
import tracemalloc
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc.core import Check, Violation
from mc import aio, gsfdom as D, h264 as H, refgsf as R
from mc.stdin import InputStreamWrapper
from checks.c21 import Writer, adts
from checks.c22 import Std
from checks.c27 import WRITERS
from mediagrains import tools
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.comparison import compare_grains_pairwise
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, VideoGrain
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.patterngenerators.audio import Silence, Tone
from mediagrains.patterngenerators.video import ColourBars, LumaSteps, MovingBarOverlay, StillPatternGenerator
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
from mediagrains.utils.asyncbinaryio import AsyncFileWrapper, AsyncStreamWrapper, OpenAsyncBinaryIO
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper

S = 1 << 16             # octets of a grain's data
FEW, MANY = 6, 18       # lengths of the streams compared


def free(n=S):
    """What nothing refers to counts as free."""
    if n > 1000:
        gc.collect()


class Source(io.RawIOBase):
    """A source which makes its octets as they are read, and knows which were."""
    def __init__(self, parts, seekable):
        """parts: [(number of octets, octets or None for filling)]"""
        self.parts = []
        at = 0
        for n, b in parts:
            self.parts.append((at, at + n, b))
            at += n
        self.size, self.pos, self._seekable = at, 0, seekable
        self.starts = [p[0] for p in self.parts]
        self.reads, self.watched = [], False

    def readable(self):
        return True

    def seekable(self):
        return self._seekable

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else self.size + off
        return self.pos

    def readinto(self, b):
        n = max(0, min(len(b), self.size - self.pos))
        free(n)
        if n:
            if self.watched:
                self.reads.append((self.pos, self.pos + n))
            end = self.pos + n
            for lo, hi, x in itertools.islice(self.parts, bisect.bisect(self.starts, self.pos) - 1, None):
                if lo >= end:
                    break
                lo2, hi2 = max(lo, self.pos), min(hi, end)
                if lo2 < hi2:
                    b[lo2 - self.pos:hi2 - self.pos] = bytes(hi2 - lo2) if x is None else x[lo2 - lo:hi2 - lo]
            self.pos = end
        return n

    def read_of(self, lo, hi):
        return sum(max(0, min(hi, b) - max(lo, a)) for a, b in self.reads)


class Null(io.RawIOBase):
    """An output which keeps nothing."""
    def __init__(self, seekable):
        self._seekable, self.pos = seekable, 0

    def writable(self):
        return True

    def seekable(self):
        return self._seekable

    def write(self, b):
        free(len(b))
        self.pos += len(b)
        return len(b)

    def tell(self):
        if not self._seekable:
            raise io.UnsupportedOperation("tell")
        return self.pos

    def seek(self, off, whence=0):
        if not self._seekable:
            raise io.UnsupportedOperation("seek")
        self.pos = off if whence == 0 else self.pos + off
        return self.pos

    def truncate(self, size=None):
        return self.pos if size is None else size

    # what tests of the outputs look at
    b = b""
    n = 0


class Own(OpenAsyncBinaryIO):
    """A source behind the library's interface for asynchronous files."""
    def __init__(self, f):
        self.f = f

    async def read(self, size=-1):
        await asyncio.sleep(0)
        return self.f.read(size)

    async def readinto(self, b):
        await asyncio.sleep(0)
        return self.f.readinto(b)

    async def readall(self):
        return self.f.readall()

    async def write(self, b):
        raise io.UnsupportedOperation("write")

    async def truncate(self, size=None):
        raise io.UnsupportedOperation("truncate")

    def tell(self):
        return self.f.tell()

    def seek(self, off, whence=0):
        return self.f.seek(off, whence)

    def seekable(self):
        return self.f.seekable()

    def readable(self):
        return True

    def writable(self):
        return False


class Text(io.TextIOBase):
    def write(self, s):
        free()
        return len(s)


class Transport:
    """Gives a stream reader what it has room for."""
    def __init__(self, source):
        self.source, self.paused = source, False

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False


def fed(source):
    r = asyncio.StreamReader(limit=1 << 13)
    t = Transport(source)
    r.set_transport(t)

    async def feed():
        while True:
            if not t.paused:
                b = source.read(1 << 12)
                if not b:
                    r.feed_eof()
                    return
                r.feed_data(b)
            await asyncio.sleep(0)
    return r, asyncio.ensure_future(feed())


def session(mode, load):
    def read(f, ids):
        with GSFDecoder(file_data=f) as s:
            for g, k in s.grains(local_ids=ids, loading_mode=mode):
                if load:
                    bytes(g.data)
                yield
    return read


def legacy(load, **kw):
    def read(f, ids):
        dec = GSFDecoder(file_data=f)
        dec.decode_file_headers()
        for g, k in dec.grains(local_ids=ids, **kw):
            if load:
                bytes(g.data)
            yield
    return read


def asession(wrap, mode, load):
    def read(f, ids):
        async def go():
            feeder = None
            if wrap == "stream":
                r, feeder = fed(f)
                src = AsyncStreamWrapper(reader=r)
            else:
                src = Own(f) if wrap == "own" else AsyncFileWrapper(f)
            async with GSFDecoder(file_data=src) as s:
                async for g, k in s.grains(local_ids=ids, loading_mode=mode):
                    if load:
                        await g
                        bytes(g.data)
            if feeder is not None:
                await feeder
        aio.run(go())
        return ()
    return read


READERS = {"legacy": (legacy(True), True), "legacy_lazy": (legacy(True, load_lazily=True), True),
           "legacy_unloaded": (legacy(False, load_lazily=True), False),
           "legacy_skip": (legacy(False, skip_data=True), False)}
for _m in Mode:
    for _load in (True, False) if _m.name != "LOAD_NEVER" else (False,):
        _n = _m.name + ("_load" if _load else "")
        READERS["session_" + _n] = (session(_m, _load), _load)
        for _w in ("own", "file", "stream"):
            # grains which nobody awaits are all loaded as such a session ends: memory for all is what is asked for
            if _w == "stream" or _load or _m is not Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE:
                READERS["async_%s_%s" % (_w, _n)] = (asession(_w, _m, _load), _load)


def gsf(n, type_, v=9, ids=(1, 2)):
    """The parts of a file of n grains, and where the payloads are."""
    g = dict(D.menu()[type_])
    mark = bytes(range(200, 240))
    parts, where = [], []
    gs = [dict(g, local_id=ids[i % len(ids)], ots=(1, i, 0), data=mark) for i in range(n)]
    f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v")],
         "segments": [{"local_id": i, "id": u, "count": -1, "tags": [], "flow": None}
                      for i, u in ((1, D.U1), (2, D.U2))], "grains": [D.ref_of(x) for x in gs]}
    b = R.header((v, 0))
    at = 0
    for x in R.build(f):
        if x.tag == b"SSBB":
            continue
        raw = x.bytes()
        if x.tag == b"grai" and mark in raw:
            i = raw.index(mark)
            more = S - len(mark)
            j = raw.index(b"grdt")
            raw = (raw[:4] + (int.from_bytes(raw[4:8], "little") + more).to_bytes(4, "little") + raw[8:j + 4]
                   + (int.from_bytes(raw[j + 4:j + 8], "little") + more).to_bytes(4, "little") + raw[j + 8:])
            b += raw[:i]
            parts.append((len(b), b))
            at += len(b)
            where.append((at, at + S))
            parts.append((S, None))
            at += S
            b = raw[i + len(mark):]
        else:
            b += raw
    parts.append((len(b), b))
    return parts, where, gs


BASE = [0]


def ready():
    """What a run needs is there."""
    gc.collect()
    if tracemalloc.is_tracing():
        tracemalloc.reset_peak()
        BASE[0] = tracemalloc.get_traced_memory()[0]


def measured(run, *args):
    """The most memory held by what was allocated in a run, once ready."""
    gc.collect()
    keep = gc.get_threshold()
    gc.set_threshold(50, 1, 1)
    tracemalloc.start()
    BASE[0] = 0
    try:
        run(*args)
        return tracemalloc.get_traced_memory()[1] - BASE[0]
    finally:
        tracemalloc.stop()
        gc.set_threshold(*keep)
        gc.collect()


SRC, FLOW = UUID(int=3), UUID(int=4)
VIDEO = dict(src_id=SRC, flow_id=FLOW, width=256, height=256, rate=Fraction(25))
KINDS = {"video": 5, "audio": 3}


class C31(Check):
    id = "C31"
    rule = ("every way of reading, writing, wrapping, generating and comparing × every kind of source × streams of %d "
            "and %d grains of %d octets: the peaks of traced memory differ by at most 3 grains; every deferring "
            "reader × filter × subset of grains whose data is asked for, in every order, at once or at the end: the "
            "octets read" % (FEW, MANY, S))
    assumptions = ["Python's tracemalloc sees all the memory that matters"]
    case_timeout = 120

    def prepare(self):
        m = D.menu()
        self.types = [i for i, g in enumerate(m) if g["type"] not in ("event", "empty")]
        measured(lambda: None)
        gc.collect()
        gc.freeze()             # so that looking for what has become free is quick

    def cases(self):
        for kind, case in self.every():
            yield kind, case
            # grains of hardly any data, many of them: nothing may be kept for each.  A session keeps account of
            # loads it has promised, and the probe was asked for everything
            if kind != "unread" and case.get("type", 5) == 5 and (self.thorough or not case.get("ids")) and not (
                    case.get("reader", "").endswith("ALWAYS_DEFER_LOAD_IF_POSSIBLE") and "stream" not in case["reader"]
                    or case.get("tool") == "probe" and case["args"]):
                yield kind, dict(case, small=True)

    def every(self):
        t = self.thorough
        n = 4 if t else 3
        for reader in ("session", "async_own", "async_file", "legacy"):
            modes = [x.name for x in Mode if x is not Mode.LOAD_IMMEDIATELY] if reader != "legacy" else ["lazy", "skip"]
            for mode in modes:
                for ids in (None, [1], [2], [9], []):
                    for v in (9, 8, 7):
                        for type_ in (self.types if t else self.types[::3]):
                            yield "unread", {"reader": reader, "mode": mode, "ids": ids, "v": v, "type": type_, "n": n,
                                             "order": [], "when": "at once"}
                    if mode in ("LOAD_NEVER", "skip"):
                        continue
                    for k in range(1, n + 1):
                        for order in itertools.permutations(range(n), k):
                            if order == tuple(sorted(order)):
                                yield "unread", {"reader": reader, "mode": mode, "ids": ids, "v": 9, "type": 5, "n": n,
                                                 "order": order, "when": "at once"}
                            yield "unread", {"reader": reader, "mode": mode, "ids": ids, "v": 9, "type": 5, "n": n,
                                             "order": order, "when": "at the end"}
        for reader in READERS:
            for seekable in (True, False):
                if "stream" in reader and seekable or not seekable and reader.startswith("async") and "stream" not in \
                        reader:
                    continue
                for wrap in ("raw", "stdin", "buffered") if not reader.startswith("async") else ("raw",):
                    if wrap == "raw" and not seekable and not reader.startswith("async"):
                        continue
                    if wrap == "buffered" and not seekable:
                        continue
                    for ids in (None, [1], [9]):
                        for type_ in self.types if t else (3, 5):
                            yield "read", {"reader": reader, "seekable": seekable, "wrap": wrap, "ids": ids,
                                           "type": type_}
        for w in WRITERS:
            if WRITERS[w][2] and w != "streaming_before" and "later" not in w:
                for type_ in self.types if t else (3, 5):
                    yield "write", {"writer": w, "type": type_}
        for what in ("video", "audio", "aac", "h264"):
            for each in (1 << 30, 4096):
                yield "essence", {"what": what, "each": each}
            for into in ("file", "pipe"):
                for outof in ("file", "pipe"):
                    yield "tool", {"tool": "wrap", "what": what, "into": into, "outof": outof}
        for into in ("file", "pipe"):
            for outof in ("file", "pipe"):
                for ids in ([], ["--only-id", "1"]):
                    yield "tool", {"tool": "extract", "args": ids, "into": into, "outof": outof}
            for args in ([], ["-a"], ["-g"], ["-a", "-g"]):
                yield "tool", {"tool": "probe", "args": args, "into": into, "outof": "pipe"}
        for same in (True, False):
            for what in ("video", "audio"):
                yield "compare", {"same": same, "what": what}
        for what in ("steps", "bars", "still", "moving", "silence", "tone"):
            yield "generate", {"what": what}

    def run(self, kind, case):
        if kind == "unread":
            return self.unread(case)
        f = getattr(self, kind)
        global S
        small = case.get("small")
        few, many, room = (100, 300, 200 * 100) if small else (FEW, 2 * MANY if self.thorough else MANY, 3 * S)
        keep = S
        try:
            S = 800 if small else S
            f(case, 1)                      # so that what is made once is made
            a = measured(f, case, few)
            b = measured(f, case, many)
        finally:
            S = keep
        self.stats.transitions += few + many
        if b - a > room:
            raise Violation("%s %r: %d grains take %d octets of memory, %d take %d" % (kind, case, few, a, many, b))
        return kind, tuple(sorted((k, str(x)) for k, x in case.items())), max(0, b - a) // room

    # -- octets read ---------------------------------------------------------------------------------------------------
    def unread(self, c):
        parts, where, gs = gsf(c["n"], c["type"], c["v"])
        src = Source(parts, True)
        src.watched = True
        mine = [i for i, g in enumerate(gs) if c["ids"] is None or g["local_id"] in c["ids"]]
        asked = set()

        def look(when):
            self.stats.transitions += 1
            for i, (lo, hi) in enumerate(where):
                n = src.read_of(lo, hi)
                if i in asked and n < hi - lo:
                    raise Violation("%s only %d octets of the data of grain %d were read" % (when, n, i))
                if i not in asked and n > (hi - lo) // 4:
                    raise Violation("%s %d octets of the data of grain %d were read, which nobody asked for" % (
                        when, n, i))

        def touch(g):
            if c["reader"] in ("session", "legacy") and g.data is not None:
                len(g.data), repr(g.data)
            g.length, g.meta, g.origin_timestamp, g.final_origin_timestamp(), g.origin_timerange(), g.timelabels, g.rate

        def got(i, g, load):
            touch(g)
            look("given grain %d" % i)
            if load:
                asked.add(i)

        order = [i for i in c["order"] if i in mine]
        at_once = c["when"] == "at once"
        if c["reader"] in ("session", "legacy"):
            held = {}
            if c["reader"] == "session":
                dec = GSFDecoder(file_data=src)
                s = dec.__enter__()
                it = s.grains(local_ids=c["ids"], loading_mode=Mode[c["mode"]])
            else:
                dec = GSFDecoder(file_data=src)
                dec.decode_file_headers()
                it = dec.grains(local_ids=c["ids"], **{"lazy": {"load_lazily": True},
                                                      "skip": {"skip_data": True}}[c["mode"]])
            for i, (g, k) in zip(mine, it):
                got(i, g, at_once and i in order)
                if i in asked:
                    self.whole(i, g)
                    look("loaded grain %d" % i)
                held[i] = g
            if list(it):
                raise Violation("more grains than are in the file")
            if len(held) != len(mine):
                raise Violation("%d grains of %d" % (len(held), len(mine)))
            for i in () if at_once else order:
                asked.add(i)
                self.whole(i, held[i])
                look("loaded grain %d" % i)
            if c["mode"] != "ALWAYS_LOAD_DEFER_IF_POSSIBLE":
                if c["reader"] == "session":
                    dec.__exit__(None, None, None)
                look("at the end")
        else:
            async def go():
                held = {}
                dec = GSFDecoder(file_data=Own(src) if c["reader"] == "async_own" else AsyncFileWrapper(src))
                s = await dec.__aenter__()
                it = s.grains(local_ids=c["ids"], loading_mode=Mode[c["mode"]])
                ns = iter(mine)
                async for g, k in it:
                    i = next(ns)
                    got(i, g, at_once and i in order)
                    if i in asked:
                        await g
                        self.whole(i, g)
                        look("loaded grain %d" % i)
                    held[i] = g
                if len(held) != len(mine):
                    raise Violation("%d grains of %d" % (len(held), len(mine)))
                for i in () if at_once else order:
                    asked.add(i)
                    await held[i]
                    self.whole(i, held[i])
                    look("loaded grain %d" % i)
                if c["mode"] == "ALWAYS_LOAD_DEFER_IF_POSSIBLE":
                    asked.update(mine)      # the documentation has them all loaded on leaving
                await dec.__aexit__(None, None, None)
                look("at the end")
            aio.run(go())
        return c["reader"], c["mode"], tuple(order), tuple(mine), c["when"]

    def whole(self, i, g):
        if len(bytes(g.data)) != S:
            raise Violation("the data of grain %d is of %d octets" % (i, len(g.data)))

    # -- memory --------------------------------------------------------------------------------------------------------
    def read(self, c, n):
        parts, _, _ = gsf(n, c["type"])
        f = Source(parts, c["seekable"])
        if c["wrap"] == "stdin":
            f = InputStreamWrapper(f)
        elif c["wrap"] == "buffered":
            f = io.BufferedReader(f)
        read, _ = READERS[c["reader"]]
        ready()
        for _ in read(f, c["ids"]):
            pass

    def write(self, c, n):
        calls, seekable, _ = WRITERS[c["writer"]]
        out = Null(seekable)
        m = D.menu()
        gs = [(dict(m[c["type"]], local_id=(1, 1, 7)[i % 3], ots=(1, i, i), data=b""), (1, 1, 7)[i % 3])
              for i in range(n)]
        make = D.make

        def made(g):
            return make(dict(g, data=bytes(S)))

        ready()

        async def go():
            for _, _, call in calls(out, gs, 9):
                r = call()
                if r is not None and hasattr(r, "__await__"):
                    await r
        D.make = made
        try:
            aio.run(go())
        finally:
            D.make = make

    def essence_of(self, what, n):
        """(wrapper, template, source)"""
        if what == "video":
            t = VideoGrain(cog_frame_format=CogFrameFormat.U8_444, **dict(VIDEO, height=S // 768))
            return GrainWrapper, t, Source([(n * (S // 768) * 768, None)], False)
        if what == "audio":
            t = AudioGrain(src_id=SRC, flow_id=FLOW, channels=2, samples=S // 4, sample_rate=48000,
                           rate=Fraction(48000, S // 4), cog_audio_format=CogAudioFormat.S16_INTERLEAVED)
            return GrainWrapper, t, Source([(n * S, None)], False)
        if what == "aac":
            x = adts(bytes(8000), 3, 2)
            t = CodedAudioGrain(src_id=SRC, flow_id=FLOW, cog_audio_format=CogAudioFormat.AAC, rate=Fraction(0),
                                duration=Fraction(0))
            return ADTSAACGrainWrapper, t, Source([(len(x), x)] * (n * 8), False)
        w = Writer("base", "redundant")
        for i in range(n):
            w.unit("I" if i == 0 else "P")
        data, starts = H.stream(w.units, 4)
        starts = list(starts) + [len(data)]
        fill = b"\0\0\0\1\x0c" + b"\xff" * (S - 200) + b"\x80"
        parts = []
        for a, b in zip(starts, starts[1:]):
            parts += [(b - a, data[a:b]), (len(fill), fill)]
        t = CodedVideoGrain(src_id=SRC, flow_id=FLOW, cog_frame_format=CogFrameFormat.H264, origin_width=16,
                            origin_height=16, coded_width=0, coded_height=0, rate=Fraction(25),
                            duration=Fraction(1, 25), origin_timestamp=Timestamp(0, 0))
        return H264GrainWrapper, t, Source(parts, False)

    def essence(self, c, n):
        wrapper, t, src = self.essence_of(c["what"], n)
        if c["each"] != 1 << 30:
            whole = src.readinto
            src.readinto = lambda b: whole(memoryview(b)[:c["each"]])
        ready()
        count = 0
        for g in wrapper(t, src).grains():
            count += 1
        if count != n * (8 if c["what"] == "aac" else 1):
            raise Violation("%s: %d grains" % (c["what"], count))

    def tool(self, c, n):
        where = tempfile.mkdtemp()
        keep = sys.argv, sys.stdin, sys.stdout, sys.stderr
        try:
            if c["tool"] == "wrap":
                src = self.essence_of(c["what"], n)[2]
                name, args = {
                    "video": ("wrap_video_in_gsf", ["--size", "256x%d" % (S // 768), "--format", "U8_444"]),
                    "h264": ("wrap_video_in_gsf", ["--size", "16x16", "--format", "H264"]),
                    "audio": ("wrap_audio_in_gsf", ["--format", "S16_INTERLEAVED", "--samples-per-grain", str(S // 4)]),
                    "aac": ("wrap_audio_in_gsf", ["--format", "AAC"])}[c["what"]]
            else:
                src = Source(gsf(n, 5)[0], False)
                name, args = {"extract": "extract_gsf_essence", "probe": "gsf_probe"}[c["tool"]], c["args"]
            argv = [name]
            stdin = Std(io.BufferedReader(src))
            if c["into"] == "file":
                with open(os.path.join(where, "in"), "wb") as f:
                    while True:
                        b = src.read(4096)
                        if not b:
                            break
                        f.write(b)
                argv.append(os.path.join(where, "in"))
            else:
                argv.append("-")
            stdout = Std(io.BufferedWriter(Null(False)))
            if c["tool"] == "probe":
                stdout = Text()
            else:
                argv.append(os.path.join(where, "out") if c["outof"] == "file" else "-")
            sys.argv, sys.stdin, sys.stdout, sys.stderr = argv + list(args), stdin, stdout, Text()
            ready()
            try:
                getattr(tools, name)()
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise Violation("%s ended with %r" % (argv, e.code))
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = keep
            shutil.rmtree(where)

    def compare(self, c, n):
        def grains(k):
            for i in range(n):
                if c["what"] == "video":
                    g = VideoGrain(cog_frame_format=CogFrameFormat.U8_444, origin_timestamp=Timestamp(i, 0),
                                   **dict(VIDEO, height=S // 768))
                else:
                    g = AudioGrain(src_id=SRC, flow_id=FLOW, channels=2, samples=S // 4, sample_rate=48000,
                                   rate=Fraction(48000, S // 4), cog_audio_format=CogAudioFormat.S16_INTERLEAVED,
                                   origin_timestamp=Timestamp(i, 0))
                g.data[0] = k
                free()
                yield g
        r = compare_grains_pairwise(grains(1), grains(1 if c["same"] else 2), return_last_only=True)
        if bool(r) is not c["same"]:
            raise Violation("grains compare as %r" % bool(r))

    def generate(self, c, n):
        a = (SRC, FLOW, 128, 128)
        kw = dict(rate=Fraction(25), cog_frame_format=CogFrameFormat.S16_422_10BIT)
        audio = dict(samples=S // 4, channels=2, cog_audio_format=CogAudioFormat.S16_INTERLEAVED)
        gen = {"steps": lambda: LumaSteps(*a, **kw), "bars": lambda: ColourBars(*a, **kw),
               "still": lambda: StillPatternGenerator(next(iter(LumaSteps(*a, **kw)))),
               "moving": lambda: MovingBarOverlay(LumaSteps(*a, **kw)),
               "silence": lambda: Silence(SRC, FLOW, **audio),
               "tone": lambda: Tone(SRC, FLOW, frequency=3000, **audio)}[c["what"]]()
        for g in itertools.islice(gen, n):
            bytes(g.data)
            free()


CHECK = C31
