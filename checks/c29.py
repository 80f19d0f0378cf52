"""C29: what arrives in a stream is delivered as it arrives, and what is streamed out leaves at once."""
import asyncio
import io
from fractions import Fraction
from uuid import UUID

from mediatimestamp.immutable import Timestamp

from mc.core import Check, Violation
from mc import aio, gsfdom as D, h264 as H, refgsf as R
from mc.stdin import InputStreamWrapper
from checks.c02 import _raw, at, positions
from checks.c21 import Writer, adts
from checks.c27 import WRITERS, Disk
from mediagrains.cogenums import CogAudioFormat, CogFrameFormat
from mediagrains.grains import AudioGrain, CodedAudioGrain, CodedVideoGrain, VideoGrain
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
from mediagrains.utils.asyncbinaryio import AsyncStreamWrapper
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper


class Blocked(BaseException):
    """The reader waits for octets which have not arrived."""


class Pipe(io.RawIOBase):
    """A pipe in which the first `there` octets have arrived, in pieces of at most `each`."""
    def __init__(self, b, there, each=1 << 30):
        self.b, self.there, self.each, self.pos = b, there, each, 0

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, b):
        n = min(len(b), self.there - self.pos, self.each)
        if n <= 0 and len(b):
            raise Blocked()
        b[:n] = self.b[self.pos:self.pos + n]
        self.pos += n
        return n


def r_session(mode):
    def read(f, conc, out):
        with GSFDecoder(file_data=f, support_concatenation=conc) as s:
            out.append(s.file_headers)
            for x in s.grains(loading_mode=mode):
                out.append(x)
        return True
    return read


def r_legacy(f, conc, out):
    dec = GSFDecoder(file_data=f, support_concatenation=conc)
    out.append(dec.decode_file_headers())
    for x in dec.grains():
        out.append(x)
    return True


READERS = {"legacy": r_legacy}
for _m in Mode:
    READERS["session_" + _m.name] = r_session(_m)
WRAPS = {"stdin": InputStreamWrapper, "hesitant": lambda f: Hesitant(f), "stdin_buffered": lambda f: InputStreamWrapper(io.BufferedReader(f, 16)),
         "stdin_wide": lambda f: InputStreamWrapper(io.BufferedReader(f)), "buffered": lambda f: Tell(f)}


class Tell(io.BufferedReader):
    """A buffered pipe which knows how much was read of it."""
    def __init__(self, f):
        super().__init__(f, 64)
        self.at = 0

    def tell(self):
        return self.at

    def take(self, n=-1):
        r = super().read(n)
        self.at += len(r)
        return r

    read = take

    def seek(self, off, whence=0):
        n = off if whence == 1 else off - self.at
        if whence == 2 or n < 0:
            raise io.UnsupportedOperation("seek")
        self.take(n)
        return self.at


class Hesitant(Tell):
    """A pipe which does not wait: it now and then has nothing yet, not even part of what is asked for."""
    def __init__(self, f):
        super().__init__(f)
        self.turn = 0

    def read(self, n=-1):
        self.turn += 1
        if n and self.turn % 5:
            return None if self.turn % 5 in (1, 3) else self.take(min(n, 3) if n > 0 else n)
        return self.take(n)


class C29(Check):
    id = "C29"
    rule = ("every file of the menu × every number of its octets having arrived × every reading interface and source × "
            "the pieces they come in; essence likewise; every streaming writer after every call; outcome = how much "
            "is delivered")
    assumptions = ["a source gives what it has and waits only when it has nothing"]
    case_timeout = 60

    def prepare(self):
        m = D.menu()

        def grains(kinds):
            out = []
            for n, k in enumerate(kinds):
                g = dict(m[k], local_id=1 + n % 2, ots=(1, n, 0))
                if g["type"] not in ("event", "empty"):
                    g["data"] = bytes((n * 40 + x + 1) & 255 for x in range(9 + n))
                out.append(g)
            return out

        def file(gs, v, others, parts=1):
            blocks = None
            b, ends = b"", []
            for p in range(parts):
                f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [("k", "v")],
                     "segments": [{"local_id": i, "id": u, "count": -1, "tags": [], "flow": None}
                                  for i, u in ((1, D.U1), (2, D.U2))],
                     "grains": [D.ref_of(g) for g in gs]}
                blocks = R.build(f)
                if others:
                    ins, ext, _ = positions(blocks)
                    for x in ext:
                        at(blocks, x).children.append(_raw(b"later"))
                    for x, i in sorted(ins, key=lambda y: (y[0], y[1]), reverse=True):
                        (at(blocks, x).children if x else blocks).insert(i, R.Block(b"xtra", b"grai\x00"))
                b += R.header((v, 0))
                for x in blocks:
                    if x.tag == b"SSBB":
                        continue
                    b += x.bytes()
                    if x.tag == b"head" and p == 0:
                        head = len(b)
                    elif x.tag == b"grai":
                        ends.append(len(b))
            # the ends of grains; a terminator has an end too
            n = len(gs) + 1
            return {"b": b, "head": head, "grains": gs * parts,
                    "ends": [e for i, e in enumerate(ends) if i % n < len(gs)],
                    "end": ends[n - 1]}
        self.files = {"two": file(grains((5, 0)), 9, False), "kinds": file(grains(range(8)), 9, False),
                      "seven": file(grains((3, 5)), 7, False) if all(
                          D.representable(g, 7) for g in grains((3, 5))) else file(grains((3, 5)), 8, False),
                      "others": file(grains((5, 1)), 9, True), "none": file([], 9, False),
                      "twice": file(grains((3, 5)), 9, False, 2)}

    def cases(self):
        t = self.thorough
        for name, f in self.files.items():
            near = {e + d for e in f["ends"] + [f["head"], f["end"]] for d in (-1, 0, 1)}
            for there in range(len(f["b"]) + 1):
                if not t and name in ("kinds", "twice") and there not in near and there % 5:
                    continue
                for conc in (True, False):
                    for reader in READERS:
                        for wrap in WRAPS:
                            for each in (1 << 30, 1, 7) if t else (1 << 30, 7) if wrap == "stdin" else (1 << 30,):
                                if not t and wrap != "stdin" and there not in near and there % 3:
                                    continue
                                yield "file", {"file": name, "there": there, "conc": conc, "reader": reader,
                                               "wrap": wrap, "each": each}
                    for mode in Mode:
                        yield "stream", {"file": name, "there": there, "conc": conc, "mode": mode.name}
        for what in ("video", "audio", "aac", "h264", "h264_short"):
            n = len(self.essence_of(what)[2])
            for there in range(n + 1):
                for wrap in ("raw", "buffered", "stdin") if not what.startswith("h264") else ("raw",):
                    for each in (1 << 30, 5, 1):
                        yield "essence", {"what": what, "there": there, "each": each, "wrap": wrap}
        for w in WRITERS:
            if WRITERS[w][2] and "later" not in w:      # calls which cannot write: C27
                for kinds in ((5, 0), (3, 1, 2, 5), (0, 1, 2, 3, 4, 5, 6, 7)):
                    yield "writer", {"writer": w, "kinds": list(kinds)}

    def run(self, kind, case):
        return getattr(self, kind)(case)

    # -- files ---------------------------------------------------------------------------------------------------------
    def delivered(self, f, out, there, ended, conc, skip, what):
        self.stats.transitions += len(out)
        if not out:
            if there >= f["head"]:
                raise Violation("%s: the head has arrived and is not delivered" % what)
            return 0
        whole = sum(e <= there for e in f["ends"])
        gs = f["grains"]
        if not conc:
            n = sum(e <= f["end"] for e in f["ends"])
            gs, whole = gs[:n], min(whole, n)
            if there >= f["end"] and not ended:
                raise Violation("%s: the terminator has arrived and the reader waits for more" % what)
        elif ended:
            raise Violation("%s: the reader takes a pause for the end" % what)
        if ended and there < f["end"]:
            raise Violation("%s: the reader takes a pause for the end" % what)
        got = len(out) - 1
        if got < whole:
            raise Violation("%s: %d grains have arrived and %d are delivered" % (what, whole, got))
        if got > len(gs):
            raise Violation("%s: %d grains of %d" % (what, got, len(gs)))
        for i, (g, lid) in enumerate(out[1:]):
            w = dict(gs[i])
            x = D.observe(g, lid, with_data=not skip)
            if skip:
                w.pop("data")
                x.pop("data", None)
                if w["type"] == "event":
                    w["hdr"] = x["hdr"]
            d = D.diff(x, w, "grain %d" % i)
            if d:
                raise Violation("%s: %s" % (what, d))
        return got

    def file(self, c):
        f = self.files[c["file"]]
        pipe = Pipe(f["b"], c["there"], c["each"])
        out, ended = [], False
        try:
            ended = READERS[c["reader"]](WRAPS[c["wrap"]](pipe), c["conc"], out)
        except Blocked:
            pass
        what = "%s of %s, %d of %d octets" % (c["reader"], c["file"], c["there"], len(f["b"]))
        got = self.delivered(f, out, c["there"], ended, c["conc"], "NEVER" in c["reader"], what)
        return c["reader"], c["wrap"], c["conc"], c["file"], got, bool(out), ended

    def stream(self, c):
        f = self.files[c["file"]]
        out = []
        state = []

        async def go():
            r = asyncio.StreamReader(limit=1 << 16)

            async def read():
                async with GSFDecoder(file_data=AsyncStreamWrapper(reader=r), support_concatenation=c["conc"]) as s:
                    out.append(s.file_headers)
                    async for x in s.grains(loading_mode=Mode[c["mode"]]):
                        out.append(x)
            t = asyncio.ensure_future(read())
            if c["there"]:
                r.feed_data(f["b"][:c["there"]])
            # until nothing more happens
            quiet, n = 0, -1
            while quiet < 60 and not t.done():
                await asyncio.sleep(0)
                quiet, n = (quiet + 1, n) if n == len(out) else (0, len(out))
            if t.done():
                t.result()
                state.append("ended")
            else:
                t.cancel()
                try:
                    await t
                except asyncio.CancelledError:
                    pass
        aio.run(go())
        what = "a stream of %s, %d of %d octets" % (c["file"], c["there"], len(f["b"]))
        got = self.delivered(f, out, c["there"], bool(state), c["conc"], "NEVER" in c["mode"], what)
        return c["mode"], c["conc"], c["file"], got, bool(out), bool(state)

    # -- essence -------------------------------------------------------------------------------------------------------
    def essence_of(self, what):
        """(wrapper, template, octets, where each grain ends)"""
        src, flow = UUID(int=3), UUID(int=4)
        if what == "video":
            t = VideoGrain(src_id=src, flow_id=flow, width=2, height=2, rate=Fraction(25),
                           cog_frame_format=CogFrameFormat.U8_444)
            return GrainWrapper, t, bytes(range(72)), list(range(12, 73, 12))
        if what == "audio":
            t = AudioGrain(src_id=src, flow_id=flow, channels=2, samples=3, sample_rate=48000, rate=Fraction(16000),
                           cog_audio_format=CogAudioFormat.S16_INTERLEAVED)
            return GrainWrapper, t, bytes(range(72)), list(range(12, 73, 12))
        if what == "aac":
            frames = [adts((bytes([0x21 + i]) * 9)[:1 + 2 * i], 3, 2, crc=i == 2) for i in range(4)]
            ends = [sum(len(x) for x in frames[:i + 1]) for i in range(4)]
            t = CodedAudioGrain(src_id=src, flow_id=flow, cog_audio_format=CogAudioFormat.AAC, rate=Fraction(0),
                                duration=Fraction(0))
            return ADTSAACGrainWrapper, t, b"".join(frames), ends
        w = Writer("base", "redundant")
        for u in ("I", "P", "P", "I", "P"):
            w.unit(u)
        data, starts = H.stream(w.units, 4 if what == "h264" else 3)
        t = CodedVideoGrain(src_id=src, flow_id=flow, cog_frame_format=CogFrameFormat.H264, origin_width=16,
                            origin_height=16, coded_width=0, coded_height=0, rate=Fraction(25),
                            duration=Fraction(1, 25), origin_timestamp=Timestamp(0, 0))
        got = [len(g.data) for g in H264GrainWrapper(t, io.BytesIO(data)).grains()]
        ends = [sum(got[:i + 1]) for i in range(len(got))]
        return H264GrainWrapper, t, data, ends

    def essence(self, c):
        wrapper, t, data, ends = self.essence_of(c["what"])
        f = Pipe(data, c["there"], c["each"])
        f = {"raw": lambda: f, "buffered": lambda: io.BufferedReader(f, 16), "stdin": lambda: InputStreamWrapper(f)}[
            c["wrap"]]()
        got = []
        try:
            for g in wrapper(t, f).grains():
                got.append(bytes(g.data))
        except Blocked:
            pass
        else:
            raise Violation("%s: a pause is taken for the end" % c["what"])
        want = [data[a:b] for a, b in zip([0] + ends, ends)]
        self.stats.transitions += len(got)
        if got != want[:len(got)]:
            raise Violation("%s: grains %r, not the first of %r" % (c["what"], got, want))
        must = sum(e <= c["there"] for e in ends)
        # where an H.264 access unit ends is only known later, and the wrapper reads ahead
        if len(got) < must and not c["what"].startswith("h264"):
            raise Violation("%s, %d octets: %d grains are due and %d are delivered" % (c["what"], c["there"], must,
                                                                                      len(got)))
        return c["what"], len(got)

    # -- streaming writers ---------------------------------------------------------------------------------------------
    def writer(self, c):
        calls, seekable, _ = WRITERS[c["writer"]]
        m = D.menu()
        items = []
        for n, k in enumerate(c["kinds"]):
            g = dict(m[k], local_id=(1, 1, 7, 7, 7)[n % 5], ots=(1, n, n))
            if g["type"] not in ("event", "empty"):
                g["data"] = bytes((n * 40 + x + 1) & 255 for x in range(9 + n))
            items.append((g, g["local_id"]))
        disk = Disk(b"", seekable)
        there = []
        out = []
        make, opened = D.make, []

        def made(g):
            """A grain asked of the program, which may give grains as it makes them: all before it are out."""
            if opened:
                look("when grain %d is asked for" % g["ots"][2], sorted(there + list(range(len(there), g["ots"][2]))),
                     bytes(disk.b) + b"grai" + bytes(4))
            return make(g)

        def look(when, want, b):
            try:
                f = R.parse(b, check_counts=False)
            except R.Bad as e:
                raise Violation("%s the output is %s" % (when, e))
            got = [g["ots"][2] for g in f["grains"]]
            if sorted(got) != want:
                raise Violation("%s the output has grains %r, added are %r" % (when, got, want))

        async def go():
            for what, ns, call in calls(disk, items, 9):
                r = call()
                if r is not None and hasattr(r, "__await__"):
                    await r
                there.extend(ns)
                opened.append(what)
                b = bytes(disk.b)
                look("after %s of %r" % (what, ns), there, b if what == "close" else b + b"grai" + bytes(4))
                out.append(len(b))
        D.make = made
        try:
            aio.run(go())
        finally:
            D.make = make
        self.stats.transitions += len(out)
        return c["writer"], tuple(out)


CHECK = C29
