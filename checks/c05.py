"""C05: loading modes, segment filters and access orders against what the file contains."""
from io import BytesIO

from mc.core import Check, Violation
from mc import aio, gsfdom as D, refgsf as R
from mc.refgsf import Block
from mc.sinks import Chunky
from mc.readers import Unseekable, stream
from mediagrains.grains import GrainFactory
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mc.stdin import InputStreamWrapper
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper

NP = {}


def numpy_factory(meta, data):
    """Array grains for the kinds that have them, as a user's parse_grain would choose."""
    if not NP:
        import mediagrains.numpy as n
        NP.update({"video": n.VideoGrain, "audio": n.AudioGrain})
    c = NP.get(meta["grain"].get("grain_type"))
    return c(meta, data) if c else GrainFactory(meta, data)


def item(i, n, lid, size=None):
    """Grain kind i of the menu, made distinct by its number."""
    g = dict(D.menu()[i], local_id=lid, ots=(1, n + 1, 0))
    if g["type"] == "event":
        g["hdr"] = dict(g["hdr"], topic="/topic%d" % n)
    elif g["type"] != "empty":
        g["data"] = bytes((16 * n + k) & 255 for k in range(16 if g["type"] in ("video", "audio") else 5 + n))
    return g


def files():
    kinds = {g["type"]: i for i, g in reversed(list(enumerate(D.menu())))}
    one = [item(kinds["coded_video"], 0, 1), item(kinds["video"], 1, 7), item(kinds["coded_audio"], 2, 1)]
    two = [item(kinds["event"], 0, 7), item(kinds["empty"], 1, 1), item(kinds["audio"], 2, 7)]
    three = [item(kinds["coded_video"], n, 1) for n in range(2)]
    out = []
    for gs, junk, split in ((one, False, None), (two, True, None), (three, False, 1), (one + two[:2], True, 2)):
        b = b""
        for part in ([gs] if split is None else [gs[:split], gs[split:]]):
            f = {"version": (9, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [],
                 "segments": [{"local_id": k, "id": D.U2, "count": -1, "tags": [], "flow": None} for k in (1, 7)],
                 "grains": [D.ref_of(g) for g in part]}
            blocks = R.build(f)
            if junk:
                for x in blocks:
                    if x.tag == b"grai" and x.children:
                        x.children.append(Block(b"fill", bytes(9)))
                blocks.insert(2, Block(b"zzzz", b"junk"))
            b += R.serialise((9, 0), blocks)
        out.append((gs, b))
    return out


class C05(Check):
    id = "C05"
    rule = ("every history, up to length D (5 quick, 7 thorough), of pulling the next grain, accessing (loading) any "
            "grain delivered so far, asking its length, and restarting the iteration, then closing and accessing every "
            "grain; for every loading mode, segment filter, source (synchronous, asynchronous, file, pipe, stream, "
            "chunked) and grain class (byte or array), over four files (mixed kinds, empty and event grains, fill "
            "blocks, concatenation)")
    assumptions = ["the file object is used through the reader only, except between operations"]
    case_timeout = 30

    SOURCES = ("sync", "sync_file", "sync_pipe", "sync_unbuf", "legacy", "async", "async_file", "async_stream")

    def configs(self):
        for src in self.SOURCES:
            for mode in Mode:
                for fn in range(4):
                    for filt in (None, [7], [1, 7], [], [9]):
                        if filt in ([], [9]) and (mode.value % 2 or fn):
                            continue
                        if filt is not None and fn > 1:
                            continue
                        for np in (False, True):
                            if np and (fn > 1 or filt is not None or src in ("sync_unbuf", "sync_pipe", "legacy")):
                                continue
                            yield {"src": src, "mode": mode.name, "file": fn, "filter": filt, "numpy": np}

    def prepare(self):
        self.files = files()

    def cases(self):
        for c in self.configs():
            gs, b = self.files[c["file"]]
            n = len([g for g in gs if c["filter"] is None or g["local_id"] in c["filter"]])
            depth = 7 if self.thorough else 5
            if n <= 2:
                depth += 1
            if c["numpy"] or c["file"] == 3:
                depth -= 1
            if n == 0:
                depth = 2
            yield from self.histories(c, n, depth)

    def histories(self, c, n, depth):
        def go(h, pulled, ended):
            yield "history", {"config": c, "ops": h}
            if len(h) >= depth:
                return
            # the last operation must not be one that later operations cannot distinguish: every operation counts here
            if not ended:
                yield from go(h + ["pull"], min(n, pulled + 1), pulled == n)
            for i in range(pulled):
                yield from go(h + [i], pulled, ended)
            if h and h[-1] == "pull" or not h:
                yield from go(h + ["restart"], pulled, False)
        yield from go([], 0, False)

    # -- one history -----------------------------------------------------------------------------------------------
    def run(self, kind, case):
        c = case["config"]
        gs, b = self.files[c["file"]]
        want = [g for g in gs if c["filter"] is None or g["local_id"] in c["filter"]]
        mode = Mode[c["mode"]]
        kw = {"parse_grain": numpy_factory} if c["numpy"] else {}
        if c["src"].startswith("async"):
            return aio.run(self.run_async(c, b, want, mode, kw, case["ops"]))
        return self.run_sync(c, b, want, mode, kw, case["ops"])

    def check(self, g, lid, w, state, when):
        """state: loaded (payload there), absent (skipped or cancelled), pending (deferred, not asked for yet)"""
        skip = state != "loaded"
        got = D.observe(g, lid, with_data=not skip)
        ref = dict(w)
        got.pop("class", None)
        if skip:
            ref.pop("data")
            got.pop("data", None)
            if w["type"] == "event":
                ref["hdr"] = got["hdr"] = None
            elif w["type"] == "empty":
                pass
            else:
                raw = g._data if state == "pending" and hasattr(g, "_data") else g.data
                if raw is not None and len(raw) and (state == "absent" or bytes(raw) != w["data"]):
                    raise Violation("%s: data should be %s but is %r" % (when, state, bytes(raw)[:20]))
        d = D.diff(got, ref, "grain")
        if d:
            raise Violation("%s: %s" % (when, d))

    def length(self, g, w, state, when):
        if w["type"] == "event":
            return
        n = len(w["data"]) if state != "absent" else 0
        if g.length != n:
            raise Violation("%s: length is %r, expected %d (%s)" % (when, g.length, n, state))

    def run_sync(self, c, b, want, mode, kw, ops):
        src = c["src"]
        f = (InputStreamWrapper(Unseekable(b)) if src == "sync_pipe" else
             Chunky(b, lambda p: 7 - p % 7) if src == "sync_unbuf" else
             open_file(b) if src == "sync_file" else BytesIO(b))
        try:
            dec = GSFDecoder(file_data=f, **kw)
            if src == "legacy":
                dec.decode_file_headers()
                sess = dec

                def start():
                    lazy = mode in (Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
                    return dec.grains(local_ids=c["filter"], load_lazily=lazy,
                                      # ignored where loading lazily is asked for
                                      skip_data=mode in (Mode.LOAD_NEVER, Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE))
            else:
                sess = dec.__enter__()

                def start():
                    return sess.grains(local_ids=c["filter"], loading_mode=mode)
            it = start()
            out = []
            state = "absent" if mode is Mode.LOAD_NEVER else "loaded"
            deferred = mode in (Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
            pend = "pending" if deferred and src != "sync_pipe" else state
            for n, op in enumerate(ops):
                when = "op %d (%r)" % (n, op)
                self.stats.transitions += 1
                if op == "pull":
                    try:
                        out.append(next(it))
                    except StopIteration:
                        if len(out) != len(want):
                            raise Violation("%s: ended after %d of %d grains" % (when, len(out), len(want)))
                    else:
                        if len(out) > len(want):
                            raise Violation("%s: too many grains" % when)
                        g, lid = out[-1]
                        w = want[len(out) - 1]
                        if lid != w["local_id"]:
                            raise Violation("%s: local id %r" % (when, lid))
                        self.length(g, w, pend, when)
                elif op == "restart":
                    it.close()
                    it = start()
                else:
                    self.check(out[op][0], out[op][1], want[op], state, when)
                    self.length(out[op][0], want[op], state, when)
            it.close()
            if src != "legacy":
                dec.__exit__(None, None, None)
            for (g, lid), w in zip(out, want):
                self.check(g, lid, w, state, "after closing")
            return (c["src"], c["mode"], repr(c["filter"]), c["file"], repr(ops))
        finally:
            f.close()

    async def run_async(self, c, b, want, mode, kw, ops):
        src = c["src"]
        f = (stream(b, [b[i:i + 50] for i in range(0, len(b), 50)]) if src == "async_stream" else
             AsyncFileWrapper(BytesIO(b)) if src == "async_file" else AsyncBytesIO(b))
        out = []
        first = "absent" if mode is Mode.LOAD_NEVER else "loaded"
        deferred = mode in (Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE)
        if deferred and src != "async_stream":
            first = "pending"
        states = []
        async with GSFDecoder(file_data=f, **kw) as sess:
            def start():
                return sess.grains(local_ids=c["filter"], loading_mode=mode)
            it = start()
            for n, op in enumerate(ops):
                when = "op %d (%r)" % (n, op)
                self.stats.transitions += 1
                if op == "pull":
                    try:
                        out.append(await it.__anext__())
                    except StopAsyncIteration:
                        if len(out) != len(want):
                            raise Violation("%s: ended after %d of %d grains" % (when, len(out), len(want)))
                    else:
                        if len(out) > len(want):
                            raise Violation("%s: too many grains" % when)
                        g, lid = out[-1]
                        w = want[len(out) - 1]
                        states.append("loaded" if w["type"] == "empty" else first)
                        if lid != w["local_id"]:
                            raise Violation("%s: local id %r" % (when, lid))
                        self.check(g, lid, w, states[-1], when)
                        self.length(g, w, states[-1], when)
                elif op == "restart":
                    await it.aclose()
                    it = start()
                else:
                    g, lid = out[op]
                    r = await g
                    if states[op] == "pending":
                        states[op] = "loaded"
                    w = want[op]
                    if states[op] == "loaded" and w["type"] != "event" and \
                            (bytes(r) if r is not None else b"") != w["data"]:
                        raise Violation("%s: awaiting gives %r" % (when, r))
                    self.check(g, lid, w, states[op], when)
                    self.length(g, w, states[op], when)
                for i, (g, lid) in enumerate(out):
                    self.check(g, lid, want[i], states[i], when + ", grain %d" % i)
        end = "loaded" if mode is Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE else "absent"
        for i, (g, lid) in enumerate(out):
            cancelled = states[i] == "pending" and end == "absent"
            if states[i] == "pending":
                states[i] = end
            self.check(g, lid, want[i], states[i], "after closing, grain %d" % i)
            if not cancelled:           # what the length of a cancelled load reads as is not promised
                self.length(g, want[i], states[i], "after closing, grain %d" % i)
        return (c["src"], c["mode"], repr(c["filter"]), c["file"], repr(ops))


def open_file(b):
    import tempfile
    f = tempfile.TemporaryFile()
    f.write(b)
    f.seek(0)
    return f


CHECK = C05
