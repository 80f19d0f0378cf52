"""C09: tasks that pull grains and tasks that load deferred data, in every interleaving."""
import asyncio
from io import BytesIO

from mc.core import Check, Chooser, Violation
from mc import aio, gsfdom as D, refgsf as R
from mc.sinks import Chunky
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncFileWrapper

# files: (version, [(kind in the menu, payload length)]) per concatenated file
FILES = {
    "two": [(9, [(5, 5), (1, 7)])],
    "three": [(9, [(5, 5), (3, None), (0, 9)])],
    "hollow": [(8, [(1, 0), (4, None), (2, 6)])],
    "concat": [(9, [(5, 4)]), (7, [(1, 6)])],
    "four": [(9, [(5, 3), (1, 4), (0, 5), (2, 6)])],
}

# what an event grain has when its payload was never loaded
NO_PAYLOAD = {"event_type": "", "topic": "", "event_data": []}


def make(name):
    gs, b, n = [], b"", 0
    for v, kinds in FILES[name]:
        part = []
        for k, size in kinds:
            g = dict(D.menu()[k], local_id=1, ots=(1, n + 1, 0))
            if size is not None:
                g["data"] = bytes(((n + 1) * 16 + x) & 255 for x in range(size))
            if g["type"] == "event":
                g["hdr"] = dict(g["hdr"], topic="/topic%d" % n)
            part.append(g)
            n += 1
        f = {"version": (v, 0), "id": D.U1, "created": (2023, 4, 5, 6, 7, 8), "tags": [],
             "segments": [{"local_id": 1, "id": D.U1, "count": -1, "tags": [], "flow": None}],
             "grains": [D.ref_of(g) for g in part]}
        b += R.serialise(f["version"], R.build(f))
        gs += part
    return gs, b


class C09(Check):
    id = "C09"
    rule = ("for every task set (one or two tasks pulling grains, up to three tasks loading the data of chosen grains, "
            "in order, twice, or the same grain at once; waiting for the loaders before leaving the session or not) on "
            "every file and source: every schedule of I/O completions and task progress at suspension points under a "
            "controlled event loop (complete for the small task sets, with at most B deviations from the default "
            "schedule for the larger ones; B=2 quick, 4 thorough); outcome = what each task saw")
    assumptions = ["tasks suspend only where they await I/O or one another, as asyncio guarantees",
                   "tasks are not cancelled while they load"]
    case_timeout = 30

    def configs(self):
        """(configuration, bound on deviations)"""
        b = 4 if self.thorough else 2
        full = None if self.thorough else 3
        out = []
        for src in ("mem", "file"):
            # pulls by one task, each loader loads the grains listed once they are there
            out += [({"file": "two", "src": src, "loaders": [[0]], "pullers": 1}, None),
                    ({"file": "two", "src": src, "loaders": [[0], [0]], "pullers": 1}, full),
                    ({"file": "two", "src": src, "loaders": [[0], [1]], "pullers": 1}, full),
                    ({"file": "three", "src": src, "loaders": [[0, 2]], "pullers": 1}, full),
                    ({"file": "three", "src": src, "loaders": [[0], [1, 0]], "pullers": 1}, b),
                    ({"file": "hollow", "src": src, "loaders": [[0, 1], [2]], "pullers": 1}, b),
                    ({"file": "concat", "src": src, "loaders": [[0], [1]], "pullers": 1}, b),
                    ({"file": "two", "src": src, "loaders": [], "pullers": 2}, None),
                    ({"file": "concat", "src": src, "loaders": [[0]], "pullers": 2}, b),
                    ({"file": "four", "src": src, "loaders": [[0, 2], [1]], "pullers": 2}, b)]
        out += [({"file": "two", "src": "short", "loaders": [[0], [0]], "pullers": 1}, b),
                ({"file": "two", "src": "short", "loaders": [[0], [1]], "pullers": 1}, b),
                ({"file": "concat", "src": "short", "loaders": [[0, 1]], "pullers": 1}, b),
                ({"file": "four", "src": "mem", "loaders": [[0, 1], [1, 2], [3, 0]], "pullers": 1}, b),
                ({"file": "four", "src": "file", "loaders": [[3, 0], [2, 1], [0]], "pullers": 1}, b)]
        res = []
        for c, bound in out:
            for mode in ("ALWAYS_DEFER_LOAD_IF_POSSIBLE", "ALWAYS_LOAD_DEFER_IF_POSSIBLE"):
                for wait in (True, False):
                    if not wait and not c["loaders"]:
                        continue
                    res.append((dict(c, mode=mode, wait=wait), bound))
        return res

    def prepare(self):
        self.files = {n: make(n) for n in FILES}

    def explore(self, part, nparts):
        # the larger explorations first, dealt out to the workers
        for i, (c, bound) in enumerate(self.configs()):
            if (i // 4 + i) % nparts != part:
                continue
            self.schedules("full" if bound is None else "bound%d" % bound, c, self.one, bound)
            if self.enough():
                return

    def run(self, kind, case):
        return self.one(case["config"], Chooser(case["choices"]))

    def one(self, c, ch):
        gs, b = self.files[c["file"]]
        loop = aio.ControlledLoop(ch)
        asyncio.set_event_loop(loop)
        try:
            try:
                return loop.run_until_complete(self.session(c, gs, b, loop))
            except aio.Deadlock as e:
                raise Violation("tasks block for ever: %s" % e)
        finally:
            try:
                for t in asyncio.all_tasks(loop):
                    t._log_destroy_pending = False
            finally:
                asyncio.set_event_loop(None)
                loop.close()

    async def session(self, c, gs, b, loop):
        mode = Mode[c["mode"]]
        f = AsyncBytesIO(b) if c["src"] == "mem" else AsyncFileWrapper(BytesIO(b)) if c["src"] == "file" else \
            AsyncFileWrapper(Chunky(b, lambda p: 3))
        seen = {}
        there = [asyncio.Event() for _ in gs]
        done = asyncio.Event()
        log = []

        async def pause():
            await loop.run_in_executor(None, lambda: None)

        async def pull(s, w):
            last = -1
            async for g, lid in s.grains(loading_mode=mode):
                n = g.origin_timestamp.sec - 1
                if not 0 <= n < len(gs):
                    raise Violation("a grain that is not in the file: %r" % g)
                if n in seen:
                    raise Violation("grain %d delivered twice" % n)
                if n <= last:
                    raise Violation("grain %d delivered after grain %d" % (n, last))
                last = n
                x = D.observe(g, lid, with_data=False)
                wx = dict(gs[n])
                wx.pop("data")
                x.pop("data", None)
                if wx["type"] == "event":
                    wx["hdr"] = x["hdr"]
                d = D.diff(x, wx, "grain %d" % n)
                if d:
                    raise Violation(d)
                seen[n] = g
                there[n].set()
                await pause()

        def check(n, g, got, who):
            w = gs[n]
            if w["type"] == "event":
                x = D.observe(g)["hdr"]
                if may_cancel[0] and x == NO_PAYLOAD:
                    return
                if got is not None and x != w["hdr"]:
                    raise Violation("%s: event grain %d is %r" % (who, n, x))
                return
            have = None if g.data is None else bytes(g.data)
            if (None if got is None else bytes(got)) != have:
                raise Violation("%s: awaiting grain %d gives %r but its data is %r" % (who, n, got, have))
            if have is not None and have != (w["data"] or b""):
                raise Violation("%s: grain %d has data %r, its own is %r" % (who, n, have, w["data"]))
            if have is None and w["data"] and not may_cancel[0]:
                raise Violation("%s: grain %d has no data" % (who, n))

        may_cancel = [False]

        async def load(order, k):
            for n in order:
                await there[n].wait()
                await pause()
                got = await seen[n]
                check(n, seen[n], got, "loader %d" % k)
                log.append((k, n, got is not None))

        async with GSFDecoder(file_data=f) as s:
            loaders = [asyncio.ensure_future(load(o, k)) for k, o in enumerate(c["loaders"])]
            pullers = [asyncio.ensure_future(pull(s, w)) for w in range(c["pullers"])]
            r = await asyncio.gather(*pullers, return_exceptions=True)
            self.raise_first(r, "a task pulling grains")
            if sorted(seen) != list(range(len(gs))):
                raise Violation("grains %r were delivered of %d" % (sorted(seen), len(gs)))
            if c["wait"]:
                self.raise_first(await asyncio.gather(*loaders, return_exceptions=True), "a task loading data")
            may_cancel[0] = mode is Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE
        if not c["wait"]:
            self.raise_first(await asyncio.gather(*loaders, return_exceptions=True), "a task loading data")
        for n, g in seen.items():
            if mode is Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE:
                check(n, g, g.data, "after the session")
            elif g.grain_type != "event" and g.data is not None:
                check(n, g, g.data, "after the session")
        return tuple(log), tuple(sorted((n, g.has_data()) for n, g in seen.items()))

    def raise_first(self, results, who):
        for r in results:
            if isinstance(r, Violation):
                raise r
            if isinstance(r, BaseException):
                raise Violation("%s fails with %s: %s" % (who, type(r).__name__, r))


CHECK = C09
