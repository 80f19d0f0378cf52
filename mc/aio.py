"""Deterministic event loops: executor jobs run inline, or at points a scheduler chooses."""
import asyncio


class InlineLoop(asyncio.SelectorEventLoop):
    """Executor jobs run at once in the calling thread; every run is deterministic."""

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except BaseException as e:
            if isinstance(e, StopIteration) or not isinstance(e, Exception):
                raise
            fut.set_exception(e)
        return fut


_loop = None


def run(coro):
    """Run a coroutine to completion on a (reused) inline loop."""
    global _loop
    if _loop is None or _loop.is_closed():
        _loop = InlineLoop()
    loop = _loop
    ok = False
    try:
        asyncio.set_event_loop(loop)
        r = loop.run_until_complete(coro)
        ok = True
        return r
    except Exception:
        ok = True
        raise
    finally:
        if ok:
            pend = asyncio.all_tasks(loop)
            for t in pend:
                t.cancel()
            if pend:
                loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        else:
            _loop = None          # interrupted half way through: start afresh


def feed(reader, chunks):
    """Start a task that feeds a StreamReader one chunk per turn of the loop, then end of file."""
    async def go():
        for c in chunks:
            if c:
                reader.feed_data(c)
            await asyncio.sleep(0)
        reader.feed_eof()
    return asyncio.ensure_future(go())


class Deadlock(Exception):
    pass


class ControlledLoop(asyncio.SelectorEventLoop):
    """Executor jobs (the I/O suspension points) start and finish when the scheduler says.

    Ready callbacks keep the loop's own first-in first-out order; whenever no callback is ready - and, if ``eager``,
    also before each batch of ready callbacks - the scheduler picks one outstanding job to run.
    """
    def __init__(self, chooser, limit=20000):
        super().__init__()
        self.chooser = chooser
        self.jobs = []
        self.turns = 0
        self.limit = limit
        self.njobs = 0

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self.jobs.append((fut, func, args))
        return fut

    def _run_once(self):
        self.turns += 1
        if self.turns > self.limit:
            raise Deadlock("livelock: %d turns" % self.turns)
        # either let the ready callbacks go on, or complete one of the outstanding jobs first
        n = len(self.jobs)
        ready = bool(self._ready)
        if n:
            c = self.chooser.choose(n + (1 if ready else 0), "io")
            if ready:
                c -= 1
            if c >= 0:
                fut, func, args = self.jobs.pop(c)
                self.njobs += 1
                if not fut.cancelled():
                    try:
                        r = func(*args)
                    except Exception as e:
                        fut.set_exception(e)
                    else:
                        fut.set_result(r)
                return
        elif not ready and not self._scheduled and not self._stopping:
            raise Deadlock("no task can make progress")
        super()._run_once()


class ThreadLoop(ControlledLoop):
    """Jobs are threads: cancelling a task which waits for one does not stop it."""
    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        self.jobs.append((_Job(fut), func, args))
        return fut


class _Job:
    """What a thread does with the future of its caller: nothing, if that is gone."""
    def __init__(self, fut):
        self.fut = fut

    def cancelled(self):
        return False

    def set_result(self, r):
        if not self.fut.cancelled():
            self.fut.set_result(r)

    def set_exception(self, e):
        if not self.fut.cancelled():
            self.fut.set_exception(e)
