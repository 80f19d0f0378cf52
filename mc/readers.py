"""Every way of reading a GSF file, each giving (head, [(grain, local_id)]) with all the data loaded."""
import asyncio
import io
from io import BytesIO

from mediagrains import gsf
from mediagrains.gsf import GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.utils.asyncbinaryio import (AsyncBytesIO, AsyncBytesIOWrapper, AsyncFileWrapper, AsyncStreamWrapper)

from . import aio


class Unseekable(io.RawIOBase):
    """A forward-only binary source whose reads return exactly what is asked for while there is any."""
    def __init__(self, b):
        self._f = BytesIO(b)

    def readable(self):
        return True

    def seekable(self):
        return False

    def readinto(self, b):
        return self._f.readinto(b)

    def read(self, n=-1):
        return self._f.read(n)

    def tell(self):
        return self._f.tell()

    def seek(self, *a):
        raise io.UnsupportedOperation("seek")


def flat(r):
    head, segs = r
    return head, [(g, k) for k in segs for g in segs[k]]


def sync_session(fp, mode=Mode.LOAD_IMMEDIATELY, local_ids=None, **kw):
    dec = GSFDecoder(file_data=fp, **kw)
    with dec as s:
        return s.file_headers, list(s.grains(local_ids=local_ids, loading_mode=mode))


async def async_session(fp, mode=Mode.LOAD_IMMEDIATELY, local_ids=None, wait=True, **kw):
    out = []
    async with GSFDecoder(file_data=fp, **kw) as s:
        async for g, k in s.grains(local_ids=local_ids, loading_mode=mode):
            if wait:
                await g
            out.append((g, k))
        return s.file_headers, out


def legacy(fp, local_ids=None, skip=False, lazy=False, **kw):
    dec = GSFDecoder(file_data=fp, **kw)
    head = dec.decode_file_headers()
    return head, list(dec.grains(local_ids=local_ids, skip_data=skip, load_lazily=lazy))


def stream(b, chunks=None):
    r = asyncio.StreamReader(loop=asyncio.get_event_loop(), limit=1 << 16)
    aio.feed(r, chunks if chunks is not None else [b])
    return AsyncStreamWrapper(reader=r)


def _stream_session(b, mode=Mode.LOAD_IMMEDIATELY, chunks=None, **kw):
    async def go():
        return await async_session(stream(b, chunks), mode, **kw)
    return aio.run(go())


# readers that deliver every payload.  Grains may come grouped by segment when "grouped".
FULL = {
    "loads": lambda b, **kw: flat(gsf.loads(b, **kw)),
    "load": lambda b, **kw: flat(gsf.load(BytesIO(b), **kw)),
    "load_buffered": lambda b, **kw: flat(gsf.load(io.BufferedReader(BytesIO(b)), **kw)),
    "decode": lambda b, **kw: flat(GSFDecoder(**kw).decode(b)),
    "sync_now": lambda b, **kw: sync_session(BytesIO(b), Mode.LOAD_IMMEDIATELY, **kw),
    "sync_load_defer": lambda b, **kw: sync_session(BytesIO(b), Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE, **kw),
    "sync_defer": lambda b, **kw: sync_session(BytesIO(b), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, **kw),
    "legacy": lambda b, **kw: legacy(BytesIO(b), **kw),
    "legacy_lazy": lambda b, **kw: legacy(BytesIO(b), lazy=True, **kw),
    "async_load": lambda b, **kw: flat(aio.run(_aload(b, **kw))),
    "async_now": lambda b, **kw: aio.run(async_session(AsyncBytesIO(b), Mode.LOAD_IMMEDIATELY, **kw)),
    "async_defer": lambda b, **kw: aio.run(async_session(AsyncBytesIO(b), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, **kw)),
    "async_load_defer": lambda b, **kw: aio.run(
        async_session(AsyncBytesIO(b), Mode.ALWAYS_LOAD_DEFER_IF_POSSIBLE, **kw)),
    "async_file_now": lambda b, **kw: aio.run(async_session(AsyncFileWrapper(BytesIO(b)), **kw)),
    "async_file_defer": lambda b, **kw: aio.run(
        async_session(AsyncFileWrapper(BytesIO(b)), Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, **kw)),
    "async_bytes_wrapper": lambda b, **kw: aio.run(async_session(AsyncBytesIOWrapper(BytesIO(b)), **kw)),
    "stream_now": lambda b, **kw: _stream_session(b, **kw),
    "stream_defer": lambda b, **kw: _stream_session(b, Mode.ALWAYS_DEFER_LOAD_IF_POSSIBLE, **kw),
}
GROUPED = ("loads", "load", "load_buffered", "decode", "async_load")
# readers that must leave the payloads unread
SKIP = {
    "sync_never": lambda b, **kw: sync_session(BytesIO(b), Mode.LOAD_NEVER, **kw),
    "legacy_skip": lambda b, **kw: legacy(BytesIO(b), skip=True, **kw),
    "async_never": lambda b, **kw: aio.run(async_session(AsyncBytesIO(b), Mode.LOAD_NEVER, **kw)),
    "stream_never": lambda b, **kw: _stream_session(b, Mode.LOAD_NEVER, **kw),
}


async def _aload(b, **kw):
    return await gsf.load(AsyncBytesIO(b), **kw)


def grouped(pairs):
    """The order a grouping reader delivers [(grain, local_id)] in: by first appearance of the segment."""
    order = []
    for _, k in pairs:
        if k not in order:
            order.append(k)
    return [p for k in order for p in pairs if p[1] == k]
