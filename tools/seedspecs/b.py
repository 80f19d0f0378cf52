COMMON = '''
import asyncio
import sys
from io import BytesIO, RawIOBase
from uuid import UUID
from fractions import Fraction
from mediatimestamp.immutable import Timestamp, TimeOffset
from mediagrains import gsf
from mediagrains.gsf import GSFEncoder, GSFDecoder, GSFDecodeError, GrainDataLoadingMode as Mode
from mediagrains.grains import *
from mediagrains.cogenums import *
from mediagrains.utils.asyncbinaryio import *
U1, U2 = UUID(int=1), UUID(int=2)
ARGS = dict(src_id=U1, flow_id=U2, origin_timestamp=Timestamp(5, 1), sync_timestamp=Timestamp(5, 1),
            creation_timestamp=Timestamp(6, 0))
'''
G = "mediagrains/gsf.py"

SEEDS = [
    dict(id="c04-async-truncate", property="C04",
         needs="an asynchronous encoder writing over a file which already holds more octets than it writes",
         breaks="what the file held before is left after the terminator, which a synchronous encoder cuts off",
         edits=[(G, """            self._open_file.seek(0)
            await self._open_file.truncate()
""", """            self._open_file.seek(0)
""")],
         demo=COMMON + '''
grain = CodedVideoGrain(data=b"abcd", **ARGS)
def sync():
    f = BytesIO(b"x" * 5000)
    f.seek(0, 2)
    with GSFEncoder(f, id=U1) as e:
        e.add_grain(grain)
    return len(f.getvalue())
async def go():
    f = AsyncBytesIO(b"x" * 5000)
    async with GSFEncoder(f, id=U1) as e:
        await e.add_grain(grain)
    return len(f.getvalue())
assert sync() == asyncio.run(go())
'''),
    dict(id="c06-cut-in-head", property="C06",
         needs="a file cut within its head block, read asynchronously",
         breaks="EOFError instead of a decode error",
         edits=[(G, """                                                          await head_block.read_remaining_block())
        except EOFError:
""", """                                                          await head_block.read_remaining_block())
        except asyncio.IncompleteReadError:
"""), (G, "import warnings\n", "import asyncio\nimport warnings\n")],
         demo=COMMON + '''
b = gsf.dumps([CodedVideoGrain(data=b"abcd", **ARGS)])
async def go(n):
    async with GSFDecoder(file_data=AsyncBytesIO(b[:n])) as s:
        async for g in s.grains():
            pass
for n in range(len(b)):
    try:
        asyncio.run(go(n))
    except GSFDecodeError:
        pass
'''),
    dict(id="c08-past-terminator", property="C08",
         needs="support for concatenation switched off, another file after the terminator, and use of the source after it",
         breaks="the source is left eight octets into the next file, so that another decoder cannot read it",
         edits=[(G, """                        # Terminator block reached
                        if self._support_concatenation:
                            continue
                        break

                    local_id = grai_block.read_uint(2)
""", """                        # Terminator block reached, nothing but another file can follow
                        continue

                    local_id = grai_block.read_uint(2)
""")],
         demo=COMMON + '''
b = gsf.dumps([CodedVideoGrain(data=b"abcd", **ARGS)])
f = BytesIO(b + b)
for _ in range(2):
    with GSFDecoder(file_data=f, support_concatenation=False) as s:
        assert len(list(s.grains())) == 1
'''),
    dict(id="c10-two-skips", property="C10",
         needs="two relative seeks on a stream with no read between them",
         breaks="the second seek forgets the first",
         edits=[("mediagrains/utils/asyncbinaryio.py", """        if self._next_pos > self._pos:
            # use self._next_pos as the base position as self._pos has not been aligned after a seek
            next_pos = self._next_pos
        else:
            next_pos = self._pos

        if whence""", """        next_pos = self._pos

        if whence""")],
         demo=COMMON + '''
async def go():
    r = asyncio.StreamReader()
    r.feed_data(b"0123456789")
    r.feed_eof()
    async with AsyncStreamWrapper(r) as f:
        f.seek(2, 1)
        f.seek(3, 1)
        return await f.read(1)
assert asyncio.run(go()) == b"5"
'''),
    dict(id="c11-empty-reload", property="C11",
         needs="converting a lazy byte sequence over an empty window to bytes more than once",
         breaks="the empty window is read again every time",
         edits=[("mediagrains/utils/iobytes.py", """    def __bytes__(self):
        if self._object is None:
""", """    def __bytes__(self):
        if not self._object:
""")],
         demo=COMMON + '''
from mediagrains.utils.iobytes import IOBytes
class S(BytesIO):
    n = 0
    def read(self, *a):
        S.n += 1
        return super().read(*a)
x = IOBytes(S(b"abc"), 1, 0)
assert bytes(x) == b"" and bytes(x) == b"" and S.n <= 1, S.n
'''),
    dict(id="c12-zero-offset", property="C12",
         needs="setting a coded video grain's temporal offset to zero",
         breaks="an offset of zero is taken away instead of stored",
         edits=[("mediagrains/grains/CodedVideoGrain.py", """        if value is not None:
            self.meta['grain']['cog_coded_frame']['temporal_offset'] = value
""", """        if value:
            self.meta['grain']['cog_coded_frame']['temporal_offset'] = value
""")],
         demo=COMMON + '''
g = CodedVideoGrain(temporal_offset=3, **ARGS)
g.temporal_offset = 0
assert g.temporal_offset == 0, g.temporal_offset
'''),
    dict(id="c13-shared-offsets", property="C13",
         needs="assigning a list of unit offsets to a grain and changing either afterwards",
         breaks="the grain goes on sharing the list it was given",
         edits=[("mediagrains/grains/CodedVideoGrain.py", """            self.meta['grain']['cog_coded_frame']['unit_offsets'] = list(value)
        elif""", """            self.meta['grain']['cog_coded_frame']['unit_offsets'] = (
                value if isinstance(value, list) else list(value))
        elif""")],
         demo=COMMON + '''
a, b = CodedVideoGrain(**ARGS), CodedVideoGrain(**ARGS)
mine = [1, 2]
a.unit_offsets = mine
b.unit_offsets = mine
a.unit_offsets.append(3)
assert list(b.unit_offsets) == [1, 2] and mine == [1, 2]
'''),
    dict(id="c14-null-value", property="C14",
         needs="an event payload with an explicit null before value",
         breaks="the null before value goes missing when the payload is assigned",
         edits=[("mediagrains/grains/EventGrain.py", "            if 'pre' in datum:\n",
                 "            if datum.get('pre') is not None:\n")],
         demo=COMMON + '''
import json
g = EventGrain(**ARGS)
g.data = json.dumps({"type": "t", "topic": "/", "data": [{"path": "/a", "pre": None, "post": 1}]})
assert json.loads(g.data)["data"] == [{"path": "/a", "pre": None, "post": 1}], g.data
'''),
    dict(id="c15-v210-width", property="C15",
         needs="a v210 picture whose width is one to five more than a multiple of 48",
         breaks="the picture is one block of 48 pixels too small for its lines",
         edits=[("mediagrains/grains/VideoGrain.py", "                    return h*(((w + 47) // 48) * 128)\n",
                 "                    return h*(((w + 42) // 48) * 128)\n")],
         demo=COMMON + '''
g = VideoGrain(cog_frame_format=CogFrameFormat.v210, width=51, height=3, **ARGS)
assert len(g.data) == g.components[0].length == 768, len(g.data)
'''),
    dict(id="c16-abgr-order", property="C16",
         needs="an array grain in format ABGR",
         breaks="the red and blue arrays change places in one packed format",
         edits=[("mediagrains/numpy/numpy_grains/VideoGrain.py",
                 "CogFrameFormat.RGBx, CogFrameFormat.ARGB, CogFrameFormat.xRGB]:",
                 "CogFrameFormat.RGBx, CogFrameFormat.ARGB, CogFrameFormat.xRGB,\n     CogFrameFormat.ABGR]:"),
                ("mediagrains/numpy/numpy_grains/VideoGrain.py",
                 "CogFrameFormat.BGRx, CogFrameFormat.xBGR, CogFrameFormat.ABGR]:",
                 "CogFrameFormat.BGRx, CogFrameFormat.xBGR]:")],
         demo=COMMON + '''
from mediagrains.numpy import VideoGrain
g = VideoGrain(cog_frame_format=CogFrameFormat.ABGR, width=2, height=1, data=bytes(range(8)), **ARGS)
assert g.component_data.B[0, 0] == 1 and g.component_data.R[1, 0] == 7
'''),
]
