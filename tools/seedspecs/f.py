import os
import runpy

C = runpy.run_path(os.path.join(os.path.dirname(__file__), "c.py"))
COMMON, I, G = C["COMMON"], C["I"], C["G"]
U = "mediagrains/utils/"
ASYNC = COMMON + '''
import asyncio, io, errno
from mediagrains.gsf import *
from mediagrains.gsf import GrainDataLoadingMode
from mediagrains.utils.asyncbinaryio import AsyncBytesIO, AsyncStreamWrapper
'''

SEEDS = [
    dict(id="c27-truncate-errors", property="C27",
         needs="an output which fails to be truncated and holds more octets than are written",
         breaks="the rest of what was there follows the new file, and no call fails",
         edits=[(G, """        if self.file.seekable():
            self.file.seek(0)
            self.file.truncate()
""", """        if self.file.seekable():
            self.file.seek(0)
            try:
                self.file.truncate()
            except OSError:
                # Devices have no size of their own
                pass
""")],
         demo=ASYNC + '''
class Disk(io.BytesIO):
    def truncate(self, size=None):
        raise OSError(errno.EIO, "planned")
disk = Disk(b"x" * 5000)
try:
    with GSFEncoder(disk) as enc:
        enc.add_grain(CodedVideoGrain(data=b"abcd", **ARGS))
except OSError:
    pass
else:
    assert not disk.getvalue().endswith(b"x")
'''),
    dict(id="c28-broken-stream", property="C28",
         needs="a connection which breaks between two grains",
         breaks="it passes for the end of the file",
         edits=[(U + "asyncbinaryio.py", """                except asyncio.IncompleteReadError as e:
                    return e.partial
""", """                except asyncio.IncompleteReadError as e:
                    return e.partial
                except ConnectionError:
                    # Some peers reset instead of closing
                    return bytes()
""")],
         demo=ASYNC + '''
one = dumps([CodedVideoGrain(data=b"abcd", **ARGS)])[:-8]
async def f():
    r = asyncio.StreamReader()
    r.feed_data(one)
    asyncio.get_event_loop().call_later(0.2, r.set_exception, ConnectionResetError("planned"))
    n = 0
    try:
        async with GSFDecoder(file_data=AsyncStreamWrapper(reader=r)) as s:
            async for _ in s.grains():
                n += 1
    except ConnectionResetError:
        assert n == 1
    else:
        assert False
asyncio.run(f())
'''),
    dict(id="c28-raw-errors", property="C28",
         needs="raw video or audio read from an input which fails",
         breaks="the essence ends early without an error",
         edits=[(U + "grain_wrapper.py", """            except EOFError:
                break

            if grain_data:""", """            except (EOFError, OSError):
                break

            if grain_data:""")],
         demo=ASYNC + '''
from mediagrains.utils.grain_wrapper import GrainWrapper
from mediagrains.cogenums import CogFrameFormat
class In(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 24:
            raise OSError(errno.EIO, "planned")
        return super().read(n)
    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)
t = VideoGrain(src_id=UUID(int=1), flow_id=UUID(int=2), cog_frame_format=CogFrameFormat.U8_444, width=2, height=2, rate=Fraction(25))
try:
    list(GrainWrapper(t, In(bytes(100))).grains())
except OSError:
    pass
else:
    assert False
'''),
]
