import os
import runpy

F = runpy.run_path(os.path.join(os.path.dirname(__file__), "f.py"))
COMMON, I, G, U, ASYNC = F["COMMON"], F["I"], F["G"], F["U"], F["ASYNC"]
MEMORY = '''
import gc, tracemalloc
def peak(run, n):
    gc.collect()
    tracemalloc.start()
    run(n)
    p = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return p
def bounded(run):
    gc.set_threshold(20, 1, 1)
    run(2)
    a, b = peak(run, 10), peak(run, 60)
    assert b - a < 1000000, (a, b)
'''
THREADS = '''
import os, sys, threading, uuid
import mediagrains
HERE = os.path.dirname(os.path.realpath(mediagrains.__file__)) + os.sep
def interrupted(one, other):
    """one(), with other() run whole in another thread as each line of the package is first reached"""
    want = one(), other()
    at = 0
    while True:
        n, seen, got = [0], set(), []
        def local(frame, event, arg):
            key = frame.f_code, frame.f_lineno
            if event == "line" and key not in seen:
                seen.add(key)
                n[0] += 1
                if n[0] == at + 1:
                    sys.settrace(None)
                    t = threading.Thread(target=lambda: got.append(other()))
                    t.start()
                    t.join()
                    return None
            return local
        sys.settrace(lambda f, e, a: local if os.path.realpath(f.f_code.co_filename).startswith(HERE) else None)
        try:
            r = one()
        finally:
            sys.settrace(None)
        if not got:
            return
        assert (r, got[0]) == want, "they disturb each other"
        at += 1
'''
COUNTED = '''
class Counted(io.BytesIO):
    got = 0
    def read(self, n=-1):
        b = super().read(n)
        self.got += len(b)
        return b
    def readinto(self, b):
        n = super().readinto(b)
        self.got += n
        return n
'''

SEEDS = [
    dict(id="c31-promises-held", property="C31",
         needs="a long file read asynchronously with each grain's data loaded as it comes",
         breaks="the session holds every grain it has loaded until it is left",
         edits=[(G, """        del self._unloaded_lazy_grains[key]
""", """        # Awaiting it once more as the session is left is harmless
        self._unloaded_lazy_grains[key] = self._unloaded_lazy_grains.get(key)
""")],
         demo=ASYNC + MEMORY + '''
b = dumps([CodedVideoGrain(data=bytes(100000), **ARGS) for _ in range(60)])
one = len(dumps([CodedVideoGrain(data=bytes(100000), **ARGS)])) - len(dumps([]))
async def read(n):
    k = 0
    async with GSFDecoder(file_data=AsyncBytesIO(b)) as s:
        async for g, _ in s.grains():
            await g
            k += 1
            if k == n:
                break
bounded(lambda n: asyncio.run(read(n)))
'''),
    dict(id="c31-never-reads", property="C31",
         needs="a file read for its metadata only, by a synchronous session told never to load data",
         breaks="all the data is read",
         edits=[(G, """                                    if self.file_data.seekable():
                                        self.file_data.seek(grdt_block.get_remaining(), SEEK_CUR)
                                    else:
                                        _read_exactly(self.file_data, grdt_block.get_remaining())
""", """                                    _read_exactly(self.file_data, grdt_block.get_remaining())
""")],
         demo=ASYNC + COUNTED + '''
f = Counted(dumps([CodedVideoGrain(data=bytes(100000), **ARGS) for _ in range(3)]))
with GSFDecoder(file_data=f) as s:
    assert len(list(s.grains(loading_mode=GrainDataLoadingMode.LOAD_NEVER))) == 3
assert f.got < 100000, f.got
'''),
    dict(id="c31-pairs-kept", property="C31",
         needs="long sequences compared keeping only the last result",
         breaks="every grain compared is held to the end",
         edits=[(I, """        self.compared_item_count: int = 0
        all_success = True

        children: list[ComparisonResult] = []
""", """        self.compared_item_count: int = 0
        matched: list = []
        all_success = True

        children: list[ComparisonResult] = []
"""), (I, """                self.compared_item_count += 1

""", """                matched.append((A, B))
                self.compared_item_count = len(matched)

""")],
         demo=ASYNC + MEMORY + '''
from mediagrains.comparison import compare_grains_pairwise
def grains(n):
    for _ in range(n):
        yield CodedVideoGrain(data=bytes(100000), **ARGS)
        gc.collect()
def run(n):
    assert compare_grains_pairwise(grains(n), grains(n), return_last_only=True)
bounded(run)
'''),
    dict(id="c31-aac-all", property="C31",
         needs="a long AAC stream",
         breaks="all its frames are read before the first grain is given",
         edits=[(U + "adts_aac_grain_wrapper.py", """        frames = self._frames()

        # Parse""", """        frames = iter(tuple(self._frames()))

        # Parse""")],
         demo=ASYNC + MEMORY + '''
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
n_ = 8000
frame = bytes([0xff, 0xf1, 0x4c, 0x80 | n_ >> 11, n_ >> 3 & 255, (n_ & 7) << 5 | 31, 0xfc]) + bytes(n_ - 7)
class In(io.RawIOBase):
    def __init__(self, n):
        self.n, self.at = n * n_ * 10, 0
    def readable(self):
        return True
    def readinto(self, b):
        gc.collect()
        k = min(len(b), n_ - self.at % n_, self.n - self.at)
        b[:k] = frame[self.at % n_:self.at % n_ + k]
        self.at += k
        return k
t = CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, **ARGS)
def run(n):
    assert sum(1 for g in ADTSAACGrainWrapper(t, In(n)).grains()) == n * 10
bounded(run)
'''),
    dict(id="c32-sps-class", property="C32",
         needs="two H264 streams read side by side, each with its own parameter sets under one number",
         breaks="the one's parameter sets take the place of the other's",
         edits=[(U + "h264_parser.py", """    def __init__(self) -> None:
        self.sps_sets: Dict[int, SPS] = {}
        self.pps_sets: Dict[int, PPS] = {}
""", """    sps_sets: "Dict[int, SPS]" = {}
    pps_sets: "Dict[int, PPS]" = {}
""")],
         demo=ASYNC + '''
import itertools
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper
A = bytes.fromhex("000000016742001ef45c8000000168ce3d800000000165b82080800000b2c0000001454e08204000002cb00000000121e250300000165800000001614689410000030059600000012115894140000059600000000121b9241800000596000001214e49070000030165800000000121e488200000059600000121e48c24000005960000000121e6d0a0000016580000000161469b42c00000596000000121159b43000003005960000000016742001ef45c8000000168ce3d800000000165b83086800000b2c0000001454e0c21c000002cb00000000121b8943c0000059600000001214e251000000301658000000121e24844000005960000000121e24c4800000596")
B = bytes.fromhex("000000016742001e8d8d45c800000168ce3c800000000165b8000200000301000003016580000001454e000080000080000059600000000121e0002000406000002cb0000000016146800080010200000300b2c000000121158000800102800000b2c00000000121b8001000203000000b2c000001214e000400080e00000302cb0000000121e0006000c1000003002cb00000000161468001800304800000b2c00000012115800180030500000300b2c0000000016742001e8d8d45c800000168ce3c800000000165b8000300000b000003016580000001454e0000c000030000030059600000000121b8000800106800000b2c00000001214e000200041c00000302cb")
def grains(data):
    t = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, origin_width=16, origin_height=16, **ARGS)
    for g in H264GrainWrapper(t, io.BytesIO(data)).grains():
        yield bytes(g.data), list(g.unit_offsets), str(g.rate), g.coded_width, g.coded_height, g.is_key_frame
want = list(grains(A)), list(grains(B))
got = [], []
for a, b in itertools.zip_longest(grains(A), grains(B)):
    got[0].extend([a] if a else [])
    got[1].extend([b] if b else [])
assert got == want
'''),
    dict(id="c32-two-step-mid", property="C32",
         needs="two threads convert grains of one size at once by way of one format",
         breaks="the one's picture comes out in the other's grain",
         edits=[("mediagrains/numpy/numpy_grains/VideoGrain.py", """        def _inner(grain_in: "VideoGrain", grain_out: "VideoGrain"):
            grain_mid = grain_in._similar_grain(fmt_mid)
""", """        mids: dict = {}

        def _inner(grain_in: "VideoGrain", grain_out: "VideoGrain"):
            # The grain in between is seen by nobody, so one of each size does
            size = (grain_in.width, grain_in.height, grain_in.layout)
            if size not in mids:
                mids[size] = grain_in._similar_grain(fmt_mid)
            grain_mid = mids[size]
""")],
         demo=ASYNC + THREADS + '''
import mediagrains.numpy as ng
from fractions import Fraction
def conv(k, n):
    def run():
        g = VideoGrain(cog_frame_format=CogFrameFormat.RGB, width=4, height=2, rate=Fraction(25), **ARGS)
        g.data[:] = bytes((i * k + n) & 255 for i in range(24))
        return bytes(ng.VideoGrain(grain=g).convert(CogFrameFormat.U8_422).data)
    return run
interrupted(conv(3, 0), conv(7, 5))
'''),
    dict(id="c32-bar-cache", property="C32",
         needs="moving bars of one format and height over pictures of different widths",
         breaks="the second bar is drawn with the samples made for the first",
         edits=[("mediagrains/patterngenerators/video/movingbaroverlay.py", """        self._bar = bar

""", """        self._bar = _bars.setdefault((self.cog_frame_format, height), bar)

"""), ("mediagrains/patterngenerators/video/movingbaroverlay.py", """class MovingBarOverlay (""", """_bars: dict = {}


class MovingBarOverlay (""")],
         demo=ASYNC + '''
import uuid
from fractions import Fraction
from mediatimestamp.immutable import Timestamp
from mediagrains.patterngenerators.video import LumaSteps, MovingBarOverlay
def pic(w):
    return MovingBarOverlay(LumaSteps(uuid.UUID(int=1), uuid.UUID(int=2), w, 8, rate=Fraction(25),
                                      cog_frame_format=CogFrameFormat.U8_422), height=2, speed=1.0)
for w in (8, 16, 4):
    g = pic(w)[Timestamp(0, 0)]
    luma = bytes(g.data[:w * 2])
    assert len(g.data) == w * 8 * 2 and len(set(luma)) == 1, (w, luma)
'''),
    dict(id="c32-encode-scratch", property="C32",
         needs="two threads write at once, the one interrupted as it encodes a number",
         breaks="a number of the other's file is written in the one's",
         edits=[(G, """    d = bytearray(size)
    for i in range(0, size):
        d[i] = (val & 0xFF)
        val >>= 8
    return bytes(d)
""", """    for i in range(0, size):
        _scratch[i] = (val & 0xFF)
        val >>= 8
    return bytes(_scratch[:size])


_scratch = bytearray(64)
""")],
         demo=ASYNC + THREADS + '''
from datetime import datetime
def made(n):
    def run():
        f = io.BytesIO()
        g = CodedVideoGrain(data=bytes(n), **ARGS)
        g.creation_timestamp = g.origin_timestamp
        enc = GSFEncoder(f, id=uuid.UUID(int=n), created=datetime(2020, 1, 1), tags=[("a", "b" * n)])
        enc.add_segment(id=uuid.UUID(int=n + 1))
        with enc as e:
            e.add_grain(g)
        return f.getvalue()
    return run
interrupted(made(3), made(9))
'''),
]
