COMMON = '''
import sys
import struct
from io import BytesIO
from uuid import UUID
from fractions import Fraction
from mediatimestamp.immutable import Timestamp, TimeOffset
from mediagrains.grains import *
from mediagrains.cogenums import *
U1, U2 = UUID(int=1), UUID(int=2)
ARGS = dict(src_id=U1, flow_id=U2, origin_timestamp=Timestamp(5, 1), sync_timestamp=Timestamp(5, 1),
            creation_timestamp=Timestamp(6, 0))
'''
BITS = COMMON + '''
def ue(v):
    s = bin(v + 1)[2:]
    return "0" * (len(s) - 1) + s
def se(v):
    return ue(2 * v - 1 if v > 0 else -2 * v)
def u(v, n):
    return format(v, "0%db" % n)
def nal(ref, typ, bits):
    bits += "1"
    bits += "0" * (-len(bits) % 8)
    out = bytearray()
    for b in int(bits, 2).to_bytes(len(bits) // 8, "big"):
        if b <= 3 and out[-2:] == b"\\0\\0":
            out.append(3)
        out.append(b)
    return b"\\0\\0\\0\\1" + bytes([ref << 5 | typ]) + bytes(out)
def sps(poc, more="", profile=66, w=10):
    high = ue(1) + ue(0) + ue(0) + "0" + more if profile == 100 else ""
    return nal(3, 7, u(profile, 8) + u(0, 8) + u(30, 8) + ue(0) + high + ue(0) + ue(poc)
               + {0: ue(0), 1: "0" + se(0) + se(0) + ue(0), 2: ""}[poc]
               + ue(1) + "0" + ue(w) + ue(8) + "1" + "1" + "0" + "0")
def pps(bottom=0):
    return nal(3, 8, ue(0) + ue(0) + "0" + str(bottom) + ue(0) + ue(0) + ue(0) + "0" + "00" + se(0) + se(0) + se(0) + "000")
'''
G = "mediagrains/gsf.py"
I = "mediagrains/comparison/_internal.py"
H = "mediagrains/utils/h264_parser.py"

SEEDS = [
    dict(id="c19-success-reset", property="C19",
         needs="keeping only the last result, with a difference",
         breaks="the number of grains compared counts the one which differs twice",
         edits=[(I, """    def __len__(self) -> int:
        return self.compared_item_count
""", """    def __len__(self) -> int:
        return self.compared_item_count or len(self._children)
""")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grains_pairwise
g = GrainFactory(**ARGS)
assert len(compare_grains_pairwise([], [g])) == 0
'''),
    dict(id="c20-bar-chroma-line", property="C20",
         needs="a 4:2:0 picture and a frame number whose half is near the bottom of the picture",
         breaks="the chroma of the bar is drawn from a line rounded another way than the lines of the bar's luma",
         edits=[("mediagrains/patterngenerators/video/movingbaroverlay.py",
                 "                line_no = (((fnum >> v_shift) + y) % grain.components[2].height)\n",
                 "                line_no = (((fnum % grain.components[2].height) >> v_shift) + y) % grain.components[2].height\n")],
         demo=COMMON + '''
from mediagrains.patterngenerators.video import LumaSteps, ColourBars, MovingBarOverlay
src = ColourBars(U1, U2, 16, 8, cog_frame_format=CogFrameFormat.U8_420)
g = MovingBarOverlay(src, height=2)[6]
c = g.components
v = bytes(g.data[c[2].offset:c[2].offset + c[2].length])
u = bytes(g.data[c[1].offset:c[1].offset + c[1].length])
lines = lambda d, c: [set(d[i * c.stride:i * c.stride + c.width]) == {128} for i in range(c.height)]
assert lines(u, c[1]) == lines(v, c[2]) == [False, False, False, True], (lines(u, c[1]), lines(v, c[2]))
'''),
    dict(id="c21-poc-one", property="C21",
         needs="pictures which differ only in the second picture order count difference (order count type 1)",
         breaks="two such pictures are taken for one",
         edits=[(H, "                                            != first_slice_header.delta_pic_order_cnt_1", "                                            < first_slice_header.delta_pic_order_cnt_1")],
         demo=BITS + '''
from mediagrains.utils.h264_parser import H264Parser
def sl(d1, bottom=1):
    return nal(1, 1, ue(0) + ue(2) + ue(0) + u(0, 4) + se(0) + se(d1) + "10101")
stream = sps(1) + pps(1) + sl(0) + sl(1) + sl(0)
size, _, _ = H264Parser().parse_frame(stream)
assert size == len(sps(1) + pps(1) + sl(0)), size
'''),
    dict(id="c21-scaling-lists", property="C21",
         needs="a sequence parameter set of a high profile with scaling lists for 8x8 blocks",
         breaks="the size of the picture and all that follows are misread",
         edits=[(H, "size = 4*4 if i < 6 else 8*8", "size = 4*4 if i <= 6 else 8*8")],
         demo=BITS + '''
from mediagrains.utils.h264_parser import H264Parser
lists = "1" + "0" * 6 + "1" + se(1) * 64 + "0"
s = nal(3, 7, u(100, 8) + u(0, 8) + u(30, 8) + ue(0) + ue(1) + ue(0) + ue(0) + "0" + lists + ue(0) + ue(2)
        + ue(1) + "0" + ue(10) + ue(8) + "1" + "1" + "0" + "0")
frame = s + pps() + nal(3, 5, ue(0) + ue(7) + ue(0) + u(0, 4) + ue(0) + "10101")
info = H264Parser().parse_frame_info(frame) if hasattr(H264Parser(), "parse_frame_info") else None
assert info is not None and (info.coded_width, info.coded_height) == (176, 144), vars(info)
'''),
    dict(id="c21-second-emulation", property="C21",
         needs="headers holding two emulation prevention bytes",
         breaks="a byte is lost between the two",
         edits=[(H, "rbsp_bits.append(bits[emu_offset+3*8:next_emu_offset+2*8])",
                 "rbsp_bits.append(bits[emu_offset+3*8:next_emu_offset+1*8])")],
         demo=BITS + '''
from mediagrains.utils.h264_parser import H264Parser
vui = "1" + "0" + "0" + "0" + "0" + "1" + u(1, 32) + u(50, 32) + "1" + "0" * 5
s = nal(3, 7, u(66, 8) + u(0, 8) + u(30, 8) + ue(0) + ue(0) + ue(2)
        + ue(1) + "0" + ue(10) + ue(8) + "1" + "1" + "0" + vui)
assert s.count(b"\\0\\0\\3") >= 2, s
frame = s + pps() + nal(3, 5, ue(0) + ue(7) + ue(0) + u(0, 4) + ue(0) + "10101")
info = H264Parser().parse_frame_info(frame)
assert info.frame_rate == 25, info.frame_rate
'''),
    dict(id="c22-probe-sync", property="C22",
         needs="probing the timestamps of grains whose sync timestamp is not their origin timestamp",
         breaks="the sync timestamp reported is the origin timestamp",
         edits=[("mediagrains/tools/extract_from_gsf.py", '"sync_timestamp": grain.sync_timestamp,',
                 '"sync_timestamp": grain.origin_timestamp,')],
         demo=COMMON + '''
import json, tempfile, os, io, contextlib
from mediagrains.gsf import dumps
from mediagrains.tools import gsf_probe
with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "x.gsf")
    with open(fn, "wb") as f:
        f.write(dumps([GrainFactory(**dict(ARGS, sync_timestamp=Timestamp(9, 9)))]))
    sys.argv = ["gsf_probe", "--all-timestamps", fn]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        gsf_probe()
got = json.loads(out.getvalue())["segments"]["1"]["grain_timestamps"]
assert got[0]["sync_timestamp"] == "9:9", got
'''),
    dict(id="c24-s32-precision", property="C24",
         needs="32 bit audio with small differences between large samples",
         breaks="the differences vanish, and the grains are said to be the same",
         edits=[("mediagrains/comparison/psnr.py",
                 "    return np.mean(np.square(np.subtract(data_a, data_b, dtype=np.double)))\n",
                 "    return np.mean(np.square(np.subtract(data_a, data_b, dtype=np.single, casting='same_kind' if "
                 "data_a.dtype.kind == 'f' else 'unsafe'), dtype=np.double))\n")],
         demo=COMMON + '''
from mediagrains.comparison import compute_psnr
a = AudioGrain(cog_audio_format=CogAudioFormat.S32_PLANES, channels=1, samples=1, data=struct.pack("@i", 2**31 - 1), **ARGS)
b = AudioGrain(cog_audio_format=CogAudioFormat.S32_PLANES, channels=1, samples=1, data=struct.pack("@i", 2**31 - 2), **ARGS)
assert compute_psnr(a, b)[0] < 200, compute_psnr(a, b)
'''),
    dict(id="c25-falsy-open", property="C25",
         needs="fixing an attribute to zero, or to an empty list",
         breaks="the attribute is left open",
         edits=[("mediagrains/hypothesis/strategies.py", "        if attr not in kwargs or kwargs[attr] is None:\n",
                 "        if attr not in kwargs or not kwargs[attr]:\n")],
         demo=COMMON + '''
from hypothesis import given, settings
from mediagrains.hypothesis.strategies import *
seen = set()
@settings(max_examples=60, database=None, derandomize=True)
@given(grains("coded_video", temporal_offset=0))
def f(g):
    seen.add(g.temporal_offset)
f()
assert seen == {0}, seen
'''),
    dict(id="c17-v210-third", property="C17",
         needs="a v210 picture whose width leaves one chroma pair over after groups of three",
         breaks="the second of every three blue differences is read from the neighbouring word",
         edits=[("mediagrains/numpy/convert.py",
                 "    grain_out.component_data.U[1::3, :] = second[1::4, :][0:(grain_in.width//2 + 1)//3, :]\n",
                 "    grain_out.component_data.U[1::3, :] = second[1::4, :][0:(grain_in.width//2 + 2)//3, :]\n")],
         demo=COMMON + '''
from mediagrains.numpy import VideoGrain as N
g = N(cog_frame_format=CogFrameFormat.v210, width=8, height=1, **ARGS)
g.convert(CogFrameFormat.S16_422_10BIT)
'''),
    dict(id="c17-down-32", property="C17",
         needs="32 bit samples with the top bit set",
         breaks="reduced to fewer bits they come out as if the top bit were not set",
         edits=[("mediagrains/numpy/convert.py", "    (Y, U, V) = (grain_in.component_data.Y.astype(np.dtype(np.double)),\n                 grain_in.component_data.U.astype(np.dtype(np.double)) - (1 << (bd - 1)),\n",
                 "    (Y, U, V) = (grain_in.component_data.Y.astype(np.dtype(np.double)),\n                 grain_in.component_data.U.astype(np.dtype(np.single)).astype(np.dtype(np.double)) - (1 << (bd - 1)),\n")],
         demo=COMMON + '''
import numpy as np
from mediagrains.numpy import VideoGrain as N
g = N(cog_frame_format=CogFrameFormat.S32_444, width=2, height=1, **ARGS)
g.component_data.Y[:] = 1000000001
g.component_data.U[:] = (1 << 31) + 1001
g.component_data.V[:] = 1 << 31
h = g.convert(CogFrameFormat.S32_444_RGB)
want = int(1000000001 + 1001 * 1.8556)
assert abs(int(h.component_data.B[0, 0]) - want) <= 1, (h.component_data.B, want)
'''),
]
