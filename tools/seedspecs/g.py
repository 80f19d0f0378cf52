import os
import runpy

F = runpy.run_path(os.path.join(os.path.dirname(__file__), "f.py"))
COMMON, I, G, U, ASYNC = F["COMMON"], F["I"], F["G"], F["U"], F["ASYNC"]
PIPE = '''
class Blocked(Exception):
    pass
class Pipe(io.RawIOBase):
    def __init__(self, b, size=1 << 30):
        self.b, self.pos = b, 0
    def readable(self):
        return True
    def readinto(self, b):
        n = min(len(b), len(self.b) - self.pos)
        if not n and len(b):
            raise Blocked()
        b[:n] = self.b[self.pos:self.pos + n]
        self.pos += n
        return n
'''

SEEDS = [
    dict(id="c29-aac-ahead", property="C29",
         needs="AAC which arrives as it is made",
         breaks="a grain is delivered only when the frame after it has arrived",
         edits=[(U + "adts_aac_grain_wrapper.py", """            new_grain.data = frame_data

            yield new_grain

            try:
                (frame_data, frame_info) = next(frames)
            except StopIteration:
                return
""", """            new_grain.data = frame_data

            last = False
            try:
                (frame_data, frame_info) = next(frames)
            except StopIteration:
                last = True

            yield new_grain

            if last:
                return
""")],
         demo=ASYNC + PIPE + '''
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
frame = bytes([0xff, 0xf1, 0x4c, 0x80, 0x01, 0x9f, 0xfc]) + b"abcde"
t = CodedAudioGrain(cog_audio_format=CogAudioFormat.AAC, **ARGS)
got = []
try:
    for g in ADTSAACGrainWrapper(t, Pipe(frame * 2)).grains():
        got.append(bytes(g.data))
except Blocked:
    pass
assert got == [frame, frame], got
'''),
    dict(id="c29-terminator-waits", property="C29",
         needs="a file which ends with its terminator on a connection which stays open",
         breaks="the reading of a file which has ended waits for more",
         edits=[(G, """                    if grai_block.size == 0:
                        # Terminator block reached
                        if self._support_concatenation:
                            continue
                        break

                    local_id = grai_block.read_uint(2)

                    if local_ids is not None and local_id not in local_ids:
                        continue

                    with SyncGSFBlock(""", """                    if grai_block.size == 0:
                        # Terminator block reached, what follows is the end or another file
                        continue

                    local_id = grai_block.read_uint(2)

                    if local_ids is not None and local_id not in local_ids:
                        continue

                    with SyncGSFBlock(""")],
         demo=ASYNC + PIPE + '''
f = io.BytesIO()
with GSFEncoder(f) as enc:
    enc.add_grain(CodedVideoGrain(data=b"abcd", **ARGS))
from mediagrains.tools import file_or_pipe
class Std:
    buffer = Pipe(f.getvalue())
sys.stdin = Std()
with file_or_pipe("-", "rb") as p:
    with GSFDecoder(file_data=p, support_concatenation=False) as dec:
        assert len(list(dec.grains())) == 1
'''),
    dict(id="c29-grains-at-once", property="C29",
         needs="grains made one by one while a file is streamed by add_grains",
         breaks="grains reach the output only when the last of them has been made",
         edits=[(G, """        if self._active_dump:
            for grain in grains:
                _write_fully(self.file, segment.encode_grain(grain))
                segment._count_written(1)
""", """        if self._active_dump:
            for grain in list(grains):
                _write_fully(self.file, segment.encode_grain(grain))
                segment._count_written(1)
""")],
         demo=ASYNC + '''
f = io.BytesIO()
def live():
    for i in range(3):
        yield CodedVideoGrain(data=b"abcd%d" % i, **ARGS)
        assert b"abcd%d" % i in f.getvalue()
with GSFEncoder(f, segments=[{"local_id": 1}], streaming=True) as enc:
    enc.add_grains(live())
'''),
    dict(id="c30-wrapper-shares", property="C30",
         needs="time labels added to a grain cut from raw essence by way of a template with time labels",
         breaks="a time label added to one grain is on those after it, and on the template",
         edits=[(U + "grain_wrapper.py", """            new_grain = copy.deepcopy(self.template_grain)
""", """            # The data is replaced, so only the metadata needs copying
            meta = dict(self.template_grain.meta)
            meta["grain"] = {k: dict(v) if isinstance(v, dict) else v for k, v in meta["grain"].items()}
            new_grain = type(self.template_grain)(meta, None)
""")],
         demo=ASYNC + '''
from mediagrains.utils.grain_wrapper import GrainWrapper
t = VideoGrain(width=2, height=2, cog_frame_format=CogFrameFormat.U8_444, **ARGS)
t.add_timelabel("a", 1, Fraction(25))
for g in GrainWrapper(t, io.BytesIO(bytes(36))).grains():
    assert len(g.timelabels) == 1, g.timelabels
    g.add_timelabel("b", 2, Fraction(25))
'''),
    dict(id="c30-psnr-in-place", property="C30",
         needs="the PSNR of double precision audio",
         breaks="measuring overwrites the audio measured",
         edits=[("mediagrains/comparison/psnr.py", """    return np.mean(np.square(np.subtract(data_a, data_b, dtype=np.double)))
""", """    # Doubles need no conversion, and so no more memory
    error = data_a if data_a.dtype == np.double else data_a.astype(np.double)
    error -= data_b
    return np.mean(np.square(error))
""")],
         demo=ASYNC + '''
from mediagrains.comparison import compute_psnr
import struct
kw = dict(cog_audio_format=CogAudioFormat.DOUBLE_INTERLEAVED, samples=4, channels=1, sample_rate=48000)
a = AudioGrain(data=bytearray(struct.pack("<4d", .5, .25, .125, 0)), **kw, **ARGS)
b = AudioGrain(data=bytearray(struct.pack("<4d", .25, .25, .125, 0)), **kw, **ARGS)
before = bytes(a.data)
compute_psnr(a, b)
assert bytes(a.data) == before
'''),
    dict(id="c30-h264-template", property="C30",
         needs="a template used again, for another H.264 stream",
         breaks="the template of the program takes what the first stream said",
         edits=[(U + "h264_grain_wrapper.py", """        self.template_grain = copy.deepcopy(template_grain)  # make a copy as the template defaults will be updated
""", """        self.template_grain = template_grain
""")],
         demo=ASYNC + """
import copy
from mediagrains.utils.h264_grain_wrapper import H264GrainWrapper
sps = bytes.fromhex("0000000167420028f40a0fc8")
data = bytes.fromhex("00000001 67 42 00 0a f8 41 a2".replace(" ", "")) + bytes.fromhex("0000000168ce3880") + \\
    bytes.fromhex("0000000165888400330000030000")
t = CodedVideoGrain(cog_frame_format=CogFrameFormat.H264, origin_width=1920, origin_height=1080, coded_width=0,
                    coded_height=0, **ARGS)
before = copy.deepcopy(t.meta)
try:
    list(H264GrainWrapper(t, io.BytesIO(data)).grains())
except Exception:
    pass
assert t.meta == before, (t.meta, before)
"""),
    dict(id="c30-still-meta", property="C30",
         needs="a time label added to a grain of a still picture which has time labels",
         breaks="the label is on every picture of the generator, and on the picture it was given",
         edits=[("mediagrains/patterngenerators/video/still.py", """            grain = deepcopy(self._template_grain)
""", """            # The octets must be copied, of the metadata only what is changed here
            grain = copy(self._template_grain)
            grain.meta["grain"] = copy(grain.meta["grain"])
            grain.data = deepcopy(self._template_grain.data)
"""), ("mediagrains/patterngenerators/video/still.py", "from copy import deepcopy\n", "from copy import copy, deepcopy\n")],
         demo=ASYNC + """
from mediagrains.patterngenerators.video import StillPatternGenerator
t = VideoGrain(width=2, height=2, cog_frame_format=CogFrameFormat.U8_444, **ARGS)
t.add_timelabel("a", 1, Fraction(25))
gen = StillPatternGenerator(t)
for i in range(3):
    g = gen[i]
    assert len(g.timelabels) == 1, g.timelabels
    g.add_timelabel("b", 2, Fraction(25))
"""),
]
