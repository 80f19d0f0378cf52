import os
import runpy

F = runpy.run_path(os.path.join(os.path.dirname(__file__), "f.py"))
COMMON, I, G, U, ASYNC = F["COMMON"], F["I"], F["G"], F["U"], F["ASYNC"]

SEEDS = [
    dict(id="c19-options-shared", property="C19",
         needs="a sequence in which one pair makes a part of the comparison meaningless",
         breaks="that part is excused in all pairs which come after it",
         edits=[(I, "        self._options = list(options)\n",
                 "        self._options = options if isinstance(options, list) else list(options)\n")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grains_pairwise
from mediagrains.comparison.options import Exclude
def a(fmt, data):
    return AudioGrain(cog_audio_format=fmt, samples=1, channels=1, sample_rate=48000, data=data, **ARGS)
S, T = CogAudioFormat.S16_INTERLEAVED, CogAudioFormat.S16_PLANES
one = [a(S, b"ab"), a(S, b"ab")]
two = [a(T, b"ab"), a(S, b"cd")]
r = compare_grains_pairwise(one, two, Exclude.cog_audio_format)
assert not r
'''),
    dict(id="c18-null-missing", property="C18",
         needs="event data with an explicit null which the other grain leaves out",
         breaks="the grains compare as equal but for their length",
         edits=[(I, "        for key in [k for k in a.keys() if k not in b.keys()]:\n",
                 "        for key in [k for k in a.keys() if k not in b.keys() and a[k] is not None]:\n")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grain
from mediagrains.comparison.options import Exclude
def e(d):
    g = EventGrain(**ARGS)
    g.meta["grain"]["event_payload"]["data"] = [d]
    return g
assert not compare_grain(e({"path": "/a", "pre": None, "post": 1}), e({"path": "/a", "post": 1}), Exclude.length)
'''),
    dict(id="c21-aac-long-frame", property="C21",
         needs="an AAC frame of 4096 octets or more",
         breaks="the stream is cut in the wrong places",
         edits=[(U + "adts_aac_parser.py", "((frame_data[3] & 0x03) << 11) |", "((frame_data[3] & 0x01) << 11) |")],
         demo=COMMON + '''
from mediagrains.utils.adts_aac_grain_wrapper import ADTSAACGrainWrapper
def frame(n):
    return bytes([0xff, 0xf1, 0x4c, 0x80 | n >> 11, n >> 3 & 255, (n & 7) << 5 | 0x1f, 0xfc]) + bytes(n - 7)
t = CodedAudioGrain(sample_rate=48000, channels=2, samples=1024, cog_audio_format=CogAudioFormat.AAC, **ARGS)
sizes = [20, 5000, 8191, 30]
got = [g.length for g in ADTSAACGrainWrapper(t, BytesIO(b"".join(frame(n) for n in sizes))).grains()]
assert got == sizes, got
'''),
    dict(id="c24-small-differences", property="C24",
         needs="floating point audio whose differences are very small",
         breaks="it is said to have no differences",
         edits=[("mediagrains/comparison/psnr.py", "    if mse == 0:\n", "    if mse < 1e-12:\n")],
         demo=COMMON + '''
from mediagrains.comparison.psnr import compute_psnr
def a(x):
    return AudioGrain(cog_audio_format=CogAudioFormat.DOUBLE_PLANES, samples=2, channels=1, sample_rate=48000,
                      data=struct.pack("@2d", *x), **ARGS)
r = compute_psnr(a((0.5, 0.25)), a((0.5 + 2.0**-22, 0.25)))
assert r[0] < 200, r
'''),
    dict(id="c14-raw-utf8", property="C14",
         needs="an event payload whose text is not escaped",
         breaks="the text is read in another character set",
         edits=[("mediagrains/grains/EventGrain.py", "payload = json.loads(value.decode('utf-8'))",
                 "payload = json.loads(value.decode('latin-1'))")],
         demo=COMMON + '''
g = EventGrain(**ARGS)
g.data = '{"type": "urn:x", "topic": "/\\u20ac", "data": []}'.encode("utf-8")
assert g.topic == "/\\u20ac", g.topic
'''),
    dict(id="c13-insert-before-last", property="C13",
         needs="a time label inserted at a negative position",
         breaks="it is inserted somewhere else",
         edits=[("mediagrains/grains/Grain.py", "        def insert(self, key: int, value: \"Grain.TIMELABEL.GrainMetadataDict\") -> None:\n",
                 "        def insert(self, key: int, value: \"Grain.TIMELABEL.GrainMetadataDict\") -> None:\n            key = key if key >= 0 else len(self) + key + 1\n")],
         demo=COMMON + '''
def l(t):
    return {"tag": t, "timelabel": {"frames_since_midnight": 1, "frame_rate_numerator": 25,
                                     "frame_rate_denominator": 1, "drop_frame": False}}
g = VideoGrain(width=2, height=2, **ARGS)
for t in ("a", "b", "c"):
    g.timelabels.append(l(t))
g.timelabels.insert(-1, l("x"))
assert [x.tag for x in g.timelabels] == ["a", "b", "x", "c"]
'''),
    dict(id="c22-ids-between", property="C22",
         needs="the extraction of two segments whose local ids are not neighbours",
         breaks="segments between them are extracted too",
         edits=[("mediagrains/tools/extract_from_gsf.py", "decoder.grains(local_ids=args.only_id)",
                 "decoder.grains(local_ids=args.only_id and range(min(args.only_id), max(args.only_id) + 1))")],
         demo=COMMON + '''
import os, tempfile
from mediagrains.gsf import GSFEncoder
from mediagrains.tools.extract_from_gsf import extract_gsf_essence
with tempfile.TemporaryDirectory() as d:
    i, o = os.path.join(d, "i"), os.path.join(d, "o")
    with open(i, "wb") as f:
        enc = GSFEncoder(f, segments=[{"local_id": n, "id": UUID(int=n)} for n in (1, 2, 3, 4)])
        with enc as e:
            for n in (1, 2, 3, 4):
                e.add_grain(CodedVideoGrain(data=bytes([n]) * n, **ARGS), segment_local_id=n)
    sys.argv = ["x", i, o, "--only-id", "4", "--only-id", "1"]
    extract_gsf_essence()
    assert open(o, "rb").read() == b"\\1\\4\\4\\4\\4"
'''),
]
