import os
import runpy

C = runpy.run_path(os.path.join(os.path.dirname(__file__), "c.py"))
COMMON, I, G = C["COMMON"], C["I"], C["G"]

SEEDS = [
    dict(id="c20-tone-cache", property="C20",
         needs="a tone that does not fit its grains, so that grains start at several places in its loop, looked at in "
               "another order than that of time",
         breaks="grains made earlier decide what later ones hold",
         edits=[("mediagrains/patterngenerators/audio/tone.py",
                 "        offs = sample_count % self.looplen\n",
                 "        offs = sample_count % self.looplen\n        if offs + self.samples > 40 * self.looplen:\n"
                 "            offs -= offs % 2\n")],
         demo=COMMON + '''
from itertools import islice
from math import sin, pi
from mediagrains.patterngenerators.audio import Tone
t = Tone(U1, U2, samples=7, cog_audio_format=CogAudioFormat.DOUBLE_PLANES, sample_rate=48000, frequency=3000)
t = Tone(U1, U2, samples=701, cog_audio_format=CogAudioFormat.DOUBLE_PLANES, sample_rate=48000, frequency=3000)
for n, g in enumerate(islice(t[0:], 8)):
    got = struct.unpack("@701d", bytes(g.data))
    want = [0.5 * sin(2 * pi * 3000 * k / 48000) for k in range(701 * n, 701 * n + 701)]
    assert all(abs(x - y) < 1e-6 for x, y in zip(got, want)), n
'''),
    dict(id="c20-bar-speed", property="C20",
         needs="a bar whose speed is not a whole number of lines a frame, far from the start",
         breaks="the bar's position is built from the frame's place within a thousand frames",
         edits=[("mediagrains/patterngenerators/video/movingbaroverlay.py",
                 "            fnum = int(self._bar_speed*grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator))\n",
                 "            fnum = int(self._bar_speed*(grain.origin_timestamp.to_count(grain.rate.numerator, grain.rate.denominator) % 1000))\n")],
         demo=COMMON + '''
from mediatimestamp import TimeValue
from mediagrains.patterngenerators.video import LumaSteps, MovingBarOverlay
src = LumaSteps(U1, U2, 16, 16, cog_frame_format=CogFrameFormat.U8_444)
m = MovingBarOverlay(src, height=1, speed=1.0)
def line(g):
    c = g.components[0]
    rows = [bytes(g.data[c.offset + c.stride * y:][:c.width]) for y in range(c.height)]
    return [y for y in range(16) if rows.count(rows[y]) == 1]
assert line(m[1001]) == [1001 % 16], line(m[1001])
'''),
    dict(id="c23-normalise-denominator", property="C23",
         needs="a range of times at a fractional rate",
         breaks="the ends of ranges are normalised to the nearest whole rate",
         edits=[("mediagrains/grains/Grain.py",
                 "            return value.normalise(self.media_rate.numerator, self.media_rate.denominator)\n",
                 "            return value.normalise(round(self.media_rate), 1) if isinstance(value, TimeRange) else \\\n"
                 "                value.normalise(self.media_rate.numerator, self.media_rate.denominator)\n")],
         demo=COMMON + '''
from mediatimestamp.immutable import TimeRange
g = VideoGrain(width=2, height=2, cog_frame_format=CogFrameFormat.U8_444, rate=Fraction(30000, 1001), **ARGS)
r = TimeRange(Timestamp.from_count(30001, 30000, 1001), Timestamp.from_count(30009, 30000, 1001),
              TimeRange.INCLUDE_START)
assert g.normalise_time(r) == r, g.normalise_time(r)
'''),
    dict(id="c23-empty-presentation", property="C23",
         needs="the presentation range of a grain without a media rate",
         breaks="the range is empty",
         edits=[("mediagrains/grains/Grain.py",
                 "    def presentation_origin_timerange(self) -> TimeRange:\n        return self.origin_timerange()\n",
                 "    def presentation_origin_timerange(self) -> TimeRange:\n"
                 "        return TimeRange(self.presentation_origin_timestamp, self.final_origin_timestamp(), "
                 "TimeRange.INCLUSIVE if self.media_rate else TimeRange.INCLUDE_START)\n")],
         demo=COMMON + '''
g = GrainFactory(**ARGS)
assert not g.presentation_origin_timerange().is_empty()
'''),
    dict(id="c26-first-key", property="C26",
         needs="sequences or lists which differ at their very first entry",
         breaks="the first entry is missing from the list of failing keys",
         edits=[(I, "        return [c.key for c in self.children if not c and c.key is not None]\n",
                 "        return [c.key for c in self.children if c.key and not c]\n")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grains_pairwise
r = compare_grains_pairwise([GrainFactory(**ARGS)], [GrainFactory(**dict(ARGS, flow_id=U1))])
assert r.failing_keys() == [0], r.failing_keys()
'''),
    dict(id="c26-excluded-text", property="C26",
         needs="an excluded payload which differs",
         breaks="the text marks it as a failure",
         edits=[(I, """        r = prefix
        if self.excluded():
            r += '\\u25EF   '
        elif self.__bool__():
            r += '\\u2705   '
        else:
            r += '\\u274c   '
        r += self._msg
        if self.d is None:
""", """        r = prefix
        if self.__bool__():
            r += '\\u2705   '
        elif self.excluded() and self.d is not None:
            r += '\\u25EF   '
        else:
            r += '\\u274c   '
        r += self._msg
        if self.d is None:
""")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grain
from mediagrains.comparison.options import *
a, b = (CodedVideoGrain(data=d, **ARGS) for d in (b"abc", b"abd"))
r = compare_grain(a, b, Exclude.data)
line = [x for x in str(r).splitlines() if "For speed reasons" in x]
assert line and "\\u25ef" in line[0], line
'''),
    dict(id="c26-extra-count", property="C26",
         needs="a second payload which is the first with words of several bytes added at its end",
         breaks="the first of the extra values is said to be the last",
         edits=[(I, "                                                                                   b[i])\n            return",
                 "                                                                                   b[-1])\n            return")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grain
a, b = (CodedVideoGrain(data=d, **ARGS) for d in (b"", b"\\1\\2\\3"))
m = compare_grain(a, b).data.msg
assert "starting with b.data[0] = 1" in m, m
'''),
    dict(id="c26-steps-swapped", property="C26",
         needs="payloads of which one has more words than the other before the first difference is over",
         breaks="the steps shown are those which turn the second payload into the first",
         edits=[(I, "for (tag, i1, i2, j1, j2) in self.d.get_opcodes()[:5]]",
                 "for (tag, j1, j2, i1, i2) in SequenceMatcher(None, self.b, self.a).get_opcodes()[:5]]")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grain
a, b = (CodedVideoGrain(data=d, **ARGS) for d in (b"abc", b"bc"))
s = str(compare_grain(a, b))
assert "delete " in s and "insert" not in s, s
'''),
    dict(id="c05-late-exit-flag", property="C05",
         needs="leaving an asynchronous session with grains whose data nobody asked for",
         breaks="the data of those grains is read after all, and stays in memory",
         edits=[(G, """        self._exiting = True
        for (key, grain) in list(self._unloaded_lazy_grains.items()):
            await grain
""", """        for (key, grain) in list(self._unloaded_lazy_grains.items()):
            await grain
        self._exiting = True
""")],
         demo=COMMON + '''
import asyncio
from mediagrains.gsf import *
from mediagrains.gsf import GrainDataLoadingMode
from mediagrains.utils.asyncbinaryio import AsyncBytesIO
async def f():
    async with GSFDecoder(file_data=AsyncBytesIO(dumps([CodedVideoGrain(data=b"abc", **ARGS)]))) as dec:
        got = [g async for g, _ in dec.grains(loading_mode=GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE)]
    return got[0].data
assert asyncio.run(f()) is None
'''),
]
