import os
import runpy

C = runpy.run_path(os.path.join(os.path.dirname(__file__), "c.py"))
COMMON, I, G = C["COMMON"], C["I"], C["G"]
ASYNC = COMMON + '''
import asyncio
from mediagrains.gsf import *
from mediagrains.gsf import GrainDataLoadingMode
from mediagrains.utils.asyncbinaryio import AsyncBytesIO
'''

SEEDS = [
    dict(id="c09-lazy-number", property="C09",
         needs="loading the data of a grain before the next grain is pulled, and another's after that",
         breaks="two grains share a number, and loading the second of them fails",
         edits=[(G, "                    self._next_lazy_grain_number += 1\n",
                 "                    self._next_lazy_grain_number = len(self._unloaded_lazy_grains)\n")],
         demo=ASYNC + '''
data = dumps([CodedVideoGrain(data=bytes([n] * 5), **ARGS) for n in range(4)])
async def f():
    async with GSFDecoder(file_data=AsyncBytesIO(data)) as dec:
        it = dec.grains(loading_mode=GrainDataLoadingMode.ALWAYS_DEFER_LOAD_IF_POSSIBLE)
        got = []
        for n in range(4):
            got.append((await it.__anext__())[0])
            if n == 1:
                await got[0]
        for g in got:
            await g
        return [bytes(g.data) for g in got]
assert asyncio.run(f()) == [bytes([n] * 5) for n in range(4)]
'''),
    dict(id="c18-any-expectation", property="C18",
         needs="two requirements on the difference of the same timestamp, only one of which is met",
         breaks="the grains compare equal",
         edits=[(I, """            if all(opt.matcher(diff) for opt in opts):
                return (True, "{} - {} == {!r}, meets requirements set in options".format(
                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
            else:
                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
                    self._identifier.format('a'), self._identifier.format('b'), diff), [])


class Timestamp""", """            if any(opt.matcher(diff) for opt in opts):
                return (True, "{} - {} == {!r}, meets requirements set in options".format(
                    self._identifier.format('a'), self._identifier.format('b'), diff), [])
            else:
                return (False, "{} - {} == {!r}, does not meet requirements set in options".format(
                    self._identifier.format('a'), self._identifier.format('b'), diff), [])


class Timestamp""")],
         demo=COMMON + '''
from mediagrains.comparison import compare_grain
from mediagrains.comparison.options import *
a = GrainFactory(**ARGS)
b = GrainFactory(**dict(ARGS, origin_timestamp=Timestamp(9, 0)))
assert not compare_grain(a, b, ExpectedDifference.origin_timestamp < TimeOffset(0), ExpectedDifference.origin_timestamp > TimeOffset(-1))
'''),
]
