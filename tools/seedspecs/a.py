COMMON = '''
import sys
from io import BytesIO
from uuid import UUID
from fractions import Fraction
from mediatimestamp.immutable import Timestamp
from mediagrains import gsf
from mediagrains.gsf import GSFEncoder, GSFDecoder, GrainDataLoadingMode as Mode
from mediagrains.grains import *
U1, U2 = UUID(int=1), UUID(int=2)
'''

SEEDS = [
    dict(id="c01-negative-timestamps", property="C01",
         needs="a grain with a negative timestamp in a version 8 or 9 file",
         breaks="timestamps before the epoch lose their sign when written",
         edits=[("mediagrains/gsf.py", "    return (_encode_bool(ts.sign >= 0) +", "    return (_encode_bool(ts.sec >= 0) +")],
         demo=COMMON + '''
g = GrainFactory(src_id=U1, flow_id=U2, origin_timestamp=Timestamp(5, 1, -1), sync_timestamp=Timestamp(5, 1))
h = gsf.loads(gsf.dumps([g]))[1][1][0]
assert h.origin_timestamp == g.origin_timestamp, h.origin_timestamp
'''),
    dict(id="c02-block-before-unof", property="C02",
         needs="a block the reader does not know before the unit offsets in a coded video header",
         breaks="unit offsets after an unknown block are not read",
         edits=[("mediagrains/gsf.py", """                    if unof_block.tag != 'unof':
                        continue
""", """                    if unof_block.tag != 'unof':
                        break
""")],
         demo=COMMON + '''
g = CodedVideoGrain(src_id=U1, flow_id=U2, origin_timestamp=Timestamp(5, 1), unit_offsets=[1, 2, 3], data=b"abcd")
b = gsf.dumps([g])
def grow(b, tag):
    i = b.index(tag) + 4
    return b[:i] + (int.from_bytes(b[i:i + 4], "little") + 12).to_bytes(4, "little") + b[i + 4:]
i = b.index(b"unof")
b = b[:i] + b"fill" + (12).to_bytes(4, "little") + bytes(4) + b[i:]
j = b.index(b"grai")
b = b[:j] + grow(grow(grow(b[j:], b"grai"), b"gbhd"), b"cghd")
h = gsf.loads(b)[1][1][0]
assert list(h.unit_offsets) == [1, 2, 3], list(h.unit_offsets)
'''),
    dict(id="c03-lowest-segment", property="C03",
         needs="segments added in descending order of local identifier, then a grain with no segment chosen",
         breaks="the grain goes to the first segment added instead of the lowest numbered one",
         edits=[("mediagrains/gsf.py", """            segments = sorted([local_id for local_id in self._segments if
                               segment_id is None or self._segments[local_id].id == segment_id])
""", """            segments = [local_id for local_id in self._segments if
                        segment_id is None or self._segments[local_id].id == segment_id]
""")],
         demo=COMMON + '''
f = BytesIO()
enc = GSFEncoder(f)
enc.add_segment(local_id=7)
enc.add_segment(local_id=3)
with enc as e:
    e.add_grain(GrainFactory(src_id=U1, flow_id=U2))
head, segs = gsf.loads(f.getvalue())
assert list(segs) == [3], segs
'''),
    dict(id="c05-empty-filter", property="C05",
         needs="an asynchronous session given an empty list of segments",
         breaks="a filter which chooses no segment delivers every grain in asynchronous sessions",
         edits=[("mediagrains/gsf.py", """                    local_id = await grai_block.read_uint(2)

                    if local_ids is not None and local_id not in local_ids:
""", """                    local_id = await grai_block.read_uint(2)

                    if local_ids and local_id not in local_ids:
""")],
         demo=COMMON + '''
import asyncio
from mediagrains.utils.asyncbinaryio import AsyncBytesIO
b = gsf.dumps([GrainFactory(src_id=U1, flow_id=U2)])
async def go():
    async with GSFDecoder(file_data=AsyncBytesIO(b)) as s:
        return [x async for x in s.grains(local_ids=[])]
r = asyncio.run(go())
assert r == [], r
'''),
    dict(id="c07-version-ten", property="C07",
         needs="a file of format version 10 read asynchronously",
         breaks="the asynchronous reader accepts an unsupported format version",
         edits=[("mediagrains/gsf.py", """            (self.major, self.minor) = await self._decode_ssb_header(head_tag=head_tag)
        except EOFError:
            raise GSFDecodeError("No file header found in file", self.file_data.tell())
        if self.major not in [7, 8, 9]:
            raise GSFDecodeBadVersionError(f"Unknown Version {self.major}.{self.minor}", 0, self.major, self.minor)
""", """            (self.major, self.minor) = await self._decode_ssb_header(head_tag=head_tag)
        except EOFError:
            raise GSFDecodeError("No file header found in file", self.file_data.tell())
        if self.major not in range(7, 11):
            raise GSFDecodeBadVersionError(f"Unknown Version {self.major}.{self.minor}", 0, self.major, self.minor)
""")],
         demo=COMMON + '''
import asyncio
from mediagrains.utils.asyncbinaryio import AsyncBytesIO
b = gsf.dumps([GrainFactory(src_id=U1, flow_id=U2)])
b = b[:8] + bytes([10, 0, 1, 0]) + b[12:]
async def go():
    return await gsf.load(AsyncBytesIO(b))
try:
    asyncio.run(go())
except gsf.GSFDecodeBadVersionError as e:
    assert (e.major, e.minor) == (10, 1)
else:
    sys.exit("version 10 was read")
'''),
]
