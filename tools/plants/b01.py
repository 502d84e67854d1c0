ID="c01-ninth-byte"; PROPERTY="C01"
NEEDS="a field of 57..64 bits at a bit offset not divisible by 8 such that its bits spread over nine bytes"
BREAKS="Python reads drop the bits of wide unaligned fields that are stored in the ninth byte"
EDITS=[("flatdata-py/flatdata/lib/data_access.py",
"    if (total_bytes * 8 - offset_extra_bits) < num_bits:\n",
"    # everything that fits into 64 bits was read at once\n    if total_bytes < 8 and (total_bytes * 8 - offset_extra_bits) < num_bits:\n")]
DEMO='''
exec "$py" - <<'E'
from flatdata.lib.data_access import read_value
data = bytes(range(0x81, 0x91))
for width in range(1, 65):
    for offset in range(17):
        expected = (int.from_bytes(data, "little") >> offset) & ((1 << width) - 1)
        assert read_value(data, offset, width, False) == expected, (offset, width)
E
'''
