ID="c26-separator-at-end"; PROPERTY="C26"
NEEDS="a separator of several bytes that starts near the end of the payload"
BREAKS="a prefix of the separator at the end of the payload counts as separator"
EDITS=[("flatdata-py/flatdata/lib/resources.py",
"""            if self[i:i + len(separator)] == separator:
                return bytes(self[index:i]).decode("utf-8")
""","""            if separator.startswith(bytes(self[i:i + len(separator)])):
                return bytes(self[index:i]).decode("utf-8")
""")]
DEMO='''
exec "$py" - <<'E'
from flatdata.lib.resources import RawData
def raw(data):
    return RawData(len(data).to_bytes(8, "little") + data + bytes(8), None)
for data in (b"abc", b"ab##", b"ab#", b"a#b##c#", b"##", b"#", b""):
    for index in range(len(data) + 1):
        assert raw(data).sub_str(index, b"##") == data[index:].split(b"##")[0].decode(), (data, index)
E
'''
