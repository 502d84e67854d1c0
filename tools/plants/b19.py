ID="c19-negative-step"; PROPERTY="C19"
NEEDS="a multivector slice with a negative step"
BREAKS="slices of multivectors with a negative step are empty"
EDITS=[("flatdata-py/flatdata/lib/resources.py",
"""class _MultivectorSlice:
    def __init__(self, s, sequence):
        self._slice = s
        self._sequence = sequence

    def __iter__(self):
        for i in range(*self._slice.indices(len(self._sequence))):
            yield self._sequence[i]
""","""class _MultivectorSlice:
    def __init__(self, s, sequence):
        self._slice = s
        self._sequence = sequence

    def __iter__(self):
        i, stop, step = self._slice.indices(len(self._sequence))
        while i < stop:
            yield self._sequence[i]
            i += step
""")]
DEMO='''
exec "$py" - "$work" <<'E'
import sys
from flatdata.generator.engine import Engine
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_storage import FileResourceStorage
module = Engine("namespace n { struct S { a : u16 : 12; } archive A { m : multivector< 32, S >; } }").render_python_module()
item = lambda v: {"name": "n_S", "attributes": {"a": v}}
path = sys.argv[1] + "/a"
builder = module.n_ABuilder(ResourceStorage(FileResourceWriter(), path))
builder.set("m", [[item(i)] for i in range(5)])
builder.finish()
archive = module.n_A(FileResourceStorage(path))
model = list(range(5))
ends = [None] + list(range(-7, 8))
for start in ends:
    for stop in ends:
        for step in (None, 1, 2, 7, -1, -2, -7):
            s = slice(start, stop, step)
            assert [x[0].a for x in archive.m[s]] == model[s], s
E
'''
