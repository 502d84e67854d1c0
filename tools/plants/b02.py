ID="c02-empty-lists"; PROPERTY="C02"
NEEDS="a multivector with two empty lists in a row"
BREAKS="the Python builder drops repeated empty lists of a multivector, so later lists move to lower indexes"
EDITS=[("flatdata-py/flatdata/lib/archive_builder.py",
"            index_data_points.append(data_point)\n            if sub_list:",
"            # lists start where the data of the previous one ended\n            if sub_list or not index_data_points or index_data_points[-1] != data_point:\n                index_data_points.append(data_point)\n            if sub_list:")]
DEMO='''
exec "$py" - "$work" <<'E'
import sys
from flatdata.generator.engine import Engine
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_storage import FileResourceStorage
module = Engine("namespace n { struct S { a : u16 : 12; } archive A { m : multivector< 32, S >; } }").render_python_module()
item = lambda v: {"name": "n_S", "attributes": {"a": v}}
for data in ([[]], [[], []], [[item(1)], [], [], [item(2), item(3)]], [[], [], [], [item(7)], []]):
    path = sys.argv[1] + "/a"
    builder = module.n_ABuilder(ResourceStorage(FileResourceWriter(), path))
    builder.set("m", data)
    builder.finish()
    archive = module.n_A(FileResourceStorage(path))
    got = [[x.a for x in l] for l in archive.m]
    assert got == [[i["attributes"]["a"] for i in l] for l in data], (got, data)
E
'''
