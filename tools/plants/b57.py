ID="c31-empty-resource"; PROPERTY="C31"
NEEDS="a resource that is there and has no elements"
BREAKS="the description of the archive shows it without size and number of elements, as if it were missing"
EDITS=[("flatdata-py/flatdata/lib/archive.py","                           len(resource) if resource is not None else None])","                           len(resource) if resource else None])")]
FILES={"s.flatdata":"namespace n { struct S { a : u8; } archive A { v : vector< S >; r : raw_data; } }\n","main.py":'''
import sys, tempfile
from flatdata.lib.file_resource_storage import FileResourceStorage
from flatdata.lib.flatdata_writer import Writer
from flatdata.generator.engine import Engine
schema = open(sys.argv[1]).read()
with tempfile.TemporaryDirectory() as folder:
    writer = Writer(schema, folder)
    writer.set("v", [])
    writer.set("r", b"")
    writer.finish()
    _, archive_type = Engine(schema).render_python_module(archive_name="A")
    frame = archive_type(FileResourceStorage(folder)).to_data_frame()
    assert [None if x != x else x for x in frame["Size"]] == [0, 0, 0], frame
'''}
DEMO='''
"$py" "$here/main.py" "$here/s.flatdata"
'''
