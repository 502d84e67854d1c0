ID="c20-retry"; PROPERTY="C20"
NEEDS="a call of set that is rejected for its data, then a valid call for the same resource"
BREAKS="after a rejected call the resource counts as written and can never be set"
EDITS=[("flatdata-py/flatdata/lib/archive_builder.py",
"            raise ResourceAlreadySetError()\n",
"            raise ResourceAlreadySetError()\n        self._resources_written.append(name)\n"),
("flatdata-py/flatdata/lib/archive_builder.py",
"        storage.close()\n\n        self._resources_written.append(name)\n\n    def finish",
"        storage.close()\n\n    def finish")]
DEMO='''
exec "$py" - "$work" <<'E'
import sys
from flatdata.generator.engine import Engine
from flatdata.lib.errors import MissingFieldError, ResourceAlreadySetError
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_storage import FileResourceStorage
module = Engine("namespace n { struct S { a : u16 : 12; b : u8; } archive A { v : vector< S >; } }").render_python_module()
path = sys.argv[1] + "/a"
builder = module.n_ABuilder(ResourceStorage(FileResourceWriter(), path))
try:
    builder.set("v", [{"a": 1}])
    sys.exit("incomplete record accepted")
except MissingFieldError:
    pass
builder.set("v", [{"a": 1, "b": 2}])
try:
    builder.set("v", [{"a": 1, "b": 2}])
    sys.exit("set twice")
except ResourceAlreadySetError:
    pass
builder.finish()
assert [x.as_tuple() for x in module.n_A(FileResourceStorage(path)).v] == [(1, 2)]
E
'''
