ID="c08-whitespace-schema"; PROPERTY="C08"
NEEDS="a stored schema that differs from the expected one in white space only"
BREAKS="resources with a foreign schema are opened instead of refused"
EDITS=[("flatdata-py/flatdata/lib/archive.py",
"        if actual_schema != resource_signature.schema:\n",
"        if actual_schema.split() != resource_signature.schema.split():\n")]
DEMO='''
exec "$py" - "$work" <<'E'
import sys
from flatdata.generator.engine import Engine
from flatdata.lib.errors import SchemaMismatchError
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
from flatdata.lib.file_resource_storage import FileResourceStorage
module = Engine("namespace n { archive A { r : raw_data; @optional o : raw_data; } }").render_python_module()
path = sys.argv[1] + "/a"
builder = module.n_ABuilder(ResourceStorage(FileResourceWriter(), path))
builder.set("r", b"1")
builder.set("o", b"2")
builder.finish()
for name in "ro":
    schema = open(path + "/" + name + ".schema").read()
    for pos in range(len(schema) + 1):
        for c in " \\n":
            open(path + "/" + name + ".schema", "w").write(schema[:pos] + c + schema[pos:])
            try:
                value = getattr(module.n_A(FileResourceStorage(path)), name)
                sys.exit("foreign schema accepted")
            except SchemaMismatchError:
                pass
    open(path + "/" + name + ".schema", "w").write(schema)
E
'''
