ID="c21-tar-depth"; PROPERTY="C21"
NEEDS="a tar file holding an archive with sub-archives nested at least two levels deep"
BREAKS="sub-archives of sub-archives in tar files are looked up at the wrong path"
EDITS=[("flatdata-py/flatdata/lib/tar_archive_resource_storage.py",
"            return TarArchiveResourceStorage(self.tar_map, self.file_entries, self.dir_entries, path)\n",
"            return TarArchiveResourceStorage(self.tar_map, self.file_entries, self.dir_entries, key)\n")]
DEMO='''
exec "$py" - "$work" <<'E'
import sys, os, tarfile
from flatdata.generator.engine import Engine
from flatdata.lib.inspector import open_archive
from flatdata.lib.file_resource_writer import FileResourceWriter
from flatdata.lib.resource_storage import ResourceStorage
schema = """namespace n { archive C { r : raw_data; } archive B { c : archive C; } archive A { b : archive B; } }"""
module = Engine(schema).render_python_module()
root = sys.argv[1] + "/a"
for sub, name in (("", "A"), ("/b", "B"), ("/b/c", "C")):
    builder = getattr(module, "n_%sBuilder" % name)(ResourceStorage(FileResourceWriter(), root + sub))
    if name == "C":
        builder.set("r", b"xyz")
    builder.finish()
path = sys.argv[1] + "/a.tar"
with tarfile.open(path, "w") as tar:
    tar.add(root, ".")
for p in (root, path):
    archive, _ = open_archive(p)
    assert bytes(archive.b.c.r[:]) == b"xyz"
E
'''
