ID="c09-long-name-block"; PROPERTY="C09"
NEEDS="a GNU long name whose length (with the terminating zero) is a multiple of 512 bytes, in front of other members"
BREAKS="the C++ tar reader skips a block too many after such a name and fails on the archive"
EDITS=[("flatdata-cpp/src/TarReader.cpp",
"            const size_t padding = ( BLOCK_SIZE - ( name_size % BLOCK_SIZE ) ) % BLOCK_SIZE;\n",
"            const size_t padding = BLOCK_SIZE - ( name_size % BLOCK_SIZE );\n")]
FILES={"s.flatdata":"namespace n { archive A { r : raw_data; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/flatdata.h>
int main( int, char** argv )
{
    auto archive = n::A::open( flatdata::TarArchiveResourceStorage::create( argv[ 1 ], argv[ 2 ] ) );
    return archive && archive.r( ).size_in_bytes( ) == 3 ? 0 : 1;
}
''',
"pack.py":'''
import sys, tarfile, io
sys.path[:0] = []
from flatdata.generator.engine import Engine
module = Engine("namespace n { archive A { r : raw_data; } }").render_python_module()
out, sub = sys.argv[1], sys.argv[2]
files = {"A.archive": bytes(16), "A.archive.schema": module.n_A._SCHEMA.encode(),
         "r": (3).to_bytes(8, "little") + b"abc" + bytes(8), "r.schema": module.n_A._R_SCHEMA.encode()}
with tarfile.open(out, "w", format=tarfile.GNU_FORMAT) as tar:
    for name, data in files.items():
        info = tarfile.TarInfo(sub + "/" + name)
        info.size = len(data)
        tar.addfile(info, io.BytesIO(data))
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" || exit 2
# "<sub>/r" and its zero byte take 512 bytes
for length in 40 508 509 510 600; do
    sub="$("$py" -c "print('d' * $length)")"
    "$py" "$here/pack.py" "$work/a.tar" "$sub" && "$work/main" "$work/a.tar" "$sub" || exit 1
done
'''
