ID="c30-prefix"; PROPERTY="C30"
NEEDS="a memory storage that holds a resource whose name starts with the name that is asked for"
BREAKS="a memory storage claims that a resource exists that was never written"
EDITS=[("flatdata-cpp/include/flatdata/MemoryResourceStorage.h",
"""           || helpers::prefix_exists( m_storage->resources, path + "/" )
           || helpers::prefix_exists( m_storage->streams, path + "/" );
""","""           || helpers::prefix_exists( m_storage->resources, path )
           || helpers::prefix_exists( m_storage->streams, path );
""")]
FILES={"main.cpp":'''
#include <flatdata/MemoryResourceStorage.h>
int main( )
{
    auto storage = flatdata::MemoryResourceStorage::create( );
    if ( !storage->write< flatdata::MemoryDescriptor >( "road_names", "schema", flatdata::MemoryDescriptor( "x", 1 ) ) ) return 3;
    if ( !storage->exists( "road_names" ) ) return 2;
    return storage->exists( "road" ) || storage->exists( "road_name" ) ? 1 : 0;
}
'''}
DEMO='''
cxx "$here/main.cpp" && "$work/main"
'''
