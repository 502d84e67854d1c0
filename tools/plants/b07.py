ID="c07-size-overflow"; PROPERTY="C07"
NEEDS="a resource file whose size header was altered so that adding the size of header and padding wraps around"
BREAKS="a damaged size header that is close to 2^64 is accepted and exposes memory outside the file"
EDITS=[("flatdata-cpp/include/flatdata/internal/ResourceStorage.inl",
"""    if ( sizeof( resource_storage::size_type ) + PADDING_SIZE > data.size_in_bytes( ) )
    {
        return MemoryDescriptor( );
    }

""","""    if ( sizeof( resource_storage::size_type ) > data.size_in_bytes( ) )
    {
        return MemoryDescriptor( );
    }

""")]
FILES={"s.flatdata":"namespace n { archive A { r : raw_data; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/flatdata.h>
#include <cstdio>
#include <fstream>
int main( int, char** argv )
{
    std::string path = argv[ 1 ];
    {
        auto builder = n::ABuilder::open( flatdata::FileResourceStorage::create( path.c_str( ) ) );
        if ( !builder.set_r( flatdata::MemoryDescriptor( "abc", 3 ) ) ) return 2;
    }
    if ( !n::A::open( flatdata::FileResourceStorage::create( path.c_str( ) ) ) ) return 3;
    {
        std::ofstream out( path + "/r", std::ios::binary );
        // eight bytes: -8 as a size, adding 16 gives the size of the file
        out << "\\xf8\\xff\\xff\\xff\\xff\\xff\\xff\\xff";
    }
    return n::A::open( flatdata::FileResourceStorage::create( path.c_str( ) ) ) ? 1 : 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main" "$work/a"
'''
