ID="c25-torn-signature"; PROPERTY="C25"
NEEDS="the process stops while the signature of the archive is written, so that only a part of the schema is stored"
BREAKS="an archive whose schema is stored in part is taken for a valid archive by the builder"
EDITS=[("flatdata-cpp/include/flatdata/internal/ResourceStorage.inl",
"""    if ( stored_schema != expected_schema )
""","""    // newer schemas may only append to older ones
    if ( std::string( expected_schema ).compare( 0, stored_schema.size( ), stored_schema ) != 0 )
""")]
FILES={"s.flatdata":"namespace n { archive B { r : raw_data; } archive A { r : raw_data; @optional b : archive B; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/FileResourceStorage.h>
#include <boost/filesystem.hpp>
#include <fstream>
#include <iterator>
using namespace flatdata;
int main( int, char** argv )
{
    const std::string dir = argv[ 1 ];
    auto builder = n::ABuilder::open( FileResourceStorage::create( dir.c_str( ) ) );
    if ( !builder.set_r( flatdata::MemoryDescriptor( "x", 1 ) ) ) return 3;
    std::string schema;
    {
        std::ifstream in( dir + "/A.archive.schema", std::ios::binary );
        schema.assign( std::istreambuf_iterator< char >( in ), { } );
    }
    for ( size_t size = 0; size <= schema.size( ); ++size )
    {
        std::ofstream( dir + "/A.archive.schema", std::ios::binary ) << schema.substr( 0, size );
        if ( static_cast< bool >( n::A::open( FileResourceStorage::create( dir.c_str( ) ) ) ) != ( size == schema.size( ) ) ) return 1;
    }
    return 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main" "$work/a"
'''
