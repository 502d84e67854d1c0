ID="c25-unflushed"; PROPERTY="C25"
NEEDS="the storage reports a write error only once its buffer is flushed, and no other error follows"
BREAKS="the builder reports success although the end of the resource was never stored"
EDITS=[("flatdata-cpp/src/ResourceStorage.cpp",
"""    stream->flush( );

    return static_cast< bool >( *stream ) && write_schema( resource_name, schema );
""","""
    return static_cast< bool >( *stream ) && write_schema( resource_name, schema );
""")]
FILES={"s.flatdata":"namespace n { archive A { r : raw_data; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/FileResourceStorage.h>
#include <sys/resource.h>
#include <csignal>
using namespace flatdata;
int main( int, char** argv )
{
    auto builder = n::ABuilder::open( FileResourceStorage::create( argv[ 1 ] ) );
    if ( !builder ) return 3;
    std::signal( SIGXFSZ, SIG_IGN );
    rlimit limit{ 200, RLIM_INFINITY };
    setrlimit( RLIMIT_FSIZE, &limit );
    std::string small( 150, 'x' ), large( 300, 'x' );
    if ( !builder.set_r( flatdata::MemoryDescriptor( small.data( ), small.size( ) ) ) ) return 4;
    return builder.set_r( flatdata::MemoryDescriptor( large.data( ), large.size( ) ) ) ? 1 : 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main" "$work/a"
'''
