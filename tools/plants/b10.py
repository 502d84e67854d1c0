ID="c10-name-bound"; PROPERTY="C10"
NEEDS="a tar file with a long-name member whose base-256 size is close to 2^64"
BREAKS="the bounds check of the member holding a long name wraps around, the name is read outside the file"
EDITS=[("flatdata-cpp/src/TarReader.cpp",
"            if ( name_size > data.size( ) - offset )\n",
"            if ( offset + name_size > data.size( ) )\n")]
FILES={"main.cpp":'''
#include <flatdata/internal/TarReader.h>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <vector>
int main( )
{
    // a single header at the very end of a buffer: the name starts where the buffer ends
    std::vector< unsigned char > h( 512 );
    std::memcpy( &h[ 0 ], "././@LongLink", 13 );
    h[ 124 ] = 0x80;
    for ( int i = 1; i < 12; i++ ) h[ 124 + i ] = i < 4 ? 0 : 0xff;
    h[ 135 ] = 0;  // -256 as an unsigned 64 bit number
    h[ 134 ] = 0xff;
    h[ 156 ] = 'L';
    std::memset( &h[ 148 ], ' ', 8 );
    unsigned sum = 0;
    for ( unsigned char c : h ) sum += c;
    std::snprintf( reinterpret_cast< char* >( &h[ 148 ] ), 8, "%06o", sum );
    try
    {
        flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( h.data( ), h.size( ) ) );
    }
    catch ( const std::runtime_error& e )
    {
        std::cout << e.what( ) << std::endl;
        return std::string( e.what( ) ) == "Unexpected end of TAR file" ? 0 : 1;
    }
    return 1;
}
'''}
DEMO='''
g++ -std=c++17 -O1 -g -w -fsanitize=address -I "$repo/flatdata-cpp/include" -o "$work/main" "$here/main.cpp" "$repo/flatdata-cpp/src/TarReader.cpp" && timeout 60 "$work/main"
'''
