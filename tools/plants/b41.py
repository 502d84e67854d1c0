ID="c29-copy-words"; PROPERTY="C29"
NEEDS="a structure larger than a word whose size is no multiple of it, copied between neighbours"
BREAKS="copying a structure overwrites the start of the next one"
EDITS=[("flatdata-cpp/include/flatdata/Copy.h",
"    std::memcpy( destination.data( ), source.data( ), T::size_in_bytes( ) );\n",
"""    // whole words are copied faster
    constexpr size_t word = sizeof( uint64_t );
    constexpr size_t size = T::size_in_bytes( );
    std::memcpy( destination.data( ), source.data( ), size < word ? size : ( size + word - 1 ) / word * word );
""")]
FILES={"s.flatdata":"namespace n { struct S { a : u64; b : u32; } archive A { v : vector< S >; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/Copy.h>
#include <flatdata/Vector.h>
int main( )
{
    flatdata::Vector< n::S > from( 3 ), to( 3 );
    for ( int i = 0; i < 3; ++i ) { from[ i ].a = 1000 + i; from[ i ].b = 77; to[ i ].a = i; to[ i ].b = i; }
    flatdata::copy_struct( to[ 1 ], from[ 1 ] );
    for ( int i = 0; i < 3; ++i )
    {
        if ( static_cast< uint64_t >( to[ i ].a ) != ( i == 1 ? 1001u : i ) ) return 1;
        if ( static_cast< uint32_t >( to[ i ].b ) != ( i == 1 ? 77u : i ) ) return 2;
    }
    return 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main"
'''
