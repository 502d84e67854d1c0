ID="c35-straddle"; PROPERTY="C35"
NEEDS="an element that begins on a page nothing else was read from and of which only the part on the next page is read"
BREAKS="such elements do not count for the unused bytes of the structure"
EDITS=[("flatdata-cpp/include/flatdata/DebugDataAccessStatistics.h","                if ( start_page + 1 < x->pages[ current_page ] )\n","                if ( start_page < x->pages[ current_page ] )\n")]
FILES={"s.flatdata":"namespace n { struct S { a : u64 : 64; b : u64 : 64; c : u64 : 64; } archive A { v : vector< S >; } }\n",
"main.cpp":'''
#include <flatdata/DebugDataAccessStatistics.h>
#include "s.hpp"
#include <flatdata/MemoryResourceStorage.h>
#include <flatdata/Vector.h>
int main( )
{
    std::shared_ptr< flatdata::MemoryResourceStorage > storage = flatdata::MemoryResourceStorage::create( );
    flatdata::Vector< n::S > v( 800 );
    {
        auto builder = n::ABuilder::open( storage );
        if ( !builder || !builder.set_v( v ) ) return 1;
    }
    flatdata::DebugDataAccessStatistics::clear( );
    uint64_t sum = 0;
    {
        auto archive = n::A::open( storage );
        if ( !archive ) return 1;
        // element 511 covers the bytes 12272 to 12296 of the resource, field c is the first on its page
        sum += archive.v( )[ 511 ].c;
        sum += archive.v( )[ 512 ].a + archive.v( )[ 512 ].b;
        sum += archive.v( )[ 513 ].a + archive.v( )[ 513 ].b;
    }
    return static_cast< int >( sum );
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx -DDEBUG_DATA_ACCESS_STATISTICS "$here/main.cpp" && "$work/main" 2> "$work/report" || exit 1
cat "$work/report"
# one of three elements was read without its first byte
grep -A30 "^    v(" "$work/report" | grep -q "byte *0 redundant: 33"
'''
