ID="c18-lone-sentinel"; PROPERTY="C18"
NEEDS="a vector of a structure with a range that holds nothing but the sentinel"
BREAKS="the sentinel is exposed as an element, its range ends behind the vector"
EDITS=[("flatdata-cpp/include/flatdata/internal/ArrayView.inl",
"    if ( T::IS_OVERLAPPING_WITH_NEXT && m_size != 0 )\n", "    if ( T::IS_OVERLAPPING_WITH_NEXT && m_size > 1 )\n")]
FILES={"s.flatdata":"namespace n { struct S { @range( r ) first : u16; other : u32 : 20; } archive A { v : vector< S >; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <flatdata/Vector.h>
int main( )
{
    for ( size_t n = 0; n < 4; ++n )
    {
        flatdata::Vector< n::S > v( n );
        flatdata::ArrayView< n::S > view = v;
        if ( view.size( ) != ( n ? n - 1 : 0 ) ) return 1;
    }
    return 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main"
'''
