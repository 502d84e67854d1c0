ID="c17-two-flushes"; PROPERTY="C17"
NEEDS="a multivector of more than 64 MB, so that its buffer is flushed twice before it is closed"
BREAKS="the position of lists only takes the last flush into account"
EDITS=[("flatdata-cpp/include/flatdata/MultiVector.h",
"    m_size_flushed += m_data.size( ) - PADDING_SIZE;\n",
"    m_size_flushed = m_data.size( ) - PADDING_SIZE;\n")]
FILES={"s.flatdata":"namespace n { struct S { %s } archive A { m : multivector< 40, S >; } }\n" % " ".join("f%d : u64;" % i for i in range(64)),
"main.cpp":'''
#include "s.hpp"
#include <flatdata/flatdata.h>
int main( int, char** argv )
{
    auto builder = n::ABuilder::open( flatdata::FileResourceStorage::create( argv[ 1 ] ) );
    auto m = builder.start_m( );
    const size_t size = 200000;
    for ( size_t i = 0; i < size; i++ )
    {
        m.grow( ).add< n::SMutator >( ).f63 = i;
    }
    auto view = m.close( );
    for ( size_t i = 0; i < size; i++ )
    {
        auto it = view.iterator< n::S >( i );
        if ( !it.valid( ) || ( *it ).f63 != i ) return 1;
    }
    return 0;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main" "$work/a"
'''
