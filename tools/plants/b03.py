ID="c03-tail-byte"; PROPERTY="C03"
NEEDS="a field of 57..64 bits spread over nine bytes followed by a field that shares its last byte and is written first"
BREAKS="writing a wide unaligned field clears the bits of the following fields in its ninth byte"
EDITS=[("flatdata-cpp/include/flatdata/internal/Writer.h",
"""            unsigned char byte_value = static_cast< unsigned char >( *destination & ~value_mask );
            // add new value, and keep surrounding data
            *destination = byte_value | static_cast< unsigned char >( value_to_store );
""",
"""            // add new value
            *destination = static_cast< unsigned char >( value_to_store & value_mask );
""")]
FILES={"s.flatdata":"namespace n { struct S { a : u8 : 7; b : u64 : 62; c : u8 : 3; } archive A { v : vector< S >; } }\n",
"main.cpp":'''
#include "s.hpp"
#include <cstdio>
int main( )
{
    unsigned char data[ 32 ] = { };
    n::SMutator s{ data };
    s.c = 5;
    s.a = 77;
    s.b = 0x2123456789abcdefull;
    uint64_t a = s.a, b = s.b, c = s.c;
    std::printf( "%llu %llx %llu\\n", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c );
    return a == 77 && b == 0x2123456789abcdefull && c == 5 ? 0 : 1;
}
'''}
DEMO='''
gen "$here/s.flatdata" cpp "$work/s.hpp" && cxx "$here/main.cpp" && "$work/main"
'''
