ID="c33-short-write"; PROPERTY="C33"
NEEDS="a storage whose stream takes only a part of what is written at once"
BREAKS="setting a resource succeeds although a part of its data is not written"
EDITS=[("flatdata-rs/lib/src/storage.rs","    stream.write_all(data)?;\n    write_padding(stream)\n","    let _written = stream.write(data)?;\n    write_padding(stream)\n")]
FILES={"s.flatdata":"namespace n { archive A { r : raw_data; } }\n",
"short.c":'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
ssize_t write( int fd, const void* data, size_t size )
{
    static ssize_t ( *next )( int, const void*, size_t );
    struct stat s;
    if ( !next ) next = ( ssize_t( * )( int, const void*, size_t ) )dlsym( RTLD_NEXT, "write" );
    if ( fd > 2 && size > 100 && fstat( fd, &s ) == 0 && S_ISREG( s.st_mode ) ) size = 100;
    return next( fd, data, size );
}
''',
"main.rs":'''
#[path = "s.rs"]
mod s;
use flatdata::*;
fn main() {
    let data: Vec<u8> = (0..250).map(|x| x as u8).collect();
    let storage = FileResourceStorage::new(std::env::var("work_dir").unwrap());
    let builder = s::n::ABuilder::new(storage.clone()).unwrap();
    if builder.set_r(&data).is_ok() {
        let archive = s::n::A::open(storage).unwrap();
        assert_eq!(archive.r().as_bytes(), &data[..]);
    }
}
'''}
DEMO='''
gen "$here/s.flatdata" rust "$work/s.rs" || exit 1
gcc -shared -fPIC -o "$work/short.so" "$here/short.c" -ldl || exit 1
export work_dir="$work/first"
rsrun "$here/main.rs" "$work/s.rs" || exit 1
export work_dir="$work/second"
LD_PRELOAD="$work/short.so" "$work/r/target/debug/demo"
'''
