ID="c22-broken-signature"; PROPERTY="C22"
NEEDS="a Rust builder over an archive of another schema, or whose signature was not written completely"
BREAKS="the builder opens and overwrites the signature of the archive that is there"
EDITS=[("flatdata-rs/lib/src/storage.rs","        if storage.exists(&signature_name) {\n","        if storage.read(&signature_name, schema).is_ok() {\n")]
FILES={"s.flatdata":"namespace n { archive A { r : raw_data; } }\n","t.flatdata":"namespace n { archive A { r : raw_data; t : raw_data; } }\n",
"main.rs":'''
#[path = "s.rs"]
mod s;
#[path = "t.rs"]
mod t;
use flatdata::*;
fn main() {
    let storage = MemoryResourceStorage::new("/x");
    s::n::ABuilder::new(storage.clone()).unwrap().set_r(b"abc").unwrap();
    assert!(s::n::ABuilder::new(storage.clone()).is_err());
    assert!(t::n::ABuilder::new(storage.clone()).is_err());
    assert!(s::n::A::open(storage).is_ok());
}
'''}
DEMO='''
gen "$here/s.flatdata" rust "$work/s.rs" && gen "$here/t.flatdata" rust "$work/t.rs" && rsrun "$here/main.rs" "$work/s.rs" "$work/t.rs"
'''
