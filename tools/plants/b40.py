ID="c28-lone-range"; PROPERTY="C28"
NEEDS="an external vector of a structure with a range that has exactly one element waiting when it is closed"
BREAKS="the last element (the sentinel) of the vector is not written"
EDITS=[("flatdata-rs/lib/src/vector.rs",
"        if self.data.len() > 0 || self.len == 0 {\n", "        if !self.data.as_view().is_empty() || self.len == 0 {\n")]
FILES={"s.flatdata":"namespace n { struct S { @range( r ) first : u32; x : u8; } archive A { v : vector< S >; } }\n",
"main.rs":'''
#[allow(warnings)]
mod s { include!("s.rs"); }
use flatdata::{MemoryResourceStorage};
use s::n;
fn main() {
    for count in 1..4u32 {
        let storage = MemoryResourceStorage::new("/a");
        let builder = n::ABuilder::new(storage.clone()).expect("builder");
        {
            let mut v = builder.start_v().expect("start");
            for i in 0..count {
                let s = v.grow().expect("grow");
                s.set_first(7 * i);
                s.set_x(i as u8);
            }
            v.close().expect("close");
        }
        let a = n::A::open(storage).expect("open");
        assert_eq!(a.v().len(), count as usize - 1);
        for (i, s) in a.v().iter().enumerate() {
            assert_eq!(s.r(), 7 * i as u32..7 * i as u32 + 7);
        }
    }
}
'''}
DEMO='''
gen "$here/s.flatdata" rust "$work/s.rs" && rsrun "$here/main.rs" "$work/s.rs"
'''
