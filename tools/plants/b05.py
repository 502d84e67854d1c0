ID="c05-ninth-byte-odd"; PROPERTY="C05"
NEEDS="a field that touches nine bytes and starts at an odd bit"
BREAKS="Rust reads the last byte of such a field one position too low"
EDITS=[("flatdata-rs/lib/src/bytereader.rs",
"                result |= temp << read_bits % (num_bytes * 8);\n",
"                result |= temp << (read_bits - (read_bits & 1)) % (num_bytes * 8);\n")]
DEMO='''
cat > "$work/t.rs" <<E
#[path = "$repo/flatdata-rs/lib/src/helper.rs"]
pub mod helper;
#[macro_use]
#[path = "$repo/flatdata-rs/lib/src/bytereader.rs"]
mod bytereader;
fn main() {
    // 64 bits starting at every bit
    for shift in 0..8usize {
        let v: u64 = 0xfedc_ba98_7654_3211;
        let wide = (v as u128) << shift;
        let bytes = wide.to_le_bytes();
        let got = flatdata_read_bytes!(u64, bytes.as_ptr(), shift, 64);
        assert_eq!(got, v, "at bit {}", shift);
    }
}
E
sed -i 's/^#!\\[.*//' "$work/t.rs"
rustc --edition 2018 -A warnings -o "$work/t" "$work/t.rs" && "$work/t"
'''
