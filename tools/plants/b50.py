ID="c34-killed"; PROPERTY="C34"
NEEDS="a generator that is killed by a signal, so that there is no exit code"
BREAKS="the helper succeeds although a schema was not generated"
EDITS=[("flatdata-rs/lib/src/generator.rs","        if exit_code != Some(0) {\n","        if exit_code.map_or(false, |code| code != 0) {\n")]
FILES={"main.rs":'''
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let _ = a;
    let work = std::env::var("work_dir").unwrap();
    let result = flatdata::generate(format!("{}/schemas", work), format!("{}/out", work));
    std::process::exit(if result.is_err() { 0 } else { 1 });
}
'''}
DEMO='''
export work_dir="$work"
mkdir -p "$work/schemas" "$work/out"
echo "namespace n { struct S { a : u8; } }" > "$work/schemas/s.flatdata"
printf '#!/bin/sh\\nkill -9 $$\\n' > "$work/generator"
chmod +x "$work/generator"
export FLATDATA_GENERATOR_BIN="$work/generator"
rsrun "$here/main.rs"
'''
