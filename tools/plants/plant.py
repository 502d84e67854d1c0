"""plant.py DEF.py [--notest]: DEF defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (sh body), FILES={name:text}"""
import sys, os, subprocess, json, runpy
PRE = '''#!/bin/bash
# exits 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$repo/flatdata-generator:$repo/flatdata-py" PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
gen() { "$py" "$repo/flatdata-generator/generator.py" -s "$1" -g "$2" -O "$3"; }
cxx() { g++ -std=c++17 -O1 -w -I "$repo/flatdata-cpp/include" -I "$work" -o "$work/main" "$@" "$repo"/flatdata-cpp/src/*.cpp -lboost_filesystem -lboost_system -lpthread; }
rsrun() { # main.rs and what lies beside it, against the library of the repository
  mkdir -p "$work/r/src" "$work/r/diff/src" "$work/r/lib" && cp "$@" "$work/r/src"
  printf '[package]\\nname = "diff"\\nversion = "0.1.13"\\nedition = "2018"\\n' > "$work/r/diff/Cargo.toml"
  echo "pub enum Result<T> { Left(T), Both(T, T), Right(T) } pub fn lines<'a>(_: &'a str, _: &'a str) -> Vec<Result<&'a str>> { Vec::new() }" > "$work/r/diff/src/lib.rs"
  printf '[package]\\nname = "flatdata"\\nversion = "0.0.0"\\nedition = "2018"\\n[lib]\\npath = "%s"\\n[features]\\ntar = []\\n[dependencies]\\ndiff = { path = "../diff" }\\nmemmap2 = "0.9.4"\\nwalkdir = "2.2.9"\\n' "$repo/flatdata-rs/lib/src/lib.rs" > "$work/r/lib/Cargo.toml"
  printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2018"\\n[dependencies]\\nflatdata = { path = "lib" }\\n[profile.dev]\\nopt-level = 1\\n[workspace]\\n' > "$work/r/Cargo.toml"
  (cd "$work/r" && RUSTFLAGS="--cap-lints=warn -Awarnings" cargo run --offline -q)
}
'''
def sh(c, **k): return subprocess.run(c, shell=True, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
    d = runpy.run_path(f)
    out = '/verif/seeded/' + d['ID']; os.makedirs(out, exist_ok=True)
    assert not sh('git status --porcelain').stdout.strip()
    for name, text in d.get('FILES', {}).items(): open(os.path.join(out, name), 'w').write(text)
    demo = PRE + d['DEMO'].strip('\n') + '\n'
    open(out + '/demo.sh', 'w').write(demo); os.chmod(out + '/demo.sh', 0o755)
    json.dump({"property": d['PROPERTY'], "needs": d['NEEDS'], "what_it_breaks": d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    if '--notest' not in sys.argv:
        if sh('test -e flatdata-generator/flatdata/generator/app.py').returncode: raise SystemExit('?')
    clean = sh('bash %s/demo.sh' % out)
    try:
        for p, old, new in d['EDITS']:
            t = open('/repo/' + p).read(); assert t.count(old) == 1, (p, t.count(old), old)
            open('/repo/' + p, 'w').write(t.replace(old, new))
        open(out + '/patch.diff', 'w').write(sh('git diff').stdout)
        bad = sh('bash %s/demo.sh' % out)
        msg = '%s: clean=%d planted=%d' % (d['ID'], clean.returncode, bad.returncode)
        if clean.returncode: msg += '\nCLEAN OUTPUT ' + clean.stdout[-1500:]
        if not bad.returncode or 1: msg += '\n   planted says: ' + bad.stdout[-300:].replace('\n', ' | ')
        if '--notest' not in sys.argv and not clean.returncode and bad.returncode:
            msg += '\n   tests: ' + sh('bash /tmp/rt.sh').stdout.strip()
        print(msg, flush=True)
    finally:
        sh('git checkout -- .')
if '--notest' not in sys.argv: sh('bash /opt/vp/build.sh')
