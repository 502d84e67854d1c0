"""C34: the Rust build helper generates exactly one file per schema."""
import fcntl
import functools
import os
import shutil
import subprocess

from fv import cpp, env, gen, rust, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

MAIN = r"""
fn main() {
    let a: Vec<std::ffi::OsString> = std::env::args_os().collect();
    let line = match std::panic::catch_unwind(|| flatdata::generate(std::path::Path::new(&a[1]), std::path::Path::new(&a[2]))) {
        Err(_) => "panic".to_string(),
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(e)) => {
            let _ = format!("{:?}", e);
            let text = e.to_string();
            match e {
                flatdata::GeneratorError::PythonError(_) => format!("python\n{}", text),
                flatdata::GeneratorError::Io(_) => format!("io\n{}", text),
                flatdata::GeneratorError::Failure { schema, destination, .. } =>
                    format!("failure\n{}\n{}\n{}", schema.display(), destination.display(), text),
            }
        }
    };
    std::fs::write(&a[3], line).unwrap();
}
"""

# stands in for the generator: the first line of the schema tells what happens
GENERATOR = r"""#!/bin/sh
schema= out= gen=
while [ $# -gt 0 ]; do
  case "$1" in
    -s|--schema) schema="$2"; shift;;
    -O|--output-file) out="$2"; shift;;
    -g|--gen) gen="$2"; shift;;
    *) gen="unknown argument $1";;
  esac
  shift
done
printf '%s\t%s\t%s\n' "$gen" "$schema" "$out" >> "$FAKE_LOG"
read -r what how rest < "$schema"
case "$what" in
  fail) printf 'part' > "$out"; exit "$how";;
  refuse) exit "$how";;
  kill) kill -9 $$;;
esac
{ echo "made from"; /bin/cat "$schema"; } > "$out"
"""
# stands in for python3 -m venv: provides a pip3 that provides the generator
PYTHON = r"""#!/bin/sh
printf 'venv\t%s\t%s\n' "$1 $2" "$3" >> "$FAKE_LOG"
/bin/mkdir -p "$3/bin"
/bin/cp "$FAKE_HOME/pip3" "$3/bin/pip3"
"""
PIP = r"""#!/bin/sh
for last; do :; done
printf 'pip\t%s\t%s\n' "$1" "$last" >> "$FAKE_LOG"
/bin/cp "$FAKE_HOME/flatdata-generator" "${0%/pip3}/flatdata-generator"
"""

NAMES = ["a", "b", "a.b", "my schema", "\u00e4", ".hidden", "x.rs", "flatdata", "A"]
ENDINGS = [".flatdata"] * 5 + ["", ".rs", ".FLATDATA", ".flatdata.bak", ".flatdata_", ".txt"]
BEHAVIOUR = ["ok"] * 12 + ["fail 1", "refuse 3", "fail 255", "kill"]


@st.composite
def trees(draw, depth=0):
    """name -> content of a file or the next tree"""
    out = {}
    for _ in range(draw(st.integers(0 if depth else 1, 4))):
        name = draw(st.sampled_from(NAMES))
        if depth < 3 and draw(st.integers(0, 3)) == 0:
            name += draw(st.sampled_from(["", "", "", ".flatdata", ".d"]))
            if name not in out:
                out[name] = draw(trees(depth + 1))
        else:
            name += draw(st.sampled_from(ENDINGS))
            if name not in out:
                out[name] = " @%d\n" % draw(st.integers(0, 99))
    return out


def behave(tree, choose):
    return {n: behave(c, choose) if isinstance(c, dict) else choose() + c for n, c in tree.items()}


@st.composite
def cases(draw):
    tree = draw(trees())
    # in most cases nothing fails, in some a few schemas do
    if draw(st.integers(0, 3)) == 0:
        tree = behave(tree, lambda: draw(st.sampled_from(BEHAVIOUR)))
    else:
        tree = behave(tree, lambda: "ok")
    paths = sorted(files_of(tree))
    case = {"tree": tree, "root": draw(st.sampled_from(["schemas", "s.flatdata", "some schemas", "a/b"])),
            "form": draw(st.sampled_from(["absolute", "absolute", "slash", "relative", "dot", "link"])),
            "out": draw(st.sampled_from(["out", "out", "out.d", "o/u/t", "inside"])),
            "out_form": draw(st.sampled_from(["absolute", "relative", "slash"])),
            "single": draw(st.sampled_from(paths)) if paths and draw(st.integers(0, 4)) == 0 else None,
            "stale": draw(st.lists(st.sampled_from(paths + ["other"]), max_size=3, unique=True)),
            "generator": draw(st.sampled_from(["given"] * 8 + ["missing", "venv", "venv source", "no python"])),
            "gone": draw(st.integers(0, 24)) == 0}
    case["gone"] = case["gone"] and case["out"] != "inside"
    return case


def files_of(tree, prefix=""):
    out = {}
    for n, c in tree.items():
        if isinstance(c, dict):
            out.update(files_of(c, prefix + n + "/"))
        else:
            out[prefix + n] = c
    return out


def write_tree(path, tree):
    os.makedirs(path, exist_ok=True)
    for n, c in tree.items():
        p = os.path.join(path, n)
        if isinstance(c, dict):
            write_tree(p, c)
        else:
            with open(p, "w") as f:
                f.write(c)


def read_tree(path):
    out = {}
    for d, _, names in os.walk(path):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, path)] = f.read()
    return out


def is_schema(path):
    base = path.rsplit("/", 1)[-1]
    return base.endswith(".flatdata") and base != ".flatdata"


@functools.lru_cache(None)
def exe():
    d = cpp.run_dir()
    with open(os.path.join(d, "c34.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        path = os.path.join(d, "rs-c34", "exe")
        if not os.path.exists(path):
            path, err = rust.compile_exe({"main.rs": MAIN}, "c34")
            if path is None:
                raise cpp.HarnessError("cannot build the program that calls the build helper:\n%s" % err[-3000:])
    return path


def spell(path, form, base):
    if form == "slash":
        return path + "/"
    if form == "relative":
        return os.path.relpath(path, base)
    if form == "dot":
        return "./" + os.path.relpath(path, base)
    return path


def call(base, schemas, out, extra, real=None):
    home = os.path.join(base, "home")
    os.makedirs(home)
    for n, text in [("flatdata-generator", real or GENERATOR), ("pip3", PIP), ("bin/python3", PYTHON)]:
        p = os.path.join(home, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)
        os.chmod(p, 0o755)
    log, answer = os.path.join(base, "log"), os.path.join(base, "answer")
    e = {k: v for k, v in os.environ.items() if not k.startswith("FLATDATA_")}
    # nothing but the stand-ins can be found
    e.update({"PATH": os.path.join(home, "bin"), "FAKE_LOG": log, "FAKE_HOME": home, "ASAN_OPTIONS": "detect_leaks=0"}, **extra)
    p = subprocess.run([exe(), schemas, out, answer], cwd=base, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       stdin=subprocess.DEVNULL, timeout=60)
    require(os.path.exists(answer), "the helper ended the program with status %s: %s", p.returncode,
            show(p.stderr.decode(errors="replace")))
    with open(answer) as f:
        got = f.read().split("\n")
    calls = []
    if os.path.exists(log):
        with open(log) as f:
            calls = [l.split("\t") for l in f.read().splitlines()]
    changed = {l.split("=", 1)[1] for l in p.stdout.decode().splitlines() if l.startswith("cargo:rerun-if-changed=")}
    return got, calls, changed


def normal(base, path):
    return os.path.normpath(os.path.join(base, path))


def check(case, rec):
    base = os.path.realpath(env.scratch("c34"))
    try:
        root = os.path.join(base, case["root"])
        write_tree(root, case["tree"])
        out = os.path.join(root, "out") if case["out"] == "inside" else os.path.join(base, case["out"])
        files = files_of(case["tree"])
        if case["single"] is None:
            given, form = root, case["form"]
            want = {p: p[:-len("flatdata")] + "rs" for p in files if is_schema(p)}
        else:
            given = os.path.join(root, case["single"])
            form = "absolute" if case["form"] == "slash" else case["form"]
            p = case["single"]
            want = {p: p.rsplit("/", 1)[-1][:-len("flatdata")] + "rs"} if is_schema(p) else {}
        if form == "link":
            link = os.path.join(base, "link" + os.path.splitext(given)[1])
            os.symlink(given, link)
            if case["single"] is not None:
                # the file is known by the name of the link
                want = {p: "link.rs" for p in want}
            spelled = link
        else:
            spelled = spell(given, form, base)
        if case["gone"]:
            shutil.rmtree(root)
            files, want = {}, {}
        stale = {}
        for p in case["stale"]:
            p = p[:-len("flatdata")] + "rs" if is_schema(p) else p
            target = os.path.join(out, p)
            # only where no directory or schema of the input is in the way
            if case["out"] != "inside" and not os.path.isdir(target):
                os.makedirs(os.path.dirname(target), exist_ok=True)
                with open(target, "w") as f:
                    f.write("old")
                stale[p] = b"old"
        before = read_tree(root) if not case["gone"] else {}
        extra = {}
        kind = case["generator"]
        home = os.path.join(base, "home")
        if kind in ("given", "missing"):
            extra["FLATDATA_GENERATOR_BIN"] = os.path.join(home, "flatdata-generator" if kind == "given" else "nothing")
        elif kind == "no python":
            extra["PATH"] = os.path.join(base, "nowhere")
        elif kind == "venv source":
            os.makedirs(os.path.join(base, "source", "sub"))
            extra["FLATDATA_GENERATOR_PATH"] = os.path.join("source", "sub", "..")
        got, calls, changed = call(base, spelled, spell(out, case["out_form"], base), extra)
        judge(case, rec, base, root, out, files, want, stale, before, got, calls, changed, kind, spelled, form)
    finally:
        env.rmtree(base)


def judge(case, rec, base, root, out, files, want, stale, before, got, calls, changed, kind, spelled, form):
    def schema_path(p):
        if case["single"] is not None:
            return normal(base, spelled)
        return normal(base, os.path.join(spelled, p))

    require(got[0] != "panic", "the helper panics")
    present = read_tree(out) if os.path.exists(out) else {}
    if case["out"] == "inside":
        inside = {os.path.relpath(os.path.join(root, p), out): c for p, c in before.items() if p.startswith("out/")}
        stale = dict(stale, **inside)
    produced = {p: c for p, c in present.items() if stale.get(p) != c and not (kind.startswith("venv") and p.startswith("bin/"))}
    elsewhere = {p: c for p, c in read_tree(root).items() if not (case["out"] == "inside" and p.startswith("out/"))}
    require(elsewhere == {p: c for p, c in before.items() if not (case["out"] == "inside" and p.startswith("out/"))},
            "the folder of schemas was changed: %s", sorted(set(elsewhere) ^ set(before)))
    lost = {p for p in stale if p not in present}
    require(not lost, "files disappeared from the output folder: %s", sorted(lost))
    if kind == "no python":
        require(got[0] == "python", "no python3 gives %s", got)
        require(not calls and not produced, "something ran without python: %s", calls)
        rec.label("no python")
        return
    setup = [c for c in calls if c[0] in ("venv", "pip")]
    runs = [c for c in calls if c[0] not in ("venv", "pip")]
    if kind.startswith("venv"):
        require(len(setup) == 2 and setup[0][0] == "venv" and setup[0][1] == "-m venv" and
                normal(base, setup[0][2]) == normal(base, out), "installing the generator ran %s", setup)
        require(setup[1][1] == "install" and (setup[1][2] == os.path.join(base, "source") if kind == "venv source" else
                                              setup[1][2].split("==")[0] == "flatdata-generator"),
                "installing the generator ran %s", setup)
        if kind == "venv source":
            require(os.path.join(base, "source") in changed, "changes of the generator are not announced to cargo: %s", changed)
    else:
        require(not setup, "a given generator is installed again: %s", setup)
    # every call of the generator is for a schema and its place in the output folder
    targets = {schema_path(p): normal(base, os.path.join(out, r)) for p, r in want.items()}
    seen = []
    for g, s, o in runs:
        require(g == "rust", "the generator is called for %r", g)
        s, o = normal(base, s), normal(base, o)
        require(s in targets, "the generator is called with %s, which is not one of %s", s, sorted(targets))
        require(o == targets[s], "%s is generated to %s, expected %s", s, o, targets[s])
        seen.append(s)
    require(len(set(seen)) == len(seen), "a schema is generated twice: %s", seen)
    good = {r: b"made from\n" + files[p].encode() for p, r in want.items() if files[p].startswith("ok")}
    failing = {schema_path(p): r for p, r in want.items() if not files[p].startswith("ok")} if kind != "missing" else \
        {schema_path(p): r for p, r in want.items()}
    for p, c in produced.items():
        require(p in good and good[p] == c or c == b"part" and p in failing.values(),
                "the output folder has %s with %s, which no schema leads to", p, show(c))
    if case["gone"]:
        require(got[0] == "io", "a missing folder of schemas gives %s", got)
        rec.label("schemas missing")
        return
    if not failing:
        require(got[0] == "ok", "generating %s gives %s", sorted(want), got)
        require(set(seen) == set(targets), "not generated: %s", sorted(set(targets) - set(seen)))
        require({p: present.get(p) for p in good} == good, "output folder holds\n%s\nexpected\n%s", show(present), show(good))
        missing = set(targets) - {normal(base, c) for c in changed}
        require(not missing, "changes of %s are not announced to cargo", sorted(missing))
        rec.nontrivial(len(want) > 1 or case["single"] is not None)
        rec.label("schemas:%d" % min(len(want), 4))
    else:
        require(got[0] == "failure", "a failing generator gives %s", got)
        s, o = normal(base, got[1]), normal(base, got[2])
        require(s in failing, "the error names %s, but these fail: %s", s, sorted(failing))
        require(o == targets[s], "the error names the destination %s, expected %s", o, targets[s])
        require(got[1] in "\n".join(got[3:]), "the message does not name the schema: %s", got[3:])
        rec.nontrivial()
        rec.label("failing")
    rec.label("form:" + form)
    rec.label("generator:" + kind)


# --------------------------------------------------------------------------------------------
# with the generator of the working tree

REAL = """#!/bin/sh
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s exec %s %s/flatdata-generator/generator.py "$@"
""" % (os.path.join(env.REPO, "flatdata-generator"), env.PYTHON, env.REPO)


@st.composite
def real_cases(draw):
    n = draw(st.integers(1, 3))
    texts = [schema.to_text(draw(gen.schemas(gen.Opt(**gen.RUST))), schema.Style([])) for _ in range(n)]
    return {"texts": texts, "broken": draw(st.integers(0, 3)) == 0}


def check_real(case, rec):
    from flatdata.generator.engine import Engine
    base = os.path.realpath(env.scratch("c34"))
    try:
        root, out = os.path.join(base, "schemas"), os.path.join(base, "out")
        tree = {"s%d.flatdata" % i if i % 2 else "d/s%d.flatdata" % i: t for i, t in enumerate(case["texts"])}
        for n, t in tree.items():
            os.makedirs(os.path.dirname(os.path.join(root, n)), exist_ok=True)
            with open(os.path.join(root, n), "w") as f:
                f.write(t)
        if case["broken"]:
            with open(os.path.join(root, "broken.flatdata"), "w") as f:
                f.write("namespace n { struct S { a : nothing; } }")
        got, _, _ = call(base, root, out, {"FLATDATA_GENERATOR_BIN": os.path.join(base, "home", "flatdata-generator")}, REAL)
        present = read_tree(out) if os.path.exists(out) else {}
        want = {n[:-len("flatdata")] + "rs": Engine(t).render("rust").encode() for n, t in tree.items()}
        if case["broken"]:
            require(got[0] == "failure" and got[1] == os.path.join(root, "broken.flatdata"), "a broken schema gives %s", got)
            for p, c in present.items():
                require(want.get(p) == c, "%s holds %s, not what the generator gives", p, show(c))
        else:
            require(got[0] == "ok", "valid schemas give %s", got)
            require(present == want, "output folder holds %s, expected %s (or with other content)", sorted(present), sorted(want))
        rec.nontrivial()
        rec.label("broken" if case["broken"] else "valid")
    finally:
        env.rmtree(base)


CHECK = Check(
    "C34",
    "tree: a case is a tree of files and folders with many kinds of names and endings, a spelling of its path (absolute, relative, "
    "through a link, a single file), an output folder with or without old files, and what the generator does for each schema; "
    "the generator, pip and python are stand-ins that log their calls. Non-trivial when several schemas (or a single file) are "
    "generated or one fails. real: the generator of the working tree, compared with its engine.",
    [Part("tree", cases, check, 1500, 20000,
          regressions=[{"tree": {"a.flatdata": "ok @1\n", "d.flatdata": {"b.flatdata": "ok @2\n"}}, "root": "s.flatdata",
                        "form": "absolute", "out": "out", "out_form": "absolute", "single": None, "stale": [],
                        "generator": "given", "gone": False}]),
     Part("real", real_cases, check_real, 24, 300, case_timeout=120)],
    assumptions=["links below the folder of schemas are not part of the property, nor is the order in which schemas are handled"])
