"""Compiling generated Rust code together with a driver, and talking to it."""
import fcntl
import glob
import os
import subprocess

from .. import cpp, env
from ..cpp import HarnessError, run_dir
from ..schema import WIDTH

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = "x86_64-unknown-linux-gnu"
FLAGS = "-Zsanitizer=address --cap-lints=warn -Awarnings -Cdebug-assertions=on -Coverflow-checks=on -Cdebuginfo=0"
MANIFEST = """[package]
name = "flatdata"
version = "0.0.0"
edition = "2018"
[lib]
path = "%s"
[features]
tar = ["dep:tar"]
[dependencies]
diff = { path = "%s" }
memmap2 = "0.9.4"
walkdir = "2.2.9"
tar = { version = "0.4.38", optional = true }
[workspace]
"""

def rustc():
    return ["rustc", "+nightly", "--edition", "2018", "--target", TARGET] + FLAGS.split()


def prepare():
    """The library of the working tree (with the missing diff dependency stubbed) and the driver crate."""
    d = os.path.join(run_dir(), "rust")
    os.makedirs(d, exist_ok=True)
    done = os.path.join(d, "done")
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return d
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(MANIFEST % (os.path.join(env.REPO, "flatdata-rs", "lib", "src", "lib.rs"),
                                os.path.join(HERE, "diff")))
        e = dict(os.environ, RUSTFLAGS=FLAGS, CARGO_NET_OFFLINE="true")
        p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--features", "tar", "--target", TARGET,
                            "--target-dir", os.path.join(d, "target")], cwd=d, env=e, capture_output=True, text=True,
                           timeout=500)
        if p.returncode:
            raise HarnessError("cannot build the Rust library:\n%s" % p.stderr[-3000:])
        p = subprocess.run(rustc() + ["--crate-type", "rlib", "--crate-name", "driver"] + externs(d, False) + [
            os.path.join(HERE, "driver.rs"), "-o", os.path.join(d, "libdriver.rlib")], capture_output=True, text=True,
            timeout=300)
        if p.returncode:
            raise HarnessError("cannot build the Rust driver:\n%s" % p.stderr[-3000:])
        open(done, "w").close()
    return d


def externs(d, driver=True):
    libs = glob.glob(os.path.join(d, "target", TARGET, "**", "*.rlib"), recursive=True)
    own = [p for p in libs if os.path.basename(p).startswith("libflatdata")]
    cmd = ["--extern", "flatdata=" + own[0]]
    meta = own[0][:-len("rlib")] + "rmeta"      # newer cargo keeps the metadata beside the library
    if os.path.exists(meta):
        cmd += ["--extern", "flatdata=" + meta]
    for x in sorted({os.path.dirname(p) for p in libs}):
        cmd += ["-L", "dependency=" + x]
    return cmd + (["--extern", "driver=" + os.path.join(d, "libdriver.rlib")] if driver else [])


def compile_exe(sources, name, timeout=400):
    d = prepare()
    w = os.path.join(run_dir(), "rs-" + name)
    os.makedirs(w, exist_ok=True)
    for n, text in sources.items():
        with open(os.path.join(w, n), "w") as f:
            f.write(text)
    exe = os.path.join(w, "exe")
    p = subprocess.run(rustc() + externs(d) + [os.path.join(w, "main.rs"), "-o", exe], capture_output=True, text=True,
                       timeout=timeout)
    return (exe, None) if p.returncode == 0 else (None, p.stderr)


class Driver(cpp.Driver):
    LANGUAGE = "Rust"


# --------------------------------------------------------------------------------------------
# the schema specific part of a driver

def name(path):
    return "crate::schema_gen::" + path[1:].replace(".", "::")


def camel(n):
    return "".join(p.title() for p in n.split("_"))


def field_type(ix, f):
    return f["type"] if f["type"] in WIDTH else name(f["type"])


def escape(n):
    from flatdata.generator.generators.rust import RustGenerator
    return n + "_" if n in RustGenerator.RESERVED_KEYWORDS else n


def emit_enum(ix, path):
    e = ix.items[path]
    t = "u8" if e["type"] == "bool" else e["type"]
    return """impl driver::Num for %s {
fn get(self) -> i128 { self as i128 }
fn put(v: i128) -> Self { unsafe { std::mem::transmute::<%s, Self>(v as %s) } }
}
""" % (name(path), t, t)


def optional_of(f):
    return next((d[1] for d in f["decs"] if d[0] == "opt"), None)


def emit_struct(ix, path):
    dump, fill, again = [], [], []
    lay = {n: (w, t) for n, _, w, _, t, _ in ix.layout(path)[0]}
    for f in ix.items[path]["fields"]:
        n, t = escape(f["name"]), field_type(ix, f)
        o = optional_of(f)
        dump.append("o.%s(self.%s());" % ("opt" if o else "num", n))
        value = "<%s as driver::Num>::put(%%s)" % t
        if f["type"] in WIDTH:
            from ..schema import bounds
            for extreme in bounds(lay[f["name"]][1], lay[f["name"]][0]):
                v = value % extreme
                fill.append("self.set_%s(%s);" % (n, "Some(%s)" % v if o else v))
        k = len(again)
        fill.append("let v%d = i.n();" % k)
        put = "self.set_%s(%s);" % (n, "if v%d == %d { None } else { Some(%s) }" % (k, ix.const_value(o), value % (
            "v%d" % k)) if o else value % ("v%d" % k))
        fill.append(put)
        if f["type"] in WIDTH:     # once more in reverse order, first with all bits of the type flipped
            v = value % ("!v%d" % k)
            put = "self.set_%s(%s);" % (n, "Some(%s)" % v if o else v) + put
        again.insert(0, put)
    fill += again
    for f in ix.items[path]["fields"]:
        for d in f["decs"]:
            if d[0] == "range":
                k = "opt" if optional_of(f) else "num"
                dump.append('let r = self.%s(); o.%s(r.start); o.raw(","); o.%s(r.end);' % (escape(d[1]), k, k))
    return """impl driver::Row for %s {
fn dump(&self, o: &mut driver::Out) { o.raw("["); %s o.raw("]"); }
fn fill(&mut self, i: &mut driver::In) { %s }
}
""" % (name(path), ' o.raw(",");\n'.join(dump), "\n".join(fill))


def module_of(path):
    return name(path).rsplit("::", 1)[0]


def emit_archive(ix, path):
    n = name(path)
    cls = path[1:].replace(".", "__")
    mod = module_of(path)
    dump, multi = [], []
    for i, r in enumerate(ix.items[path]["res"]):
        opt = ["optional"] in r["decs"]
        kind = r["kind"]
        show = {"raw": "o.hex(x.as_bytes());", "inst": "x.dump(o);", "vector": "driver::dump_rows(o, x);",
                "multi": "driver::dump_multi(o, x, item_%s_%d);" % (cls, i),
                "archive": "dump_%s(o, x);" % (r["types"] or [""])[0][1:].replace(".", "__")}[kind]
        dump.append('o.raw("\\"%s\\":");' % r["name"])
        if opt:
            dump.append('match a.%s() { None => o.raw("null"), Some(x) => { %s } }' % (r["name"], show))
        else:
            dump.append("{ let x = a.%s(); %s }" % (r["name"], show))
        if i + 1 < len(ix.items[path]["res"]):
            dump.append('o.raw(",");')
        if kind == "multi":
            u = camel(r["name"])
            multi.append("fn item_%s_%d<'a>(o: &mut driver::Out, x: %s::%sRef<'a>) { use flatdata::VariadicRef; "
                         "let _ = x.size_in_bytes(); match x {\n%s } }\n" % (
                             cls, i, mod, u, "\n".join(
                                 '%s::%sRef::%s(r) => { o.raw("[%d,"); r.dump(o); o.raw("]"); }' % (
                                     mod, u, variant(t, r["types"]), k) for k, t in enumerate(r["types"]))))
    members, init, ops, children = [], [], [], []
    for i, r in enumerate(ix.items[path]["res"]):
        rn, kind = r["name"], r["kind"]
        t = name(r["types"][0]) if r["types"] else None
        if kind == "archive":
            children.append('"%s" => Ok(Box::new(B_%s::wrap(self.b.%s()?))),' % (
                rn, r["types"][0][1:].replace(".", "__"), rn))
            continue
        if kind == "raw":
            ops.append('("set", "%s") => { let v = i.bytes(); driver::result(o, self.b.set_%s(&v)) }' % (rn, rn))
        elif kind == "inst":
            ops.append('("set", "%s") => { let mut v = %s::new(); v.fill(i); driver::result(o, self.b.set_%s(&v)) }' % (
                rn, t, rn))
        else:
            if kind == "vector":
                vt = "flatdata::ExternalVector<'static, %s>" % t
                grow = "v.grow().unwrap().fill(i);"
                shown = "driver::dump_rows(o, x)"
                ops.append('("set", "%s") => { let mut v = flatdata::Vector::<%s>::new(); driver::fill_vec(&mut v, i); '
                           'driver::result(o, self.b.set_%s(v.as_view())) }' % (rn, t, rn))
            else:
                vt = "flatdata::MultiVector<'static, %s::%s>" % (mod, camel(rn))
                grow = "let mut item = v.grow().unwrap(); let m = i.n(); for _ in 0..m { match i.n() { %s _ => panic!() } }" % (
                    " ".join("%d => item.add_%s().fill(i)," % (k, snake_case(variant(x, r["types"])))
                             for k, x in enumerate(r["types"])))
                shown = "driver::dump_multi(o, &x, item_%s_%d)" % (cls, i)
            members.append("v%d: Option<%s>," % (i, vt))
            init.append("v%d: None," % i)
            ops.append('("start", "%s") => { let r = self.b.start_%s(); driver::result(o, r.map(|x| { self.v%d = Some(x); })) }' % (
                rn, rn, i))
            ops.append('("grow", "%s") => { match self.v%d.as_mut() { None => driver::skipped(i, o), Some(v) => { let n = i.n(); '
                       'for _ in 0..n { %s } o.num(n as u64); } } }' % (rn, i, grow))
            ops.append('("close", "%s") => { match self.v%d.take() { None => driver::skipped(i, o), Some(v) => match v.close() { '
                       'Ok(x) => %s, Err(e) => driver::result(o, Err(e)) } } }' % (rn, i, shown))
    return multi, """pub fn dump_%(c)s(o: &mut driver::Out, a: &%(n)s) { o.raw("{"); %(dump)s o.raw("}"); }
pub fn open_%(c)s(s: flatdata::StorageHandle, o: &mut driver::Out) -> Result<(), flatdata::ResourceStorageError> {
let a = %(n)s::open(s)?; dump_%(c)s(o, &a); let _ = format!("{:?}", a); Ok(()) }
pub struct B_%(c)s { b: &'static %(n)sBuilder, %(members)s }
impl B_%(c)s { fn wrap(b: %(n)sBuilder) -> Self { B_%(c)s { b: Box::leak(Box::new(b)), %(init)s } } }
impl driver::Builder for B_%(c)s {
fn child(&self, res: &str) -> Result<Box<dyn driver::Builder>, flatdata::ResourceStorageError> { match res {
%(children)s
_ => driver::unknown(res) } }
fn op(&mut self, op: &str, res: &str, i: &mut driver::In, o: &mut driver::Out) { match (op, res) {
%(ops)s
_ => driver::unknown(op) } }
}
pub fn build_%(c)s(s: flatdata::StorageHandle) -> Result<Box<dyn driver::Builder>, flatdata::ResourceStorageError> {
Ok(Box::new(B_%(c)s::wrap(%(n)sBuilder::new(s)?))) }
""" % {"c": cls, "n": n, "dump": "\n".join(dump), "members": "\n".join(members), "init": " ".join(init),
       "children": "\n".join(children), "ops": "\n".join(ops)}


def snake_case(n):
    import re
    step = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", n)
    return step.lower()


def variant(path, paths):
    """Name of a type within a multivector: with its namespace if another type has the same name."""
    ns, n = path[1:].rsplit(".", 1)
    alike = [p for p in paths if snake_case(p.rsplit(".", 1)[1]) == snake_case(n)]
    return n if len(alike) == 1 else camel(ns.replace(".", "_")) + n


def emit_driver(ix, more="", extra="driver::unknown(c)"):
    out = ["#![allow(warnings)]\n#[path = \"gen.rs\"]\nmod schema_gen;\nuse driver::Row;\n"]
    for p in ix.of("enum"):
        out.append(emit_enum(ix, p))
    for p in ix.of("struct"):
        out.append(emit_struct(ix, p))
    for p in ix.of("archive"):
        multi, text = emit_archive(ix, p)
        out += multi + [text]
    out.append(more)
    out.append("fn extra(c: &str, i: &mut driver::In, o: &mut driver::Out) { %s }\n" % extra)
    out.append("fn main() { let mut m: std::collections::BTreeMap<&str, (driver::Open, driver::Build)> = Default::default();\n")
    for p in ix.of("archive"):
        c = p[1:].replace(".", "__")
        out.append('m.insert("%s", (open_%s, build_%s));\n' % (p, c, c))
    out.append("driver::run(m, extra);\n}\n")
    return "".join(out)


def compile_schema(schema_text, ix, tag, **kw):
    """(Driver, None) or (None, compiler output)"""
    from flatdata.generator.engine import Engine
    code = Engine(schema_text).render("rust")
    exe, err = compile_exe({"gen.rs": code, "main.rs": emit_driver(ix, **kw)}, tag)
    return (Driver(exe), None) if exe else (None, err)


# --------------------------------------------------------------------------------------------
# converting values

def row(ix, path, got, problems, where):
    """(values, [(field index, start, end)])"""
    fields = ix.items[path]["fields"]
    values = []
    for f, g in zip(fields, got):
        o = optional_of(f)
        if o is not None:
            c = ix.const_value(o)
            if g is None:
                g = c
            elif g == c:
                problems.append("%s: %s is Some of the value that stands for absent (%d)" % (where, f["name"], c))
        values.append(g)
    ranges, k = [], len(fields)
    for i, f in enumerate(fields):
        for d in f["decs"]:
            if d[0] == "range":
                ranges.append((i, got[k], got[k + 1]))
                k += 2
    return tuple(values), ranges


def resource_view(ix, path, r, g, full, problems):
    """The dumped resource in the shape of reference data; ranges are compared with the full data."""
    where = path + "." + r["name"]
    if g is None:
        return None
    if r["kind"] == "raw":
        return bytes.fromhex(g)
    if r["kind"] == "inst":
        return row(ix, r["types"][0], g, problems, where)[0]
    if r["kind"] == "archive":
        return view_data(ix, r["types"][0], g, full or {}, problems)
    if not g["it"]:
        problems.append("%s: index, iteration, slices and length disagree" % where)
    if r["kind"] == "vector":
        rows = [row(ix, r["types"][0], x, problems, where) for x in g["v"]]
        for i, (_, ranges) in enumerate(rows):
            for k, a, b in ranges:
                if full is not None and i + 1 < len(full) and (a, b) != (full[i][k], full[i + 1][k]):
                    problems.append("%s[%d]: range %s..%s, expected %s..%s" % (where, i, a, b, full[i][k], full[i + 1][k]))
        return [v for v, _ in rows]
    return [[(t, row(ix, r["types"][t], x, problems, where)[0]) for t, x in item] for item in g["v"]]


def view_data(ix, path, got, full, problems):
    return {r["name"]: resource_view(ix, path, r, got[r["name"]], full.get(r["name"]), problems)
            for r in ix.items[path]["res"]}
