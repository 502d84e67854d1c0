"""C06: generated Go code reads the documented archive format."""
import copy

from fv import batch, env, gen, golang, layout, schema
from fv.core import Check, Custom, Part, Violation, require, show
from hypothesis import strategies as st

from checks.c02 import shape

OPT = dict(max_structs=5, max_fields=8, max_archives=3, max_resources=6, max_blocks=3, one_root=True, nested_ns=False, optional_archives=False)

GO_TYPE = dict({p + w: q + w for p, q in (("i", "int"), ("u", "uint")) for w in ("8", "16", "32", "64")}, bool="uint8")


def go_ready(s):
    """Sub-archives are named like their type (see K07)."""
    s = copy.deepcopy(s)
    for b in s["blocks"]:
        for item in b["items"]:
            if item["k"] == "archive":
                seen, res = set(), []
                for r in item["res"]:
                    if r["kind"] == "archive":
                        r["name"] = r["types"][0].rsplit(".", 1)[1]
                        if len(res) % 2:
                            r["name"] = r["name"][0].lower() + r["name"][1:]
                    if r["name"].lower() not in seen:
                        seen.add(r["name"].lower())
                        res.append(r)
                item["res"] = res
                names = {r["name"] for r in res}
                item["bound"] = [[n, [x for x in rs if x in names]] for n, rs in item["bound"] if names & set(rs)]
    return s


@st.composite
def schemas(draw):
    return {"schema": go_ready(draw(gen.schemas(gen.Opt(**OPT)))), "noise": draw(gen.noise)}


def compile_go(text, ix, name, case):
    driver, err = golang.compile_schema(text, ix, name)
    if err:
        raise Violation("the generated Go code does not compile:\n%s" % err[:2000])
    return driver


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path))}


def attributes(ix, path):
    lay, _ = ix.layout(path)
    return [{"name": n, "offset": off, "width": w, "is_signed": signed} for n, off, w, signed, _, _ in lay]


class Reader:
    """Compares a dump with what the files hold."""

    def __init__(self, ix, rec, what):
        self.ix, self.rec, self.what = ix, rec, what

    def row(self, path, got, want, where):
        values, text = got
        fields = [f["name"] for f in self.ix.items[path]["fields"]]
        require(tuple(values) == tuple(want), "%s: %s reads %s, stored are %s", self.what, where, values, want)
        shown = {k: int(v) for k, v in (text.get("attributes") or {}).items()}
        require(text.get("name") == path.rsplit(".", 1)[1] and shown == dict(zip(fields, want)),
                "%s: %s is described as %s", self.what, where, text)

    def types(self, got, paths, where):
        want = [{"name": golang.short(p), "attributes": attributes(self.ix, p)} for p in paths]
        require(got == want, "%s: the element types of %s are given as %s", self.what, where, got)

    def multi(self, r, got, want, where):
        items = got["v"]
        if len(items) == len(want) + 1 and items[-1] == []:
            self.rec.known("K08", "%s: multivector %s of %d items has another, empty one" % (self.what, where, len(want)))
            items = items[:-1]
        require(len(items) == len(want), "%s: %s has %d items instead of %d", self.what, where, len(items), len(want))
        for i, (have, item) in enumerate(zip(items, want)):
            require([t for t, _ in have] == [t for t, _ in item], "%s: %s[%d] holds the types %s instead of %s", self.what,
                    where, i, [t for t, _ in have], [t for t, _ in item])
            for k, ((t, x), (_, values)) in enumerate(zip(have, item)):
                self.row(r["types"][t], x, values, "%s[%d][%d]" % (where, i, k))

    def archive(self, path, got, files, data, prefix=""):
        ix, rec = self.ix, self.rec
        total, complete = 0, True
        for r in ix.items[path]["res"]:
            name, g, where = r["name"], got["res"][r["name"]], prefix + r["name"]
            if r["kind"] == "archive":
                total += self.archive(r["types"][0], g, files, data[name], where + "/")
                complete = complete and "panic" not in g["text"]
                require(g["open"] == 1 and g["optional"] == 0, "%s: %s is [open, optional] %s", self.what, where,
                        [g["open"], g["optional"]])
                continue
            optional = ["optional"] in r["decs"]
            require(g["optional"] == int(optional), "%s: %s is optional: %s", self.what, where, g["optional"])
            want = data[name]
            if want is None:
                complete = False
                require(g["v"] is None, "%s: %s is not stored, but read as %s", self.what, where, g["v"])
                continue
            require(g["v"] is not None, "%s: %s is stored, but not open", self.what, where)
            size = len(files[prefix + name])
            total += size
            text = g["text"]
            require(g["bytes"] == size == text["size_in_bytes"], "%s: %s has %s bytes, its file %d", self.what, where,
                    [g["bytes"], text["size_in_bytes"]], size)
            require(g["size"] == text["size"], "%s: the size of %s is %s", self.what, where, [g["size"], text["size"]])
            if r["kind"] == "raw":
                require(bytes.fromhex(g["v"]) == want and g["size"] == len(want), "%s: %s reads %s, stored are %s",
                        self.what, where, show(g["v"]), show(want))
                continue
            self.types(text["element_types"], r["types"], where)
            if r["kind"] == "inst":
                self.row(r["types"][0], g["v"], want, where)
            elif r["kind"] == "vector":
                require(len(g["v"]) == len(want) == g["size"], "%s: %s has %d elements instead of %d", self.what, where,
                        len(g["v"]), len(want))
                for i, (x, y) in enumerate(zip(g["v"], want)):
                    self.row(r["types"][0], x, y, "%s[%d]" % (where, i))
                n = len(want)
                spans = [(0, n - 1, 1), (0, n - 1, 2), (n // 2, n - 1, 1), (0, n // 2, 3)] if n else []
                require(len(g["slices"]) == len(spans), "%s: slices %s", where, g["slices"])
                for (a, b, step), part in zip(spans, g["slices"]):
                    require([tuple(x[0]) for x in part] == [tuple(v) for v in want[a:b + 1:step]],
                            "%s: slice %d to %d step %d of %s is %s", self.what, a, b, step, where, part)
            else:
                self.multi(r, g, want, where)
        require(got["bytes"] == total, "%s: %s has %d bytes, its files %d", self.what, prefix or path, got["bytes"], total)
        if "panic" in got["text"] and not complete:
            rec.known("K11", "%s: describing %s, which lacks a resource, panics: %s" % (self.what, prefix or path, show(got["text"])))
        else:
            text = got["text"]
            require(text.get("name") == golang.short(path) and text.get("size_in_bytes") == total
                    and len(text["resources"]) == len(ix.items[path]["res"]), "%s: %s is described as %s", self.what,
                    prefix or path, show(text))
        return total


def single_types(ix, path, data):
    """Items of multivectors with at most one element of each type (see K09)."""
    out = {}
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        if r["kind"] == "multi" and v is not None:
            v = [list({t: (t, x) for t, x in item}.values()) for item in v]
        elif r["kind"] == "archive" and v is not None:
            v = single_types(ix, r["types"][0], v)
        out[r["name"]] = v
    return out


def has_children(ix, path):
    return any(r["kind"] == "archive" for r in ix.items[path]["res"])


def check(driver, ix, case, sub, rec):
    path = sub["archive"]
    data = single_types(ix, path, sub["data"])
    files = layout.archive_files(ix, path, data)
    d = env.scratch("c06")
    try:
        layout.write_files(d, files)
        for kind in ("file", "mem"):
            if kind == "mem" and has_children(ix, path):
                continue
            got = driver.ask("%s %s %s" % (path, kind, d))
            what = "Go (%s)" % kind
            require("data" in got, "%s: opening gives %s", what, show(got))
            Reader(ix, rec, what).archive(path, got["data"], files, data)
            require(got["closed"] == 0, "%s: a closed archive occupies %s bytes", what, got["closed"])
        got = driver.ask("consts")
        for p in ix.of("const"):
            item = ix.items[p]
            t = GO_TYPE[item["type"]]
            require(got[p] == [t, item["value"]], "Go: constant %s (%s %s) is %s", p, item["type"], item["value"], got[p])
    finally:
        env.rmtree(d)
    rec.nontrivial(shape(rec, ix, path, data))


FAULTS = ["remove", "remove schema", "empty schema", "alter schema", "short"]


@st.composite
def fault_cases(draw, ix):
    paths = [p for p in ix.of("archive") if ix.items[p]["res"]] or ix.of("archive")
    path = gen.pick(draw, paths)
    return {"archive": path, "data": draw(gen.archive_data(ix, path)),
            "faults": draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(FAULTS), st.integers(0, 200)), max_size=3))}


def damage(files, fault):
    """Applies one fault to a resource file (or the index of a multivector)"""
    which, kind, n = fault
    names = sorted(f for f in files if not f.endswith(".schema") and not f.endswith(".archive"))
    if not names:
        return files, None
    name = names[which % len(names)]
    files = dict(files)
    s = name + ".schema"
    if kind == "remove":
        del files[name]
    elif kind == "short":
        files[name] = files[name][:n % 16]
    elif kind == "remove schema":
        files.pop(s, None)
    elif kind == "empty schema":
        files[s] = b""
    else:
        text = files.get(s)
        if not text or name.endswith("_index"):     # the schema of an index is not compared
            return files, None
        at = n % (len(text) + 1)
        files[s] = [text[:at] + b"x" + text[at:], text[:max(at, 1) - 1] + text[max(at, 1):], text + b"\n"][n % 3]
        if files[s] == text:
            return files, None
    return files, (kind, name)


def expected_open(ix, path, files, prefix=""):
    """(message of the error or None, {file: available})"""
    out = {}
    for r in ix.items[path]["res"]:
        name = prefix + r["name"]
        if r["kind"] == "archive":
            err, inner = expected_open(ix, r["types"][0], files, name + "/")
            if err:
                return err, out
            out.update(inner)
            continue
        ok = True
        for f in [name] + ([name + "_index"] if r["kind"] == "multi" else []):
            if f not in files:
                ok = False
            elif len(files[f]) < 16:
                return "invalid flatdata resource", out
            elif f + ".schema" not in files:
                return "can't open schema for resource", out
            elif not files[f + ".schema"]:
                return "schema for resource is empty", out
        if ok and files[name + ".schema"].decode() != schema.resource_schema(ix, path, r["name"]):
            return "schemas didn't match", out
        out[name] = ok
    return None, out


def left(ix, path, data, available, prefix=""):
    """The data still there"""
    out = {}
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        name = prefix + r["name"]
        if r["kind"] == "archive":
            out[r["name"]] = left(ix, r["types"][0], v, available, name + "/")
        else:
            out[r["name"]] = v if available[name] else None
    return out


def check_faults(driver, ix, case, sub, rec):
    path = sub["archive"]
    data = single_types(ix, path, sub["data"])
    files = layout.archive_files(ix, path, data)
    done = []
    for f in sub["faults"]:
        files, what = damage(files, f)
        if what:
            done.append(what)
            rec.label(what[0])
    err, available = expected_open(ix, path, files)
    d = env.scratch("c06f")
    try:
        layout.write_files(d, files)
        for kind in ("file", "mem"):
            if kind == "mem" and has_children(ix, path):
                continue
            got = driver.ask("%s %s %s" % (path, kind, d))
            what = "Go (%s) after %s" % (kind, done)
            if err:
                require(got == {"error": err}, "%s: opening gives %s, expected the error: %s", what, show(got), err)
                rec.label("error")
            else:
                require("data" in got, "%s: opening gives %s", what, show(got))
                Reader(ix, rec, what).archive(path, got["data"], files, left(ix, path, data, available))
    finally:
        env.rmtree(d)
    rec.nontrivial(bool(done))


# --------------------------------------------------------------------------------------------
# the bit reader of the library on its own

READ_MAIN = """package main
import (
"fv/driver"
"strconv"
_ "@GEN@"
"encoding/hex"
"github.com/heremaps/flatdata/flatdata-go/flatdata"
)
func number(s string) uint { n, _ := strconv.ParseUint(s, 10, 64); return uint(n) }
func read(args []string, o *driver.Out) {
o.Raw("[")
for i := 0; i + 3 < len(args); i += 4 {
if i > 0 { o.Raw(",") }
b, _ := hex.DecodeString(args[i][1:])
o.Num(flatdata.Read(&flatdata.TestMemoryDescriptor{Array: b}, number(args[i + 1]), number(args[i + 2]), args[i + 3] == "1"))
}
o.Raw("]")
}
func main() { driver.Run(map[string]driver.Handler{"read": read}) }
"""
READS = {}


def reader():
    if "d" not in READS:
        exe, err = golang.compile_exe("package gen\n", READ_MAIN, "read")
        if err:
            raise Violation("the Go library does not compile:\n%s" % err[:2000])
        READS["d"] = golang.Driver(exe)
    return READS["d"]


@st.composite
def reads(draw):
    out = []
    for _ in range(draw(st.integers(1, 12))):
        width = draw(st.integers(1, 64))
        off = draw(st.integers(0, 40))
        size = (off + width + 7) // 8
        bits = draw(st.one_of(st.sampled_from([0, -1]), st.integers(0, (1 << size * 8) - 1)))
        value = draw(gen.boundary_int(0, (1 << width) - 1))
        mask = ((1 << width) - 1) << off
        bits = bits & ((1 << size * 8) - 1) & ~mask | value << off
        # some room behind, as the padding of a resource
        out.append((bits.to_bytes(size, "little") + draw(st.sampled_from([b"\0" * 8, b"\xff" * 8])), off, width, value))
    return out


def check_reads(case, rec):
    line = " ".join("x%s %d %d %d" % (b.hex(), off, w, s) for b, off, w, _ in case for s in (0, 1))
    got = reader().ask("read " + line)
    for i, (b, off, w, v) in enumerate(case):
        for s in (0, 1):
            want = v - (1 << w) if (s and w > 1 or w == 64) and v >> (w - 1) else v
            require(got[2 * i + s] == want, "Go: %d bits at %d of %s, %s, read as %d instead of %d", w, off, b.hex(),
                    "signed" if s else "unsigned", got[2 * i + s], want)
    rec.nontrivial(any(0 < v and off % 8 for _, off, _, v in case))
    rec.label("signed, within the first byte", any(w + off % 8 <= 8 and off % 8 for _, off, w, _ in case))


# --------------------------------------------------------------------------------------------

def findings(rec, tier, seed, shard, nshards):
    """The listed findings, on fixed inputs."""
    fields = [{"name": "x", "type": "u32", "width": None, "decs": []}]

    def archive(name, res):
        return {"k": "archive", "name": name, "bound": [], "res": [dict({"decs": [], "width": 0, "types": []}, **r) for r in res]}

    def built(res, others=()):
        s = {"blocks": [{"ns": "n", "items": [{"k": "struct", "name": "S", "fields": fields}] + list(others) + [
            archive("A", res)]}]}
        ix = schema.Index(s)
        return ix, golang.compile_schema(schema.to_text(s, schema.Style([])), ix, "findings%d" % len(others))
    child = archive("C", [{"name": "r", "kind": "raw"}])
    rec.begin("name of a sub-archive")
    ix, (driver, err) = built([{"name": "part", "kind": "archive", "types": [".n.C"]}], [child])
    if err:
        require("PartArchive" in err, "unexpected compiler errors: %s", err)
        rec.known("K07", "a sub-archive named other than its type does not compile: undefined: PartArchive")
    else:
        driver.stop()
    rec.begin("optional sub-archive")
    ix, (driver, err) = built([{"name": "c", "kind": "archive", "types": [".n.C"], "decs": [["optional"]]}], [child, archive(
        "D", [])])
    require(not err, "the generated Go code does not compile:\n%s", err)
    d = env.scratch("c06k")
    try:
        layout.write_files(d, layout.archive_files(ix, ".n.A", {"c": None}))
        got = driver.ask(".n.A file " + d)
        require("data" in got, "opening gives %s", show(got))
        if got["data"]["res"]["c"]["open"]:
            rec.known("K10", "an optional sub-archive that is not stored is reported open")
    finally:
        driver.stop()
        env.rmtree(d)
    rec.begin("two elements of a type")
    ix, (driver, err) = built([{"name": "m", "kind": "multi", "types": [".n.S"], "width": 32}])
    require(not err, "the generated Go code does not compile:\n%s", err)
    d = env.scratch("c06k")
    try:
        layout.write_files(d, layout.archive_files(ix, ".n.A", {"m": [[(0, (1,)), (0, (2,))]]}))
        got = driver.ask(".n.A file " + d)
        require("data" in got, "opening gives %s", show(got))
        values = [x[0][0] for _, x in got["data"]["res"]["m"]["v"][0]]
        if values == [2, 2]:
            rec.known("K09", "the elements 1 and 2 of one type of one multivector item both read 2")
        else:
            require(values == [1, 2], "multivector elements read %s", values)
    finally:
        driver.stop()
        env.rmtree(d)


CHECK = Check(
    "C06",
    "Generated schemas in one namespace compiled with the Go toolchain (the mmap dependency replaced by one that reads the "
    "file and checks every access). interchange: reference archives with random data, opened from files and memory; every "
    "field of every element, slices, sizes, descriptions (names, offsets, widths, signs) and constants compared. faults: "
    "resource files removed or cut below 16 bytes, schemas removed, emptied or altered; the error or the set of open "
    "resources compared with a model. bits: the library's bit reader at every offset, width and sign. Non-trivial: a "
    "non-empty payload / a fault applied / an unaligned non-zero value.",
    [batch.SchemaPart("interchange", schemas, compile_go, lambda ix, case: cases(ix), check, 64, 1600,
                      {"quick": 30, "thorough": 150}),
     batch.SchemaPart("faults", schemas, compile_go, lambda ix, case: fault_cases(ix), check_faults, 32, 800,
                      {"quick": 50, "thorough": 300}),
     Part("bits", reads, check_reads, 1500, 60000),
     Custom("findings", findings, lambda case, rec: findings(rec, "quick", 0, 0, 1))],
    assumptions=["a single namespace, as the Go backend does not support several; enumerations read as their base type, ranges are ignored",
                 "names are distinct after the conversion to Go's naming convention",
                 "the contents of a multivector's index schema are not compared, as in Python"])
