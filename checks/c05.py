"""C05: Rust reads and writes the documented archive format."""
import os

from fv import batch, cpp, env, faults, gen, layout, rust, schema, tars
from fv.core import Check, Custom, Violation, require, show
from hypothesis import strategies as st

from checks.c02 import diff_files, shape
from checks.c04 import build_program, run_program
from checks.c07 import Model
from checks.c08 import multi_names

OPT = dict(max_structs=6, max_fields=9, max_archives=3, max_resources=6, max_blocks=3, **gen.RUST)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": draw(gen.noise)}


def compile_rust(text, ix, name, case, **kw):
    driver, err = rust.compile_schema(text, ix, name, **kw)
    if err:
        lines = [l for l in err.splitlines() if l.startswith("error")]
        raise Violation("the generated Rust code does not compile:\n%s" % ("\n".join(lines[:8]) + "\n" + err[:1500]))
    return driver


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path)),
            "order": draw(st.lists(st.integers(0, 10), max_size=6)),
            "modes": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6)),
            "prefix": draw(st.sampled_from(["", "./", "x/"]))}


def with_sentinels(ix, path, data):
    """Vectors of range structures hold at least the last element (see K06)."""
    out = {}
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        if r["kind"] == "vector" and v is not None and not v and ix.has_range(r["types"][0]):
            v = [tuple(0 for _ in ix.items[r["types"][0]]["fields"])]
        elif r["kind"] == "archive" and v is not None:
            v = with_sentinels(ix, r["types"][0], v)
        out[r["name"]] = v
    return out


def payloads(ix, path, files, prefix=""):
    """(resource, its well formed payload) of all resources and sub-archives"""
    for r in ix.items[path]["res"]:
        if r["kind"] == "archive":
            yield from payloads(ix, r["types"][0], files, prefix + r["name"] + "/")
        elif prefix + r["name"] in files:
            body = layout.payload(files[prefix + r["name"]])
            if body is not None:
                yield r, body


def short_instance(ix, path, files):
    return any(r["kind"] == "inst" and len(body) < ix.size_bytes(r["types"][0]) for r, body in payloads(ix, path, files))


def no_sentinel(ix, path, files):
    return any(r["kind"] == "vector" and not body and ix.has_range(r["types"][0]) for r, body in payloads(ix, path, files))


def check_results(ix, path, data, steps, results):
    for (cmd, want), got in zip(steps, results):
        if want is True:
            require(got is True, "%s gives %s", cmd[:300], show(got))
        elif isinstance(want, tuple):
            require(not (isinstance(got, dict) and ("error" in got or "panic" in got)), "%s gives %s", cmd, show(got))
            problems = []
            v = rust.resource_view(ix, "", want[1], got, None, problems)
            require(v == want[2], "the view returned by %s holds\n%s\nexpected\n%s", cmd, show(v), show(want[2]))
            require(not problems, "%s: %s", cmd, problems)
        else:
            require(not isinstance(got, dict), "%s gives %s", cmd[:300], show(got))


def check_open(ix, path, got, data, want, what):
    require(got.get("open") is True, "%s: open gives %s", what, show(got, 1500))
    problems = []
    view = rust.view_data(ix, path, got["data"], data, problems)
    require(view == want, "%s reads\n%s\nexpected\n%s", what, show(view, 1500), show(want, 1500))
    require(not problems, "%s: %s", what, problems)


def check(driver, ix, case, sub, rec):
    path, data = sub["archive"], with_sentinels(ix, sub["archive"], sub["data"])
    expected = layout.archive_files(ix, path, data)
    want = cpp.expected_view(ix, path, data)
    root = env.scratch("c05")
    try:
        a, b, tar = (os.path.join(root, x) for x in ("rust", "ref", "ref.tar"))
        steps = build_program(ix, path, data, sub["order"], sub["modes"], "s")
        results, tail = run_program(driver, ["storage s file:" + a], steps,
                                    ["storage t file:" + a, "open %s t" % path])
        check_results(ix, path, data, steps, results)
        diff_files(expected, layout.read_files(a))
        check_open(ix, path, tail[1], data, want, "Rust reading its own archive")
        results, tail = run_program(driver, ["storage s new"], steps, ["open %s s" % path])
        check_results(ix, path, data, steps, results)
        check_open(ix, path, tail[0], data, want, "Rust reading its own archive in memory")
        os.mkdir(b)
        layout.write_files(b, expected)
        prefix = sub["prefix"]
        tars.pack(tar, expected, sub["order"], prefix)
        specs = ["file:" + b, "mem:" + b, "tar:%s%s" % (tar, ":x" if prefix == "x/" else "")]
        for spec, got in zip(specs, driver.ask("open %s %s" % (path, " ".join(specs)))):
            check_open(ix, path, got, data, want, "Rust reading the reference archive (%s)" % spec.split(":")[0])
    finally:
        env.rmtree(root)
    rec.nontrivial(shape(rec, ix, path, data))


def compile_reader(text, ix, name, case):
    return compile_rust(text, ix, name, case)


@st.composite
def fault_cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path)), "faults": draw(faults.faults())}


def check_faults(driver, ix, case, sub, rec):
    path = sub["archive"]
    files = layout.archive_files(ix, path, with_sentinels(ix, path, sub["data"]))
    multis = multi_names(ix)
    done = []
    for f in sub["faults"]:
        files, what = faults.apply(files, f, lambda n: n.split("/")[-1] not in multis)
        if what:
            done.append(what)
            rec.label("fault:" + what[0])
    try:
        model = Model(ix, path, files, gen.ref_limits(ix), long_instances=True)
    except layout.Undefined:
        rec.label("skipped: index does not fit the data of a multivector")
        return
    _, data = layout.read_model(ix, path, files, index_schemas=True, long_instances=True)
    root = env.scratch("c05f")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        for kind, got in zip(("file", "mem"), driver.ask("open %s file:%s mem:%s" % (path, d, d))):
            what = "faults %s, %s storage" % (done, kind)
            if "assertion `left == right` failed" in str(got.get("panic")) and short_instance(ix, path, files):
                rec.known("K05", "%s: opening gives %s" % (what, show(got)))
                continue
            require("panic" not in got and "open" in got, "%s: opening gives %s", what, show(got))
            if got["open"]:
                rec.label("open")
                require(model.open, "%s: opens although there are problems: %s, too large: %s", what,
                        sorted(model.fatal), sorted(model.too_large))
                view = rust.view_data(ix, path, got["data"], data, bad := [])
                require(view == model.want and not bad, "%s: opened with\n%s\nexpected\n%s\n%s", what, show(view, 1500),
                        show(model.want, 1500), bad)
            else:
                rec.label("rejected")
                require(done or not model.open, "%s: an intact archive is rejected with %s", what, got["error"])
                if model.open and not layout.partial(ix, path, files):     # what was done left nothing a reader has to object to
                    message = "%s: a readable archive is rejected with %s" % (what, got["error"])
                    require(no_sentinel(ix, path, files), "%s", message)
                    rec.known("K06", message)
    finally:
        env.rmtree(root)
    rec.nontrivial(bool(done))


def findings(rec, tier, seed, shard, nshards):
    """The listed findings, on fixed inputs."""
    fields = [{"name": "x", "type": "u32", "width": None, "decs": []}]

    def archive(name, res):
        return {"k": "archive", "name": name, "bound": [], "res": [dict(res, decs=[], width=0)]}
    ranged = [dict(fields[0], decs=[["range", "r"]])]
    s = {"blocks": [{"ns": "n", "items": [
        {"k": "struct", "name": "R", "fields": ranged}, {"k": "struct", "name": "S", "fields": fields},
        archive("E", {"name": "v", "kind": "vector", "types": [".n.R"]}),
        archive("I", {"name": "i", "kind": "inst", "types": [".n.S"]})]}]}
    ix = schema.Index(s)
    driver = compile_rust(schema.to_text(s, schema.Style([])), ix, "findings", None)
    root = env.scratch("c05k")
    try:
        def open_files(name, path, files):
            d = os.path.join(root, name)
            os.mkdir(d)
            layout.write_files(d, files)
            return driver.ask("open %s file:%s" % (path, d))[0]
        rec.begin("short instance")
        files = layout.archive_files(ix, ".n.I", {"i": (7,)})
        files["i"] = (2).to_bytes(8, "little") + b"ab" + b"\0" * 8
        got = open_files("short", ".n.I", files)
        if "panic" in got:
            rec.known("K05", "opening an archive with a too short instance gives %s" % show(got))
        else:
            require(got["open"] is False, "an archive with a too short instance opens: %s", show(got))
        rec.begin("empty range vector")
        files = layout.archive_files(ix, ".n.E", {"v": []})
        got = open_files("empty", ".n.E", files)
        if got.get("open") is False:
            rec.known("K06", "an empty vector of range structures is rejected: %s" % show(got))
        else:
            check_open(ix, ".n.E", got, {"v": []}, {"v": []}, "empty vector of range structures")
        w = os.path.join(root, "write")
        got = driver.ask("program storage s file:%s builder b .n.E s start b v close b v" % w)
        written = layout.read_files(w)
        if written != files:
            row = dict(files, v=(4).to_bytes(8, "little") + b"\0" * 12)
            require(written == row, "an empty vector of range structures is written as %s", show(written))
            rec.known("K06", "an empty vector of range structures is written with one element")
    finally:
        driver.stop()
        env.rmtree(root)


CHECK = Check(
    "C05",
    "interchange: a generated schema compiled to Rust (nightly, address sanitizer, debug assertions, overflow checks), one of "
    "its archives with random data written by the generated builders into files and into memory (set, or started, grown in "
    "chunks and closed) and compared with the reference encoder; the reference archive read back from files, memory and a tar. "
    "faults: structural faults on the files of an archive; opening must report an error or show exactly what a reference "
    "reader finds, never panic. Non-trivial when at least one resource holds a non-empty payload / a fault applied.",
    [batch.SchemaPart("interchange", schemas, compile_rust, lambda ix, case: cases(ix), check, 48, 1200,
                      {"quick": 25, "thorough": 120}),
     batch.SchemaPart("faults", schemas, compile_reader, lambda ix, case: fault_cases(ix), check_faults, 32, 900,
                      {"quick": 60, "thorough": 400}),
     Custom("findings", findings, lambda case, rec: findings(rec, "quick", 0, 0, 1))],
    assumptions=["resource and field names that coincide with members of generated Rust types are not generated",
                 "vectors of range structures hold at least their last element, which only ends the last range",
                 "multivector payloads are kept below 2^index-width bytes"])
