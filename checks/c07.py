"""C07: C++ open validates every resource and never exposes a broken archive."""
import os

from fv import batch, cpp, env, faults, gen, layout
from fv.core import Check, require, show
from hypothesis import strategies as st

from checks.c04 import check_views, compile_cpp
from checks.c08 import multi_names

OPT = dict(max_structs=5, max_fields=6, max_archives=4, max_resources=7, max_blocks=2)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def compile_reader(text, ix, name, case):
    return compile_cpp(text, ix, name, case, builders=False)


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path)), "faults": draw(faults.faults())}


def too_large(ix, path, data, limits):
    """Names of resources (with their archive's path prefix) above the limits of references into them."""
    out = set()
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        lim = limits.get(path + "." + r["name"])
        if v is not None and r["kind"] != "archive" and lim is not None:
            if r["kind"] == "vector" and ix.has_range(r["types"][0]):
                v = v[:-1]
            if len(v) > lim:
                out.add(r["name"])
    return out


class Model:
    """What a reader has to make of a set of files."""

    def __init__(self, ix, path, files, limits, prefix="", **kw):
        problems, data = layout.read_model(ix, path, files, index_schemas=True, **kw)
        self.want = cpp.expected_view(ix, path, data)
        self.fatal = {p for p in problems if not p[1]}
        self.signature_ok = not any(p[0] == ix.items[path]["name"] + ".archive" for p in problems)
        self.too_large = too_large(ix, path, data, limits)
        self.nested_large = False

        def visit(p, d, optional):
            for r in ix.items[p]["res"]:
                v = d.get(r["name"])
                if r["kind"] == "archive" and v is not None:
                    if too_large(ix, r["types"][0], v, limits):
                        self.nested_large = True
                    visit(r["types"][0], v, optional)
        visit(path, data, False)
        self.open = not self.fatal and not self.too_large


def exposed(ix, path, got, want, what):
    """Whatever a reader shows although the archive is broken has to be intact."""
    for r in ix.items[path]["res"]:
        g, w = got[r["name"]], want[r["name"]]
        if g is None:
            continue
        require(w is not None, "%s: %s is exposed although it is broken: %s", what, r["name"], show(g))
        require(g == w, "%s: %s shows\n%s\nexpected\n%s", what, r["name"], show(g), show(w))


def check_describe(ix, path, text, model, got, what):
    lines = text.splitlines()
    for r in ix.items[path]["res"]:
        if r["kind"] == "archive":
            continue
        row = [l for l in lines if l.startswith(r["name"] + " ")]
        require(len(row) == 1, "%s: describe() has %d rows for %s:\n%s", what, len(row), r["name"], text)
        cols = row[0][37:].split()
        want = ["YES" if x else "NO" for x in (["optional"] in r["decs"], r["name"] in model.too_large,
                                               got[r["name"]] is not None)]
        require(cols[:3] == want, "%s: describe() reports %s as optional, too large, loaded = %s, expected %s:\n%s", what,
                r["name"], cols[:3], want, text)


def judge(ix, path, answer, model, what):
    require("threw" not in answer and "open" in answer, "%s: opening gives %s", what, show(answer))
    require("bool" not in answer, "%s: is_open() and operator bool differ", what)
    got = cpp.view_data(ix, path, answer["data"])
    require(answer["open"] == model.open, "%s: is_open() is %s; problems: %s, too large: %s", what, answer["open"],
            sorted(model.fatal), sorted(model.too_large))
    if model.open:
        require(got == model.want, "%s: opened with\n%s\nexpected\n%s", what, show(got, 1500), show(model.want, 1500))
        check_views(ix, path, answer["data"], model.want, what)
    else:
        exposed(ix, path, got, model.want, what)
    if model.signature_ok:
        check_describe(ix, path, answer["describe"], model, got, what)
        require(("FATAL" in answer["describe"].split("Resource  ")[0]) == (not model.open),
                "%s: open is %s but describe() says\n%s", what, model.open, answer["describe"])
    else:
        require("FATAL" in answer["describe"], "%s: signature is broken but describe() says\n%s", what, answer["describe"])


def check(driver, ix, case, sub, rec):
    path = sub["archive"]
    files = layout.archive_files(ix, path, sub["data"])
    multis = multi_names(ix)
    done = []
    for f in sub["faults"]:
        files, what = faults.apply(files, f, lambda n: n.split("/")[-1] not in multis)
        if what:
            done.append(what)
            rec.label("fault:" + what[0])
    try:
        model = Model(ix, path, files, gen.ref_limits(ix))
    except layout.Undefined:
        rec.label("skipped: index does not fit the data of a multivector")
        return
    if model.nested_large:
        rec.label("skipped: nested archive above a limit")
        return
    root = env.scratch("c07")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        for kind, answer in zip(("open", "mem", "exact"),
                                driver.ask("open %s open:%s mem:%s exact:%s" % (path, d, d, d))):
            judge(ix, path, answer, model, "faults %s, %s storage" % (done, kind))
    finally:
        env.rmtree(root)
    rec.label("open" if model.open else "rejected")
    if done and model.open:
        rec.label("open despite faults")
    if any(v is None for v in model.want.values()):
        rec.label("absent optional")
    rec.nontrivial(bool(done))


CHECK = Check(
    "C07",
    "a case is a generated schema compiled to C++ with sanitizers, one of its archives with random data as documented files, and "
    "up to three faults (delete, truncate, empty, extend, wrong size header, consistent resize, altered or swapped schema, "
    "removed sub-archive). Opened from files, from memory and from exactly sized allocations; a reference reader says what has "
    "to open with which data. Non-trivial when at least one fault applied.",
    [batch.SchemaPart("faults", schemas, compile_reader, lambda ix, case: cases(ix), check, 32, 900,
                      {"quick": 60, "thorough": 400})],
    level="fault_enumeration",
    assumptions=["payload bits are not protected by the format: only structural faults are made",
                 "offsets inside a multivector's index are trusted by the format (the index file itself is validated)"])
