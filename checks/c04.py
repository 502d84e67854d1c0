"""C04: C++ and Python archives of one schema are interchangeable."""
import os

from fv import batch, cpp, env, gen, layout, pylib, schema
from fv.core import Check, Violation, require, show
from hypothesis import strategies as st

from checks.c02 import diff_files, shape

OPT = dict(max_structs=6, max_fields=9, max_archives=3, max_resources=6, max_blocks=3)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": draw(gen.noise)}


class Both:
    """The generated C++ driver and the generated Python module of one schema."""

    def __init__(self, driver, module):
        self.driver, self.module = driver, module

    def stop(self):
        self.driver.stop()


def compile_cpp(text, ix, name, case, **kw):
    driver, err = cpp.compile_schema(text, ix, name, **kw)
    if err:
        lines = [l for l in err.splitlines() if "error" in l]
        raise Violation("the generated C++ code does not compile:\n%s" % "\n".join(lines[:12] or [err[-1500:]]))
    return driver


def compile_both(text, ix, name, case):
    return Both(compile_cpp(text, ix, name, case), pylib.load_module(text))


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path)),
            "order": draw(st.lists(st.integers(0, 10), max_size=6)),
            "modes": draw(st.lists(st.integers(0, 5), min_size=1, max_size=6))}


def build_program(ix, path, data, order, modes, store, tag="b"):
    """Commands that write an archive; [(command, expected result or None)]"""
    out = [("builder %s %s %s" % (tag, path, store), True)]
    res = list(ix.items[path]["res"])
    if order:
        res = sorted(res, key=lambda r: order[res.index(r) % len(order)])
    for i, r in enumerate(res):
        v = data.get(r["name"])
        mode = modes[i % len(modes)]
        if v is None:
            continue
        n = r["name"]
        if r["kind"] == "archive":
            sub = tag + n[0] + str(i)
            out.append(("child %s %s %s" % (sub, tag, n), True))
            out += build_program(ix, r["types"][0], v, order, modes, store, sub)[1:]
        elif r["kind"] in ("raw", "inst") or (r["kind"] == "vector" and mode < 2):
            out.append(("set %s %s %s" % (tag, n, cpp.value_args(r, v)), True))
        else:
            out.append(("start %s %s" % (tag, n), True))
            k = 1 + mode
            for a in range(0, len(v), k):
                out.append(("grow %s %s %s" % (tag, n, cpp.value_args(r, v[a:a + k])), None))
            want = cpp.expected_view(ix, path, data)[n]
            out.append(("close %s %s" % (tag, n), ("view", r, want)))
    return out


def view_of(ix, r, got):
    fake = {"res": [r]}

    class Ix:
        items = {"x": fake}
    return cpp.view_data(Ix, "x", {r["name"]: got})[r["name"]]


def run_program(driver, prefix, steps, suffix=()):
    out = driver.ask("program " + " ".join(list(prefix) + [s for s, _ in steps] + list(suffix)))
    return out[len(prefix):len(prefix) + len(steps)], out[len(prefix) + len(steps):]


def check_results(ix, steps, results):
    for (cmd, want), got in zip(steps, results):
        if want is True:
            require(got is True, "%s gives %s", cmd[:300], show(got))
        elif isinstance(want, tuple):
            require(got is not None, "%s gives no view", cmd)
            v = view_of(ix, want[1], got)
            require(v == want[2], "the view returned by %s holds\n%s\nexpected\n%s", cmd, show(v), show(want[2]))


def check_dump(ix, path, got, want, what, open_=True):
    require("threw" not in got and got.get("open") == open_, "%s: open gives %s", what, show(got, 1500))
    data = cpp.view_data(ix, path, got["data"])
    require(data == want, "%s reads\n%s\nexpected\n%s", what, show(data, 1500), show(want, 1500))
    check_views(ix, path, got["data"], want, what)


def check_views(ix, path, got, want, what):
    """Iterators and lengths agree with the elements."""
    for r in ix.items[path]["res"]:
        g, w = got[r["name"]], want[r["name"]]
        if g is None:
            continue
        if r["kind"] == "vector":
            require(g["it"] and g["n"] == len(w), "%s: iteration, size (%s) and elements of %s disagree", what, g["n"],
                    r["name"])
        elif r["kind"] == "multi":
            require(g["n"] == len(w), "%s: size of %s is %s, expected %d", what, r["name"], g["n"], len(w))
            for i in range(len(r["types"])):
                it = [[tuple(x) for x in row] for row in got["%s@%d" % (r["name"], i)]]
                e = [[x for t, x in row if t == i] for row in w]
                require(it == e, "%s: typed iterator over %s gives\n%s\nexpected\n%s", what, r["name"], show(it), show(e))
        elif r["kind"] == "archive":
            check_views(ix, r["types"][0], g, w, what)


def check(both, ix, case, sub, rec):
    path, data = sub["archive"], sub["data"]
    expected = layout.archive_files(ix, path, data)
    want = cpp.expected_view(ix, path, data)
    root = env.scratch("c04")
    try:
        a, b = os.path.join(root, "cpp"), os.path.join(root, "py")
        steps = build_program(ix, path, data, sub["order"], sub["modes"], "s")
        results, tail = run_program(both.driver, ["storage s file:" + a], steps, ["storage t open:" + a,
                                                                                 "open %s t" % path])
        check_results(ix, steps, results)
        check_dump(ix, path, tail[1], want, "C++ reading its own archive")
        cpp_files = layout.read_files(a)
        diff_files(expected, cpp_files)
        pylib.write_archive(both.module, ix, path, data, b)
        py_files = layout.read_files(b)
        require(py_files == cpp_files, "Python and C++ write different files: %s",
                show([(n, py_files.get(n), cpp_files.get(n)) for n in sorted(set(py_files) | set(cpp_files))
                      if py_files.get(n) != cpp_files.get(n)][:2], 1500))
        from flatdata.lib.file_resource_storage import FileResourceStorage
        archive = getattr(both.module, pylib.cls_name(path))(FileResourceStorage(a))
        got = pylib.dump_archive(ix, path, archive)
        n = pylib.normalize(ix, path, data)
        require(got == n, "Python reads the C++ archive as\n%s\nexpected\n%s", show(got, 1500), show(n, 1500))
        for spec in ("open:" + b, "mem:" + b, "exact:" + b):
            got = both.driver.ask("open %s %s" % (path, spec))[0]
            check_dump(ix, path, got, want, "C++ reading the Python archive (%s)" % spec.split(":")[0])
    finally:
        env.rmtree(root)
    rec.nontrivial(shape(rec, ix, path, data))


CHECK = Check(
    "C04",
    "a case is a generated schema compiled to C++ (clang, address and undefined behaviour sanitizers) and to Python, one of "
    "its archives with random data, an order of the builder calls and for each vector a way of writing it (set, or started, "
    "grown in chunks and closed). Oracles: the reference encoder, the other language and the assigned data. Non-trivial when at "
    "least one resource holds a non-empty payload.",
    [batch.SchemaPart("interchange", schemas, compile_both, lambda ix, case: cases(ix), check, 48, 1200,
                      {"quick": 25, "thorough": 120})],
    assumptions=["resource and field names that coincide with members of the C++ base classes or generated accessors are not "
                 "generated", "multivector payloads are kept below 2^index-width bytes"])
