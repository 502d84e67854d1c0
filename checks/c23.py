"""C23: a reference's width bounds the resource it points into."""
import os
import re

from fv import batch, cpp, env, gen, layout, rust
from fv.core import Check, require, show
from fv.schema import WIDTH, Index, bounds, is_signed
from hypothesis import strategies as st

from checks.c04 import check_views, compile_cpp
from checks.c05 import compile_rust, with_sentinels
from checks.c07 import check_describe, exposed, too_large

OPT = dict(max_structs=4, max_fields=4, max_archives=3, max_resources=6, max_blocks=2, ref_odds=1, cross_refs=True,
           min_archives=1, multi_widths=[16, 24, 32, 64], range_odds=4,
           ref_targets=("vector", "vector", "multi", "raw", "inst"))
WIDTHS = [1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 62, 63, 64, 64]
CAP = {"vector": 1100, "multi": 600, "raw": 70000}


@st.composite
def schemas(draw, **more):
    s = draw(gen.schemas(gen.Opt(**dict(OPT, **more))))
    ix = Index(s)
    for p in ix.of("archive"):
        for r in ix.items[p]["res"]:
            for d in r["decs"]:
                if d[0] != "ref" or draw(st.integers(0, 3)) == 0:
                    continue
                f = next(f for f in ix.items[d[1]]["fields"] if f["name"] == d[2])
                w = gen.pick(draw, WIDTHS)
                types = [t for t in WIDTH if WIDTH[t] >= w and (w > 1 or not is_signed(t))]
                f["type"], f["width"] = gen.pick(draw, types), w
                f["decs"] = [x for x in f["decs"] if x[0] == "range" and f["type"] != "bool"]
                if WIDTH[f["type"]] == w and draw(st.booleans()):
                    f["width"] = None
    return {"schema": s, "noise": []}


def compile_fn(text, ix, name, case):
    return compile_cpp(text, ix, name, case, builders=False)


def tiny(ix, path):
    return st.tuples(*[st.sampled_from(sorted({0, bounds(t, w)[1]})) for _, _, w, _, t, _ in ix.layout(path)[0]])


@st.composite
def data(draw, ix, path, limits, depth=0):
    """Resources of a size around the limits of the references into them."""
    out = {}
    for r in ix.items[path]["res"]:
        name, kind = r["name"], r["kind"]
        if ["optional"] in r["decs"] and draw(st.integers(0, 3)) == 0:
            out[name] = None
            continue
        if kind == "archive":
            out[name] = draw(data(ix, r["types"][0], limits, depth + 1))
            continue
        if kind == "inst":
            out[name] = draw(tiny(ix, r["types"][0]))
            continue
        full = path + "." + name
        cap = CAP[kind]
        n = draw(st.integers(0, 3))
        if full in limits and limits[full] <= cap and depth < 2:
            n = max(0, limits[full] + draw(st.sampled_from([-2, -1, 0, 0, 0, 0, 1, 1, 2, limits[full]])))
        elif draw(st.integers(0, 3)) == 0:
            # a size that some other reference would not allow
            n = draw(st.sampled_from([5, 17, 257]))
        n = min(n, cap)
        if kind == "raw":
            v = bytes([draw(st.integers(0, 255))]) * n
        elif kind == "vector":
            if ix.has_range(r["types"][0]) and n:
                n += 1      # the last element of ranges only ends the one before
            base = draw(st.lists(tiny(ix, r["types"][0]), min_size=1, max_size=2))
            v = (base * n)[:n]
        else:
            elem = st.integers(0, len(r["types"]) - 1).flatmap(lambda i: tiny(ix, r["types"][i]).map(lambda v: (i, v)))
            base = draw(st.lists(st.lists(elem, max_size=2), min_size=1, max_size=2))
            v = (base * n)[:n]
        out[name] = v
    return out


@st.composite
def cases(draw, ix):
    limits = gen.ref_limits(ix)
    paths = ix.of("archive")
    hit = [p for p in paths if any(p + "." + r["name"] in limits for r in ix.items[p]["res"])]
    path = gen.pick(draw, hit) if hit and draw(st.integers(0, 3)) else gen.pick(draw, paths)
    return {"archive": path, "data": draw(data(ix, path, limits)), "mode": draw(st.sampled_from(["open", "mem"]))}


def masked(ix, path, value, limits):
    """(opens, data with the sub-archives that do not open left out)"""
    ok = not too_large(ix, path, value, limits)
    out = {}
    for r in ix.items[path]["res"]:
        v = value.get(r["name"])
        if r["kind"] == "archive" and v is not None:
            sub, v = masked(ix, r["types"][0], v, limits)
            if not sub:
                v = None
                if ["optional"] not in r["decs"]:
                    ok = False
        out[r["name"]] = v
    return ok, out


class Limits:
    pass


def check(driver, ix, case, sub, rec):
    path, value = sub["archive"], sub["data"]
    limits = {k: v for k, v in gen.ref_limits(ix).items() if kind_of(ix, k) != "inst"}
    opens, data_ = masked(ix, path, value, limits)
    want = cpp.expected_view(ix, path, data_)
    model = Limits()
    model.too_large = too_large(ix, path, value, limits)
    root = env.scratch("c23")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, layout.archive_files(ix, path, value))
        answer = driver.ask("open %s %s:%s" % (path, sub["mode"], d))[0]
    finally:
        env.rmtree(root)
    require("threw" not in answer and "open" in answer, "opening gives %s", show(answer))
    got = cpp.view_data(ix, path, answer["data"])
    sizes = {r["name"]: len(value[r["name"]]) for r in ix.items[path]["res"]
             if r["kind"] in CAP and value.get(r["name"]) is not None}
    about = "sizes %s, limits %s" % (sizes, {k.rsplit(".", 1)[1]: v for k, v in limits.items()
                                             if k.rsplit(".", 1)[0] == path})
    require(answer["open"] == opens, "is_open() is %s: %s", answer["open"], about)
    if opens:
        require(got == want, "opened with\n%s\nexpected\n%s", show(got, 1500), show(want, 1500))
        check_views(ix, path, answer["data"], want, about)
    else:
        exposed(ix, path, got, want, about)
    check_describe(ix, path, answer["describe"], model, got, about)
    require(("FATAL" in answer["describe"].split("Resource  ")[0]) == (not opens), "open is %s but describe() says\n%s",
            opens, answer["describe"])
    bounded = 0
    for r in ix.items[path]["res"]:
        lim = limits.get(path + "." + r["name"])
        v = value.get(r["name"])
        if lim is None or v is None or r["kind"] == "archive":
            continue
        bounded += 1
        n = len(v) - (1 if r["kind"] == "vector" and ix.has_range(r["types"][0]) and v else 0)
        rec.label("%s %s" % (r["kind"], "at the limit" if n == lim else "just above" if n == lim + 1 else
                             "above" if n > lim else "just below" if n == lim - 1 else "below"))
    rec.label("opens" if opens else "too large" if model.too_large else "sub-archive too large")
    rec.nontrivial(bounded > 0)


def kind_of(ix, full):
    p, n = full.rsplit(".", 1)
    return next(r["kind"] for r in ix.items[p]["res"] if r["name"] == n)


def all_too_large(ix, path, value, limits):
    """Names and sizes of all present resources above a limit, in sub-archives too"""
    out = {(n, len(value[n]) - bool(value[n] and ranged(ix, path, n))) for n in too_large(ix, path, value, limits)}
    for r in ix.items[path]["res"]:
        if r["kind"] == "archive" and value.get(r["name"]) is not None:
            out |= all_too_large(ix, r["types"][0], value[r["name"]], limits)
    return out


def ranged(ix, path, name):
    r = next(r for r in ix.items[path]["res"] if r["name"] == name)
    return r["kind"] == "vector" and ix.has_range(r["types"][0])


def check_rust(driver, ix, case, sub, rec):
    path, value = sub["archive"], with_sentinels(ix, sub["archive"], sub["data"])
    limits = {k: v for k, v in gen.ref_limits(ix).items() if kind_of(ix, k) != "inst"}
    large = all_too_large(ix, path, value, limits)
    root = env.scratch("c23r")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, layout.archive_files(ix, path, value))
        got = driver.ask("open %s %s:%s" % (path, "file" if sub["mode"] == "open" else "mem", d))[0]
    finally:
        env.rmtree(root)
    about = "above their limits: %s, limits %s" % (sorted(large), limits)
    require("panic" not in got and "open" in got, "opening gives %s: %s", show(got), about)
    require(got["open"] == (not large), "opening gives %s: %s", show(got, 1500), about)
    if got["open"]:
        view = rust.view_data(ix, path, got["data"], value, bad := [])
        want = cpp.expected_view(ix, path, value)
        require(view == want and not bad, "opened with\n%s\nexpected\n%s\n%s", show(view, 1500), show(want, 1500), bad)
    else:
        named = [n for n, size in large if all(
            re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(str(x)), got["text"]) for x in (n, size))]
        require(got["error"] == "TooBig" and named, "the error %s does not name a resource %s", got["text"], about)
    rec.label("opens" if got["open"] else "too large")
    rec.nontrivial(any(path + "." + r["name"] in limits and value.get(r["name"]) is not None for r in ix.items[path]["res"]))


CHECK = Check(
    "C23",
    "a case is a generated schema with many explicit references of all widths (several into one resource, into the referring "
    "resource itself, from instances and multivectors, across archives) compiled to C++ or Rust with sanitizers, and an archive written as "
    "documented files whose referenced resources have sizes around their limits (two below to twice the limit). Oracle: the "
    "smallest 2^width over the references into each resource says whether the archive opens and what describe() (or the error) marks as too "
    "large. Non-trivial when the archive has a present resource with a limit.",
    [batch.SchemaPart("limits", schemas, compile_fn, lambda ix, case: cases(ix), check, 40, 1000,
                      {"quick": 40, "thorough": 200}),
     batch.SchemaPart("rust", lambda: schemas(**gen.RUST), lambda text, ix, name, case: compile_rust(text, ix, name, case),
                      lambda ix, case: cases(ix), check_rust, 24, 600, {"quick": 40, "thorough": 200})],
    assumptions=["an instance has one element, so references do not limit it"])
