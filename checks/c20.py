"""C20: The Python archive builder accepts each resource once and checks its data."""
import copy
import os

from fv import env, gen, layout, pylib, schema
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st

OPT = gen.Opt(max_blocks=2, max_structs=3, max_archives=2, max_resources=5)
DEFECTS = ["none", "none", "none", "missing", "unknown", "both", "structname", "missing-all"]


@st.composite
def cases(draw):
    s = draw(gen.schemas(OPT))
    ix = schema.Index(s)
    path = gen.pick(draw, ix.of("archive"))
    res = ix.items[path]["res"]
    limits = gen.ref_limits(ix)
    calls = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.integers(0, 9))
        if k == 0 or not res:
            calls.append(["unknown", draw(st.sampled_from(["nope", "", "edges_index", "Edges", "schema"])), b"x", "none", 0])
            continue
        if k == 1:
            calls.append(["signature", "", b"", "none", 0])
            continue
        r = gen.pick(draw, res)
        if r["kind"] == "archive":
            calls.append(["subarchive", r["name"], b"", "none", 0])
            continue
        calls.append(["set", r["name"], draw(gen.resource_value(ix, path, r, 0, limits)),
                      draw(st.sampled_from(DEFECTS)), draw(st.integers(0, 20))])
    return {"schema": s, "noise": draw(gen.noise), "archive": path, "calls": calls}


def damage(ix, r, value, defect, where):
    """Make a builder value invalid; returns (value, documented errors) or (value, None) if still valid."""
    from flatdata.lib import errors
    value = copy.deepcopy(value)
    records = {"inst": lambda: [value], "vector": lambda: value, "raw": lambda: [],
               "multi": lambda: [o["attributes"] for item in value for o in item]}[r["kind"]]()
    objs = [o for item in value for o in item] if r["kind"] == "multi" else []
    if defect == "none" or not records:
        return value, None
    rec = records[where % len(records)]
    if defect == "structname":
        if not objs:
            return value, None
        o = objs[where % len(objs)]
        o["name"] = [o["name"] + "x", "", o["name"].split("_")[-1], o["name"].upper() + "_"][where % 4]
        return value, (errors.UnknownStructureError,)
    expected = ()
    if defect in ("missing", "both"):
        key = sorted(rec)[where % len(rec)]
        rec.pop(key)
        expected += (errors.MissingFieldError,)
    if defect == "missing-all":
        rec.clear()
        expected += (errors.MissingFieldError,)
    if defect in ("unknown", "both"):
        rec["not_a_field"] = 1
        expected += (errors.UnknownFieldError,)
    return value, expected


def check(case, rec):
    from flatdata.lib import errors
    from flatdata.lib.resource_storage import ResourceStorage
    from flatdata.lib.file_resource_writer import FileResourceWriter
    ix = schema.Index(case["schema"])
    path = case["archive"]
    module = pylib.load_module(schema.to_text(case["schema"], schema.Style(case["noise"])))
    item = ix.items[path]
    by_name = {r["name"]: r for r in item["res"]}
    accepted, rejected = {}, 0
    root = env.scratch("c20")
    try:
        d = os.path.join(root, "a")
        builder = getattr(module, pylib.cls_name(path) + "Builder")(ResourceStorage(FileResourceWriter(), d))
        for what, name, value, defect, where in case["calls"]:
            if what == "unknown":
                value, expected = value, (errors.UnknownResourceError,)
            elif what == "signature":
                name, expected = item["name"] + ".archive", (errors.ResourceAlreadySetError,)
            elif what == "subarchive":
                expected = (Exception,)
            else:
                r = by_name[name]
                data = value
                value, expected = damage(ix, r, pylib.builder_value(ix, r, value), defect, where)
                if name in accepted:
                    expected = (errors.ResourceAlreadySetError,)
            try:
                builder.set(name, value)
            except Exception as exc:  # pylint: disable=broad-except
                require(expected is not None, "set(%r, ...) failed with %r although the call is valid", name, exc)
                require(isinstance(exc, expected), "set(%r, ...) failed with %s, documented is %s", name,
                        type(exc).__name__, [e.__name__ for e in expected])
                rejected += 1
                rec.label("rejected:" + type(exc).__name__)
            else:
                require(expected is None, "set(%r, %s) was accepted, expected %s", name, show(value),
                        [e.__name__ for e in expected or ()])
                accepted[name] = data
                rec.label("accepted:" + by_name[name]["kind"])
        builder.finish()
        want = layout.archive_files(ix, path, accepted)
        got = layout.read_files(d)
        require(sorted(want) == sorted(got), "files after %d accepted and %d rejected calls: missing %s, unexpected %s",
                len(accepted), rejected, sorted(set(want) - set(got)), sorted(set(got) - set(want)))
        for f in want:
            require(want[f] == got[f], "content of %s is %r, expected %r", f, got[f], want[f])
    finally:
        env.rmtree(root)
    rec.nontrivial(bool(accepted) and rejected > 0)


CHECK = Check(
    "C20",
    "a case is a generated archive and a sequence of set calls (valid, repeated, unknown resource, sub-archive, missing or "
    "unknown fields, unknown structure names at any position); non-trivial when it has both accepted and rejected calls. "
    "Oracle: a model of the builder and the reference encoder over the accepted calls.",
    [Part("calls", cases, check, 1600, 40000)])
