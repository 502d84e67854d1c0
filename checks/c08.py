"""C08: Python open reports missing, mismatching and corrupt resources."""
import os

from fv import env, faults, gen, layout, pylib, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(gen.schema_and_data())
    c["faults"] = draw(faults.faults())
    return c


def multi_names(ix):
    out = set()
    for a in ix.of("archive"):
        for r in ix.items[a]["res"]:
            if r["kind"] == "multi":
                out |= {r["name"], r["name"] + "_index"}
    return out


def expectation(ix, path, files):
    """(kinds of problems for which opening fails, the data otherwise)"""
    problems, want = layout.read_model(ix, path, files)
    # the schema file decides first: without it an optional resource is absent whatever its data
    no_schema = {p[0] for p in problems if p[1] and p[2] == "missing" and p[3] == "schema"}
    no_data = {p[0] for p in problems if p[1] and p[2] == "missing" and p[3] == "data"}
    fatal = set()
    for name, optional, what, where in problems:
        if optional and where != "sub":
            if what == "missing" or (what == "corrupt" and name in no_schema | no_data):
                continue
        fatal.add(what)
    return fatal, want


def check(case, rec):
    from flatdata.lib import errors
    from flatdata.lib.file_resource_storage import FileResourceStorage
    ix = schema.Index(case["schema"])
    module = pylib.load_module(schema.to_text(case["schema"], schema.Style(case["noise"])))
    path = case["archive"]
    files = layout.archive_files(ix, path, case["data"])
    multis = multi_names(ix)
    done = []
    for f in case["faults"]:
        files, what = faults.apply(files, f, lambda n: n.split("/")[-1] not in multis)
        if what:
            done.append(what)
            rec.label("fault:" + what[0])
    try:
        fatal, want = expectation(ix, path, files)
    except layout.Undefined:
        rec.label("skipped: index does not fit the data of a multivector")
        return
    root = env.scratch("c08")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        cls = getattr(module, pylib.cls_name(path))
        kinds = {"missing": errors.MissingResourceError, "mismatch": errors.SchemaMismatchError,
                 "corrupt": errors.CorruptResourceError}
        try:
            archive = cls(FileResourceStorage(d))
        except (errors.CorruptArchiveError, errors.SchemaMismatchError) as exc:
            require(fatal, "opening failed with %r, but only harmless faults were made: %s", exc, done)
            require(isinstance(exc, tuple(kinds[f] for f in fatal)),
                    "opening failed with %s after faults %s, expected one of %s", type(exc).__name__, done, sorted(fatal))
            rec.label("error:" + type(exc).__name__)
            rec.nontrivial()
            return
        require(not fatal, "archive opened although %s (faults: %s)", sorted(fatal), done)
        got = pylib.dump_archive(ix, path, archive)
        require(got == pylib.normalize(ix, path, want), "archive opened with\n%s\nexpected\n%s (faults: %s)",
                show(got, 1500), show(want, 1500), done)
        rec.label("opened-after-fault" if done else "opened-intact")
        for r in ix.items[path]["res"]:
            if want[r["name"]] in (b"", []):
                rec.label("empty-resource-present")
            if want[r["name"]] is None:
                rec.label("absent-optional")
        # the summaries work on whatever is present
        frame = archive.to_data_frame()
        for r in ix.items[path]["res"]:
            row = frame[frame["Name"] == r["name"]]
            if r["kind"] == "archive":
                continue
            v = want[r["name"]]
            size = None if v is None else 1 if r["kind"] == "inst" else len(v)
            cell = row["Size"].iloc[0]
            require((cell is None or cell != cell) if size is None else cell == size,
                    "summary reports size %r of %s, expected %r", cell, r["name"], size)
        rec.nontrivial(bool(done))
    finally:
        env.rmtree(root)


CHECK = Check(
    "C08",
    "a case is a generated schema and archive with data, and up to three faults (delete, truncate, empty, extend, wrong "
    "size header, consistent resize, altered/swapped schema, removed sub-archive) on its files; non-trivial when at "
    "least one fault applied. Oracle: a reference reader over the resulting files.",
    [Part("faults", cases, check, 1600, 40000)],
    level="fault_enumeration",
    assumptions=["the schema file of a multivector's offset index is not consulted by the Python library (its own tests "
                 "rely on that), so only the resource's schema counts",
                 "payload bits are not protected by the format: only structural faults are made"])
