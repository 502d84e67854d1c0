"""C02: Python archives round-trip with the documented byte layout."""
import os

from fv import env, gen, layout, pylib, schema
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(gen.schema_and_data())
    c["order"] = draw(st.lists(st.integers(0, 10), max_size=8))
    return c


def diff_files(expected, actual):
    require(sorted(expected) == sorted(actual), "files differ: missing %s, unexpected %s",
            sorted(set(expected) - set(actual)), sorted(set(actual) - set(expected)))
    for name in sorted(expected):
        require(expected[name] == actual[name], "content of %s is\n%r\nexpected\n%r", name, actual[name],
                expected[name])


def shape(rec, ix, path, data):
    """Labels of what a case contains; non-trivial when some payload is not empty."""
    full = False
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        state = "absent" if v is None else "empty" if v in (b"", []) else "filled"
        rec.label("%s:%s" % (r["kind"], state))
        if r["kind"] == "archive" and v is not None:
            full |= shape(rec, ix, r["types"][0], v)
        elif state == "filled":
            full = True
    return full


def check(case, rec):
    s = case["schema"]
    ix = schema.Index(s)
    text = schema.to_text(s, schema.Style(case["noise"]))
    module = pylib.load_module(text)
    path, data = case["archive"], case["data"]
    expected = layout.archive_files(ix, path, data)
    root = env.scratch("c02")
    try:
        pylib.write_archive(module, ix, path, data, os.path.join(root, "a"), case["order"])
        diff_files(expected, layout.read_files(os.path.join(root, "a")))
        from flatdata.lib.file_resource_storage import FileResourceStorage
        cls = getattr(module, pylib.cls_name(path))
        archive = cls(FileResourceStorage(os.path.join(root, "a")))
        want = pylib.normalize(ix, path, data)
        got = pylib.dump_archive(ix, path, archive)
        require(got == want, "archive reads back as\n%s\nexpected\n%s", show(got, 1500), show(want, 1500))
        # the same bytes through an in-memory storage
        got = pylib.dump_archive(ix, path, cls(pylib.DictStorage(expected)))
        require(got == want, "in-memory archive reads back as\n%s\nexpected\n%s", show(got, 1500), show(want, 1500))
    finally:
        env.rmtree(root)
    rec.nontrivial(shape(rec, ix, path, data))


CHECK = Check(
    "C02",
    "a case is a generated schema (random spelling), one of its archives with random data for every resource, and an "
    "order of set calls; non-trivial when at least one resource holds a non-empty payload. Oracle: an independent "
    "encoder of the documented layout and the assigned data itself.",
    [Part("roundtrip", cases, check, 1200, 30000)],
    assumptions=["resource and field names that coincide with Python attributes of the library classes (such as "
                 "'schema' or 'as_dict') are not generated: attribute access then means the library attribute",
                 "multivector payloads are kept below 2^index-width bytes"])
