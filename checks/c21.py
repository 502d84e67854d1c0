"""C21: Inspector and writer tools handle every archive from its own schema."""
import json
import os
import subprocess
import sys

from fv import env, gen, layout, pylib, schema, tars
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st


@st.composite
def cases(draw):
    c = draw(gen.schema_and_data())
    c["how"] = draw(st.sampled_from(["dir", "dir", "signature", "tar", "tar-dot"]))
    c["named"] = draw(st.booleans())
    return c


def check_inspect(case, rec):
    from flatdata.lib.inspector import open_archive
    ix = schema.Index(case["schema"])
    path = case["archive"]
    item = ix.items[path]
    files = layout.archive_files(ix, path, case["data"])
    root = env.scratch("c21")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        target = d
        if case["how"] == "signature":
            target = os.path.join(d, item["name"] + ".archive")
        elif case["how"].startswith("tar"):
            target = os.path.join(root, "a.tar")
            tars.pack(target, files, prefix="./" if case["how"] == "tar-dot" else "")
        kwargs = {"archive": item["name"]} if case["named"] else {}
        archive, module = open_archive(target, **kwargs)
        require(archive.name() == item["name"], "inspector opened %r", archive.name())
        got = pylib.dump_archive(ix, path, archive)
        want = pylib.normalize(ix, path, case["data"])
        require(got == want, "inspector shows\n%s\nexpected\n%s", show(got, 1500), show(want, 1500))
        require(archive.schema().encode() == files[item["name"] + ".archive.schema"],
                "schema seen by the inspector differs from the stored one")
        require(isinstance(repr(archive), str), "repr of the archive")
    finally:
        env.rmtree(root)
    rec.label(case["how"])
    rec.label("nesting:%d" % gen.nesting(ix, path))
    rec.label("nested-namespace" if "." in ix.ns[path] else "root-namespace")
    rec.label("roots:%d" % len({p.split(".")[1] for p in ix.order}))
    rec.nontrivial(any(v not in (None, b"", []) for v in case["data"].values()))


# ---------------------------------------------------------------------------------------------

def json_value(ix, r, value):
    v = pylib.builder_value(ix, r, value)
    return v.decode() if isinstance(v, bytes) else v


WOPT = gen.Opt(subarchives=False)


@st.composite
def writes(draw):
    c = draw(gen.schema_and_data(WOPT))
    ix = schema.Index(c["schema"])
    for r in ix.items[c["archive"]]["res"]:
        if r["kind"] == "raw" and c["data"][r["name"]] is not None:
            # JSON carries text only
            c["data"][r["name"]] = draw(st.text(max_size=12)).encode("utf-8", "replace")[
                :gen.ref_limits(ix).get(c["archive"] + "." + r["name"], 1000)]
            try:
                c["data"][r["name"]].decode()
            except UnicodeDecodeError:
                c["data"][r["name"]] = b"text"[:len(c["data"][r["name"]])]
    c["via"] = draw(st.sampled_from(["class", "class", "class", "main"]))
    c["named"] = draw(st.booleans())
    return c


def ambiguous(case, rec, Writer, text, alike):
    """Several archives share the name: the writer takes one of them or refuses."""
    ix = schema.Index(case["schema"])
    root = env.scratch("c21")
    try:
        d = os.path.join(root, "a")
        try:
            w = Writer(text, d, ix.items[case["archive"]]["name"])
        except RuntimeError as err:
            require("Ambiguous" in str(err), "writer refuses: %s", err)
        else:
            require(w.builder.schema() in [layout.archive_schema(ix, p) for p in alike],
                    "writer took the archive of another name")
            require({f.split(".")[0] for f in layout.read_files(d)} == {ix.items[case["archive"]]["name"]},
                    "files before anything is set: %s", sorted(layout.read_files(d)))
    finally:
        env.rmtree(root)
    rec.label("writer:several-of-one-name")


def check_write(case, rec):
    from flatdata.lib import writer as cli
    from flatdata.lib.flatdata_writer import Writer
    ix = schema.Index(case["schema"])
    path = case["archive"]
    item = ix.items[path]
    text = schema.to_text(case["schema"], schema.Style(case["noise"]))
    data = {k: v for k, v in case["data"].items() if v is not None}
    name = item["name"]
    if not case["named"] and [i["k"] for i in ix.items.values()].count("archive") == 1:
        name = None  # implied
    alike = [p for p, i in ix.items.items() if i["k"] == "archive" and i["name"] == item["name"]]
    if len(alike) > 1:
        return ambiguous(case, rec, Writer, text, alike)
    root = env.scratch("c21")
    try:
        d = os.path.join(root, "a")
        if case["via"] == "class":
            w = Writer(text, d, name) if name else Writer(text, d)
            for r in item["res"]:
                if r["name"] in data:
                    w.set(r["name"], json.loads(json.dumps(json_value(ix, r, data[r["name"]]))))
            w.finish()
        else:
            with open(os.path.join(root, "s.flatdata"), "w") as f:
                f.write(text)
            for r in item["res"]:
                if r["name"] not in data:
                    continue
                with open(os.path.join(root, "d.json"), "w") as f:
                    json.dump(json_value(ix, r, data[r["name"]]), f)
                old = sys.argv
                sys.argv = ["writer", "-p", d, "-s", os.path.join(root, "s.flatdata"), "-r", r["name"], "-d",
                            os.path.join(root, "d.json")] + (["-a", name] if name else [])
                try:
                    cli.main()
                finally:
                    sys.argv = old
        want = layout.archive_files(ix, path, data) if data or case["via"] == "class" else {}
        got = layout.read_files(d)
        require(sorted(want) == sorted(got), "files: missing %s, unexpected %s", sorted(set(want) - set(got)),
                sorted(set(got) - set(want)))
        for f in want:
            require(want[f] == got[f], "content of %s is %r, expected %r", f, got[f], want[f])
    finally:
        env.rmtree(root)
    rec.label("writer:" + case["via"] + ("" if name else "-unnamed"))
    rec.nontrivial(any(v not in (b"", []) for v in data.values()))


CHECK = Check(
    "C21",
    "inspect: a generated archive stored as directory or tar and opened from its stored schema alone; write: JSON of every "
    "resource given to the writer class or command. Non-trivial when at least one resource is not empty. Oracle: the "
    "assigned data and the reference encoder.",
    [Part("inspect", cases, check_inspect, 800, 20000), Part("write", writes, check_write, 600, 15000)],
    assumptions=["raw data given as JSON is text, stored as UTF-8"])
