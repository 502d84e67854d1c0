"""C09: Tar archives read the same as directories, in C++ and Python."""
import os

from fv import batch, cpp, env, faults, gen, layout, pylib, tars
from fv.core import Check, require, show
from hypothesis import strategies as st

from checks.c04 import Both, check_dump, compile_cpp
from checks.c08 import multi_names

OPT = dict(max_structs=4, max_fields=5, max_archives=4, max_resources=6, max_blocks=2)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def compile_readers(text, ix, name, case):
    return Both(compile_cpp(text, ix, name, case, builders=False), pylib.load_module(text))


PART = st.sampled_from(["a", "ab", "b", "data", "x" * 30, "y" * 60, "z" * 99, "w" * 100, "v" * 110, "with space", ".hidden",
                        "s.archive"])
FORMAT = st.fixed_dictionaries({"fmt": st.sampled_from(["gnu", "gnu", "ustar", "v7"]),
                                "long_form": st.sampled_from([False, False, False, True]),
                                "base256": st.sampled_from([False, False, False, True]), "split": st.integers(0, 3)})


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {
        "archive": path, "data": draw(gen.archive_data(ix, path)),
        "faults": draw(st.one_of(st.just([]), faults.faults(2))),
        "base": draw(st.lists(PART, max_size=3)),
        # the same names elsewhere in the tar, with other contents
        "decoys": draw(st.lists(st.tuples(st.lists(PART, max_size=3), st.integers(0, 255)), max_size=2)),
        # (which file, length): the sub path grows until the name of the file has this length
        "fit": draw(st.one_of(st.none(), st.tuples(st.integers(0, 40), st.sampled_from(
            [98, 99, 100, 101, 154, 155, 156, 255, 256, 257, 510, 511, 512, 513, 1023, 1024, 1535])))),
        "prefix": draw(st.sampled_from(["", "./"])),
        "dirs": draw(st.sampled_from(["before", "after", "interleaved", "none", "some"])),
        "order": draw(st.lists(st.integers(0, 50), max_size=8)),
        "formats": draw(st.lists(FORMAT, min_size=1, max_size=5)),
        # earlier versions of members that are stored again later
        "old": draw(st.lists(st.tuples(st.integers(0, 40), st.binary(max_size=40)), max_size=3)),
        "extra": draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(["README", "dir/", "q" * 120, "L" * 130 + "/"]),
                                         st.sampled_from([0, 1, 511, 512, 513, 1024])), max_size=3)),
        "trailer": draw(st.sampled_from([0, 1, 2, 2, 20])),
        "tail": draw(st.sampled_from([b"", b"", b"garbage"])),
    }


def members(sub, files):
    """Members of the tar, in order: [(name, content or None, options)]"""
    base = "/".join(sub["base"] + [""])
    tree = {}
    for parts, byte in sub["decoys"]:
        other = "/".join(parts + [""])
        for n, c in files.items():
            if not n.endswith(".schema"):
                c = bytes(x ^ byte for x in c)
            tree[other + n] = c
    # a decoy in the very place is replaced by the real archive
    tree = {n: c for n, c in tree.items() if not n.startswith(base)} if base else (
        {n: c for n, c in tree.items() if "/" in n and n.split("/")[0] in {p[0] for p, _ in sub["decoys"] if p}
         and n.split("/")[0] not in {f.split("/")[0] for f in files}})
    for n, c in files.items():
        tree[base + n] = c
    names = sorted(tree)
    order = sub["order"]
    if order:
        rank = {n: order[i % len(order)] for i, n in enumerate(names)}
        names.sort(key=lambda n: rank[n])
    out = []
    seen = set()

    def parents(n):
        parts = n.split("/")[:-1]
        return ["/".join(parts[:i + 1]) for i in range(len(parts))]

    def add_dirs(n):
        for i, d in enumerate(parents(n)):
            if d not in seen:
                seen.add(d)
                if sub["dirs"] != "some" or (len(seen) + len(d)) % 2:
                    out.append((sub["prefix"] + d, None))
    if sub["dirs"] == "before":
        for n in names:
            add_dirs(n)
    for n in names:
        if sub["dirs"] in ("interleaved", "some"):
            add_dirs(n)
        out.append((sub["prefix"] + n, tree[n]))
    if sub["dirs"] == "after":
        for n in names:
            add_dirs(n)
    if sub["prefix"] and sub["dirs"] != "none":
        out.insert(0, (".", None))
    for which, content in sub["old"]:
        n = names[which % len(names)]
        at = next(i for i, m in enumerate(out) if m[0] == sub["prefix"] + n)
        out.insert((which * 7) % (at + 1), (sub["prefix"] + n, content))
    for at, name, size in sub["extra"]:
        isdir = name.endswith("/")
        out.insert(at % (len(out) + 1), (sub["prefix"] + "other-" + name.rstrip("/"), None if isdir else b"e" * size))
    formats = sub["formats"]
    return [(n, c, formats[i % len(formats)]) for i, (n, c) in enumerate(out)]


def read_python(ix, path, cls, storage):
    from flatdata.lib import errors
    try:
        return pylib.dump_archive(ix, path, cls(storage))
    except (errors.CorruptArchiveError, errors.SchemaMismatchError) as exc:
        return type(exc).__name__


def check(both, ix, case, sub, rec):
    from flatdata.lib.file_resource_storage import FileResourceStorage
    from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
    path = sub["archive"]
    files = layout.archive_files(ix, path, sub["data"])
    multis = multi_names(ix)
    sub = dict(sub, base=list(sub["base"]))
    faulty = []
    for f in sub["faults"]:
        files, what = faults.apply(files, f, lambda n: n.split("/")[-1] not in multis)
        if what:
            faulty.append(what)
    if not files:
        return
    if sub["fit"]:
        n = sorted(files)[sub["fit"][0] % len(files)]
        room = sub["fit"][1] - len(sub["prefix"] + "/".join(sub["base"] + ["", n]))
        if room == 1 and sub["base"]:
            sub["base"][-1] += "f"
        elif room > 1:
            sub["base"] = sub["base"] + ["f" * (room - 1)]
        rec.label("fitted name")
    listed = members(sub, files)
    root = env.scratch("c09")
    try:
        d, t = os.path.join(root, "d"), os.path.join(root, "t.tar")
        os.mkdir(d)
        layout.write_files(d, files)
        with open(t, "wb") as f:
            f.write(tars.build(listed, sub["trailer"], sub["tail"] if sub["trailer"] else b""))
        base = "/".join(sub["base"])
        if " " in base:
            spec = None                 # the driver's commands are separated by spaces
        else:
            spec = "tarsub:%s:%s" % (t, base) if base else "tar:" + t
        if spec:
            a, b = both.driver.ask("open %s open:%s %s" % (path, d, spec))
            require("open" in b, "C++ cannot read the tar: %s", show(b))
            require(a["open"] == b["open"], "C++: is_open() is %s from the directory but %s from the tar\n%s\n%s", a["open"],
                    b["open"], a.get("describe"), b.get("describe"))
            require(a["data"] == b["data"], "C++ reads from the directory\n%s\nfrom the tar\n%s",
                    show(cpp.view_data(ix, path, a["data"]), 1500), show(cpp.view_data(ix, path, b["data"]), 1500))
            if not faulty:
                check_dump(ix, path, b, cpp.expected_view(ix, path, sub["data"]), "C++ reading the tar")
        cls = getattr(both.module, pylib.cls_name(path))
        a = read_python(ix, path, cls, FileResourceStorage(d))
        b = read_python(ix, path, cls, TarArchiveResourceStorage.create(t, base))
        require(a == b, "Python reads from the directory\n%s\nfrom the tar\n%s", show(a, 1500), show(b, 1500))
        if not faulty:
            require(b == pylib.normalize(ix, path, sub["data"]), "Python reads from the tar\n%s\nexpected\n%s", show(b, 1500),
                    show(sub["data"], 1500))
    finally:
        env.rmtree(root)
    rec.label("dirs:" + sub["dirs"])
    for _, _, f in listed:
        rec.label("format:" + f["fmt"])
    if any(len(m[0]) > 100 for m in listed):
        rec.label("long names")
    if sub["base"]:
        rec.label("sub path")
    rec.label("faulty" if faulty else "intact")
    rec.nontrivial(any(v not in (None, b"", []) for v in sub["data"].values()))


CHECK = Check(
    "C09",
    "a case is a generated schema compiled to C++ and Python, one of its archives with data and up to two faults, and a way of "
    "packing its files: member order, './' prefixes, directory members (before, after, between, some, none), GNU, ustar and "
    "v7 headers, names in GNU long name members or ustar prefixes, base-256 sizes, a sub path, the same names elsewhere in the "
    "tar, earlier versions of members, unrelated members, trailing blocks. Oracle: the same files read as a directory, and the "
    "assigned data when there is no fault. Non-trivial when a resource is not empty.",
    [batch.SchemaPart("packing", schemas, compile_readers, lambda ix, case: cases(ix), check, 24, 700,
                      {"quick": 60, "thorough": 400})],
    assumptions=["directories exist only where files are stored in them (a tar without directory members cannot tell)",
                 "PAX headers, links and sparse members are outside the tars C++ supports (it reports failure)",
                 "numeric header fields are zero-padded octal ended by NUL (or base-256), as GNU tar and Python write them"])
