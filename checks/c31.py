"""C31: Archives describe themselves truthfully."""
import json
import os

from fv import batch, cpp, env, faults, gen, layout, pylib, rust, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

from checks.c04 import compile_cpp
from checks.c05 import compile_rust, with_sentinels
from checks.c07 import Model, exposed
from checks.c08 import multi_names

LONG = ["a_resource_with_a_very_long_name_%d" % i for i in range(2)] + ["exactly_thirty_characters_long",
                                                                         "just_twenty_nine_characters_x"]
NAMES = gen._RES + LONG
OPT = dict(max_structs=5, max_fields=6, max_archives=4, max_resources=7, max_blocks=2, res_names=NAMES)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def pick_archive(draw, ix):
    archives = ix.of("archive")
    if draw(st.booleans()):
        return max(archives, key=lambda p: gen.nesting(ix, p))
    return gen.pick(draw, archives)


EDITS = ["cut", "double", "insert", "replace", "swap", "drop", "indent", "blank"]


@st.composite
def edits(draw):
    """Line edits of a schema"""
    return draw(st.lists(st.tuples(st.sampled_from(EDITS), st.integers(0, 60), st.integers(1, 8)), min_size=1, max_size=4))


def edited(text, what):
    lines = text.split("\n")
    for op, at, k in what:
        i = at % (len(lines) + 1)
        if op == "cut":
            del lines[i:i + k]
        elif op == "double":
            lines[i:i] = lines[i:i + k]
        elif op == "insert":
            lines[i:i] = ["line %d" % (j % 2) for j in range(k)]
        elif op == "replace":
            lines[i:i + 1] = ["other : u%d;" % k]
        elif op == "swap":
            lines[i:i + 2] = lines[i:i + 2][::-1]
        elif op == "drop":
            lines = lines[:0 if k > 6 else 1]
        elif op == "indent":
            lines[i:i + 1] = [" " + x for x in lines[i:i + 1]]
        else:
            lines[i:i] = [""]
    return "\n".join(lines)


@st.composite
def cases(draw, ix):
    path = pick_archive(draw, ix)
    wrong = draw(st.integers(0, 2)) == 0
    return {"archive": path, "data": draw(gen.archive_data(ix, path)), "faults": draw(faults.faults(2)),
            "edits": draw(edits()) if wrong else []}


def compile_reader(text, ix, name, case):
    return compile_cpp(text, ix, name, case, builders=False, extra_body="\n".join(
        'if ( cmd == "blank" + std::string( "%s" ) ) { %s a; o.raw( "[" ); o.num( static_cast< bool >( a ) ); o.raw( "," ); '
        'o.str( a.describe( ) ); o.raw( "," ); o.str( a.describe( 2 ) ); o.raw( "]" ); return; }' % (
            p, cpp.cpp_name(p)) for p in ix.of("archive")))


def yes(x):
    return "YES" if x else "NO"


def rows(ix, path, got, large):
    """What describe() tells about the resources, as words of lines; alternatives where nothing is stored in a vector"""
    out = []
    simple = [r for r in ix.items[path]["res"] if r["kind"] != "archive"]
    for r in simple + [r for r in ix.items[path]["res"] if r["kind"] == "archive"]:
        v = got[r["name"]]
        row = [r["name"][:30], yes(["optional"] in r["decs"]), yes(r["name"] in large), yes(v is not None)]
        if r["kind"] == "raw":
            out.append([row + (["Uninitialized", "Raw", "data"] if v is None else ["Raw", "data", "of", "size", str(len(v))])])
        elif r["kind"] == "inst":
            name = r["types"][0].rsplit(".", 1)[1]
            out.append([row + (["Uninitialized", "Structure", name] if v is None else
                               ["Structure", "of", "size", str(ix.size_bytes(r["types"][0]))])])
        elif r["kind"] == "vector":
            out.append([row + x for x in array(v and len(v), ix.size_bytes(r["types"][0]), ix.has_range(r["types"][0]))])
        elif r["kind"] == "multi":
            if v is None:
                out.append([row + ["Uninitialized", "MultiArray"]])
            else:
                head = row + ["MultiArray", "of", "size", "%d," % len(v), "with", "index:"]
                out.append([head + x for x in array(len(v), (r["width"] + 7) // 8, True)])
        elif v is None:
            out.append([row + ["Uninitialized", "Archive", r["types"][0].rsplit(".", 1)[1]]])
        else:
            out += [[row], [["|"]], [["|->", "Flatdata", "Archive:", r["types"][0].rsplit(".", 1)[1]]]]
            out += rows(ix, r["types"][0], v, ())
    return out


def array(n, size, has_range):
    if not n:
        return [["Uninitialized", "Array"], ["Array", "of", "size:", "0", "in", "0", "bytes"],
                ["Array", "of", "size:", "0", "in", str(size), "bytes"]]
    return [["Array", "of", "size:", str(n), "in", str(size * (n + has_range)), "bytes"]]


def words(text):
    lines = [l.split() for l in text.split("\n")]
    return [l for l in lines if l and set("".join(l)) != {"="}]


def to_lines(text):
    text = text.split("\0")[0]
    lines = text.split("\n")
    return lines[:-1] if lines[-1] == "" else lines


def distance(a, b):
    """Lines to remove from a and to add to get b, at least"""
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        new = [i + 1]
        for j, y in enumerate(b):
            new.append(row[j] if x == y else min(new[j], row[j + 1]) + 1)
        row = new
    return row[-1]


def check_diff(text, expected, found, what):
    """The lines shown turn one schema into the other; "..." and both ends stand for lines they share."""
    a, b = to_lines(expected), to_lines(found)
    shown = text.split("\n")
    require(shown[-1] == "", "%s: the last line is not ended:\n%s", what, text)
    states, changed = {(0, 0)}, 0

    def skip(states):
        out, todo = set(), list(states)
        while todo:
            i, j = todo.pop()
            if (i, j) not in out:
                out.add((i, j))
                if i < len(a) and j < len(b) and a[i] == b[j]:
                    todo.append((i + 1, j + 1))
        return out
    states = skip(states)
    for line in shown[:-1]:
        if line == "...":
            states = skip(states)
            continue
        require(len(line) > 2 and line[0] in " +-" and line[1] == line[-1] == '"', "%s: line %r in the differences:\n%s", what,
                line, text)
        body, new = line[2:-1], set()
        changed += line[0] != " "
        for i, j in states:
            if line[0] == " " and i < len(a) and j < len(b) and a[i] == b[j] == body:
                new.add((i + 1, j + 1))
            elif line[0] == "-" and i < len(a) and a[i] == body:
                new.add((i + 1, j))
            elif line[0] == "+" and j < len(b) and b[j] == body:
                new.add((i, j + 1))
        states = new
        require(states, "%s: line %r does not continue the differences of\n%s\nand\n%s\nin\n%s", what, line, expected, found, text)
    require((len(a), len(b)) in skip(states), "%s: the differences of\n%s\nand\n%s\nare incomplete:\n%s", what, expected, found, text)
    least = distance(a, b)
    require(changed == least, "%s: %d lines are shown as different, %d differ:\n%s", what, changed, least, text)
    return changed


def check_text(ix, path, text, model, got, files, what):
    name = ix.items[path]["name"]
    if not model.signature_ok:
        head = "FATAL: Archive signature does not match software expectations."
        lines = text.split("\n")
        at = [i for i, l in enumerate(lines) if l == head]
        require(len(at) == 1 and not "".join(lines[:at[0]]).strip("="), "%s: signature is broken, described as\n%s", what, text)
        rest = lines[at[0] + 1:]
        if rest and rest[0] and not rest[0].strip("="):
            del rest[0]
        found = files.get(name + ".archive.schema")
        if not found and "".join(rest) == "":       # an empty file is as good as none
            return 0
        require(found is not None, "%s: no signature, described as\n%s", what, text)
        return check_diff("\n".join(rest), layout.archive_schema(ix, path), found.decode(), what)
    lines = words(text)
    if not model.open:
        require(lines[:1] and lines[0][0] == "FATAL:", "%s: not open, described as\n%s", what, text)
        del lines[0]
    want = [[["Flatdata", "Archive:", name]], [["Resource", "Optional", "Too", "Large", "Loaded", "Details"]]]
    want += rows(ix, path, got, model.too_large)
    for i, w in enumerate(want):
        have = lines[i] if i < len(lines) else None
        require(have in w, "%s: line %d of the description is %s, expected %s:\n%s", what, i, have, w[0], text)
    require(len(lines) == len(want), "%s: %d lines of description, expected %d:\n%s", what, len(lines), len(want), text)
    return 0


def check(driver, ix, case, sub, rec):
    path = sub["archive"]
    files = layout.archive_files(ix, path, sub["data"])
    multis = multi_names(ix)
    done = 0
    for f in sub["faults"]:
        files, what = faults.apply(files, f, lambda n: n.split("/")[-1] not in multis)
        done += what is not None
    key = ix.items[path]["name"] + ".archive.schema"
    if sub["edits"] and key in files:
        files[key] = edited(files[key].decode(), sub["edits"]).encode()
    try:
        model = Model(ix, path, files, gen.ref_limits(ix))
    except layout.Undefined:
        rec.label("skipped: index does not fit the data of a multivector")
        return
    if model.nested_large:
        rec.label("skipped: nested archive above a limit")
        return
    blank = driver.ask("blank" + path)
    require(blank[0] in (0, False), "an archive without storage is open")
    require(words(blank[1])[:1] and words(blank[1])[0][0] == "FATAL:", "an archive without storage is described as\n%s", blank[1])
    require(blank[2].split() == ["Uninitialized", "Archive", ix.items[path]["name"]], "a nested archive without storage is "
            "described as %r", blank[2])
    root = env.scratch("c31")
    changed = 0
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        for kind, answer in zip(("file", "memory"), driver.ask("open %s open:%s mem:%s" % (path, d, d))):
            what = "%s storage" % kind
            require("threw" not in answer and answer.get("open") == model.open, "%s: opening gives %s", what, show(answer))
            got = cpp.view_data(ix, path, answer["data"])
            exposed(ix, path, got, model.want, what)
            changed = check_text(ix, path, answer["describe"], model, got, files, what)
    finally:
        env.rmtree(root)
    depth = gen.nesting(ix, path)
    rec.label("differences shown" if changed else "broken signature" if not model.signature_ok else
              "open, %s" % ("flat" if depth == 1 else "nested" if depth < 3 else "deep") if model.open else "broken resource")
    rec.nontrivial(bool(changed) or model.signature_ok and (depth > 1 or done > 0))


# --------------------------------------------------------------------------------------------
# Python

@st.composite
def py_cases(draw):
    c = draw(gen.schema_and_data(gen.Opt(**OPT)))
    c["edits"] = draw(edits())
    c["which"] = draw(st.integers(0, 50))
    return c


def attributes(ix, path):
    return [{"name": n, "offset": o, "width": w, "is_signed": s} for n, o, w, s, *_ in ix.layout(path)[0]]


def json_of(text, what):
    try:
        return json.loads(text)
    except ValueError:
        require(False, "%s prints as %s", what, text)


def py_text(ix, path, archive, data, files, prefix):
    frame = archive.to_data_frame()
    require(isinstance(repr(archive), str), "repr of the archive")
    signature = ix.items[path]["name"] + ".archive"
    total = len(files[prefix + signature])
    want = [[signature, "RawData", False, total, 0]]
    for r in ix.items[path]["res"]:
        v, name = data[r["name"]], prefix + r["name"]
        row = [r["name"], {"raw": "RawData", "inst": "Instance", "vector": "Vector", "multi": "Multivector",
                           "archive": "Archive"}[r["kind"]], ["optional"] in r["decs"]]
        if v is None:
            want.append(row + [None, None])
            continue
        res = getattr(archive, r["name"])
        if r["kind"] == "archive":
            size = py_text(ix, r["types"][0], res, v, files, name + "/")
            n = 1 + len(ix.items[r["types"][0]]["res"])
        else:
            size = len(files[name])
            n = 1 if r["kind"] == "inst" else len(v)
            got = json_of(repr(res), name)
            types = [(t, x.pop("doc", None), x) for t, x in zip(r["types"], got.get("element_types", []))]
            index = got.pop("index_type", None)
            require((got["container_type"], got["size"], got["size_in_bytes"]) == (row[1], n, size) and
                    len(got["element_types"]) == len(r["types"]), "%s describes itself as %s", name, got)
            for t, _, x in types:
                require(x["name"] == pylib.cls_name(t) and x["attributes"] == attributes(ix, t), "%s describes its type %s as %s",
                        name, t, x)
            if r["kind"] == "multi":
                require([(a["offset"], a["width"], a["is_signed"]) for a in index["attributes"]] == [(0, r["width"], False)],
                        "%s describes its index as %s", name, index)
            else:
                require(index is None, "%s describes an index", name)
            elements = [(r["types"][0], v, res[0])] if r["kind"] == "inst" else []
            if r["kind"] == "vector":
                elements = [(r["types"][0], x, y) for x, y in zip(v, res)]
            elif r["kind"] == "multi":
                elements = [(r["types"][t], x, y) for a, b in zip(v, res) for (t, x), y in zip(a, b)]
            for t, x, y in elements[:20]:
                got = json_of(repr(y), name)
                require(got == {"name": pylib.cls_name(t), "attributes": dict(zip([l[0] for l in ix.layout(t)[0]], map(int, x)))},
                        "an element of %s describes itself as %s, holds %s", name, got, x)
                break
            for t, x, y in elements[-1:]:
                got = json_of(repr(y), name)
                require(list(got["attributes"].values()) == list(map(int, x)), "the last element of %s describes itself as %s, "
                        "holds %s", name, got, x)
        total += size
        want.append(row + [size, n])
    have = [[None if x != x else x for x in row] for row in frame.astype(object).values.tolist()]
    require(list(frame.columns) == ["Name", "Type", "Optional", "SizeInBytes", "Size"] and have == want,
            "the archive describes itself as %s, expected %s", have, want)
    require(archive.size_in_bytes() == total, "the archive has %s bytes, its resources %s", archive.size_in_bytes(), total)
    return total


def check_python(case, rec):
    from flatdata.lib import errors
    ix = schema.Index(case["schema"])
    module = pylib.load_module(schema.to_text(case["schema"], schema.Style(case["noise"])))
    path = case["archive"]
    files = layout.archive_files(ix, path, case["data"])
    cls = getattr(module, pylib.cls_name(path))
    archive = cls(pylib.DictStorage(files))
    py_text(ix, path, archive, pylib.normalize(ix, path, case["data"]), files, "")
    schemas_ = sorted(n for n in files if n.endswith(".schema") and "/" not in n and "_index." not in n)
    name = schemas_[case["which"] % len(schemas_)]
    old = files[name].decode()
    new = edited(old, case["edits"])
    if new.splitlines() != old.splitlines():
        try:
            cls(pylib.DictStorage(dict(files, **{name: new.encode()})))
        except errors.SchemaMismatchError as e:
            text = str(e)
            res = name[:-len(".schema")]
            require(res.split(".")[0] in text, "the mismatch does not name %s: %s", res, text)
            diff = text[text.index("\n\nDiff:") + 7:].split("\n") if "\n\nDiff:" in text else text.split("\n")
            for sign, left, right in (("-", old, new), ("+", new, old)):
                for line in set(left.splitlines()) - set(right.splitlines()):
                    require(sign + line in diff, "the mismatch of %s does not show %r: %s", res, sign + line, text)
        else:
            require(False, "%s with another schema is opened", name)
        rec.label("mismatch explained")
    rec.nontrivial(any(v for v in case["data"].values()))


# --------------------------------------------------------------------------------------------
# Rust

RUST_OPT = dict(OPT, max_archives=3, max_resources=6, **gen.RUST)


@st.composite
def rust_schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**RUST_OPT))), "noise": []}


def compile_debug(text, ix, name, case):
    body = "".join('"text%s" => { let s = driver::storage(&i.s()).unwrap(); match %s::open(s) { Ok(a) => '
                   '{ o.str(&format!("{:?}", a)); }, Err(e) => o.num(false) } return; }\n' % (p, rust.name(p))
                   for p in ix.of("archive"))
    return compile_rust(text, ix, name, case, extra="match c { %s _ => driver::unknown(c) }" % body)


def variant(ix, path, value):
    for n, _, v in ix.items[path]["values"]:
        if v == value:
            return "".join(p.title() for p in n.split("_"))
    n = "UNKNOWN_VALUE_%s%d" % ("MINUS_" if value < 0 else "", abs(value))
    return "".join(p.title() for p in n.split("_"))


def struct_text(ix, path, row):
    parts = []
    for f, v in zip(ix.items[path]["fields"], row):
        if f["type"] not in schema.WIDTH:
            text = variant(ix, f["type"], v)
        else:
            text = ("true" if v else "false") if f["type"] == "bool" else str(int(v))
        for d in f["decs"]:
            if d[0] == "opt":
                text = "None" if v == ix.const_value(d[1]) else "Some(%s)" % text
        parts.append("%s: %s" % (rust.escape(f["name"]), text))
    return "%s { %s }" % (ix.items[path]["name"], ", ".join(parts))


def debug_text(ix, path, data):
    parts = []
    for r in ix.items[path]["res"]:
        v = data[r["name"]]
        if v is None:
            text = "None"
        else:
            if r["kind"] == "raw":
                text = "RawData { data: [%s] }" % ", ".join(str(b) for b in v)
            elif r["kind"] == "inst":
                text = struct_text(ix, r["types"][0], v)
            elif r["kind"] == "vector":
                text = "[%s]" % ", ".join(struct_text(ix, r["types"][0], x) for x in v)
            elif r["kind"] == "multi":
                items = ", ".join("(%d, [%s])" % (k, ", ".join(struct_text(ix, r["types"][t], x) for t, x in item))
                                  for k, item in enumerate(v[:10]))
                text = "MultiArrayView { len: %d, data: [%s]%s }" % (len(v), items, "" if len(v) <= 10 else "...")
            else:
                text = debug_text(ix, r["types"][0], v)
            if ["optional"] in r["decs"]:
                text = "Some(%s)" % text
        parts.append("%s: %s" % (r["name"], text))
    return "%s%s" % (ix.items[path]["name"], " { %s }" % ", ".join(parts) if parts else "")


@st.composite
def rust_cases(draw, ix):
    path = pick_archive(draw, ix)
    return {"archive": path, "data": draw(gen.archive_data(ix, path))}


def check_rust(driver, ix, case, sub, rec):
    path = sub["archive"]
    data = with_sentinels(ix, path, sub["data"])
    files = layout.archive_files(ix, path, data)
    if Model(ix, path, files, gen.ref_limits(ix)).open is not True:
        rec.label("skipped: too large")
        return
    root = env.scratch("c31")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, files)
        got = driver.ask("text%s file:%s" % (path, d))
    finally:
        env.rmtree(root)
    want = debug_text(ix, path, cpp.expected_view(ix, path, data))
    require(got == want, "the archive prints as\n%s\nexpected\n%s", got, want)
    rec.nontrivial(any(v for v in data.values()))


CHECK = Check(
    "C31",
    "c++: describe() of archives of generated schemas (long names, nesting up to four deep) in memory and files, with up to two "
    "faults, and with the stored signature edited line by line; python: data frame, JSON of resources and elements, and the error "
    "of an edited schema; rust: Debug output. Oracle: the resources, sizes and schemas of the reference model; differences shown "
    "must lead from the expected to the stored schema with the least number of changed lines. Non-trivial: differences are shown, "
    "a nested or a faulty archive (c++), something is stored (others).",
    [batch.SchemaPart("c++", schemas, compile_reader, lambda ix, case: cases(ix), check, 24, 600, {"quick": 60, "thorough": 300}),
     Part("python", py_cases, check_python, 800, 20000),
     batch.SchemaPart("rust", rust_schemas, compile_debug, lambda ix, case: rust_cases(ix), check_rust, 16, 300,
                      {"quick": 25, "thorough": 150})],
    assumptions=["schemas do not contain the character NUL"])
