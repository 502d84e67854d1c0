"""C14: every backend accepts what the generator accepts, with one field layout."""
import copy
import os
import subprocess

from fv import batch, cpp, env, gen, golang, layout, pylib, rust, schema
from fv.core import Check, Custom, Part, Violation, require, show
from hypothesis import strategies as st

from checks.c02 import shape
from checks.c06 import Reader, go_ready, single_types
from checks.c11 import respell

# Anything goes inside a comment, and every backend copies comments somewhere.
WORDS = ["text", "two words", "", " ", "*", "**", "* item", "- item", "a * b", "/", "//", "///", "//!", "#", "#[derive(X)]",
         "{", "}", "{{ x }}", "{% if %}", "{# x", "\"", "\"\"\"", "'", "'''", "r\"", "\"#", "\\", "a\\", "\\n", "\\u", "\\x1",
         "%d %s", "`", "`raw`", "$x", "<T>", "&amp;", "@param x", "\\brief x", "\u00e9\u4e16\U0001f600", "\t", "unsafe", "fn x() {",
         "struct X { y : u8; }", "namespace z {", "??/", "-->", "*)", "|", "\u2028", "0", "compile_error!();",
         "#error", "#define x", "package x", "import x", "return", ";", ":"]
INDENT = ["", " ", "  ", "\t", "    "]


# ends and beginnings that a line based treatment gets wrong
CORNER_COMMENTS = ["// ends with a backslash \\\n", "///\\ \n", "//\n", "///\n", "////\n", "//!\n", "// */\n", "// /*\n", "/**/", "/***/",
                   "/****/", "/* */", "/**\n*/", "/*\n\n*/", "/** one\ntwo\n\nthree */", "/*\n * x\n\n   y\n*/", "/* // */", "/* /* */",
                   "/** /** nested? */", "/*/ x */", "/* x /*/", "/**\n * a\r\n * b\r\n */", "// a\r\n", "/* \\\n*/", "/** \"\"\" */",
                   "/** x\\*/", "/** \"*/", "/** ends with quotes \"\"\"*/", "/*** x ***/", "/**! x */", "/// * x\n", "/** */", "/*\t*/"]


@st.composite
def comments(draw):
    """One comment as the grammar knows them: // up to the end of the line, or /* up to the next */"""
    if draw(st.integers(0, 3)) == 0:
        return draw(st.sampled_from(CORNER_COMMENTS))
    def line():
        return draw(st.sampled_from(INDENT)) + " ".join(draw(st.lists(st.sampled_from(WORDS), max_size=3)))
    if draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(["//", "// ", "///", "//!"])) + line() + "\n"
    lines = [line() for _ in range(draw(st.integers(1, 5)))]
    lead = draw(st.sampled_from(["", " * ", "* ", " *", "   "]))
    mixed = draw(st.booleans())
    for i in range(1, len(lines)):
        lines[i] = (draw(st.sampled_from(["", " * ", "    "])) if mixed else lead) + lines[i]
    body = "\n".join(lines).replace("*/", "* /")
    text = draw(st.sampled_from(["/*", "/**", "/* ", "/** ", "/*!", "/**\n", "/*\n"])) + body + draw(
        st.sampled_from(["", " ", "\n", "\n ", "*", " **", "\n\n"])) + "*/"
    # the comment ends at the first */
    head, tail = text[:2], text[2:]
    end = tail.find("*/")
    return head + tail[:end] + "*/"


TYPE_NAMES = ["%s", "%s", "Long%sName", "some_%s_type", "UPPER_%s", "aB%s", "_%s_x", "%s_", "X__%s"]
KEYWORDS = ["loop", "match", "mod", "mut", "pub", "trait", "where", "move", "impl", "let", "fn", "crate", "box", "abstract",
            "priv", "become", "proc", "pure", "ref", "super", "use", "final", "type", "self"]


def rename(s, names):
    """Other names for entities: {path: name}"""
    s = copy.deepcopy(s)
    new = {p: p.rsplit(".", 1)[0] + "." + n for p, n in names.items()}
    for b in s["blocks"]:
        for item in b["items"]:
            item["name"] = names.get("." + b["ns"] + "." + item["name"], item["name"])
            for f in item.get("fields", []):
                f["type"] = new.get(f["type"], f["type"])
                for d in f["decs"]:
                    if d[0] != "range":
                        d[1] = new.get(d[1], d[1])
            for r in item.get("res", []):
                r["types"] = [new.get(t, t) for t in r["types"]]
                for d in r["decs"]:
                    if d[0] == "ref":
                        d[1] = new.get(d[1], d[1])
                        a, x = d[3].rsplit(".", 1)
                        d[3] = new.get(a, a) + "." + x
    return s


def other_names(draw, ix):
    """Names of another style, mostly the same ones for entities of one name"""
    style = {ix.items[p]["name"]: draw(st.sampled_from(TYPE_NAMES)) for p in ix.order}
    apart = draw(st.integers(0, 3)) == 0
    return {p: (draw(st.sampled_from(TYPE_NAMES)) if apart else style[ix.items[p]["name"]]) % ix.items[p]["name"]
            for p in ix.order}


FIELDS = gen._FIELD + ["loop", "match", "trait", "where", "mod", "type", "with_1_digit", "a", "B", "x_", "y__z"]


@st.composite
def schemas(draw):
    go = draw(st.booleans())
    # all Go code goes into one package, the index types of multivectors too
    more = dict(optional_archives=False, same_names=False, **gen.pick(draw, [dict(one_root=True, nested_ns=False), dict(multi=False)])) if go else {}
    s = draw(gen.schemas(gen.Opt(max_structs=5, max_fields=9, max_archives=3, max_resources=6, max_blocks=3,
                                 field_names=FIELDS, **more, **gen.RUST)))
    ix = schema.Index(s)
    s = rename(s, other_names(draw, ix))
    if go:
        s = go_ready(s)
    # as c11 does: other literals, split blocks
    s = respell(s, draw(st.lists(st.integers(0, 50), max_size=5)))
    return {"schema": s, "go": go, "noise": draw(st.lists(st.integers(0, 30), min_size=1, max_size=12)),
            "comments": draw(st.lists(comments(), min_size=1, max_size=9))}


def text_of(case):
    return schema.to_text(case["schema"], schema.Style(case["noise"], comments=case["comments"]))


class Languages(batch.SchemaPart):
    def text(self, case):
        return text_of(case)


class Drivers:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def stop(self):
        for d in self.cpp, self.rust, self.go:
            if d:
                d.stop()


def errors(err):
    lines = err.splitlines()
    at = [i for i, l in enumerate(lines) if "error" in l][:6]
    return "\n".join("\n".join(lines[i:i + 6]) for i in at)[:3000] or err[:2000]


def compile_all(text, ix, name, case):
    try:
        module = pylib.load_module(text)
    except Exception as e:
        raise Violation("the generated Python code does not load: %s: %s\n%s" % (type(e).__name__, e, text)) from e
    g = None
    if case["go"]:
        g, err = golang.compile_schema(text, ix, name)
        if err:
            raise Violation("the generated Go code does not compile:\n%s\n%s" % (errors(err), text))
    r, err = rust.compile_schema(text, ix, name)
    if err:
        raise Violation("the generated Rust code does not compile:\n%s\n%s" % (errors(err), text))
    c, err = cpp.compile_schema(text, ix, name, builders=False)
    if err:
        raise Violation("the generated C++ code does not compile:\n%s\n%s" % (errors(err), text))
    return Drivers(py=module, cpp=c, rust=r, go=g, text=text)


@st.composite
def cases(draw, ix):
    path = gen.pick(draw, ix.of("archive"))
    return {"archive": path, "data": draw(gen.archive_data(ix, path))}


def with_sentinels(ix, path, data):
    from checks.c05 import with_sentinels as fn
    return fn(ix, path, data)


def check(all_, ix, case, sub, rec):
    from checks.c04 import check_dump
    from checks.c05 import check_open
    path = sub["archive"]
    data = with_sentinels(ix, path, single_types(ix, path, sub["data"]))
    files = layout.archive_files(ix, path, data)
    want = cpp.expected_view(ix, path, data)
    root = env.scratch("c14")
    try:
        layout.write_files(root, files)
        check_dump(ix, path, all_.cpp.ask("open %s file:%s" % (path, root))[0], want, "C++")
        check_open(ix, path, all_.rust.ask("open %s file:%s" % (path, root))[0], data, want, "Rust")
        got = python_view(all_.py, ix, path, root)
        full = pylib.normalize(ix, path, data)
        require(got == full, "Python reads\n%s\nexpected\n%s", show(got, 1500), show(full, 1500))
        if all_.go:
            got = all_.go.ask("%s file %s" % (path, root))
            require("data" in got, "Go: opening gives %s", show(got))
            Reader(ix, Quiet(), "Go").archive(path, got["data"], files, data)
            rec.label("Go")
    finally:
        env.rmtree(root)
    rec.label("comment", sum(c in all_.text for c in case["comments"]))
    rec.nontrivial(shape(rec, ix, path, data))


class Quiet:
    """The findings of the Go backend are those of C06."""

    def known(self, *args):
        pass


def python_view(module, ix, path, root):
    from flatdata.lib.file_resource_storage import FileResourceStorage
    cls = getattr(module, pylib.cls_name(path))
    return pylib.dump_archive(ix, path, cls(FileResourceStorage(root)))


# --------------------------------------------------------------------------------------------
# everything renders

BACKENDS = ["cpp", "dot", "go", "py", "rust", "flatdata"]
CORNERS = ["", "\n", "// only a comment\n", "namespace a {}", "namespace a.b { }", "namespace a { namespace b { } }",
           "namespace a { const u8 C = 1; }", "namespace a { enum E : u8 { A } }", "namespace a { struct S { x : u8; } }",
           "namespace a { archive A { } }", "namespace a { } namespace b { archive A { r : raw_data; } }",
           "namespace a { } namespace a.b { archive A { @optional r : raw_data; } }",
           "namespace a { const u8 C = 1; } namespace b { archive A { } archive B { a : archive A; } }",
           "namespace a { archive A { } } namespace b { archive B { @optional x : archive .a.A; } }"]


@st.composite
def texts(draw):
    if draw(st.integers(0, 5)) == 0:
        t = draw(st.sampled_from(CORNERS))
        return {"text": t + draw(comments()) + "\n" if t.endswith("}") and draw(st.booleans()) else t, "schema": None}
    s = draw(gen.schemas(gen.Opt(cross_refs=True, max_consts=6, max_enums=4, max_blocks=5, min_archives=0, field_names=FIELDS)))
    ix = schema.Index(s)
    s = rename(s, other_names(draw, ix))
    s = respell(s, draw(st.lists(st.integers(0, 50), max_size=5)))
    case = {"schema": s, "noise": draw(st.lists(st.integers(0, 30), max_size=12)),
            "comments": draw(st.lists(comments(), min_size=1, max_size=9))}
    return {"text": text_of(case), "schema": s}


def check_renders(case, rec):
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    text = case["text"]
    try:
        engine = Engine(text)
    except FlatdataSyntaxError as e:
        require(case["schema"] is None, "a valid schema is rejected: %s\n%s", e, text)
        rec.label("rejected corner case")
        return
    for b in BACKENDS:
        try:
            code = Engine(text).render(b)
        except Exception as e:
            raise Violation("the %s generator fails with %s: %s\n%s" % (b, type(e).__name__, e, text)) from e
        require(isinstance(code, str), "the %s generator gives %s", b, type(code))
        if b == "flatdata":
            try:
                Engine(code)
            except FlatdataSyntaxError as e:
                raise Violation("the normalized schema is rejected: %s\n%s" % (e, code)) from e
    try:
        module = pylib.load_module(text, engine)
    except Exception as e:
        raise Violation("the generated Python code does not load: %s: %s\n%s" % (type(e).__name__, e, text)) from e
    s = case["schema"]
    rec.nontrivial(s is not None)
    if s is None:
        rec.label("corner case")
        return
    ix = schema.Index(s)
    for p in ix.of("struct"):
        cls = getattr(module, pylib.struct_type_name(p), None) or getattr(module, pylib.cls_name(p))
        lay, bits = ix.layout(p)
        got = [(n, f.offset, f.width, bool(f.is_signed)) for n, f in cls._FIELDS.items()]
        require(got == [(n, off, w, signed) for n, off, w, signed, _, _ in lay], "Python: fields of %s are %s", p, got)
        require(cls._SIZE_IN_BITS == bits and cls._SIZE_IN_BYTES == ix.size_bytes(p), "Python: size of %s is %s bits, %s bytes",
                p, cls._SIZE_IN_BITS, cls._SIZE_IN_BYTES)
        if "*/" in text or "//" in text:
            rec.label("comments")


# --------------------------------------------------------------------------------------------
# the listed findings, on fixed inputs

def findings(rec, tier, seed, shard, nshards):
    from flatdata.generator.engine import Engine

    def go(text, tag):
        exe, err = golang.compile_exe(Engine(text).render("go"), "package main\nimport _ \"@GEN@\"\nfunc main() {}\n", tag)
        return err

    def cpp_errors(code):
        w = env.scratch("c14k")
        try:
            with open(os.path.join(w, "gen.hpp"), "w") as f:
                f.write(code)
            err = subprocess.run([cpp.CXX, "-std=c++11", "-fsyntax-only", "-x", "c++", "-I", os.path.join(
                env.REPO, "flatdata-cpp", "include"), os.path.join(w, "gen.hpp")], capture_output=True, text=True, timeout=300)
            return err.returncode and err.stderr
        finally:
            env.rmtree(w)
    rec.begin("K03")
    text = "namespace n { const i64 LOWEST = -9223372036854775808; }"
    err = cpp_errors(Engine(text).render("cpp"))
    if err:
        require("narrowing" in err or "narrowed" in err, "unexpected compiler errors: %s", err)
        rec.known("K03", "clang rejects a constant of value -9223372036854775808 as a narrowing conversion")
    rec.begin("K04")
    text = ("namespace n { struct S { x : u32; } archive A { m : multivector< 32, S >; } archive B { m : multivector< 32, S >; } }")
    exe, err = rust.compile_exe({"gen.rs": Engine(text).render("rust"), "main.rs":
                                 "#![allow(warnings)]\n#[path = \"gen.rs\"]\nmod schema_gen;\nfn main() {}\n"}, "k04")
    if err:
        require("`M` is defined multiple times" in err or "redefin" in err, "unexpected compiler errors: %s", err)
        rec.known("K04", "multivectors `m` of two archives of one namespace define the Rust type M twice")
    rec.begin("K12")
    err = go("namespace n { archive C { r : raw_data; } archive A { part : archive C; } }", "k12")
    if err:
        require("PartArchive" in err, "unexpected compiler errors: %s", err)
        rec.known("K12", "a sub-archive named other than its type does not compile in Go: undefined: PartArchive")
    rec.begin("K13")
    err = go("namespace n { struct S { x : u8; } } namespace k { struct S { x : u8; } }", "k13")
    if err:
        require("redeclared" in err, "unexpected compiler errors: %s", err)
        rec.known("K13", "entities of one name in two namespaces are declared twice in the one Go package")
    rec.begin("K14")
    text = "namespace n { struct S { a : u8; } archive A { ab : vector< S >; aB : raw_data; } }"
    err = cpp_errors(Engine(text).render("cpp"))
    if err:
        require("AbType" in err, "unexpected compiler errors: %s", err)
        rec.known("K14", "C++: resources ab and aB of one archive both declare AbType")
    text = "namespace n { struct S { x : u32; } enum E : u8 { ab, aB, } struct T { e : E : 8; } archive A { v : vector< T >; } }"
    exe, err = rust.compile_exe({"gen.rs": Engine(text).render("rust"), "main.rs":
                                 "#![allow(warnings)]\n#[path = \"gen.rs\"]\nmod schema_gen;\nfn main() {}\n"}, "k14")
    if err:
        require("`Ab`" in err, "unexpected compiler errors: %s", err)
        rec.known("K14", "Rust: enumerators ab and aB of one enumeration both declare Ab")


CHECK = Check(
    "C14",
    "renders: schemas with all features, many name styles and comments made of text that means something in some target "
    "language (quotes, braces, comment marks, backslashes, indentation, unicode), and corner cases (empty schemas, "
    "namespaces, archives): all six backends render, Python loads and has the fields, offsets, widths and sizes of the "
    "declaration, the normal form is accepted. languages: the same, compiled as C++, Rust and (within the feature set of its "
    "backend) Go; all four readers show the reference data of an archive in the reference layout. Non-trivial: data with "
    "more than one kind of resource or odd widths; all schemas but corner cases.",
    [Part("renders", texts, check_renders, 1200, 40000),
     Languages("languages", schemas, compile_all, lambda ix, case: cases(ix), check, 40, 1600, {"quick": 6, "thorough": 12}),
     Custom("findings", findings, lambda case, rec: findings(rec, "quick", 0, 0, 1))],
    assumptions=["names are not reserved words of a target language (other than those the backend escapes)"])
