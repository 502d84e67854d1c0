"""C11: Normalized schemas are canonical and self-contained."""
import copy

from fv import gen, pylib, schema
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st

# comments may contain anything that looks like schema text
COMMENTS = ["// c\n", "/* c */", "/** doc\n * more\n */", "/// struct X { y : u8; }\n", "/* } namespace z { */",
            "// \" ' \\ \n", "/** @optional **/", "/**/", "/*\n\n*/", "// /*\n", "/* // */", "/* \u00e9\u4e16 */"]


def respell(s, picks):
    """The same schema with other literals, explicit/implicit widths and enumerator values, split blocks."""
    s = copy.deepcopy(s)
    state = {"i": 0}

    def take(n):
        if not picks:
            return 0
        v = picks[state["i"] % len(picks)] + state["i"] // len(picks)
        state["i"] += 1
        return v % n

    def lit(v):
        sign = "-" if v < 0 else ""
        return [str(v), "%s0x%x" % (sign, abs(v)), "%s0x%X" % (sign, abs(v)), "%s0x00%x" % (sign, abs(v)),
                "%s00%d" % (sign, abs(v)), "%s0%d" % (sign, abs(v))][take(6)]
    blocks = []
    for b in s["blocks"]:
        for item in b["items"]:
            if item["k"] == "const":
                item["lit"] = lit(item["value"])
            elif item["k"] == "enum":
                if item["width"] is None or item["width"] == schema.WIDTH[item["type"]]:
                    item["width"] = [None, schema.WIDTH[item["type"]]][take(2)]
                previous = -1
                for v in item["values"]:
                    v[1] = lit(v[2]) if v[2] != previous + 1 or take(2) else None
                    previous = v[2]
            elif item["k"] == "struct":
                for f in item["fields"]:
                    if f["type"] in schema.WIDTH and f["width"] in (None, schema.WIDTH[f["type"]]):
                        f["width"] = [None, schema.WIDTH[f["type"]]][take(2)]
                    # the order of the kinds of decorations has no meaning
                    if take(2):
                        f["decs"] = sorted(f["decs"], key=lambda d: ["opt", "const", "range"].index(d[0]))
            elif item["k"] == "archive":
                for r in item["res"]:
                    if take(2):
                        r["decs"] = sorted(r["decs"], key=lambda d: d[0])
        # a namespace may be closed and reopened anywhere
        items = b["items"]
        while len(items) > 1 and take(3) == 0:
            k = 1 + take(len(items) - 1)
            blocks.append({"ns": b["ns"], "items": items[:k]})
            items = items[k:]
        blocks.append({"ns": b["ns"], "items": items})
    s["blocks"] = blocks
    return s


@st.composite
def cases(draw):
    opt = gen.Opt(cross_refs=draw(st.integers(0, 7)) == 0)
    return {"schema": draw(gen.schemas(opt)), "noise": draw(gen.noise), "noise2": draw(gen.noise),
            "picks": draw(st.lists(st.integers(0, 50), max_size=10))}


def stored(engine, ix):
    """All schema strings the generated code stores: {archive path or archive.resource: text}."""
    module = pylib.load_module(None, engine)
    out = {}
    for a in ix.of("archive"):
        cls = getattr(module, pylib.cls_name(a))
        out[a] = cls._SCHEMA
        for r in ix.items[a]["res"]:
            if r["kind"] != "archive":
                out[a + "." + r["name"]] = cls._RESOURCES[r["name"]].schema
    return out


def reference(ix):
    out = {}
    for a in ix.of("archive"):
        out[a] = schema.archive_schema(ix, a)
        for r in ix.items[a]["res"]:
            if r["kind"] != "archive":
                out[a + "." + r["name"]] = schema.resource_schema(ix, a, r["name"])
    return out


def same(got, want, what):
    for k in want:
        require(got[k] == want[k], "%s: stored schema of %s is\n%s\nexpected\n%s", what, k, got[k], want[k])


def closure(ix, path, out=None):
    """Archives an archive consists of."""
    out = [] if out is None else out
    if path not in out:
        out.append(path)
        for r in ix.items[path]["res"]:
            if r["kind"] == "archive":
                closure(ix, r["types"][0], out)
    return out


def foreign_refs(ix, path):
    """References of an archive into archives that are no part of it."""
    parts = closure(ix, path)
    return [d for p in parts for r in ix.items[p]["res"] for d in r["decs"]
            if d[0] == "ref" and d[3].rsplit(".", 1)[0] not in parts]


def check(case, rec):
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    s = case["schema"]
    ix = schema.Index(s)
    want = reference(ix)
    text = schema.to_text(s, schema.Style(case["noise"], comments=COMMENTS))
    engine = Engine(text)
    same(stored(engine, ix), want, "as written")
    variant = respell(s, case["picks"])
    text2 = schema.to_text(variant, schema.Style(case["noise2"], comments=COMMENTS))
    same(stored(Engine(text2), ix), want, "respelled")
    # the normalized schema stands for the original
    normal = engine.render("flatdata")
    again = Engine(normal)
    # constants keep their relative order only if they were declared so: compare with the order of the text
    nix = schema.Index(order_of(ix, normal))
    same(stored(again, ix), reference(nix), "normalized")
    # every archive schema stands alone
    for a in ix.of("archive"):
        try:
            alone = Engine(want[a])
        except FlatdataSyntaxError as exc:
            if foreign_refs(ix, a) and "Missing symbol" in str(exc):
                rec.known("K01", "the schema of %s refers to an archive it does not contain: %s" % (a, exc))
                continue
            raise Violation("the stored schema of %s is rejected: %s\n%s" % (a, exc, want[a]))
        parts = closure(ix, a)
        sub = {k: v for k, v in want.items() if k == a or any(k.startswith(p + ".") for p in (a,))}
        same(stored_of(alone, ix, parts), {k: want[k] for k in sub}, "from the stored schema of " + a)
        for p in parts:
            rs = {k: v for k, v in want.items() if k.startswith(p + ".")}
            same(stored_of(alone, ix, [p]), rs, "from the stored schema of " + a)
        rec.label("standalone:%d-archives" % len(parts))
    rec.label("foreign-refs" if any(foreign_refs(ix, a) for a in ix.of("archive")) else "own-refs")
    rec.nontrivial(text != text2 and any(ix.items[a]["res"] for a in ix.of("archive")))


def stored_of(engine, ix, archives):
    module = pylib.load_module(None, engine)
    out = {}
    for a in archives:
        cls = getattr(module, pylib.cls_name(a))
        out[a] = cls._SCHEMA
        for r in ix.items[a]["res"]:
            if r["kind"] != "archive":
                out[a + "." + r["name"]] = cls._RESOURCES[r["name"]].schema
    return out


def order_of(ix, text):
    """The schema with its entities in the order in which the text declares them."""
    import re
    blocks = []
    ns = []
    for line in text.split("\n"):
        m = re.match(r"namespace (\w+) \{$", line)
        if m:
            ns.append(m.group(1))
            continue
        m = re.match(r"(?:const \w+|enum|struct|archive) (\w+)", line)
        if m and ns:
            path = "." + ".".join(ns) + "." + m.group(1)
            blocks.append({"ns": ".".join(ns), "items": [ix.items[path]]})
        if line == "" :
            ns = []
    require(sorted("." + b["ns"] + "." + b["items"][0]["name"] for b in blocks) == sorted(ix.order),
            "entities of the normalized schema are %s, expected %s",
            sorted("." + b["ns"] + "." + b["items"][0]["name"] for b in blocks), sorted(ix.order))
    return {"blocks": blocks}


CROSS = {"schema": {"blocks": [{"ns": "n", "items": [
    {"k": "struct", "name": "S", "fields": [{"name": "x", "type": "u8", "width": None, "decs": []}]},
    {"k": "archive", "name": "X", "bound": [], "res": [
        {"name": "r", "kind": "vector", "types": [".n.S"], "width": 0, "decs": []}]},
    {"k": "archive", "name": "Y", "bound": [], "res": [
        {"name": "s", "kind": "vector", "types": [".n.S"], "width": 0, "decs": [["ref", ".n.S", "x", ".n.X.r"]]}]}]}]},
    "noise": [], "noise2": [], "picks": []}

CHECK = Check(
    "C11",
    "a case is a generated schema printed twice: with random whitespace, comments, literal spellings, explicit or "
    "implicit widths and enumerator values, local or absolute references, decoration order and reopened namespaces. "
    "Non-trivial when the two texts differ and some archive has resources. Oracle: an independent normalizer "
    "and the metamorphic relations (spelling-independence, self-containedness, normal form stands for the original).",
    [Part("normal", cases, check, 900, 25000, regressions=[CROSS])],
    assumptions=["entities keep their relative order within each namespace"])
