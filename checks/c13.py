"""C13: The generator accepts exactly the valid schemas and rejects cleanly."""
import copy
import re

from fv import gen, schema
from fv.core import Check, Part, Violation, require, show
from fv.schema import BASIC, WIDTH, Index, bounds, is_signed
from hypothesis import strategies as st

from checks import c12
from checks.c11 import COMMENTS
from checks.c12 import Skip, fields, insert, items, one, path_of, plain_structs, resources, structs_of


def attempt(text):
    """None if accepted, the syntax error if rejected; anything else propagates."""
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError
    try:
        Engine(text)
    except FlatdataSyntaxError as exc:
        require(str(exc).strip(), "rejected without a message: %s", type(exc).__name__)
        return exc
    return None


# --------------------------------------------------------------------------------------------
# each function breaks exactly one documented rule of a valid schema

def any_item(s, take):
    return one(take, [(b, i) for b in s["blocks"] for i in b["items"]])


def v_duplicate_entity(s, take):
    b, i = any_item(s, take)
    j = copy.deepcopy(i)
    if take(2):
        j = {"k": "const", "name": i["name"], "type": "u8", "value": 1, "lit": "1"}
    b["items"].insert(take(len(b["items"]) + 1), j)


def v_duplicate_entity_other_block(s, take):
    b, i = any_item(s, take)
    s["blocks"].append({"ns": b["ns"], "items": [
        {"k": "struct", "name": i["name"], "fields": [{"name": "x", "type": "u8", "width": None, "decs": []}]}]})


def v_entity_is_namespace(s, take):
    b, i = any_item(s, take)
    s["blocks"].insert(take(len(s["blocks"]) + 1), {
        "ns": b["ns"] + "." + i["name"] + [".deeper", ""][take(2)],
        "items": [{"k": "const", "name": "QQ", "type": "u8", "value": 1, "lit": "1"}]})


def v_duplicate_field(s, take):
    i = one(take, [i for _, i in items(s, "struct")])
    f = copy.deepcopy(one(take, i["fields"]))
    i["fields"].insert(take(len(i["fields"]) + 1), f)


def v_duplicate_resource(s, take):
    a = one(take, [a for _, a in items(s, "archive") if a["res"]])
    r = one(take, a["res"])
    a["res"].insert(take(len(a["res"]) + 1), {"name": r["name"], "kind": "raw", "types": [], "width": 0, "decs": []})


def v_bound_name_is_resource(s, take):
    a = one(take, [a for _, a in items(s, "archive") if a["res"]])
    r = one(take, a["res"])
    a["bound"].append([r["name"], [r["name"]]])


def v_duplicate_enumerator(s, take):
    e = one(take, [e for _, e in items(s, "enum") if c12.free_values(e)])
    c12.explicit(e)
    e["values"].append([one(take, e["values"])[0], str(c12.free_values(e)[0]), 0])


def v_duplicate_enum_value(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    v = one(take, e["values"])[2]
    e["values"].append(["DUPLICATE", [str(v), hex(v)][take(2)], v])


def v_duplicate_enum_value_implicit(s, take):
    e = one(take, [e for _, e in items(s, "enum") if len(e["values"]) > 1])
    c12.explicit(e)
    vs = e["values"]
    k = take(len(vs) - 1)
    j = k + 1
    # the value before is set so that the implicit one hits an existing value
    target = vs[k][2]
    vs.append(["BEFORE", str(target - 1), 0])
    vs.append(["IMPLICIT", None, 0])
    if target - 1 in [v[2] for v in vs[:-2]]:
        vs.pop(-2)
        order = [v for v in vs if v[2] != target - 1 or v[0] == "IMPLICIT"]
        pivot = next(v for v in vs if v[2] == target - 1 and v[0] != "IMPLICIT")
        e["values"] = [v for v in order if v[0] != "IMPLICIT"] + [pivot, ["IMPLICIT", None, 0]]
    del j


def v_enum_value_too_large(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    lo, hi = bounds(e["type"], e["width"] or WIDTH[e["type"]])
    v = [hi + 1, hi * 2 + 2, hi + 257][take(3)]
    e["values"].append(["BEYOND", str(v), v])


def v_enum_value_too_small(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    lo, hi = bounds(e["type"], e["width"] or WIDTH[e["type"]])
    v = lo - 1 - take(3)
    e["values"].append(["BELOW", str(v), v])


def v_enum_implicit_overflow(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    lo, hi = bounds(e["type"], e["width"] or WIDTH[e["type"]])
    c12.explicit(e)
    vs = [v for v in e["values"] if v[2] != hi]
    e["values"] = vs + [["LAST", str(hi), hi], ["BEYOND", None, 0]]


def v_enum_sparse(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    t = one(take, ["u16", "i16", "u32", "i32", "u64", "i64"])
    lowest = 10 if len(e["values"]) < 128 else 12
    width = one(take, list(range(lowest, WIDTH[t] + 1)))
    e["type"], e["width"] = t, width
    p = next(path_of(b, i) for b, i in items(s, "enum") if i is e)
    for _, f in fields(s):
        if f["type"] == p:
            f["width"] = None


def v_enum_width(s, take):
    e = one(take, [e for _, e in items(s, "enum")])
    e["width"] = [0, WIDTH[e["type"]] + 1, 65, 1000][take(4)]


def v_enum_field_width(s, take):
    by = {path_of(b, i): i for b, i in items(s, "enum")}
    f = one(take, [f for _, f in fields(s) if f["type"] in by])
    w = by[f["type"]]["width"] or WIDTH[by[f["type"]]["type"]]
    f["width"] = one(take, [x for x in (0, 1, w - 1, w + 1, 64) if x != w and x >= 0])


def v_field_width(s, take):
    _, f = one(take, [(i, f) for i, f in fields(s) if f["type"] in WIDTH and not f["decs"]])
    f["width"] = [0, WIDTH[f["type"]] + 1, WIDTH[f["type"]] * 2, 65, 99999999999999999999][take(5)]


def v_multi_width(s, take):
    r = one(take, [r for _, _, r in resources(s) if r["kind"] == "multi"])
    r["width"] = [0, 65, 128][take(3)]


def v_const_range(s, take):
    b, c = one(take, items(s, "const"))
    lo, hi = bounds(c["type"], WIDTH[c["type"]])
    v = [hi + 1, lo - 1, hi * 2 + 1, hi * 2 + 2, lo - 1000, 1 << 64, -(1 << 63) - 1][take(7)]
    c["value"], c["lit"] = v, ("-" if v < 0 else "") + [str, hex][take(2)](abs(v))


def v_missing_type(s, take):
    _, f = one(take, [(i, f) for i, f in fields(s)])
    f["type"], f["width"] = ["NoSuchType", ".no.such.Type", "u7", ".", "a..b", "Bool"][take(6)], None
    f["decs"] = []


def v_missing_const(s, take):
    _, f = one(take, [(i, f) for i, f in fields(s) if f["type"] in WIDTH])
    kinds = {d[0] for d in f["decs"]}
    f["decs"].append([["const", "opt"][take(2)] if not kinds & {"range", "opt"} else "const",
                      ["NO_SUCH", ".no.such.C", "."][take(3)]])


def v_missing_struct(s, take):
    r = one(take, [r for _, _, r in resources(s) if r["kind"] in ("vector", "inst", "multi", "archive")])
    r["types"][take(len(r["types"]))] = ["NoSuch", ".no.such.S", "no.such"][take(3)]
    r["decs"] = [d for d in r["decs"] if d[0] != "ref"]


def v_missing_ref_part(s, take):
    d = one(take, [d for _, _, r in resources(s) for d in r["decs"] if d[0] == "ref"])
    k = take(3)
    if k == 0:
        d[2] += "_missing"
    elif k == 1:
        d[3] += "_missing"
    else:
        d[1] += "_missing"


def v_missing_bound(s, take):
    b, a = one(take, [(b, a) for b, a in items(s, "archive") if a["res"]])
    a["bound"].append(["bound_missing", ["no_such_resource"]])


def v_wrong_kind(s, take):
    """A reference to an entity of the wrong kind."""
    by = {p: k for k in ("struct", "enum", "const", "archive") for p in [path_of(b, i) for b, i in items(s, k)]}
    where = []
    for _, f in fields(s):
        where += [p for p in [(f, "type", ("struct", "const", "archive"))]]
        for d in f["decs"]:
            if d[0] != "range":
                where.append((d, 1, ("struct", "enum", "archive")))
    for _, _, r in resources(s):
        if r["kind"] == "archive":
            where.append((r["types"], 0, ("struct", "enum", "const")))
        for k in range(len(r["types"])):
            if r["kind"] in ("vector", "multi", "inst"):
                where.append((r["types"], k, ("enum", "const", "archive")))
        for d in r["decs"]:
            if d[0] == "ref":
                where.append((d, 3, ("struct", "enum", "const", "archive")))
    target, key, kinds = one(take, where)
    target[key] = one(take, [p for p, k in by.items() if k in kinds])
    if isinstance(target, dict):
        target["width"], target["decs"] = None, []


def v_namespace_as_type(s, take):
    _, _, r = one(take, [x for x in resources(s) if x[2]["kind"] in ("vector", "inst", "multi", "archive")])
    r["types"][0] = "." + one(take, s["blocks"])["ns"]
    r["decs"] = [d for d in r["decs"] if d[0] != "ref"]


def v_two_optionals(s, take):
    by = {path_of(b, c): c for b, c in items(s, "const")}
    for _, f in fields(s):
        if any(d[0] == "opt" for d in f["decs"]):
            other = [p for p, c in by.items() if c["type"] == f["type"] and p not in [d[1] for d in f["decs"]]
                     and fits(f, c)]
            if other:
                f["decs"].insert(take(len(f["decs"]) + 1), ["opt", other[0]])
                return
    # make the situation
    i = one(take, [i for _, i in items(s, "struct")])
    ns = s["blocks"][0]["ns"]
    for n, v in (("QA", 1), ("QB", 2)):
        s["blocks"][0]["items"].append({"k": "const", "name": n, "type": "u8", "value": v, "lit": str(v)})
    i["fields"].append({"name": "two_optionals", "type": "u8", "width": None,
                        "decs": [["opt", "." + ns + ".QA"], ["opt", "." + ns + ".QB"]]})


def fits(f, c):
    w = f["width"] or WIDTH[f["type"]]
    lo, hi = (0, 0) if w == 1 and is_signed(f["type"]) else bounds(f["type"], w)
    return lo <= c["value"] <= hi


def v_duplicate_const_ref(s, take):
    f, d = one(take, [(f, d) for _, f in fields(s) for d in f["decs"] if d[0] != "range"])
    f["decs"].append(["const", d[1]])


def v_optional_range(s, take):
    f, d = one(take, [(f, d) for _, f in fields(s) for d in f["decs"] if d[0] == "opt"])
    f["decs"].insert(take(len(f["decs"]) + 1), ["range", "some_range"])


def v_range_is_field(s, take):
    i = one(take, [i for _, i in items(s, "struct") if any(f["type"] in WIDTH for f in i["fields"])])
    f = one(take, [f for f in i["fields"] if f["type"] in WIDTH])
    f["decs"] = [["range", one(take, i["fields"])["name"]]]


def v_range_twice(s, take):
    i = one(take, [i for _, i in items(s, "struct") if len([f for f in i["fields"] if f["type"] in WIDTH]) > 1])
    for f in [f for f in i["fields"] if f["type"] in WIDTH][:2]:
        f["decs"] = [["range", "twice_rng"]]


def v_range_outside_vector(s, take):
    ranged = [path_of(b, i) for b, i in items(s, "struct") if any(d[0] == "range" for f in i["fields"] for d in f["decs"])]
    if not ranged:
        b, i = one(take, [(b, i) for b, i in items(s, "struct") if any(
            f["type"] in WIDTH and not f["decs"] for f in i["fields"])])
        one(take, [f for f in i["fields"] if f["type"] in WIDTH and not f["decs"]])["decs"].append(["range", "new_rng"])
        ranged = [path_of(b, i)]
    used = {t for _, _, r in resources(s) if r["kind"] in ("inst", "multi") for t in r["types"]}
    p = one(take, ranged)
    if p in used:
        return
    a = one(take, [a for _, a in items(s, "archive")])
    a["res"].append({"name": "ranged_res", "kind": ["inst", "multi"][take(2)], "types": [p], "width": 32, "decs": []})


def v_const_type(s, take):
    b, c = one(take, items(s, "const"))
    f = one(take, [f for _, f in fields(s) if f["type"] != c["type"]])
    f["decs"] = [[["const", "opt"][take(2)], path_of(b, c)]]


def v_const_width(s, take):
    b, c = one(take, [(b, c) for b, c in items(s, "const") if c["value"] not in (0, -1)])
    t = c["type"]
    need = c["value"].bit_length() + 1 if is_signed(t) and c["value"] >= 0 else (
        (-c["value"] - 1).bit_length() + 1 if c["value"] < 0 else c["value"].bit_length())
    i = one(take, [i for _, i in items(s, "struct")])
    i["fields"].append({"name": "narrow", "type": t, "width": one(take, list(range(1, need))), "decs": [
        [["const", "opt"][take(2)], path_of(b, c)]]})


def v_foreign_struct_in_ref(s, take):
    """@explicit_reference with a structure the resource does not hold."""
    by = structs_of(s)
    b, a, r = one(take, [x for x in resources(s)])
    p = one(take, [p for p in by if p not in r["types"]])
    f = one(take, by[p]["fields"])
    r["decs"].append(["ref", p, f["name"], path_of(b, a) + "." + one(take, a["res"])["name"]])


def v_duplicate_ref(s, take):
    r, d = one(take, [(r, d) for _, _, r in resources(s) for d in r["decs"] if d[0] == "ref"])
    r["decs"].append(list(d))


def v_duplicate_multi_type(s, take):
    r = one(take, [r for _, _, r in resources(s) if r["kind"] == "multi"])
    r["types"].append(one(take, r["types"]))


def v_cycle(s, take):
    arch = items(s, "archive")
    b, a = one(take, arch)
    # make `a` contain itself, directly or through another archive
    if take(2):
        a["res"].append({"name": "cyclic", "kind": "archive", "types": [path_of(b, a)], "width": 0, "decs": []})
    else:
        insert(s, take, {"k": "archive", "name": "Looping", "bound": [], "res": [
            {"name": "back", "kind": "archive", "types": [path_of(b, a)], "width": 0, "decs": []}]})
        p = next(path_of(x, i) for x, i in items(s, "archive") if i["name"] == "Looping")
        a["res"].append({"name": "cyclic", "kind": "archive", "types": [p], "width": 0, "decs": [["optional"]]})


RULES = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("v_")}


@st.composite
def violations(draw):
    opt = gen.Opt(max_consts=5)
    return {"schema": draw(gen.schemas(opt)), "noise": draw(gen.noise),
            "picks": draw(st.lists(st.integers(0, 60), min_size=5, max_size=5)),
            "rules": draw(st.lists(st.sampled_from(sorted(RULES)), min_size=3, max_size=6, unique=True))}


def check_violation(case, rec):
    text = schema.to_text(case["schema"], schema.Style(case["noise"]))
    error = attempt(text)
    require(error is None, "a valid schema is rejected: %s\n%s", error, text)
    n = 0
    for rule in case["rules"]:
        t = copy.deepcopy(case["schema"])
        state = {"i": 0}

        def take(n):
            state["i"] += 1
            return case["picks"][state["i"] % 5] % n
        try:
            RULES[rule](t, take)
        except Skip:
            rec.label("not applicable")
            continue
        broken = schema.to_text(t, schema.Style(case["noise"]))
        error = attempt(broken)
        require(error is not None, "a schema that breaks the rule '%s' is accepted:\n%s", rule, broken)
        rec.label("%s: %s" % (rule, type(error).__name__))
        n += 1
    rec.nontrivial(n > 0)


# --------------------------------------------------------------------------------------------
# valid schemas of all shapes

@st.composite
def valid(draw):
    big = draw(st.integers(0, 5)) == 0
    opt = gen.Opt(cross_refs=draw(st.booleans()), max_enum_width=10, max_structs=8 if big else 3,
                  max_fields=14 if big else 4, max_archives=6 if big else 2, max_blocks=6 if big else 2)
    return {"schema": draw(gen.schemas(opt)), "noise": draw(gen.noise)}


def check_valid(case, rec):
    text = schema.to_text(case["schema"], schema.Style(case["noise"], comments=COMMENTS))
    error = attempt(text)
    require(error is None, "a valid schema is rejected: %s\n%s", error, text)
    for _, e in items(case["schema"], "enum"):
        if (e["width"] or WIDTH[e["type"]]) > 8:
            rec.label("enum wider than 8 bit")
    rec.nontrivial(len(text) > 150)


# --------------------------------------------------------------------------------------------
# arbitrary text

TOKENS = ["namespace", "struct", "archive", "enum", "const", "vector", "multivector", "raw_data", "@range", "@const",
          "@optional", "@explicit_reference", "@bound_implicitly", "{", "}", "(", ")", "<", ">", ":", ";", ",", "=", ".",
          "..", "-", "0", "1", "-1", "0x", "0xFF", "-0x80", "00", "010", "64", "65", "18446744073709551616", "1.5", "u8", "i8",
          "bool", "u64", "i64", "u7", "a", "b", "x", "S", "T", ".a.S", "a.S", ".a", "S.x", "_", "__", "_builtin",
          "UNKNOWN_VALUE_0", "//", "/*", "*/", "/**/", "// c\n", "@", "\"", "'", "\\", "\n", "\t", "\x00", "\u00e9", "@@", "#",
          "range", "value", "IndexType8", "_builtin.multivector", ".a._builtin.multivector.IndexType8"]


@st.composite
def soup(draw):
    """Nearly valid texts: token streams and mutated schemas."""
    if draw(st.integers(0, 3)) == 0:
        return {"text": " ".join(draw(st.lists(st.sampled_from(TOKENS), max_size=40)))}
    s = draw(gen.schemas(gen.Opt(max_blocks=2, max_structs=2, max_fields=3, max_archives=2, max_resources=3, max_enums=1,
                                 max_consts=2)))
    text = schema.to_text(s, schema.Style(draw(gen.noise)))
    ops = draw(st.lists(st.tuples(st.sampled_from([6, 6, 6, 6, 0, 1, 2, 3, 4, 5]), st.integers(0, 1000), st.integers(0, 1000),
                                  st.sampled_from(TOKENS)), min_size=1, max_size=4))
    return {"text": mutate(text, ops)}


def mutate(text, ops):
    tokens = re.findall(r"\s+|//[^\n]*\n|/\*.*?\*/|[A-Za-z_@][A-Za-z_0-9.]*|-?[0-9][0-9a-fA-FxX]*|.", text, re.S)
    for kind, i, j, tok in ops:
        if not tokens:
            break
        i %= len(tokens)
        j %= len(tokens)
        if kind == 0:
            del tokens[i]
        elif kind == 1:
            tokens.insert(i, tok)
        elif kind == 2:
            tokens[i] = tok
        elif kind == 3:
            tokens[i], tokens[j] = tokens[j], tokens[i]
        elif kind == 4:
            tokens.insert(i, " " + tokens[j] + " ")
        elif kind == 5:
            a, b = min(i, j), max(i, j)
            tokens[a:a] = tokens[a:min(b, a + 20)]
        else:
            # replace a name by a name, a number by a number
            names = [k for k, t in enumerate(tokens) if re.match(r"[A-Za-z_@.]", t)]
            numbers = [k for k, t in enumerate(tokens) if re.match(r"-?[0-9]", t)]
            pool = numbers if numbers and tok[0] in "-0123456789" else names
            if not pool:
                continue
            i, j = pool[i % len(pool)], pool[j % len(pool)]
            same = pool is numbers or re.match(r"[A-Za-z_.]", tok)
            tokens[i] = tok if same and (i + j) % 3 == 0 else tokens[j]
    return "".join(tokens)


def check_soup(case, rec):
    error = attempt(case["text"])
    if error is None:
        rec.label("accepted")
        rec.nontrivial("struct" in case["text"] or "archive" in case["text"])
        # what is accepted has a normal form that is accepted as well
        from flatdata.generator.engine import Engine
        text = Engine(case["text"]).render("flatdata")
        if text.strip():
            e = attempt(text)
            require(e is None, "the normal form of an accepted schema is rejected: %s\n%s", e, text)
    else:
        rec.label("rejected: " + type(error).__name__)
        rec.nontrivial(True)


SPECIAL = ["", " ", "// only a comment", "namespace", "namespace a", "namespace a {", "namespace a {}", "namespace a {} x",
           "namespace a { } // trailing", "namespace a { struct S { x : u8; } };", "struct S { x : u8; }",
           "namespace a..b { }", "namespace .a { }", "namespace a. { }", "namespace a { struct S { } }",
           "namespace a { enum E : u8 { } }", "namespace a { archive A { } }", "namespace a { const u8 C = 0x; }",
           "namespace a { const u8 C = 010; enum E : i8 { A = -007 } }", "namespace a { const u8 C = -0; }",
           "namespace a { struct a { a : u8; } } namespace a.a.a { const u8 C = 1; }",
           "namespace a { struct _builtin { x : u8; } archive A { m : multivector< 8, _builtin >; } }",
           "namespace a { enum E : u8 { UNKNOWN_VALUE_1 = 0 } }", "namespace a { struct S { x : S; } }",
           "namespace a { struct S { x : .; y : ..a; } }", "namespace a { archive X { r : vector< X.r >; } }",
           "namespace a { namespace b { namespace c { struct S { x : u8; } } } }",
           "namespace n { struct A_b { c : u8; } struct A { b_c : u8; } archive X { @explicit_reference( A_b.c, r ) "
           "@explicit_reference( A.b_c, r ) r : multivector< 8, A, A_b >; } }"]

CHECK = Check(
    "C13",
    "valid: schemas of all shapes, printed with random whitespace, comments and spellings, must be accepted. violations: a valid "
    "schema with exactly one documented rule broken (%d rules) must be rejected with a FlatdataSyntaxError. text: token soup and "
    "mutated schema texts must be accepted or rejected with a FlatdataSyntaxError, never fail otherwise, and the normal form of "
    "what is accepted must be accepted. Non-trivial: the schema has content; at least one rule applied; the text is "
    "rejected or declares something." % len(RULES),
    [Part("valid", valid, check_valid, 1200, 30000), Part("violations", violations, check_violation, 1500, 40000),
     Part("text", soup, check_soup, 4000, 150000, regressions=[{"text": t} for t in SPECIAL])],
    assumptions=["at most one comment directly before a declaration, as the grammar has it", "an entity may not be named "
                 "_builtin in a namespace with multivectors"])
