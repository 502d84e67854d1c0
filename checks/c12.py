"""C12: Resource schemas change with every relevant change and only then."""
import copy

from fv import gen, pylib, schema
from fv.core import Check, Part, require, show
from fv.schema import BASIC, WIDTH, Index, bounds, is_signed
from hypothesis import strategies as st

from checks.c11 import stored


# --------------------------------------------------------------------------------------------
# what a stored schema has to depend on

def decl(ix, path):
    """Everything the declaration of an entity says, without spelling."""
    item = ix.items[path]
    if item["k"] == "const":
        return ("const", item["type"], item["value"])
    if item["k"] == "enum":
        return ("enum", item["type"], item["width"] or WIDTH[item["type"]], tuple((v[0], v[2]) for v in item["values"]))
    return ("struct", tuple((f["name"], f["type"], ix.field_type(f)[1],
                             tuple(d[1] for d in f["decs"] if d[0] == "range"),
                             tuple(d[1] for d in f["decs"] if d[0] == "const"),
                             tuple(d[1] for d in f["decs"] if d[0] == "opt")) for f in item["fields"]))


def res_decl(r):
    return (r["name"], r["kind"], tuple(r["types"]), r["width"] if r["kind"] == "multi" else 0,
            any(d[0] == "optional" for d in r["decs"]), tuple(tuple(d) for d in r["decs"] if d[0] == "ref"))


def add(ix, path, out):
    if path in out:
        return
    item = ix.items[path]
    if item["k"] == "archive":
        out[path] = ("archive", tuple(map(repr, item["bound"])), tuple(res_decl(r) for r in item["res"]))
        for r in item["res"]:
            add_resource(ix, r, out)
        used = ix.referenced_constants()
        for c in ix.of("const"):
            if c not in used:
                add(ix, c, out)
        return
    out[path] = decl(ix, path)
    if item["k"] == "struct":
        for f in item["fields"]:
            for d in f["decs"]:
                if d[0] != "range":
                    add(ix, d[1], out)
            if f["type"] not in WIDTH:
                add(ix, f["type"], out)


def add_resource(ix, r, out):
    for t in r["types"]:
        add(ix, t, out)
    for d in r["decs"]:
        if d[0] == "ref":
            add(ix, d[1], out)


def fingerprints(ix):
    out = {}
    for a in ix.of("archive"):
        deps = {}
        add(ix, a, deps)
        out[a] = (a, deps)
        for r in ix.items[a]["res"]:
            if r["kind"] != "archive":
                deps = {}
                add_resource(ix, r, deps)
                out[a + "." + r["name"]] = (a, res_decl(r), deps)
    return out


# --------------------------------------------------------------------------------------------
# edits

def fields(s):
    return [(i, f) for b in s["blocks"] for i in b["items"] if i["k"] == "struct" for f in i["fields"]]


def items(s, kind):
    return [(b, i) for b in s["blocks"] for i in b["items"] if i["k"] == kind]


def resources(s):
    return [(b, a, r) for b, a in items(s, "archive") for r in a["res"]]


def rename_path(s, old, new):
    """Replace a path (and everything below it) in all references."""
    def fix(p):
        return new + p[len(old):] if p == old or p.startswith(old + ".") else p
    for _, f in fields(s):
        f["type"] = fix(f["type"])
        for d in f["decs"]:
            if d[0] != "range":
                d[1] = fix(d[1])
    for _, _, r in resources(s):
        r["types"] = [fix(t) for t in r["types"]]
        for d in r["decs"]:
            if d[0] == "ref":
                d[1], d[3] = fix(d[1]), fix(d[3])


def path_of(b, i):
    return "." + b["ns"] + "." + i["name"]


class Skip(Exception):
    pass


def one(take, seq):
    if not seq:
        raise Skip()
    return seq[take(len(seq))]


def structs_of(s):
    return {path_of(b, i): i for b, i in items(s, "struct")}


def e_field_rename(s, take):
    b, i = one(take, items(s, "struct"))
    f = one(take, i["fields"])
    p = path_of(b, i)
    old, f["name"] = f["name"], f["name"] + "_n"
    for _, _, r in resources(s):
        for d in r["decs"]:
            if d[0] == "ref" and d[1] == p and d[2] == old:
                d[2] = f["name"]


def basic_fields(s, plain=True):
    return [(i, f) for i, f in fields(s) if f["type"] in WIDTH and not (plain and f["decs"])]


def e_field_width(s, take):
    _, f = one(take, basic_fields(s))
    w = f["width"] or WIDTH[f["type"]]
    f["width"] = one(take, [x for x in range(1, WIDTH[f["type"]] + 1) if x != w])


def e_field_type(s, take):
    _, f = one(take, basic_fields(s))
    w = f["width"] or WIDTH[f["type"]]
    f["type"] = one(take, [t for t in BASIC if t != f["type"] and WIDTH[t] >= w])
    f["width"] = w


def e_field_swap(s, take):
    i = one(take, [i for _, i in items(s, "struct") if len(i["fields"]) > 1])
    k = take(len(i["fields"]) - 1)
    i["fields"][k], i["fields"][k + 1] = i["fields"][k + 1], i["fields"][k]


def e_field_add(s, take):
    _, i = one(take, items(s, "struct"))
    i["fields"].insert(take(len(i["fields"]) + 1), {"name": "added_field", "type": "u8", "width": 1 + take(8),
                                                  "decs": []})


def e_field_remove(s, take):
    b, i = one(take, [(b, i) for b, i in items(s, "struct") if len(i["fields"]) > 1])
    used = {(d[1], d[2]) for _, _, r in resources(s) for d in r["decs"] if d[0] == "ref"}
    f = one(take, [f for f in i["fields"] if (path_of(b, i), f["name"]) not in used])
    i["fields"].remove(f)


def e_dec_remove(s, take):
    _, f = one(take, [(i, f) for i, f in fields(s) if f["decs"]])
    f["decs"].remove(one(take, f["decs"]))


def e_dec_add(s, take):
    choices = []
    for _, f in fields(s):
        if f["type"] in WIDTH:
            w = f["width"] or WIDTH[f["type"]]
            lo, hi = (0, 0) if w == 1 and is_signed(f["type"]) else bounds(f["type"], w)
            has = [d[1] for d in f["decs"] if d[0] != "range"]
            kinds = {d[0] for d in f["decs"]}
            for b, c in items(s, "const"):
                if c["type"] == f["type"] and lo <= c["value"] <= hi and path_of(b, c) not in has:
                    choices.append((f, ["const", path_of(b, c)]))
                    if not kinds & {"opt", "range"}:
                        choices.append((f, ["opt", path_of(b, c)]))
    f, d = one(take, choices)
    f["decs"].append(d)


def e_dec_kind(s, take):
    """@const <-> @optional with the same constant."""
    choices = [(f, d) for _, f in fields(s) for d in f["decs"] if d[0] == "opt" or (
        d[0] == "const" and not {x[0] for x in f["decs"]} & {"opt", "range"})]
    _, d = one(take, choices)
    d[0] = "const" if d[0] == "opt" else "opt"


def e_dec_target(s, take):
    """A decoration names another constant."""
    choices = []
    for _, f in fields(s):
        if f["type"] in WIDTH:
            w = f["width"] or WIDTH[f["type"]]
            lo, hi = (0, 0) if w == 1 and is_signed(f["type"]) else bounds(f["type"], w)
            has = [d[1] for d in f["decs"] if d[0] != "range"]
            ok = [path_of(b, c) for b, c in items(s, "const") if c["type"] == f["type"] and lo <= c["value"] <= hi
                  and path_of(b, c) not in has]
            choices += [(d, ok) for d in f["decs"] if d[0] != "range" and ok]
    d, ok = one(take, choices)
    d[1] = one(take, ok)


def e_dec_swap(s, take):
    f = one(take, [f for _, f in fields(s) if len(f["decs"]) > 1])
    f["decs"].reverse()


def e_range(s, take):
    _, f = one(take, [(i, f) for i, f in fields(s) for d in f["decs"] if d[0] == "range"])
    for d in f["decs"]:
        if d[0] == "range":
            d[1] += "_n"


def e_range_add(s, take):
    inner = {t for _, _, r in resources(s) if r["kind"] != "vector" for t in r["types"]}
    by = structs_of(s)
    ok = [f for p, i in by.items() if p not in inner for f in i["fields"]
          if f["type"] in WIDTH and f["type"] != "bool" and not {x[0] for x in f["decs"]} & {"opt", "range"}]
    f = one(take, ok)
    f["decs"].insert(take(len(f["decs"]) + 1), ["range", "added_range"])


def e_const_value(s, take):
    b, c = one(take, items(s, "const"))
    p = path_of(b, c)
    lo, hi = bounds(c["type"], WIDTH[c["type"]])
    for _, f in fields(s):
        if any(d[0] != "range" and d[1] == p for d in f["decs"]):
            w = f["width"] or WIDTH[f["type"]]
            l, h = (0, 0) if w == 1 and is_signed(f["type"]) else bounds(f["type"], w)
            lo, hi = max(lo, l), min(hi, h)
    v = one(take, [x for x in (lo, hi, lo + 1, hi - 1, 0, 1, -1) if lo <= x <= hi and x != c["value"]])
    c["value"], c["lit"] = v, str(v)


def e_const_type(s, take):
    used = {d[1] for _, f in fields(s) for d in f["decs"] if d[0] != "range"}
    _, c = one(take, [(b, c) for b, c in items(s, "const") if path_of(b, c) not in used])
    c["type"] = one(take, [t for t in BASIC if t != c["type"] and bounds(t, WIDTH[t])[0] <= c["value"] <= bounds(
        t, WIDTH[t])[1]])


def explicit(e):
    for v in e["values"]:
        v[1] = str(v[2])


def e_enum_rename(s, take):
    _, e = one(take, items(s, "enum"))
    one(take, e["values"])[0] += "_n"


def free_values(e):
    lo, hi = bounds(e["type"], e["width"] or WIDTH[e["type"]])
    return [x for x in range(lo, hi + 1) if x not in [v[2] for v in e["values"]]]


def e_enum_value(s, take):
    _, e = one(take, [(b, e) for b, e in items(s, "enum") if free_values(e)])
    explicit(e)
    v = one(take, e["values"])
    v[2] = one(take, free_values(e))
    v[1] = str(v[2])


def e_enum_add(s, take):
    _, e = one(take, [(b, e) for b, e in items(s, "enum") if free_values(e)])
    v = one(take, free_values(e))
    e["values"].append(["ADDED_VALUE", str(v), v])


def e_enum_swap(s, take):
    _, e = one(take, [(b, e) for b, e in items(s, "enum") if len(e["values"]) > 1])
    explicit(e)
    v = e["values"]
    v[0][0], v[1][0] = v[1][0], v[0][0]


def e_enum_type(s, take):
    _, e = one(take, items(s, "enum"))
    w = e["width"] or WIDTH[e["type"]]
    e["type"] = one(take, [t for t in BASIC if t != e["type"] and WIDTH[t] >= w and is_signed(t) == is_signed(e["type"])
                           and t != "bool"])
    e["width"] = w


def e_optional(s, take):
    _, _, r = one(take, resources(s))
    if ["optional"] in r["decs"]:
        r["decs"].remove(["optional"])
    else:
        r["decs"].append(["optional"])


def e_res_rename(s, take):
    b, a, r = one(take, resources(s))
    old = path_of(b, a) + "." + r["name"]
    for bound in a["bound"]:
        bound[1] = [x + "_n" if x == r["name"] else x for x in bound[1]]
    r["name"] += "_n"
    rename_path(s, old, old + "_n")


def plain_structs(s):
    ix = Index(s)
    return [p for p in ix.of("struct") if not ix.has_range(p)]


def movable(s):
    """Resources nothing else refers to in a way that depends on their kind."""
    bound = {path_of(b, a) + "." + x for b, a in items(s, "archive") for d in a["bound"] for x in d[1]}
    return [(b, a, r) for b, a, r in resources(s) if path_of(b, a) + "." + r["name"] not in bound
            and not any(d[0] == "ref" for d in r["decs"])]


def e_res_kind(s, take):
    targets = {d[3] for _, _, r in resources(s) for d in r["decs"] if d[0] == "ref"}
    b, a, r = one(take, [x for x in movable(s) if x[2]["kind"] != "archive"])
    ps = plain_structs(s)
    kinds = ["raw"] + (["vector", "multi"] if ps else [])
    if ps and path_of(b, a) + "." + r["name"] not in targets:
        kinds.append("inst")
    k = one(take, [x for x in kinds if x != r["kind"]])
    t = [x for x in r["types"] if x in ps][:1] or ps[:1]
    r["kind"], r["types"], r["width"] = k, [] if k == "raw" else t, 8 + take(57) if k == "multi" else 0


def e_res_type(s, take):
    _, _, r = one(take, [x for x in movable(s) if x[2]["kind"] in ("vector", "inst", "multi")])
    k = take(len(r["types"]))
    r["types"][k] = one(take, [p for p in plain_structs(s) if p not in r["types"]])


def e_multi_width(s, take):
    _, _, r = one(take, [x for x in resources(s) if x[2]["kind"] == "multi"])
    r["width"] = one(take, [w for w in (1, 7, 8, 9, 31, 32, 33, 40, 64) if w != r["width"]])


def e_multi_order(s, take):
    _, _, r = one(take, [x for x in resources(s) if x[2]["kind"] == "multi" and len(x[2]["types"]) > 1])
    r["types"] = r["types"][1:] + r["types"][:1]


def e_ref_remove(s, take):
    _, _, r = one(take, [x for x in resources(s) if any(d[0] == "ref" for d in x[2]["decs"])])
    r["decs"].remove(one(take, [d for d in r["decs"] if d[0] == "ref"]))


def e_ref_add(s, take):
    by = structs_of(s)
    b, a, r = one(take, [x for x in resources(s) if x[2]["kind"] in ("vector", "multi", "inst")])
    p = one(take, r["types"])
    f = one(take, [f for f in by[p]["fields"] if f["type"] in WIDTH])
    t = one(take, [x for x in a["res"] if x["kind"] in ("vector", "multi", "raw")])
    d = ["ref", p, f["name"], path_of(b, a) + "." + t["name"]]
    if d in r["decs"]:
        raise Skip()
    r["decs"].append(d)


def e_ref_target(s, take):
    by = structs_of(s)
    b, a, r = one(take, [x for x in resources(s) if any(d[0] == "ref" for d in x[2]["decs"])])
    d = one(take, [d for d in r["decs"] if d[0] == "ref"])
    if take(2):
        d[2] = one(take, [f["name"] for f in by[d[1]]["fields"] if f["type"] in WIDTH and f["name"] != d[2]])
    else:
        d[3] = one(take, [path_of(b, a) + "." + x["name"] for x in a["res"] if x["kind"] in ("vector", "multi", "raw")
                          and path_of(b, a) + "." + x["name"] != d[3]])
    if len({tuple(x) for x in r["decs"]}) != len(r["decs"]):
        raise Skip()


def e_rename(s, take):
    b, i = one(take, [(b, i) for b in s["blocks"] for i in b["items"]])
    old = path_of(b, i)
    i["name"] += "_n"
    rename_path(s, old, old + "_n")


def e_bound_remove(s, take):
    _, a = one(take, [x for x in items(s, "archive") if x[1]["bound"]])
    a["bound"].pop()


def e_bound_add(s, take):
    _, a = one(take, items(s, "archive"))
    a["bound"].append(["added_bound", one(take, [[r["name"]] for r in a["res"] if r["kind"] == "vector"])])


def insert(s, take, item):
    b = one(take, s["blocks"])
    b["items"].insert(take(len(b["items"]) + 1), item)


def e_add_struct(s, take):
    b, c = one(take, items(s, "const") + [(None, None)])
    decs = [] if c is None else [["const", path_of(b, c)]]
    insert(s, take, {"k": "struct", "name": "AddedStruct", "fields": [
        {"name": "q", "type": c["type"] if c else "u32", "width": None, "decs": decs}]})


def e_add_const(s, take):
    insert(s, take, {"k": "const", "name": "ADDED_CONST", "type": "u16", "value": 7, "lit": "7"})


def e_add_enum(s, take):
    insert(s, take, {"k": "enum", "name": "AddedEnum", "type": "u8", "width": 3, "values": [["AE", None, 0]]})


def e_add_archive(s, take):
    ps = [path_of(b, i) for b, i in items(s, "struct")]
    insert(s, take, {"k": "archive", "name": "AddedArchive", "bound": [], "res": [
        {"name": "v", "kind": "vector", "types": [one(take, ps)], "width": 0, "decs": []}]})


def e_res_add(s, take):
    _, a = one(take, items(s, "archive"))
    ps = [path_of(b, i) for b, i in items(s, "struct")]
    a["res"].insert(take(len(a["res"]) + 1), {"name": "added_res", "kind": "vector", "types": [one(take, ps)],
                                              "width": 0, "decs": []})


def e_res_remove(s, take):
    bound = {path_of(b, a) + "." + x for b, a in items(s, "archive") for d in a["bound"] for x in d[1]}
    targets = {d[3] for _, _, r in resources(s) for d in r["decs"] if d[0] == "ref"}
    _, a, r = one(take, [(b, a, r) for b, a, r in resources(s)
                         if path_of(b, a) + "." + r["name"] not in bound | targets])
    a["res"].remove(r)


def e_res_swap(s, take):
    _, a = one(take, [x for x in items(s, "archive") if len(x[1]["res"]) > 1])
    k = take(len(a["res"]) - 1)
    a["res"][k], a["res"][k + 1] = a["res"][k + 1], a["res"][k]


EDITS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("e_")}
# generated lists favour the front: what rarely applies comes first
_RARE = ["dec_target", "dec_swap", "dec_kind", "dec_add", "dec_remove", "range", "multi_order", "bound_remove", "enum_swap", "res_remove", "range_add"]
ORDER = _RARE + [k for k in sorted(EDITS) if k not in _RARE and not k.startswith("add_")] + [
    k for k in sorted(EDITS) if k.startswith("add_")]


@st.composite
def cases(draw):
    opt = gen.Opt(max_structs=5)
    return {"schema": draw(gen.schemas(opt)), "noise": draw(gen.noise), "noise2": draw(gen.noise),
            "edits": draw(st.lists(st.tuples(st.sampled_from(ORDER),
                                             st.lists(st.integers(0, 60), min_size=5, max_size=5)),
                                   min_size=1, max_size=5))}


def check(case, rec):
    from flatdata.generator.engine import Engine
    s = case["schema"]
    ix = Index(s)
    before = stored(Engine(schema.to_text(s, schema.Style(case["noise"]))), ix)
    fp = fingerprints(ix)
    applied = 0
    for name, picks in case["edits"]:
        t = copy.deepcopy(s)
        state = {"i": 0}

        def take(n):
            state["i"] += 1
            return picks[state["i"] % len(picks)] % n
        try:
            EDITS[name](t, take)
        except Skip:
            rec.label("not applicable")
            continue
        applied += 1
        jx = Index(t)
        after = stored(Engine(schema.to_text(t, schema.Style(case["noise2"]))), jx)
        fp2 = fingerprints(jx)
        changed = kept = 0
        for k in fp:
            if k not in fp2:
                continue
            same = fp[k] == fp2[k]
            kept += same
            changed += not same
            require((before[k] == after[k]) == same,
                    "edit '%s' %s the stored schema of %s\nbefore:\n%s\nafter:\n%s", name,
                    "must not change but changes" if same else "must change but keeps", k, before[k], after[k])
        rec.label(name)
        rec.label("changed", changed)
        rec.label("kept", kept)
    rec.nontrivial(applied > 0)


CHECK = Check(
    "C12",
    "a case is a generated schema and up to four single edits out of %d kinds (rename, retype, resize, reorder, add, remove "
    "fields, enumerators, constants, decorations, resources, references and whole entities), both versions printed with "
    "random spelling. Non-trivial when at least one edit applied. Oracle: a fingerprint of the declarations each resource "
    "and archive depends on; the stored schema must change exactly when the fingerprint does." % len(EDITS),
    [Part("edit", cases, check, 1000, 30000)])
