"""C24: name resolution follows the documented scoping."""
from fv import pylib, schema
from fv.core import Check, Part, require
from hypothesis import strategies as st

from checks.c11 import stored
from checks.c13 import attempt

NS = ["a", "b", "c"]
NAMES = ["a", "b", "c", "d", "X", "Y"]


class Tree:
    """All names of a world: {absolute path: kind}"""

    def __init__(self):
        self.kind = {}
        self.rank = {}

    def add_ns(self, path):
        parts = path.split(".")
        for i in range(1, len(parts) + 1):
            p = "." + ".".join(parts[:i])
            if self.kind.setdefault(p, "ns") != "ns":
                return False
        return True

    def resolve(self, name, scopes):
        if name.startswith("."):
            return name if name in self.kind else None
        for s in scopes:
            if s + "." + name in self.kind:
                return s + "." + name
        return None


@st.composite
def worlds(draw):
    def n(k):
        return draw(st.integers(0, k - 1))
    tree = Tree()
    spaces = []
    for _ in range(2 + n(4)):
        p = ".".join(NS[n(3)] for _ in range(1 + n(3)))
        tree.add_ns(p)
        spaces.append(p)
    blocks = [{"ns": p, "items": [], "nested": n(2)} for p in spaces]
    entities = []
    for k in ["struct", "struct", "const", "enum"] + [["struct", "archive", "archive", "const", "enum"][n(5)]
                                                     for _ in range(3 + n(6))]:
        b = blocks[n(len(blocks))]
        name = NAMES[n(len(NAMES))]
        path = "." + b["ns"] + "." + name
        if path in tree.kind:
            continue
        tree.kind[path] = k
        tree.rank[path] = len(entities)
        item = {"k": k, "name": name}
        inner = []
        for _ in range(1 + n(4)):
            x = NAMES[n(len(NAMES))]
            if x not in inner:
                inner.append(x)
        if k == "const":
            item.update(type="u8", value=len(entities), lit=str(len(entities)))
        elif k == "enum":
            w = 2 + n(3)
            item.update(type="u8", width=w, values=[["V%d" % i, str(i), i] for i in range(2 ** w)])
        elif k == "struct":
            item["fields"] = [{"name": x, "type": "u8", "width": 8, "decs": []} for x in inner]
        else:
            item.update(bound=[], res=[{"name": x, "kind": "raw", "types": [], "width": 0, "decs": []} for x in inner])
        b["items"].insert(n(len(b["items"]) + 1), item)
        for x in inner if k in ("struct", "archive") else ():
            tree.kind[path + "." + x] = "field" if k == "struct" else "resource"
        entities.append((path, b["ns"], item))
    # what is referenced from where
    spelled = {}        # id -> spelling, read by the printer
    facts = {"odd": None, "shadow": 0, "refs": 0, "skip": False}
    odd_at = n(40)

    def spell(where, owner, ns, ok):
        """A spelling for an acceptable target and the target, or None."""
        scopes = ["." + ns] if owner is None else [owner, "." + ns]
        good, bad = [], []
        for p in tree.kind:
            parts = p.split(".")
            for i in range(0, len(parts)):
                sp = ".".join(parts[i:]) if i else p
                got = tree.resolve(sp, scopes)
                if got is not None and ok(got):
                    good.append((sp, got))
                else:
                    bad.append(sp)
        facts["refs"] += 1
        if facts["odd"] is None and facts["refs"] - 1 == odd_at:
            kind = n(6)
            if kind == 0:
                sp = ".".join(NAMES[n(len(NAMES))] for _ in range(1 + n(3)))
            elif kind == 1 and good:
                sp = good[n(len(good))][0]
                sp = [sp + ".", "." + sp, sp + "." + NAMES[n(len(NAMES))], sp.replace(".", "..", 1), sp + "_", sp[:-1] + "q"][n(6)]
            elif bad:
                sp = sorted(set(bad))[n(len(set(bad)))]
            else:
                sp = "nowhere"
            got = tree.resolve(sp, scopes)
            if got is None or not ok(got):
                if got is not None and where in ("dest", "bound") and tree.kind[got] in ("resource", "bound"):
                    facts["skip"] = True
                if where == "archive" and tree.kind.get(got) == "archive" and got != owner:
                    facts["skip"] = True        # a cycle, or not
                if where in ("vector", "multi", "inst", "source") and got is not None and tree.kind[got] == "struct":
                    facts["skip"] = True
                facts["odd"] = (where, sp, tree.kind.get(got))
                return sp, None
            return sp, got
        if not good:
            return None
        # prefer names with several meanings
        targets = [p.rsplit(".", 1)[1] for p in tree.kind]
        rich = [g for g in good if not g[0].startswith(".") and targets.count(g[0].split(".")[-1]) > 1]
        pool = rich if rich and n(3) else good
        sp, got = pool[n(len(pool))]
        if not sp.startswith(".") and any(("." + q + "." + sp in tree.kind or "." + sp in tree.kind) for q in spaces
                                          if "." + q + "." + sp != got):
            facts["shadow"] += 1
        return sp, got

    def kind_is(*kinds):
        return lambda p: tree.kind.get(p) in kinds

    for path, ns, item in entities:
        if item["k"] == "struct":
            for i, f in enumerate(item["fields"]):
                for kind in ("const", "opt"):
                    if n(4) == 0:
                        used = [d[1] for d in f["decs"]]
                        r = spell("const", path, ns, lambda p: kind_is("const")(p) and p not in used)
                        if r:
                            f["decs"].append([kind, r[1]])
                            spelled[(path, i, len(f["decs"]) - 1)] = r[0]
                if not f["decs"] and n(3) == 0:
                    r = spell("enum", path, ns, kind_is("enum"))
                    if r:
                        f["type"], f["width"] = r[1], None
                        spelled[(path, i)] = r[0]
        elif item["k"] == "archive":
            for i, r in enumerate(item["res"]):
                kind = ["vector", "vector", "multi", "inst", "archive", "raw"][n(6)]
                types = []
                for _ in range(1 + n(2) if kind == "multi" else 0 if kind == "raw" else 1):
                    ok = kind_is("struct")
                    if kind == "archive":
                        ok = lambda p: tree.kind.get(p) == "archive" and tree.rank[p] < tree.rank[path]     # noqa: E731
                    got = spell(kind, path, ns, lambda p: ok(p) and p not in [t for _, t in types])
                    if got:
                        types.append(got)
                if kind == "raw" or not types:
                    continue
                r.update(kind=kind, types=[t for _, t in types], width=16 if kind == "multi" else 0)
                for j, (sp, _) in enumerate(types):
                    spelled[(path, i, "type", j)] = sp
            for i, r in enumerate(item["res"]):
                structs = [t for t in r["types"] if r["kind"] != "archive" and t is not None]
                if not structs or n(2):
                    continue
                before = dict(facts)
                src = spell("source", path, ns, lambda p: p in structs)
                if src is None:
                    continue
                if src[1] is not None:
                    fields = next(it for p, _, it in entities if p == src[1])["fields"]
                    fields = [f for f in fields if f["type"] == "u8"]
                    if not fields:
                        facts.update(before)
                        continue
                    field = fields[n(len(fields))]["name"]
                else:
                    field = NAMES[n(len(NAMES))]
                dst = spell("dest", path, ns, lambda p: p.rsplit(".", 1)[0] == path and tree.kind[p] == "resource"
                            and next(x for x in item["res"] if x["name"] == p.rsplit(".", 1)[1])["kind"] in (
                                "vector", "multi", "raw"))
                if dst is None:
                    facts.update(before)        # no reference, whatever its source would have been
                    continue
                # the field is looked up as a path of its own, which has to be the same field
                whole = tree.resolve(src[0] + "." + field, [path, "." + ns])
                if src[1] is not None and whole != src[1] + "." + field:
                    facts["odd"] = facts["odd"] or ("field", src[0] + "." + field, tree.kind.get(whole))
                    if whole is not None and tree.kind[whole] == "field":
                        facts["skip"] = True
                r["decs"].append(["ref", src[1], field, dst[1]])
                spelled[(path, i, "ref")] = (src[0], dst[0])
            own = [r["name"] for r in item["res"] if r["kind"] == "vector"]
            if own and n(3) == 0:
                names = []
                for _ in range(1 + n(2)):
                    got = spell("bound", path, ns, lambda p: p.rsplit(".", 1)[0] == path and p.rsplit(".", 1)[1] in own
                                and tree.kind[p] == "resource" and p not in [t for _, t in names])
                    if got:
                        names.append(got)
                name = "bound_%s" % item["name"]
                if names:
                    item["bound"].append([name, [t and t.rsplit(".", 1)[1] for _, t in names]])
                    spelled[(path, "bound")] = [sp for sp, _ in names]
    return {"blocks": blocks, "spelled": sorted(spelled.items(), key=repr), "odd": facts["odd"], "skip": facts["skip"],
            "shadow": facts["shadow"], "refs": len(spelled)}


def to_text(case):
    sp = dict((tuple(k), v) for k, v in case["spelled"])
    out = []
    for b in case["blocks"]:
        parts = b["ns"].split(".")
        out += ["namespace %s {" % p for p in parts] if b["nested"] else ["namespace %s {" % b["ns"]]
        for item in b["items"]:
            path = "." + b["ns"] + "." + item["name"]
            if item["k"] == "const":
                out.append("const u8 %s = %s;" % (item["name"], item["lit"]))
            elif item["k"] == "enum":
                out.append("enum %s : u8 : %d { %s }" % (item["name"], item["width"], ", ".join(
                    "%s = %s" % (v[0], v[1]) for v in item["values"])))
            elif item["k"] == "struct":
                out.append("struct %s {" % item["name"])
                for i, f in enumerate(item["fields"]):
                    for j, d in enumerate(f["decs"]):
                        out.append("@%s( %s )" % ({"const": "const", "opt": "optional"}[d[0]], sp[(path, i, j)]))
                    if (path, i) in sp:
                        out.append("%s : %s;" % (f["name"], sp[(path, i)]))
                    else:
                        out.append("%s : u8 : 8;" % f["name"])
                out.append("}")
            else:
                for name, _ in item["bound"]:
                    out.append("@bound_implicitly( %s : %s )" % (name, ", ".join(sp[(path, "bound")])))
                out.append("archive %s {" % item["name"])
                for i, r in enumerate(item["res"]):
                    for d in r["decs"]:
                        src, dst = sp[(path, i, "ref")]
                        out.append("@explicit_reference( %s.%s, %s )" % (src, d[2], dst))
                    ts = [sp[(path, i, "type", j)] for j in range(len(r["types"]))]
                    out.append("%s : %s;" % (r["name"], {
                        "raw": "raw_data", "vector": "vector< %s >", "inst": "%s", "archive": "archive %s",
                        "multi": "multivector< 16, %s >"}[r["kind"]] % ((", ".join(ts),) if ts else ())))
                out.append("}")
        out += ["}"] * (len(parts) if b["nested"] else 1)
    return "\n".join(out) + "\n"


def chunks(text):
    return sorted(c.strip() for c in text.split("}\n\n") if c.strip())


def check(case, rec):
    from flatdata.generator.engine import Engine
    if case["skip"]:
        rec.label("skipped: accepted although unusual")
        return
    text = to_text(case)
    if case["odd"]:
        where, spelling, kind = case["odd"]
        error = attempt(text)
        require(error is not None, "%s in place of a %s names %s, but is accepted in\n%s", spelling, where,
                "nothing" if kind is None else "a " + kind, text)
        rec.label("rejected %s: %s" % (where, "missing" if kind is None else "wrong kind"))
        rec.nontrivial(True)
        return
    ix = schema.Index({"blocks": case["blocks"]})
    engine = Engine(text)
    got, want = chunks(engine.render("flatdata")), chunks(schema.normalized(ix))
    require(got == want, "resolved as\n%s\nexpected\n%s\nof\n%s", "\n".join(g for g in got if g not in want),
            "\n".join(w for w in want if w not in got), text)
    texts = stored(engine, ix)
    for a in ix.of("archive"):
        require(chunks(texts[a]) == chunks(schema.archive_schema(ix, a)), "the schema stored for %s is\n%s\nexpected\n%s", a,
                texts[a], schema.archive_schema(ix, a))
    rec.label("accepted")
    if case["shadow"]:
        rec.label("a name with other meanings elsewhere")
    rec.nontrivial(case["refs"] > 2)


CHECK = Check(
    "C24",
    "a case is a generated tree of nested and reopened namespaces in which entities, fields, resources and namespaces share six "
    "names, with references in every position (enumeration and constant of a field, element types, instances, sub-archives, source and "
    "target of explicit references, bound resources), each spelled as any absolute or relative path that means an acceptable "
    "target, and in a third of the cases one that means nothing or something else. Oracle: a scoping model over the set of all "
    "paths; the normalized schema, which prints absolute paths, has to show the targets of the model, and a bad name has to be "
    "rejected by a syntax error. Non-trivial when there are more than two references or a rejection.",
    [Part("scopes", worlds, check, 6000, 150000)],
    assumptions=["names of ranges and bound resources are not referenced"])
