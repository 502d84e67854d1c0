"""C27: diagrams show every archive, resource, structure, field and reference."""
import json
import re
import subprocess
from xml.etree import ElementTree

from fv import gen, schema
from fv.core import CaseViolation, Check, Custom, Part, Violation, guarded, require, show
from hypothesis import strategies as st

from checks.c11 import COMMENTS

CLASS = {"vector": "Vector", "multi": "Multivector", "inst": "Instance", "raw": "RawData", "archive": "Archive"}
MARKUP = COMMENTS + ["/* <b> & </b> \" -> } ] ; */", "// \\N \\G \" <td>\n", "/* --> ]]> <!-- */", "/** {{ x }} {% if %} **/"]


@st.composite
def cases(draw):
    opt = gen.Opt(cross_refs=draw(st.integers(0, 7)) == 0, ref_odds=draw(st.integers(1, 3)), max_resources=5,
                  ref_targets=("vector", "multi", "raw", "inst"))
    return {"schema": draw(gen.schemas(opt)), "noise": draw(gen.noise)}


def graph_of(text):
    """The graph as the dot language reads it."""
    p = subprocess.run(["dot", "-Tdot_json"], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    err = p.stderr.decode("utf-8", "replace")
    if p.returncode or re.search(r"syntax error|Error:", err):
        raise Violation("dot rejects the graph: %s\n%s" % (err[:500], text[:3000]))
    return json.loads(p.stdout.decode("utf-8", "replace"), strict=False)


def lines_of(label):
    """Text of an HTML like label: one string per line or table cell."""
    try:
        root = ElementTree.fromstring("<x>%s</x>" % label)
    except ElementTree.ParseError as exc:
        raise Violation("label is no markup: %s\n%s" % (exc, label)) from exc
    cells = root.findall(".//td")
    if cells:
        return [("".join(c.itertext()).strip(), c.get("port")) for c in cells]
    out = [""]

    def walk(e):
        out[-1] += e.text or ""
        for c in e:
            if c.tag == "br":
                out.append("")
            else:
                walk(c)
            out[-1] += c.tail or ""
    walk(root)
    return [(o.strip(), None) for o in out]


class Shown:
    """What a graph shows: {archive path: {resource name: Res}} and the edges between resources."""

    def __init__(self, graph):
        objects = {o["_gvid"]: o for o in graph.get("objects", [])}
        self.archives, self.node_at, self.ports = {}, {}, {}
        children = {c for o in objects.values() for c in o.get("subgraphs", [])}
        for gid, o in objects.items():
            if "subgraphs" in o or o["name"].startswith("cluster"):
                if gid not in children:
                    self.walk(objects, o, "")
        self.edges = []
        for e in graph.get("edges", []):
            t, h = objects[e["tail"]], objects[e["head"]]
            port = (e.get("tailport") or "").split(":")[0]
            self.edges.append((self.node_at.get(e["tail"]), (e["tail"], port), self.node_at.get(e["head"]), e.get("lhead"),
                               t["name"], h["name"]))

    def walk(self, objects, cluster, path):
        lines = [t for t, _ in lines_of(cluster["label"])]
        if len(lines) > 1 and lines[1] in list(CLASS.values()) + ["BoundResource"]:
            res = {"kind": lines[1], "optional": "optional" in lines[2:], "structs": {}, "cluster": cluster["name"]}
            # an archive is what holds resources
            known = self.archives.setdefault(path, {})
            require(lines[0] not in known, "resource %s of %s is shown twice", lines[0], path)
            known[lines[0]] = res
            for n in cluster.get("nodes", []):
                require(n not in self.node_at, "a node is part of two resources")
                self.node_at[n] = (path, lines[0])
                rows = lines_of(objects[n]["label"]) if objects[n].get("label") else []
                if rows:
                    res["structs"].setdefault(rows[0][0], []).append([r for r, _ in rows[1:]])
                    for r, p in rows[1:]:
                        self.ports[(n, p)] = (path, lines[0], rows[0][0], r.split(":")[0])
            return
        path = path + "." + lines[0]
        if cluster.get("penwidth") == "1":
            self.archives.setdefault(path, {})
        for g in cluster.get("subgraphs", []):
            self.walk(objects, objects[g], path)


def type_names(ix, struct, f):
    if f["type"] in schema.WIDTH:
        return {f["type"]}
    ns = "." + ix.ns[struct]
    out = {f["type"], f["type"][1:]}
    if f["type"].startswith(ns + "."):
        out.add(f["type"][len(ns) + 1:])
    return out


def check(case, rec):
    from flatdata.generator.engine import Engine
    s = case["schema"]
    ix = schema.Index(s)
    text = Engine(schema.to_text(s, schema.Style(case["noise"], comments=MARKUP))).render("dot")
    shown = Shown(graph_of(text))
    for a in ix.of("archive"):
        if ix.items[a]["res"]:
            require(a in shown.archives, "archive %s is not in the diagram, only %s", a, sorted(shown.archives))
    require(set(shown.archives) <= set(ix.of("archive")), "the diagram shows archives %s", sorted(shown.archives))
    edges = []
    for a in ix.of("archive"):
        item = ix.items[a]
        got = shown.archives.get(a, {})
        groups = {r["name"]: [n for n, rs in item["bound"] if r["name"] in rs] for r in item["res"]}
        want = {r["name"] for r in item["res"] if not groups[r["name"]]} | {n for n, _ in item["bound"]}
        require(set(got) == want, "archive %s shows the resources %s, expected %s", a, sorted(got), sorted(want))
        for r in item["res"]:
            for place in groups[r["name"]] or [r["name"]]:
                g = got[place]
                if not groups[r["name"]]:
                    require(g["kind"] == CLASS[r["kind"]], "%s.%s is shown as %s", a, place, g["kind"])
                    require(g["optional"] == (["optional"] in r["decs"]), "%s.%s: optional is shown as %s", a, place,
                            g["optional"])
                for t in r["types"] if r["kind"] != "archive" else ():
                    st_ = ix.items[t]
                    tables = g["structs"].get(st_["name"])
                    require(tables is not None, "%s.%s does not show structure %s but %s", a, place, t, sorted(g["structs"]))

                    def matches(rows):
                        return len(rows) == len(st_["fields"]) and all(
                            row in {"%s:%s:%d" % (f["name"], n, ix.field_type(f)[1]) for n in type_names(ix, t, f)}
                            for row, f in zip(rows, st_["fields"]))
                    require(any(matches(rows) for rows in tables), "%s.%s shows %s as\n%s\nexpected\n%s", a, place, t,
                            show(tables), show([(f["name"], f["type"], ix.field_type(f)[1]) for f in st_["fields"]]))
                for d in r["decs"]:
                    if d[0] != "ref":
                        continue
                    da, dn = d[3].rsplit(".", 1)
                    for dest in [n for n, rs in ix.items[da]["bound"] if dn in rs] or [dn]:
                        edges.append((a, place, ix.items[d[1]]["name"], d[2], da, dest))
        # nothing but what the resources use
        for name, g in got.items():
            if g["kind"] in ("Vector", "Instance", "RawData", "Archive"):
                r = next(r for r in item["res"] if r["name"] == name)
                n = sum(len(v) for v in g["structs"].values())
                require(n == (1 if r["kind"] in ("vector", "inst") else 0), "%s.%s shows structures %s", a, name,
                        sorted(g["structs"]))
    found = []
    for tail, port, head, lhead, tn, hn in shown.edges:
        require(tail is not None and head is not None, "an edge from %s to %s does not connect resources", tn, hn)
        require(port in shown.ports, "an edge from %s leaves no field (port %s)", tn, port[1])
        origin = shown.ports[port]
        found.append(origin + head)
        require(lhead is None or lhead == shown.archives[head[0]][head[1]]["cluster"], "an edge to %s ends at cluster %s", head,
                lhead)
    require(sorted(found) == sorted(edges), "edges of the diagram\n%s\nexpected\n%s", show(sorted(found)), show(sorted(edges)))
    rec.label("edges", len(edges))
    if any(ix.items[a]["bound"] for a in ix.of("archive")):
        rec.label("bound resources")
    rec.nontrivial(any(ix.items[a]["res"] for a in ix.of("archive")))


def findings(rec, tier, seed, shard, nshards):
    """The listed finding, on a fixed input."""
    def archive(name, res):
        return {"k": "archive", "name": name, "bound": [],
                "res": [{"name": res, "kind": "raw", "types": [], "width": 0, "decs": []}]}
    case = {"schema": {"blocks": [{"ns": "n", "items": [archive("A", "b_c"), archive("A_b", "c")]}]}, "noise": []}
    rec.begin(case)
    try:
        guarded(check, case, rec, 60)
    except Violation as v:
        if v.foreign:
            raise CaseViolation(str(v), case) from v
        rec.known("K02", str(v)[:300])


CHECK = Check(
    "C27",
    "a case is a generated schema with archives, bound resources, references and comments full of markup, rendered by the dot "
    "backend and read back by graphviz itself (dot -Tdot_json). Oracle: the clusters, labels, tables, ports and edges of the parsed "
    "graph against the schema: archives under their namespaces, resources with kind and optionality (bound ones as their group), "
    "structures with all fields, types and widths, one edge per explicit reference from its field to its destination. "
    "Non-trivial when some archive has resources.",
    [Part("graphs", cases, check, 2000, 40000),
     Custom("findings", findings, lambda case, rec: findings(rec, "quick", 0, 0, 1))],
    assumptions=["paths that differ only by underscores in place of dots are not generated (K02)"])
