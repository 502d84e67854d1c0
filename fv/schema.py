"""Reference model of flatdata schemas, independent of the generator under test.

A schema is a plain literal:

  {"blocks": [{"ns": "a.b", "items": [item, ...]}, ...]}

  item = {"k": "const", "name", "type", "value", "lit"}
       | {"k": "enum", "name", "type", "width": int|None, "values": [[name, literal|None, value], ...]}
       | {"k": "struct", "name", "fields": [field, ...]}
       | {"k": "archive", "name", "bound": [[name, [resource, ...]], ...], "res": [resource, ...]}
  field = {"name", "type": basic type or ".a.b.E", "width": int|None, "decs": [dec, ...]}
  dec = ["range", name] | ["const", ".a.C"] | ["opt", ".a.C"]
  resource = {"name", "kind": vector|multi|inst|raw|archive, "types": [".a.S", ...], "width": int,
              "decs": [["optional"] | ["ref", ".a.S", field, ".a.X.res"], ...]}

All references are absolute paths; the printer decides how to spell them.
"""

WIDTH = {"bool": 1, "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64}
BASIC = list(WIDTH)


def is_signed(t):
    return t[0] == "i"


def bounds(t, width):
    # a one-bit field is a flag in every backend: it reads 0 or 1, whatever the sign of its type
    if is_signed(t) and width > 1:
        return -(1 << (width - 1)), (1 << (width - 1)) - 1
    return 0, (1 << width) - 1


class Index:
    """Looks entities up by absolute path."""

    def __init__(self, schema):
        self.schema = schema
        self.items = {}
        self.ns = {}
        self.order = []
        for block in schema["blocks"]:
            for item in block["items"]:
                path = "." + block["ns"] + "." + item["name"]
                self.items[path] = item
                self.ns[path] = block["ns"]
                self.order.append(path)

    def of(self, kind):
        return [p for p in self.order if self.items[p]["k"] == kind]

    def field_type(self, field):
        """(basic type name, width, enum path or None)"""
        if field["type"] in WIDTH:
            return field["type"], field["width"] if field["width"] is not None else WIDTH[field["type"]], None
        e = self.items[field["type"]]
        return e["type"], e["width"] if e["width"] is not None else WIDTH[e["type"]], field["type"]

    def layout(self, struct_path):
        """[(name, offset, width, signed, basic type, enum path)], size in bits"""
        out, offset = [], 0
        for f in self.items[struct_path]["fields"]:
            t, w, e = self.field_type(f)
            out.append((f["name"], offset, w, is_signed(t), t, e))
            offset += w
        return out, offset

    def size_bytes(self, struct_path):
        return (self.layout(struct_path)[1] + 7) // 8

    def const_value(self, path):
        return self.items[path]["value"]

    def has_range(self, struct_path):
        return any(d[0] == "range" for f in self.items[struct_path]["fields"] for d in f["decs"])

    def referenced_constants(self):
        out = set()
        for p in self.of("struct"):
            for f in self.items[p]["fields"]:
                for d in f["decs"]:
                    if d[0] in ("const", "opt"):
                        out.add(d[1])
        return out


# --------------------------------------------------------------------------------------------
# printing, with variation in whitespace, comments and reference spelling

PLAIN_COMMENTS = ["// c\n", "/* no archive { */", "/** doc\n * archive struct\n */", "/// doc line\n"]


class Style:
    """Consumes a list of small ints (drawn by the generator) to vary the text."""

    def __init__(self, noise=(), comments=PLAIN_COMMENTS, qualify=True):
        self.noise = list(noise)
        self.i = 0
        self.comments = comments
        self.qualify = qualify

    def take(self, n):
        if not self.noise:
            return 0
        v = self.noise[self.i % len(self.noise)] + self.i // len(self.noise)
        self.i += 1
        return v % n

    def ws(self):
        return ["", " ", "\n", "  \t"][self.take(4)]

    def doc(self):
        """Optional single comment before a declaration (the grammar allows one)."""
        if not self.noise or not self.comments:
            return ""
        k = self.take(3)
        return self.comments[self.take(len(self.comments))] + "\n" if k == 1 else ""


def spell(path, ns, style, scope_names=()):
    """Spell an absolute path as seen from namespace ns; local if possible and the style says so."""
    prefix = "." + ns + "."
    if path.startswith(prefix) and style.take(2) == 0 and style.qualify is not None:
        local = path[len(prefix):]
        if local.split(".")[0] not in scope_names:
            return local
    return path


def to_text(schema, style=None):
    st = style or Style()
    out = []
    w = out.append
    sp = st.ws
    for block in schema["blocks"]:
        ns = block["ns"]
        w(st.doc() if not out else "")
        w("namespace%s %s%s{\n" % (sp(), ns, " " + sp()))
        for item in block["items"]:
            k = item["k"]
            w(st.doc())
            if k == "const":
                w("const %s%s %s%s=%s%s;\n" % (item["type"], sp(), item["name"], sp(), sp(),
                                             item.get("lit") or str(item["value"])))
            elif k == "enum":
                width = "" if item["width"] is None else "%s:%s%d" % (sp(), sp(), item["width"])
                w("enum %s%s:%s %s%s {\n" % (item["name"], sp(), sp(), item["type"], width))
                vs = item["values"]
                for i, (name, lit, _) in enumerate(vs):
                    w("  " + st.doc())
                    comma = "," if i + 1 < len(vs) or st.take(2) else ""
                    w("%s%s%s\n" % (name, "" if lit is None else "%s=%s%s" % (sp(), sp(), lit), comma))
                w("}\n")
            elif k == "struct":
                names = [f["name"] for f in item["fields"]]
                w("struct %s%s{\n" % (item["name"], sp()))
                for f in item["fields"]:
                    w("  " + st.doc())
                    for d in f["decs"]:
                        if d[0] == "range":
                            w("@range%s(%s%s )\n" % (sp(), sp(), d[1]))
                        elif d[0] == "const":
                            w("@const( %s )\n" % spell(d[1], ns, st, names))
                        elif d[0] == "opt":
                            w("@optional( %s )\n" % spell(d[1], ns, st, names))
                    t = f["type"] if f["type"] in WIDTH else spell(f["type"], ns, st, names)
                    width = "" if f["width"] is None else "%s:%s%d" % (sp(), sp(), f["width"])
                    w("%s%s:%s %s%s;\n" % (f["name"], sp(), sp(), t, width))
                w("}\n")
            elif k == "archive":
                names = [r["name"] for r in item["res"]] + [b[0] for b in item["bound"]]
                own = "." + ns + "." + item["name"] + "."

                def rpath(p):
                    # resources of the own archive may be named without the archive
                    if p.startswith(own) and st.take(2) == 0:
                        return p[len(own):]
                    return spell(p, ns, st, names)
                for name, rs in item["bound"]:
                    w("@bound_implicitly(%s%s%s:%s%s )\n" % (sp(), name, sp(), sp(), ", ".join(
                        rpath(own + r) for r in rs)))
                w("archive %s%s{\n" % (item["name"], sp()))
                for r in item["res"]:
                    w("  " + st.doc())
                    for d in r["decs"]:
                        if d[0] == "optional":
                            w("@optional\n")
                        else:
                            w("@explicit_reference(%s%s.%s,%s %s )\n" % (
                                sp(), spell(d[1], ns, st, names), d[2], sp(), rpath(d[3])))
                    ts = [spell(t, ns, st, names) for t in r["types"]]
                    kind = r["kind"]
                    body = {"vector": lambda: "vector%s<%s%s%s>" % (sp(), sp(), ts[0], " " + sp()),
                            "multi": lambda: "multivector<%s%d,%s%s >" % (sp(), r["width"], sp(), ", ".join(ts)),
                            "inst": lambda: ts[0], "raw": lambda: "raw_data",
                            "archive": lambda: "archive %s%s" % (sp(), ts[0])}[kind]()
                    w("%s%s:%s %s%s;\n" % (r["name"], sp(), sp(), body, sp()))
                w("}\n")
        w("}\n")
    return "".join(out)


# --------------------------------------------------------------------------------------------
# reference normalisation: the text the stored schemas must have (the storage format compares it
# verbatim, so archives written by one release are readable by another only if it never changes)

def _open(ns):
    return "".join("namespace %s {\n" % n for n in ns.split("."))


def _close(ns):
    return "".join("}\n" for n in ns.split("."))


def _decl_const(item):
    return "const %s %s = %d;\n" % (item["type"], item["name"], item["value"])


def _decl_enum(item):
    width = item["width"] if item["width"] is not None else WIDTH[item["type"]]
    return "enum %s : %s : %d\n{\n%s}\n" % (
        item["name"], item["type"], width, "".join("    %s = %d,\n" % (n, v) for n, _, v in item["values"]))


def _decl_struct(ix, item):
    out = []
    for f in item["fields"]:
        ranges = [d[1] for d in f["decs"] if d[0] == "range"]
        if ranges:
            out.append("    @range( %s )\n" % ranges[0])
        for d in f["decs"]:
            if d[0] == "const":
                out.append("    @const( %s )\n" % d[1])
        opts = [d[1] for d in f["decs"] if d[0] == "opt"]
        if opts:
            out.append("    @optional( %s )\n" % opts[0])
        _, w, _ = ix.field_type(f)
        out.append("    %s : %s : %d;\n" % (f["name"], f["type"], w))
    return "struct %s\n{\n%s}\n" % (item["name"], "".join(out))


def _decl_resource(r):
    out = []
    for d in r["decs"]:
        if d[0] == "ref":
            out.append("    @explicit_reference( %s.%s, %s )\n" % (d[1], d[2], d[3]))
    if any(d[0] == "optional" for d in r["decs"]):
        out.append("    @optional\n")
    kind = {"vector": "vector< %s >", "inst": "%s", "archive": "archive %s", "raw": "raw_data%s",
            "multi": "multivector< " + str(r.get("width")) + ", %s >"}[r["kind"]] % ", ".join(r["types"])
    out.append("    %s : %s;\n" % (r["name"], kind))
    return "".join(out)


def _decl_archive(path, item, only=None):
    out = []
    if only is None:
        for name, rs in item["bound"]:
            out.append("@bound_implicitly( %s : %s )\n" % (name, ", ".join(path + "." + r for r in rs)))
    out.append("archive %s\n{\n" % item["name"])
    for r in item["res"]:
        if only is None or r["name"] == only:
            out.append(_decl_resource(r))
    out.append("}\n")
    return "".join(out)


def _deps(ix, path, out, seen, only=None):
    """Post-order dependency closure of one entity, in the order references appear."""
    item = ix.items[path]
    if only is None:
        if path in seen:
            return
        seen.add(path)
    if item["k"] == "struct":
        for f in item["fields"]:
            for kind in ("const", "opt"):      # the order of decorations has no meaning
                for d in f["decs"]:
                    if d[0] == kind:
                        _deps(ix, d[1], out, seen)
            if f["type"] not in WIDTH:
                _deps(ix, f["type"], out, seen)
    elif item["k"] == "archive":
        for r in item["res"]:
            if only is not None and r["name"] != only:
                continue
            for d in r["decs"]:
                if d[0] == "ref":
                    _deps(ix, d[1], out, seen)
            for t in r["types"]:
                _deps(ix, t, out, seen)
        if only is None:
            used = ix.referenced_constants()
            for c in constants_in_order(ix):
                if c not in used:
                    _deps(ix, c, out, seen)
    out.append(path)


def constants_in_order(ix):
    """Unreferenced constants are listed in declaration order."""
    return ix.of("const")


_RANK = {"const": 0, "struct": 1, "enum": 2, "archive": 3}


def tree_order(ix):
    """Pre-order of entities in the merged namespace tree."""
    root = {}

    def node(parts):
        cur = root
        for p in parts:
            cur = cur.setdefault(("ns", p), {})
        return cur
    for block in ix.schema["blocks"]:
        cur = node(block["ns"].split("."))
        for item in sorted(block["items"], key=lambda i: _RANK[i["k"]]):
            cur[("item", item["name"])] = "." + block["ns"] + "." + item["name"]
    out = []

    def walk(n):
        for (kind, _), v in n.items():
            if kind == "ns":
                walk(v)
            else:
                out.append(v)
    walk(root)
    return out


def _render(ix, paths, archive=None, only=None):
    out = []
    for p in paths:
        item = ix.items[p]
        ns = ix.ns[p]
        if item["k"] == "const":
            body = _decl_const(item)
        elif item["k"] == "enum":
            body = _decl_enum(item)
        elif item["k"] == "struct":
            body = _decl_struct(ix, item)
        else:
            body = _decl_archive(p, item, only if p == archive else None)
        out.append(_open(ns) + body + _close(ns) + "\n")
    return "".join(out)


def normalized(schema):
    """Normalized text of a whole schema."""
    ix = schema if isinstance(schema, Index) else Index(schema)
    out, seen = [], set()
    for p in tree_order(ix):
        _deps(ix, p, out, seen)
    return _render(ix, out)


def entity_schema(ix, path):
    out = []
    _deps(ix, path, out, set())
    return _render(ix, out)


def archive_schema(ix, path):
    return entity_schema(ix, path)


def resource_schema(ix, archive_path, resource):
    out = []
    _deps(ix, archive_path, out, set(), only=resource)
    return _render(ix, out, archive_path, resource)
