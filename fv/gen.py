"""Hypothesis strategies for schemas (fv.schema literals) and archive data."""
from . import env  # noqa: F401  (import path)
from hypothesis import strategies as st

from .schema import BASIC, WIDTH, Index, bounds, is_signed

_FIELD = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "mu", "nu",
          "x1", "y_2", "z_coord", "first_edge_ref", "node_id", "_lead", "trail_", "mixedCase", "UPPER"]
_NS = ["ns", "nsa", "nsb", "outer", "inner", "geo", "_builtins", "_ns"]
_RES = ["vertices", "edges", "names", "meta", "tags", "chunks", "strings", "info", "child", "extra", "roads", "lanes"]


RUST = dict(unique_multi=True)     # known finding K04: multivectors of one name in one namespace collide


class Opt:
    """What a generated schema may contain."""

    def __init__(self, **kw):
        self.max_blocks = 3
        self.nested_ns = True
        self.max_structs = 4
        self.max_fields = 7
        self.max_archives = 3
        self.max_resources = 6
        self.max_enums = 3
        self.max_consts = 4
        self.enums = True
        self.ranges = True
        self.opts = True
        self.refs = True
        self.cross_refs = False     # explicit references into another archive
        self.bound = True
        self.subarchives = True
        self.multi = True
        self.optional = True
        self.min_archives = 1
        self.bool_enums = True
        self.ref_targets = ("vector", "multi", "raw")
        self.one_root = False
        self.max_enum_width = 8
        self.multi_widths = None
        self.enum_types = [t for t in BASIC]
        self.field_names = _FIELD
        self.pub_empty_archives = True
        self.range_types = [t for t in BASIC if t != "bool"]
        self.optional_archives = True
        self.res_names = _RES
        self.range_odds = 8         # one field in so many starts a range
        self.ref_odds = 3           # one resource in so many has explicit references
        self.unique_multi = False   # no two multivectors of one name
        self.opt_odds = 1           # of 6 constants that fit, so many make a field optional
        self.same_names = True      # things in different namespaces may have one name
        self.__dict__.update(kw)


def int_in(draw, lo, hi):
    return draw(st.integers(lo, hi))


def boundary_int(lo, hi):
    """Integers in [lo, hi], biased to the extremes and to single-bit patterns."""
    special = sorted({v for v in (lo, hi, 0, -1, 1, lo + 1, hi - 1, hi // 2, hi // 3) if lo <= v <= hi})
    return st.one_of(st.sampled_from(special), st.integers(lo, hi))


def literal(draw, value):
    kind = draw(st.integers(0, 3))
    s = "-" if value < 0 else ""
    if kind == 0:
        return "%s0x%x" % (s, abs(value))
    if kind == 1:
        return "%s0x%04X" % (s, abs(value))
    return str(value)


def pick(draw, seq):
    return seq[draw(st.integers(0, len(seq) - 1))]


@st.composite
def enums(draw, name, opt):
    t = pick(draw, opt.enum_types)
    cap = min(WIDTH[t], opt.max_enum_width)
    width = draw(st.integers(2 if is_signed(t) else 1, cap))
    if width == WIDTH[t] and draw(st.booleans()):
        w = None
    else:
        w = width
    lo, hi = bounds(t, width)
    if width > 8:
        # at least half of the values, give or take 256, have to be named
        n = (2 ** width - 256) // 2 + draw(st.integers(0, 3))
        start = draw(boundary_int(lo, hi - n + 1))
        return {"k": "enum", "name": name, "type": t, "width": w, "values": [
            ["V%s_%d" % (name, i), literal(draw, start) if i == 0 else None, start + i] for i in range(n)]}
    n_max = min(hi - lo + 1, 12)
    n = draw(st.integers(1, n_max))
    values, used, cur = [], set(), 0
    for i in range(n):
        implicit_ok = lo <= cur <= hi and cur not in used
        if implicit_ok and draw(st.booleans()):
            v, lit = cur, None
        else:
            v = draw(boundary_int(lo, hi))
            if v in used:
                free = [x for x in range(lo, hi + 1) if x not in used]
                v = free[v % len(free)]
            lit = literal(draw, v)
        used.add(v)
        values.append(["V%s_%d" % (name, i), lit, v])
        cur = v + 1
    return {"k": "enum", "name": name, "type": t, "width": w, "values": values}


@st.composite
def schemas(draw, opt=None):
    opt = opt or Opt()
    n_blocks = draw(st.integers(1, opt.max_blocks))
    namespaces = []
    for i in range(n_blocks):
        if opt.one_root:
            base = "root"
        else:
            base = pick(draw, _NS)
        depth = draw(st.integers(0, 2)) if opt.nested_ns and draw(st.booleans()) else 0
        namespaces.append(".".join([base] + ["in%d" % d for d in range(depth)]))
    blocks = [{"ns": ns, "items": []} for ns in namespaces]
    counter = {"n": 0}

    def fresh(prefix):
        counter["n"] += 1
        return "%s%d" % (prefix, counter["n"])

    def put(item):
        b = pick(draw, blocks)
        if opt.same_names and draw(st.integers(0, 3)) == 0:
            # like something of its kind in another namespace
            used = {x["name"] for o in blocks if o["ns"] == b["ns"] for x in o["items"]}
            names = sorted({x["name"] for o in blocks for x in o["items"] if x["k"] == item["k"]} - used)
            if names:
                item["name"] = pick(draw, names)
        b["items"].append(item)
        return "." + b["ns"] + "." + item["name"]

    consts, enum_paths, structs, archives = [], [], [], []   # (path, item)
    for _ in range(draw(st.integers(0, opt.max_consts))):
        # constants often share a type (and then have other values, small enough for narrow fields too)
        t = pick(draw, consts)[1]["type"] if consts and draw(st.booleans()) else pick(draw, BASIC)
        lo, hi = bounds(t, WIDTH[t])
        v = draw(boundary_int(lo, hi))
        if draw(st.integers(0, 2)) == 0:
            v = draw(st.integers(max(lo, -8), min(hi, 7)))
        item = {"k": "const", "name": fresh("K"), "type": t, "value": v, "lit": literal(draw, v)}
        consts.append((put(item), item))
    if opt.enums:
        for _ in range(draw(st.integers(0, opt.max_enums))):
            item = draw(enums(fresh("E"), opt))
            enum_paths.append((put(item), item))
    const_used = set()
    for _ in range(draw(st.integers(1, opt.max_structs))):
        fields = []
        n_fields = draw(st.integers(1, opt.max_fields))
        names = draw(st.lists(st.sampled_from(opt.field_names), min_size=n_fields, max_size=n_fields, unique=True))
        for fname in names:
            if enum_paths and draw(st.integers(0, 3)) == 0:
                path, e = pick(draw, enum_paths)
                ew = e["width"] if e["width"] is not None else WIDTH[e["type"]]
                fields.append({"name": fname, "type": path,
                               "width": ew if draw(st.booleans()) else None, "decs": []})
                continue
            t = pick(draw, consts)[1]["type"] if consts and draw(st.integers(0, 2)) == 0 else pick(draw, BASIC)
            w = None if draw(st.integers(0, 3)) == 0 else draw(st.integers(1, WIDTH[t]))
            decs = []
            width = WIDTH[t] if w is None else w
            lo, hi = (0, 0) if width == 1 and is_signed(t) else bounds(t, width)
            fit = [(p, c) for p, c in consts if c["type"] == t and lo <= c["value"] <= hi]
            if fit and opt.opts:
                for p, _c in fit:
                    r = draw(st.integers(0, 5))
                    if r < opt.opt_odds and not any(d[0] == "opt" for d in decs):
                        decs.append(["opt", p])
                    elif r in (1, 2):
                        decs.append(["const", p])
            if (opt.ranges and t in opt.range_types and not any(d[0] == "opt" for d in decs)
                    and draw(st.integers(1, opt.range_odds)) == 1):
                decs.insert(draw(st.integers(0, len(decs))), ["range", fname + "_rng"])
            for d in decs:
                if d[0] != "range":
                    const_used.add(d[1])
            fields.append({"name": fname, "type": t, "width": w, "decs": decs})
        item = {"k": "struct", "name": fresh("S"), "fields": fields}
        structs.append((put(item), item))
    plain = [(p, s) for p, s in structs if not any(d[0] == "range" for f in s["fields"] for d in f["decs"])]
    multi_used = set()
    # now and then every archive holds the one before it, so that archives are nested deeply
    chain = opt.subarchives and opt.max_archives > 1 and opt.max_resources and draw(st.integers(0, 4)) == 0
    for _ in range(draw(st.integers(3, 4)) if chain else draw(st.integers(opt.min_archives, opt.max_archives))):
        n_res = draw(st.integers(0 if opt.pub_empty_archives and not chain else 1, min(3, opt.max_resources) if chain else
                                 opt.max_resources))
        names = draw(st.lists(st.sampled_from(opt.res_names), min_size=n_res, max_size=n_res, unique=True))
        res = []
        for rname in names:
            kinds = ["vector", "vector", "raw"]
            if plain:
                kinds += ["inst"]
                if opt.multi and not (opt.unique_multi and rname in multi_used):
                    kinds += ["multi", "multi"]
            if archives and opt.subarchives and not chain:
                kinds += ["archive"]
            kind = "archive" if chain and archives and not res else pick(draw, kinds)
            types, width = [], 0
            if kind == "multi":
                multi_used.add(rname)
            if kind == "vector":
                types = [pick(draw, structs)[0]]
            elif kind == "inst":
                types = [pick(draw, plain)[0]]
            elif kind == "multi":
                types = draw(st.lists(st.sampled_from([p for p, _ in plain]), min_size=1, max_size=3, unique=True))
                width = pick(draw, opt.multi_widths) if opt.multi_widths else draw(
                    st.one_of(st.sampled_from([8, 16, 32, 33, 40, 64]), st.integers(4, 64)))
            elif kind == "archive":
                types = [archives[-1][0] if chain else pick(draw, archives)[0]]
            decs = []
            if opt.optional and (kind != "archive" or opt.optional_archives) and draw(st.integers(0, 2)) == 0:
                decs.append(["optional"])
            res.append({"name": rname, "kind": kind, "types": types, "width": width, "decs": decs})
        item = {"k": "archive", "name": fresh("A"), "bound": [], "res": res}
        path = put(item)
        by_path = dict(structs)
        if opt.refs:
            targets = [path + "." + r["name"] for r in res if r["kind"] in opt.ref_targets]
            if opt.cross_refs:
                targets += [p + "." + r["name"] for p, a in archives for r in a["res"] if r["kind"] in opt.ref_targets]
            for r in res:
                if r["kind"] in ("vector", "inst", "multi") and targets and draw(st.integers(1, opt.ref_odds)) == 1:
                    seen = set()
                    for _ in range(draw(st.integers(1, 2))):
                        sp = pick(draw, r["types"])
                        fs = [f for f in by_path[sp]["fields"] if f["type"] in WIDTH]
                        if not fs:
                            continue
                        f = pick(draw, fs)
                        dest = pick(draw, targets)
                        if (f["name"], dest) in seen:
                            continue
                        seen.add((f["name"], dest))
                        r["decs"].insert(draw(st.integers(0, len(r["decs"]))), ["ref", sp, f["name"], dest])
        if opt.bound and len(res) >= 2 and draw(st.integers(0, 3)) == 0:
            same = [r["name"] for r in res if r["kind"] == "vector"]
            if len(same) >= 2:
                item["bound"].append(["bound_" + item["name"].lower(), same[:draw(st.integers(2, len(same)))]])
            # groups may overlap, list any resources in any order, even a single one
            if draw(st.booleans()):
                item["bound"].append(["more_" + item["name"].lower(), draw(st.lists(
                    st.sampled_from([r["name"] for r in res]), min_size=1, max_size=3, unique=True))])
        archives.append((path, item))
    # declaration order inside a namespace is free
    if draw(st.integers(0, 2)) == 0:
        for b in blocks:
            b["items"].reverse()
    return {"blocks": [b for b in blocks]}


noise = st.one_of(st.just([]), st.lists(st.integers(0, 30), min_size=1, max_size=12))


# --------------------------------------------------------------------------------------------
# data

def struct_values(ix, path):
    layout, _ = ix.layout(path)
    return st.tuples(*[boundary_int(*bounds(t, w)) for _, _, w, _, t, _ in layout])


raw_bytes = st.one_of(st.binary(max_size=24), st.binary(max_size=3).map(lambda b: b * 50),
                      st.sampled_from([b"", b"\x00", b"hello\x00world\x00", b"\xff" * 9]))


@st.composite
def resource_value(draw, ix, archive_path, r, depth, limits):
    kind = r["kind"]
    if kind == "raw":
        v = draw(raw_bytes)
        lim = limits.get(archive_path + "." + r["name"])
        return v if lim is None else v[:lim]
    if kind == "inst":
        return draw(struct_values(ix, r["types"][0]))
    if kind == "vector":
        lim = limits.get(archive_path + "." + r["name"])
        n = 6 if lim is None else min(6, lim)
        lo = 1 if ix.has_range(r["types"][0]) and n >= 1 else 0
        del lo
        return draw(st.lists(struct_values(ix, r["types"][0]), max_size=n))
    if kind == "multi":
        lim = limits.get(archive_path + "." + r["name"])
        n = 5 if lim is None else min(5, lim)
        elem = st.integers(0, len(r["types"]) - 1).flatmap(
            lambda i: struct_values(ix, r["types"][i]).map(lambda v: (i, v)))
        items = draw(st.lists(st.lists(elem, max_size=4), max_size=n))
        # the offsets have to fit the index
        sizes = [1 + ix.size_bytes(t) for t in r["types"]]
        while sum(sizes[i] for item in items for i, _ in item) >= 1 << r["width"]:
            items = items[:-1] if len(items) > 1 else [items[0][:-1]]
        return items
    return draw(archive_data(ix, r["types"][0], depth + 1, limits))


def ref_limits(ix, only_within=None):
    """{resource path: max element count} imposed by explicit references."""
    out = {}
    for ap in ix.of("archive"):
        for r in ix.items[ap]["res"]:
            for d in r["decs"]:
                if d[0] == "ref":
                    lay = {n: w for n, _, w, _, _, _ in ix.layout(d[1])[0]}
                    w = lay[d[2]]
                    if w < 64:
                        out[d[3]] = min(out.get(d[3], 1 << w), 1 << w)
    return out


@st.composite
def archive_data(draw, ix, path, depth=0, limits=None):
    limits = ref_limits(ix) if limits is None else limits
    out = {}
    for r in ix.items[path]["res"]:
        optional = any(d[0] == "optional" for d in r["decs"])
        if optional and draw(st.integers(0, 2)) == 0:
            out[r["name"]] = None
        else:
            out[r["name"]] = draw(resource_value(ix, path, r, depth, limits))
    return out


def nesting(ix, path):
    return 1 + max([nesting(ix, r["types"][0]) for r in ix.items[path]["res"] if r["kind"] == "archive"], default=0)


@st.composite
def schema_and_data(draw, opt=None, n_data=1):
    s = draw(schemas(opt))
    ix = Index(s)
    archives = ix.of("archive")
    path = pick(draw, archives)
    if draw(st.booleans()):
        path = max(archives, key=lambda p: nesting(ix, p))
    return {"schema": s, "noise": draw(noise), "archive": path, "data": draw(archive_data(ix, path))}
