"""C19: Python resource views agree with the underlying sequence."""
from fv import gen, layout, pylib, schema
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st

OPT = gen.Opt(max_archives=1, subarchives=False, max_blocks=2, max_structs=3, max_resources=4, optional=False,
              refs=False, bound=False)

idx = st.one_of(st.integers(-8, 8), st.sampled_from([-100, 100, -2**70, 2**64]))
bound = st.one_of(st.none(), st.integers(-8, 8), st.sampled_from([-100, 100]))
slices = st.tuples(bound, bound, st.one_of(st.none(), st.sampled_from([1, 2, 3, -1, -2, -3, 7])))


@st.composite
def cases(draw):
    c = draw(gen.schema_and_data(OPT))
    c["idx"] = draw(st.lists(idx, min_size=2, max_size=8))
    c["slices"] = draw(st.lists(slices, min_size=2, max_size=6))
    c["limit"] = draw(st.one_of(st.none(), st.integers(0, 9)))
    return c


def outcome(fn):
    try:
        return "value", fn()
    except IndexError:
        return "IndexError", None


def same(label, got, want):
    require(got == want, "%s: got %s, a plain list gives %s", label, show(got), show(want))


def scalar(x):
    return x.item() if hasattr(x, "item") else x


def check_struct(ix, path, s, values, label):
    names = [f[0] for f in ix.layout(path)[0]]
    pairs = list(zip(names, values))
    same(label + " attributes", [(n, getattr(s, n)) for n in names], pairs)
    same(label + " as_dict", list(s.as_dict().items()), pairs)
    same(label + " as_list", s.as_list(), list(values))
    same(label + " as_tuple", s.as_tuple(), tuple(values))
    same(label + " iteration", list(s), list(values))
    same(label + " dir", sorted(dir(s)), sorted(names))
    arr = s.as_nparray()
    same(label + " numpy names", list(arr.dtype.names), names)
    same(label + " numpy", [scalar(arr[n][0]) for n in names], list(values))
    try:
        s.no_such_field
        raise Violation(label + ": an unknown field is readable")
    except AttributeError:
        pass


def check_vector(ix, path, view, rows, case, label):
    names = [f[0] for f in ix.layout(path)[0]]

    def conv(s):
        return tuple(getattr(s, n) for n in names)
    same(label + " len", len(view), len(rows))
    same(label + " iteration", [conv(s) for s in view], rows)
    for i in case["idx"]:
        same("%s[%d]" % (label, i), outcome(lambda: conv(view[i])), outcome(lambda: rows[i]))
    for t in case["slices"]:
        sl = slice(*t)
        sub = view[sl]
        want = rows[sl]
        where = "%s[%s]" % (label, sl)
        same(where, [conv(s) for s in sub], want)
        for limit in (None, case["limit"]):
            w = want if limit is None else want[:limit]
            arr = sub.to_numpy(limit=limit)
            same(where + " to_numpy(limit=%s)" % limit, [tuple(scalar(x) for x in r) for r in arr], w)
            frame = sub.to_data_frame(limit=limit)
            same(where + " data frame columns", list(frame.columns), names)
            same(where + " data frame", [tuple(scalar(frame[n].iloc[k]) for n in names) for k in range(len(frame))], w)
        for k, n in enumerate(names):
            frame = getattr(sub, n)
            same(where + "." + n, [scalar(x) for x in frame[n]], [r[k] for r in want])
        require(isinstance(repr(sub), str), "repr of a slice")
    frame = view.to_data_frame()
    same(label + " data frame", [tuple(scalar(frame[n].iloc[k]) for n in names) for k in range(len(frame))], rows)
    for k, n in enumerate(names):
        same(label + "." + n, [scalar(x) for x in getattr(view, n)[n]], [r[k] for r in rows])


def check(case, rec):
    ix = schema.Index(case["schema"])
    module = pylib.load_module(schema.to_text(case["schema"], schema.Style(case["noise"])))
    path = case["archive"]
    archive = getattr(module, pylib.cls_name(path))(
        pylib.DictStorage(layout.archive_files(ix, path, case["data"])))
    interesting = False
    for r in ix.items[path]["res"]:
        name, kind, value = r["name"], r["kind"], case["data"][r["name"]]
        view = getattr(archive, name)
        if kind == "vector":
            check_vector(ix, r["types"][0], view, value, case, name)
            for i, row in enumerate(value):
                check_struct(ix, r["types"][0], view[i], row, "%s[%d]" % (name, i))
            interesting |= len(value) > 1
        elif kind == "inst":
            p = r["types"][0]
            same(name + " len", len(view), 1)
            names = [f[0] for f in ix.layout(p)[0]]
            same(name + " attributes", tuple(getattr(view, n) for n in names), value)
            for i in case["idx"]:
                same("%s[%d]" % (name, i), outcome(lambda: view[i].as_tuple()), outcome(lambda: [value][i]))
            same(name + " iteration", [s.as_tuple() for s in view], [value])
            check_struct(ix, p, view[0], value, name)
            interesting = True
        elif kind == "raw":
            same(name + " len", len(view), len(value))
            for i in case["idx"]:
                same("%s[%d]" % (name, i), outcome(lambda: bytes(view[i])), outcome(lambda: bytes([value[i]])))
            for t in case["slices"]:
                sl = slice(*t)
                same("%s[%s]" % (name, sl), bytes(view[sl]), value[sl])
            interesting |= len(value) > 1
        else:
            types = [pylib.struct_type_name(t) for t in r["types"]]
            rows = [[(t, tuple(v)) for t, v in item] for item in value]

            def conv(item):
                return [(types.index(type(e)._NAME), e.as_tuple()) for e in item]
            same(name + " len", len(view), len(rows))
            same(name + " iteration", [conv(i) for i in view], rows)
            for i in case["idx"]:
                same("%s[%d]" % (name, i), outcome(lambda: conv(view[i])), outcome(lambda: rows[i]))
            for t in case["slices"]:
                sl = slice(*t)
                same("%s[%s]" % (name, sl), [conv(i) for i in view[sl]], rows[sl])
            interesting |= len(rows) > 1
        rec.label("view:" + kind)
        require(isinstance(repr(view), str) and name in dir(archive), "repr/dir of %s", name)
    same("archive len", len(archive), len(ix.items[path]["res"]) + 1)
    rec.nontrivial(interesting)


CHECK = Check(
    "C19",
    "a case is a generated archive with data plus lists of indices (also far out of range) and slices (all sign/None "
    "combinations); non-trivial when some view has more than one element or is an instance. Oracle: the same operation "
    "on a plain list.",
    [Part("views", cases, check, 1200, 30000)],
    assumptions=["field names that coincide with attributes of the library classes are not generated"])
