"""C28: Rust containers and views behave like plain sequences under any operation history."""
import os

from fv import cpp, env, gen, layout, rust, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

NBIG = 64
STRUCTS = {
    "Bit": [("a", "bool", None)], "Small": [("a", "u8", None)], "Pair": [("a", "i32", 13), ("b", "u16", 11)],
    "Exact": [("a", "u64", None)], "Odd": [("a", "u32", 17), ("b", "i16", 9), ("c", "u64", 61)],
    "Wide": [("a", "u64", None), ("b", "i64", None), ("c", "u32", 3)],
    "Rng": [("first", "u32", 25, ["range", "r"]), ("x", "i8", 5)], "Long": [("f", "u64", 40, ["range", "r"]), ("x", "u64", 64)],
    "Opti": [("o", "u16", 12, ["opt", ".c.NONE"]), ("y", "i64", 50)],
    "Big": [("f%d" % i, "u64", None) for i in range(NBIG)]}
TYPES = [".c." + n for n in STRUCTS if n != "Big"]
MULTIS = [("m", 40, [".c.Small", ".c.Odd"]), ("n", 33, [".c.Wide", ".c.Bit", ".c.Pair"]), ("mb", 64, [".c.Big", ".c.Small"])]
SCHEMA = {"blocks": [{"ns": "c", "items": [{"k": "const", "name": "NONE", "type": "u16", "value": 7, "lit": "7"}] + [
    {"k": "struct", "name": n, "fields": [{"name": f[0], "type": f[1], "width": f[2], "decs": [f[3]] if len(f) > 3 else []}
                                          for f in fs]} for n, fs in STRUCTS.items()] + [
    {"k": "archive", "name": "A", "bound": [], "res": [
        {"name": n, "kind": "multi", "types": ts, "width": w, "decs": []} for n, w, ts in MULTIS] + [
        {"name": "vbig", "kind": "vector", "types": [".c.Big"], "width": 0, "decs": []},
        {"name": "raw", "kind": "raw", "types": [], "width": 0, "decs": []}]}]}]}
IX = schema.Index(SCHEMA)

MORE = r"""
use flatdata::SliceExt;
use flatdata::ResourceStorage;
fn rows<T: Row>(o: &mut driver::Out, v: &[T]) { o.list(v.iter(), |o, x| x.dump(o)); }
fn state<T: Row + flatdata::Struct>(o: &mut driver::Out, v: &flatdata::Vector<T>) {
    o.raw("["); o.num(v.len() as u64); o.raw(","); rows(o, v); o.raw(","); rows(o, v.as_view()); o.raw(",");
    o.hex(v.as_view().as_bytes()); o.raw(","); o.num(format!("{:?}", v) == format!("{:?}", v.as_view())); o.raw("]");
}
fn views<'a, T: Row + flatdata::Struct>(o: &mut driver::Out, mut v: &'a [T], i: &mut driver::In) {
    let n = i.n();
    for _ in 0..n { let a = i.n() as usize; let b = i.n() as usize; v = &v[a..b]; }
    o.raw("{\"rows\":"); rows(o, v); o.raw(",\"bytes\":"); o.hex(v.as_bytes());
    o.raw(",\"again\":"); match <&[T]>::from_bytes(v.as_bytes()) { Ok(w) => rows(o, w), Err(_) => o.raw("null") }
    o.raw(",\"debug\":"); o.str(&format!("{:?}", v)); o.raw("}");
}
fn from_bytes<T: Row + flatdata::Struct>(o: &mut driver::Out, b: &[u8]) {
    // an exact copy, followed by what readers of structures need behind the data
    let b: Box<[u8]> = b.to_vec().into_boxed_slice();
    match <&[T]>::from_bytes(&b) { Ok(w) => { rows(o, w); }, Err(e) => o.str(&format!("{:?}", e)) }
}
macro_rules! vectors { ($name:ident, $t:ty, |$v:ident, $op:ident, $i:ident| $own:expr) => {
fn $name(i: &mut driver::In, o: &mut driver::Out) {
    let mut slots = vec![flatdata::Vector::<$t>::new(), flatdata::Vector::<$t>::default()];
    o.raw("[");
    let mut first = true;
    while !i.done() {
        if !first { o.raw(","); }
        first = false;
        let op = i.s();
        let k = i.n() as usize;
        o.raw("{");
        match op.as_str() {
            "new" => { slots[k] = flatdata::Vector::with_len(i.n() as usize); }
            "grow" => { o.raw("\"before\":"); slots[k].grow().dump(o); o.raw(","); }
            "add" => { slots[k].grow().fill(i); }
            "put" => { let p = i.n() as usize; slots[k][p].fill(i); }
            "clear" => { slots[k].clear(); }
            "reserve" => { slots[k].reserve(i.n() as usize); }
            "exchange" => { slots.swap(0, 1); }
            "at" => { let p = i.n() as usize; o.raw("\"before\":"); slots[k][p].dump(o); o.raw(","); }
            "view" => { o.raw("\"view\":"); views(o, slots[k].as_view(), i); o.raw(","); }
            _ => { let $v = &mut slots[k]; let $op = op.as_str(); let $i = &mut *i; $own }
        }
        o.raw("\"s\":["); state(o, &slots[0]); o.raw(","); state(o, &slots[1]); o.raw("]}");
    }
    o.raw("]");
} } }
macro_rules! owned { ($name:ident, $t:ty) => { vectors!($name, $t, |v, op, i| match op {
    "reverse" => v.reverse(),
    "swap" => { let a = i.n() as usize; let b = i.n() as usize; v.swap(a, b) }
    "rotate" => { let a = i.n() as usize; v.rotate_left(a) }
    "fillall" => { let mut x = <$t>::new(); x.fill(i); for y in v.iter_mut() { *y = x.clone(); } }
    _ => driver::unknown(op) }); } }
macro_rules! ranged { ($name:ident, $t:ty) => { vectors!($name, $t, |v, op, i| match op { _ => driver::unknown(op) }); } }
macro_rules! single { ($name:ident, $t:ty) => {
fn $name(i: &mut driver::In, o: &mut driver::Out) {
    let mut a = <$t>::new();
    let zero = a.clone();
    a.fill(i);
    let mut b = <$t>::default();
    b.fill(i);
    let c = a.clone();
    o.raw("{\"zero\":"); zero.dump(o);
    o.raw(",\"a\":"); a.dump(o); o.raw(",\"c\":"); c.dump(o); o.raw(",\"b\":"); b.dump(o);
    o.raw(",\"eq\":"); o.num((a == b) as u8 + 2 * ((b == a) as u8) + 4 * ((a == c) as u8) + 8 * ((a != b) as u8));
    o.raw(",\"bytes\":"); o.hex(a.as_bytes());
    let bytes: Box<[u8]> = a.as_bytes().to_vec().into_boxed_slice();
    o.raw(",\"slice\":"); match <$t>::from_bytes_slice(&bytes) { Ok(x) => x.dump(o), Err(_) => o.raw("null") }
    let mut more = bytes.to_vec();
    more.push(0xa5);
    let mut more = more.into_boxed_slice();
    { let x = <$t>::from_bytes_slice_mut(&mut more).unwrap(); x.fill(i); }
    o.raw(",\"more\":"); o.hex(&more);
    o.raw(",\"debug\":"); o.str(&format!("{:?}", a)); o.raw("}");
} } }
fn store(kind: &str) -> flatdata::StorageHandle {
    match kind { "mem" => flatdata::MemoryResourceStorage::new("/m"), dir => flatdata::FileResourceStorage::new(dir) }
}
fn word(k: u64, j: u64) -> u64 { (k.wrapping_mul(0x9e3779b97f4a7c15) ^ j.wrapping_mul(0xc2b2ae3d27d4eb4f)).rotate_left((k % 63) as u32) }
fn check_big(x: &crate::schema_gen::c::Big, k: u64) -> bool {
    let b = x.as_bytes();
    x.f0() == word(k, 1) && x.f37() == word(k, 2) && x.f63() == word(k, 3)
        && b[8..37 * 8].iter().all(|x| *x == 0) && b[38 * 8..63 * 8].iter().all(|x| *x == 0)
}
fn fill_big(x: &mut crate::schema_gen::c::Big, k: u64) -> bool {
    let clean = x.as_bytes().iter().all(|x| *x == 0);
    x.set_f63(word(k, 3)); x.set_f0(word(k, 1)); x.set_f37(word(k, 2));
    clean
}
// a vector of n big elements
fn big_vector(i: &mut driver::In, o: &mut driver::Out) {
    let s = store(&i.s());
    let n = i.n() as u64;
    let b = crate::schema_gen::c::ABuilder::new(s).unwrap();
    let mut v = b.start_vbig().unwrap();
    let mut clean = v.is_empty() && v.len() == 0;
    for k in 0..n { clean = fill_big(v.grow().unwrap(), k) && v.len() as u64 == k + 1 && clean; }
    match v.close() {
        Ok(x) => {
            let bad = x.iter().enumerate().find(|(k, y)| !check_big(y, *k as u64)).map(|x| x.0 as u64);
            o.raw("["); o.num(clean); o.raw(","); o.num(x.len() as u64); o.raw(","); o.opt(bad); o.raw("]");
        }
        Err(e) => driver::result(o, Err(e)),
    }
}
// items of big and small elements: pattern "k small" for each item, repeated n times
fn big_multi(i: &mut driver::In, o: &mut driver::Out) {
    let s = store(&i.s());
    let n = i.n() as u64;
    let p = i.n() as usize;
    let pattern: Vec<(u64, u64)> = (0..p).map(|_| (i.n() as u64, i.n() as u64)).collect();
    let b = crate::schema_gen::c::ABuilder::new(s).unwrap();
    let mut v = b.start_mb().unwrap();
    let mut clean = true;
    for k in 0..n {
        let mut item = v.grow().unwrap();
        let (big, small) = pattern[k as usize % p];
        for j in 0..small { item.add_small().set_a((k + j) as u8); }
        for j in 0..big { clean = fill_big(item.add_big(), k * 8 + j) && clean; }
    }
    match v.close() {
        Ok(x) => {
            let mut bad = None;
            use crate::schema_gen::c::MbRef as R;
            for (k, item) in x.iter().enumerate() {
                let k = k as u64;
                let (big, small) = pattern[k as usize % p];
                let mut it = item.clone();
                let mut good = item.count() as u64 == big + small;
                for j in 0..small { good = good && match it.next() { Some(R::Small(x)) => x.a() == (k + j) as u8, _ => false }; }
                for j in 0..big { good = good && match it.next() { Some(R::Big(x)) => check_big(x, k * 8 + j), _ => false }; }
                if !good && bad.is_none() { bad = Some(k); }
            }
            o.raw("["); o.num(clean); o.raw(","); o.num(x.len() as u64); o.raw(","); o.opt(bad); o.raw("]");
        }
        Err(e) => driver::result(o, Err(e)),
    }
}
// histories of iterators: next, back, len, clone (continue with a copy), at, slices
fn walk<'a, Ts: flatdata::VariadicRefFactory + 'a>(i: &mut driver::In, o: &mut driver::Out, x: &flatdata::MultiArrayView<'a, Ts>,
        f: fn(&mut driver::Out, <Ts as flatdata::VariadicStruct<'a>>::Item)) {
    let mut view = x.clone();
    let mut it = view.iter();
    let mut first = true;
    o.raw("[");
    while !i.done() {
        if !first { o.raw(","); }
        first = false;
        let op = i.s();
        match op.as_str() {
            "next" => match it.next() { Some(x) => o.list(x, f), None => o.raw("null") },
            "back" => match it.next_back() { Some(x) => o.list(x, f), None => o.raw("null") },
            "nth" => { let n = i.n() as usize; match it.nth(n) { Some(x) => o.list(x, f), None => o.raw("null") } }
            "len" => { o.raw("["); o.num(it.len() as u64); o.raw(","); o.num(view.len() as u64); o.raw(",");
                       o.num(it.size_hint() == (it.len(), Some(it.len())) && view.is_empty() == (view.len() == 0)); o.raw("]"); }
            "clone" => { let mut old = it; it = old.clone(); let _ = old.next(); o.raw("true"); }
            "restart" => { it = (&view).into_iter(); o.raw("true"); }
            "at" => { let n = i.n() as usize; o.list(view.at(n), f); }
            "slice" => { let a = i.n() as usize; let b = i.n() as usize; view = view.slice(a..b); it = view.clone().into_iter(); o.raw("true"); }
            "from" => { let a = i.n() as usize; view = view.slice(a..); it = view.iter(); o.raw("true"); }
            "to" => { let a = i.n() as usize; view = view.slice(..a); it = view.iter(); o.raw("true"); }
            "past" => { let mut x = view.at(i.n() as usize); while let Some(_) = x.next() { }
                        let a = x.next().is_none() && x.clone().next().is_none() && format!("{:?}", x).len() > 0; o.num(a); }
            "debug" => { o.str(&format!("{:?}", view)); }
            _ => driver::unknown(&op),
        }
    }
    o.raw("]");
}
fn strings(i: &mut driver::In, o: &mut driver::Out) {
    let bytes: Box<[u8]> = i.bytes().into_boxed_slice();
    let raw = flatdata::RawData::new(&bytes);
    o.raw("[");
    let mut first = true;
    while !i.done() {
        if !first { o.raw(","); }
        first = false;
        let p = i.n() as usize;
        o.raw("{\"raw\":"); o.hex(raw.substring_raw(p));
        o.raw(",\"str\":"); match raw.substring(p) { Ok(s) => o.hex(s.as_bytes()), Err(_) => o.raw("null") }
        o.raw(",\"lossy\":"); o.hex(raw.substring_lossy(p).as_bytes());
        o.raw(",\"all\":"); o.num(raw.as_bytes() == &bytes[..] && &raw[..] == &bytes[..]); o.raw("}");
    }
    o.raw("]");
}
"""
_DRIVER = []


def emit():
    more, extra = [MORE], []
    for k, t in enumerate(TYPES):
        n = rust.name(t)
        more.append("%s!(vectors%d, %s);" % ("ranged" if IX.has_range(t) else "owned", k, n))
        extra.append('"vec%d" => vectors%d(i, o),' % (k, k))
        extra.append('"from%d" => from_bytes::<%s>(o, &i.bytes()),' % (k, n))
        if not IX.has_range(t):
            more.append("single!(single%d, %s);" % (k, n))
            extra.append('"one%d" => single%d(i, o),' % (k, k))
    for k, (m, _, ts) in enumerate(MULTIS[:2]):
        fill = " ".join("%d => item.add_%s().fill(i)," % (j, t[3:].lower()) for j, t in enumerate(ts))
        more.append("""fn multi%d(i: &mut driver::In, o: &mut driver::Out) {
let b = crate::schema_gen::c::ABuilder::new(store(&i.s())).unwrap();
let mut v = b.start_%s().unwrap();
let n = i.n();
for _ in 0..n { let mut item = v.grow().unwrap(); let m = i.n(); for _ in 0..m { match i.n() { %s _ => panic!() } } }
match v.close() { Ok(x) => walk(i, o, &x, item_c__A_%d), Err(e) => driver::result(o, Err(e)) }
}
""" % (k, m, fill, k))
        extra.append('"multi%d" => multi%d(i, o),' % (k, k))
    extra.append('"bigvec" => big_vector(i, o), "bigmulti" => big_multi(i, o), "strings" => strings(i, o),')
    return "\n".join(more), "match c { %s _ => driver::unknown(c) }" % " ".join(extra)


def driver():
    if not _DRIVER:
        more, extra = emit()
        text = schema.to_text(SCHEMA, schema.Style([]))
        d, err = rust.compile_schema(text, IX, "c28-%d" % os.getpid(), more=more, extra=extra)
        require(d, "the containers cannot be compiled for a plain schema:\n%s", "\n".join(
            l for l in (err or "").splitlines() if l.startswith("error"))[:1500] + (err or "")[:3000])
        _DRIVER.append(d)
    return _DRIVER[0]


def zero(path):
    return tuple(0 for _ in IX.layout(path)[0])


def optional(path):
    """{field index: value that stands for absent}"""
    return {i: IX.const_value(d[1]) for i, f in enumerate(IX.items[path]["fields"]) for d in f["decs"] if d[0] == "opt"}


def dumped(path, row, following=None):
    """What a driver prints for a row: its fields, None for absent values, then the ranges."""
    opts = optional(path)
    out = [None if i in opts and v == opts[i] else v for i, v in enumerate(row)]
    for i, f in enumerate(IX.items[path]["fields"]):
        if any(d[0] == "range" for d in f["decs"]):
            out += [row[i], (following or zero(path))[i]]
    return out


def dumps(path, rows, behind=None):
    return [dumped(path, r, rows[i + 1] if i + 1 < len(rows) else behind) for i, r in enumerate(rows)]


def debug_text(path, row):
    opts = optional(path)
    parts = []
    for i, (f, v) in enumerate(zip(IX.items[path]["fields"], row)):
        text = ("true" if v else "false") if f["type"] == "bool" else str(v)
        if i in opts:
            text = "None" if v == opts[i] else "Some(%s)" % text
        parts.append("%s: %s" % (f["name"], text))
    return "%s { %s }" % (path.rsplit(".", 1)[1], ", ".join(parts))


# --------------------------------------------------------------------------------------------

OPS = ["add", "add", "add", "grow", "grow", "put", "at", "clear", "reserve", "new", "exchange", "view", "view", "view",
       "reverse", "swap", "rotate", "fillall"]


@st.composite
def histories(draw):
    t = draw(st.integers(0, len(TYPES) - 1))
    small = st.integers(0, 9)
    op = st.tuples(st.sampled_from(OPS), st.sampled_from([0, 0, 0, 1]), gen.struct_values(IX, TYPES[t]), small, small,
                   st.lists(st.tuples(small, small), max_size=3))
    return {"type": t, "ops": draw(st.lists(op, min_size=1, max_size=24))}


def check_history(case, rec):
    path = TYPES[case["type"]]
    ranged = IX.has_range(path)
    slots = [[], []]
    cmds, want = [], []
    for op, k, value, n, n2, cuts in case["ops"]:
        v = slots[k]
        value = tuple(value)
        extra = {}
        if op in ("put", "at", "swap", "rotate", "reverse", "fillall") and not v:
            continue
        if ranged and op in ("reverse", "swap", "rotate", "fillall"):
            continue
        if op == "add":
            cmds.append("add %d %s" % (k, cpp.row_args(value)))
            v.append(value)
        elif op == "grow":
            cmds.append("grow %d" % k)
            v.append(zero(path))
            extra["before"] = dumped(path, zero(path))
        elif op == "put":
            cmds.append("put %d %d %s" % (k, n % len(v), cpp.row_args(value)))
            v[n % len(v)] = value
        elif op == "at":
            p = n % len(v)
            cmds.append("at %d %d" % (k, p))
            extra["before"] = dumps(path, v)[p]
        elif op == "clear":
            cmds.append("clear %d" % k)
            slots[k] = []
        elif op == "reserve":
            cmds.append("reserve %d %d" % (k, n * 3))
        elif op == "new":
            cmds.append("new %d %d" % (k, n))
            slots[k] = [zero(path)] * n
        elif op == "exchange":
            cmds.append("exchange 0")
            slots.reverse()
        elif op == "reverse":
            cmds.append("reverse %d" % k)
            v.reverse()
        elif op == "swap":
            a, b = n % len(v), n2 % len(v)
            cmds.append("swap %d %d %d" % (k, a, b))
            v[a], v[b] = v[b], v[a]
        elif op == "rotate":
            a = n % (len(v) + 1)
            cmds.append("rotate %d %d" % (k, a))
            slots[k] = v[a:] + v[:a]
        elif op == "fillall":
            cmds.append("fillall %d %s" % (k, cpp.row_args(value)))
            slots[k] = [value] * len(v)
        else:
            if ranged and not v:
                continue        # the data of such a vector has no end marker yet
            lo, hi = 0, len(v) - ranged
            c = []
            for a, b in cuts:
                a = a % (hi - lo + 1)
                b = a + b % (hi - lo - a + 1)
                lo, hi = lo + a, lo + b
                c.append("%d %d" % (a, b))
            cmds.append("view %d %d %s" % (k, len(c), " ".join(c)))
            extra["view"] = (v[lo:hi], v[hi:hi + 1] if ranged else [])
        want.append((cmds[-1], [list(s) for s in slots], extra))
    if not cmds:
        return
    got = driver().ask("vec%d %s" % (case["type"], " ".join(cmds)))
    enc = lambda rows: b"".join(layout.enc(IX, path, r) for r in rows).hex()  # noqa: E731
    for i, ((cmd, state, extra), g) in enumerate(zip(want, got)):
        what = "%s after %s" % (path, "; ".join(cmds[:i + 1]))
        for k in (0, 1):
            n, rows, view, raw, debug = g["s"][k]
            m = state[k]
            require(n == len(m) and rows == dumps(path, m), "vector %d of %s holds %s (len %s), expected %s", k, what, show(rows), n,
                    show(m))
            visible = dumps(path, m)[:-1] if ranged else dumps(path, m)
            require(view == visible, "the view of vector %d of %s shows %s, expected %s", k, what, show(view), show(visible))
            b = enc(m) if m or not ranged else enc([zero(path)])
            require(raw == b, "vector %d of %s has the bytes %s, expected %s", k, what, raw, b)
            require(debug, "vector %d of %s and its view are printed differently", k, what)
        if "before" in extra:
            require(g["before"] == extra["before"], "%s: the element is %s, expected %s", what, g["before"], extra["before"])
        if "view" in extra:
            rows, sentinel = extra["view"]
            d = dumps(path, rows, sentinel[0] if sentinel else None)
            x = g["view"]
            require(x["rows"] == d, "%s: the slice shows %s, expected %s", what, show(x["rows"]), show(d))
            require(x["bytes"] == enc(rows + sentinel), "%s: the slice has the bytes %s", what, x["bytes"])
            require(x["again"] == d, "%s: the bytes of the slice read as %s, expected %s", what, show(x["again"]), show(d))
            require(x["debug"] == "[%s]" % ", ".join(debug_text(path, r) for r in rows), "%s: the slice prints as %s", what, x["debug"])
    rec.label("type " + path)
    for c in cmds:
        rec.label("op " + c.split()[0])
    rec.nontrivial(any(slots) or len(cmds) > 2)


# --------------------------------------------------------------------------------------------

@st.composite
def singles(draw):
    t = draw(st.integers(0, len(TYPES) - 1))
    a = draw(gen.struct_values(IX, TYPES[t]))
    return {"type": t, "a": a, "b": draw(st.one_of(st.just(a), gen.struct_values(IX, TYPES[t]))),
            "c": draw(gen.struct_values(IX, TYPES[t])), "bytes": draw(st.binary(max_size=60)),
            "fit": draw(st.one_of(st.none(), st.integers(0, 4)))}


def check_single(case, rec):
    path = TYPES[case["type"]]
    size = IX.size_bytes(path)
    ranged = IX.has_range(path)
    b = case["bytes"]
    if case["fit"] is not None:
        b = (b + bytes(5 * size))[:case["fit"] * size]
    got = driver().ask("from%d x%s" % (case["type"], b.hex()))
    if len(b) % size or (ranged and len(b) < size):
        require(got == "UnexpectedDataSize", "%d bytes are taken for a vector of %s (%d bytes each): %s", len(b), path, size, show(got))
    else:
        fields = IX.layout(path)[0]
        want = dumps(path, [tuple(layout.decode_struct(fields, b[i:i + size])) for i in range(0, len(b), size)])
        want = want[:-1] if ranged else want
        require(got == want, "%d bytes read as %s of %s, expected %s", len(b), show(got), path, show(want))
    if not ranged:
        a, c = tuple(case["a"]), tuple(case["c"])
        other = tuple(case["b"])
        g = driver().ask("one%d %s %s %s" % (case["type"], cpp.row_args(a), cpp.row_args(other), cpp.row_args(c)))
        what = "%s %s" % (path, a)
        require(g["zero"] == dumped(path, zero(path)), "a new %s is %s", path, g["zero"])
        require(g["a"] == g["c"] == g["slice"] == dumped(path, a), "%s reads %s, its clone %s, through its bytes %s", what, g["a"],
                g["c"], g["slice"])
        require(g["b"] == dumped(path, other), "%s %s reads %s", path, other, g["b"])
        require(g["eq"] == (7 if a == other else 12), "%s and %s: equality is %s", what, other, g["eq"])
        require(g["bytes"] == layout.enc(IX, path, a).hex(), "%s has the bytes %s", what, g["bytes"])
        require(g["more"] == layout.enc(IX, path, c).hex() + "a5", "%s written through a slice gives %s", c, g["more"])
        require(g["debug"] == debug_text(path, a), "%s prints as %s", what, g["debug"])
    rec.nontrivial(bool(b))


# --------------------------------------------------------------------------------------------

WALK = ["next", "next", "next", "back", "back", "nth", "len", "clone", "restart", "at", "slice", "from", "to", "past", "debug"]


@st.composite
def walks(draw):
    m = draw(st.integers(0, 1))
    ts = MULTIS[m][2]
    elem = st.integers(0, len(ts) - 1).flatmap(lambda i: st.tuples(st.just(i), gen.struct_values(IX, ts[i])))
    small = st.integers(0, 14)
    return {"multi": m, "file": draw(st.booleans()), "items": draw(st.lists(st.lists(elem, max_size=4), max_size=14)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(WALK), small, small), max_size=25))}


def check_walk(case, rec):
    _, _, ts = MULTIS[case["multi"]]
    items = [[(i, tuple(v)) for i, v in item] for item in case["items"]]
    shown = lambda item: [[i, dumped(ts[i], v)] for i, v in item]  # noqa: E731
    view, it = list(items), list(items)
    cmds, want = [], []
    for op, a, b in case["ops"]:
        if op in ("at", "past"):
            if not view:
                continue
            a = a % len(view)
            cmds.append("%s %d" % (op, a))
            want.append(shown(view[a]) if op == "at" else 1)
        elif op == "next":
            cmds.append(op)
            want.append(shown(it.pop(0)) if it else None)
        elif op == "back":
            cmds.append(op)
            want.append(shown(it.pop()) if it else None)
        elif op == "nth":
            a %= 4
            cmds.append("nth %d" % a)
            want.append(shown(it[a]) if a < len(it) else None)
            it = it[a + 1:]
        elif op == "len":
            cmds.append(op)
            want.append([len(it), len(view), 1])
        elif op in ("clone", "restart"):
            cmds.append(op)
            want.append(True)
            it = it if op == "clone" else list(view)
        elif op == "debug":
            cmds.append(op)
            text = ", ".join("(%d, [%s])" % (k, ", ".join(debug_text(ts[i], v) for i, v in item)) for k, item in enumerate(view[:10]))
            want.append("MultiArrayView { len: %d, data: [%s]%s }" % (len(view), text, "" if len(view) <= 10 else "..."))
        else:
            a = a % (len(view) + 1)
            b = a + b % (len(view) - a + 1)
            if op == "slice":
                view = view[a:b]
            elif op == "from":
                view = view[a:]
            else:
                view = view[:a]
            cmds.append("slice %d %d" % (a, b) if op == "slice" else "%s %d" % (op, a))
            it = list(view)
            want.append(True)
    root = env.scratch("c28") if case["file"] else None
    try:
        args = " ".join([str(len(items))] + [" ".join([str(len(item))] + ["%d %s" % (i, cpp.row_args(v)) for i, v in item])
                                             for item in items])
        got = driver().ask("multi%d %s %s %s" % (case["multi"], os.path.join(root, "a") if root else "mem", args, " ".join(cmds)))
    finally:
        if root:
            env.rmtree(root)
    require(isinstance(got, list), "a multivector of %s cannot be closed: %s", show(items), show(got))
    for i, (c, w, g) in enumerate(zip(cmds, want, got)):
        require(g == w, "multivector of %s: %s gives %s, expected %s", show(items), "; ".join(cmds[:i + 1]), show(g), show(w))
        rec.label("op " + c.split()[0])
    rec.nontrivial(any(items) and bool(cmds))


# --------------------------------------------------------------------------------------------

PER = (32 << 20) // (8 * NBIG)      # elements per buffer


@st.composite
def bigs(draw):
    near = st.integers(-3, 3)
    n = draw(st.sampled_from([1, 2, 2, 3])) * PER + draw(near)
    if draw(st.booleans()):
        return {"kind": "vec", "n": n, "file": draw(st.booleans())}
    pattern = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)), min_size=1, max_size=5))
    total = sum(b for b, _ in pattern)
    if not total:
        pattern.append((1, 1))
        total = 1
    return {"kind": "multi", "n": max(1, n * len(pattern) // total + draw(near)), "pattern": pattern, "file": draw(st.booleans())}


def check_big(case, rec):
    root = env.scratch("c28b") if case["file"] else None
    target = os.path.join(root, "a") if root else "mem"
    n = case["n"]
    try:
        if case["kind"] == "vec":
            got = driver().ask("bigvec %s %d" % (target, n), 240)
            body = os.path.join(target, "vbig")
            size = 8 * NBIG * n
        else:
            p = case["pattern"]
            got = driver().ask("bigmulti %s %d %d %s" % (target, n, len(p), " ".join("%d %d" % tuple(x) for x in p)), 240)
            body = os.path.join(target, "mb")
            size = sum(b * (8 * NBIG + 1) + s * 2 for b, s in p) * (n // len(p)) + sum(
                b * (8 * NBIG + 1) + s * 2 for b, s in p[:n % len(p)])
        require(got == [1, n, None], "%s of %d elements (%d bytes): new elements are clean %s, length %s, first wrong element %s",
                case["kind"], n, size, *(got if isinstance(got, list) else (got, "", "")))
        if root:
            require(os.path.getsize(body) == size + 16, "%d bytes of payload are stored in a file of %d bytes", size,
                    os.path.getsize(body))
    finally:
        if root:
            env.rmtree(root)
    rec.label("buffers", size >> 25)
    rec.nontrivial(size > 1 << 25)


@st.composite
def texts(draw):
    atoms = st.sampled_from([b"a", b"b", b"\0", b"\0", b"xyz", "\u00e9".encode(), "\u4e2d".encode(), b"\xff", b"\xe4", b"\0\0"])
    b = b"".join(draw(st.lists(atoms, max_size=14)))
    return {"bytes": b, "at": draw(st.lists(st.integers(0, len(b)), min_size=1, max_size=4))}


def check_text(case, rec):
    b = case["bytes"]
    got = driver().ask("strings x%s %s" % (b.hex(), " ".join(map(str, case["at"]))))
    for p, g in zip(case["at"], got):
        want = b[p:].split(b"\0")[0]
        require(g["all"] and bytes.fromhex(g["raw"]) == want, "substring of %r from %d is %s", b, p, g)
        try:
            want.decode("utf-8")
            require(g["str"] == g["lossy"] == want.hex(), "substring of %r from %d is %s", b, p, g)
        except UnicodeDecodeError:
            require(g["str"] is None, "substring of %r from %d accepts invalid UTF-8: %s", b, p, g)
            lossy = bytes.fromhex(g["lossy"]).decode("utf-8")
            require(lossy == want.decode("utf-8", "replace"), "lossy substring of %r from %d is %r", b, p, lossy)
    rec.nontrivial(b"\0" in b)


CHECK = Check(
    "C28",
    "histories: up to 24 operations (grow, add, put, at, clear, reserve, with_len, exchange, reverse, swap, rotate, fill, slices "
    "of slices and back from their bytes) over two flatdata::Vector of nine structures with and without ranges and optional fields; "
    "single: structures of their own (new, clone, equality, bytes, Debug) and vectors read from arbitrary bytes; walks: "
    "multivectors written to memory or files, then histories of double-ended iteration, slicing, cloning and printing; big: external "
    "vectors and multivectors of 16 to 100 MB, around the multiples of the internal 32 MB buffer; strings: RawData substrings. "
    "Oracle: Python lists and the documented layout; address sanitizer, debug assertions and overflow checks. Non-trivial: something "
    "is stored; more than one buffer is filled (big).",
    [Part("histories", histories, check_history, 4000, 120000), Part("single", singles, check_single, 3000, 80000),
     Part("walks", walks, check_walk, 2500, 60000),
     Part("big", bigs, check_big, 40, 900), Part("strings", texts, check_text, 3000, 60000)],
    assumptions=["positions given to slices lie inside the view", "the view of a range vector without any element is not asked for its "
                 "bytes", "a container is closed once"])
