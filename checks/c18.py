"""C18: Ranges and optional fields keep their meaning in C++."""
import os

from fv import batch, cpp, env, gen, layout
from fv.core import Check, require, show
from hypothesis import strategies as st

from checks.c03 import read_bits, write_bits
from checks.c04 import compile_cpp

OPT = dict(max_structs=6, max_fields=7, max_archives=2, max_resources=5, max_blocks=2, max_consts=6, range_odds=2, opt_odds=3,
           subarchives=False, refs=False, bound=False, max_enums=1)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def ranges_of(ix, p):
    return [(f, d[1]) for f in ix.items[p]["fields"] for d in f["decs"] if d[0] == "range"]


def optionals_of(ix, p):
    return [(f, ix.items[d[1]]["value"]) for f in ix.items[p]["fields"] for d in f["decs"] if d[0] == "opt"]


MORE = r"""
template < typename S > struct Special;    // ranges( Out&, S ), optionals( Out&, S ), apply( mutator, reader, In&, Out& )
template < typename U, typename R > void pair_of( Out& o, Sep& sep, R r )
{
    std::pair< U, U > p = r;
    sep.next( );
    o.raw( "[" ); o.num( p.first ); o.raw( "," ); o.num( p.second ); o.raw( "]" );
}
template < typename U, typename R > void optional_of( Out& o, Sep& sep, R r )
{
    boost::optional< U > x = r;
    sep.next( );
    o.raw( "[" ); o.num( static_cast< bool >( r ) ); o.raw( "," ); o.num( static_cast< U >( *r ) ); o.raw( "," );
    if ( x ) o.num( *x ); else o.raw( "null" );
    o.raw( "]" );
}
template < typename U, typename W > void assign( Out& o, Sep& sep, W& w, In& in )
{
    size_t mode = in.n( );
    U v = static_cast< U >( in.n( ) );
    if ( mode == 0 ) w = v;
    else if ( mode == 1 ) w = boost::optional< U >( v );
    else if ( mode == 2 ) w = boost::optional< U >( );
    else w = boost::optional< U >( boost::none );
    boost::optional< U > x = w;
    sep.next( );
    o.raw( "[" ); o.num( static_cast< bool >( w ) ); o.raw( "," ); o.num( static_cast< U >( *w ) ); o.raw( "," );
    if ( x ) o.num( *x ); else o.raw( "null" );
    o.raw( "]" );
}
template < typename S > void special_rows( Out& o, const flatdata::ArrayView< S >& v )
{
    if ( !v ) { o.raw( "null" ); return; }
    o.raw( "{\"n\":" ); o.num( v.size( ) );
    o.raw( ",\"ranges\":[" );
    { Sep sep{ o }; for ( size_t i = 0; i < v.size( ); i++ ) { sep.next( ); Special< S >::ranges( o, v[ i ] ); } }
    o.raw( "],\"iterated\":[" );
    { Sep sep{ o }; for ( auto x : v ) { sep.next( ); Special< S >::ranges( o, x ); } }
    o.raw( "],\"optionals\":[" );
    { Sep sep{ o }; for ( auto x : v ) { sep.next( ); Special< S >::optionals( o, x ); } }
    o.raw( "]}" );
}
template < typename S > typename std::enable_if< S::IS_OVERLAPPING_WITH_NEXT || !S::IS_OVERLAPPING_WITH_NEXT >::type
special_rows( Out& o, const S& v )
{
    if ( !v ) { o.raw( "null" ); return; }
    Special< S >::optionals( o, v );
}
template < typename X > void special_rows( Out& o, const boost::optional< X >& v )
{
    if ( !v ) { o.raw( "null" ); return; }
    special_rows( o, *v );
}
template < typename S > void view( In& in, Out& o )
{
    // exactly the stored elements and the padding
    std::string b = in.bytes( );
    std::unique_ptr< unsigned char[] > p( new unsigned char[ b.size( ) + 8 ]( ) );
    std::memcpy( p.get( ), b.data( ), b.size( ) );
    flatdata::ArrayView< S > v( p.get( ), p.get( ) + b.size( ) );
    if ( in.n( ) ) { size_t a = in.n( ), c = in.n( ); v = v.slice( std::make_pair( a, c ) ); }
    special_rows( o, v );
}
template < typename S > void change( In& in, Out& o )
{
    std::string b = in.bytes( );
    std::unique_ptr< unsigned char[] > p( new unsigned char[ b.size( ) ] );
    std::memcpy( p.get( ), b.data( ), b.size( ) );
    o.raw( "{\"before\":" );
    Special< S >::optionals( o, S( p.get( ) ) );
    o.raw( ",\"seen\":[" );
    Sep sep{ o };
    while ( !in.done( ) ) Special< S >::apply( o, sep, typename S::MutatorType( p.get( ) ), in );
    o.raw( "],\"after\":" );
    Special< S >::optionals( o, S( p.get( ) ) );
    o.raw( ",\"bytes\":" );
    o.hex( p.get( ), b.size( ) );
    o.raw( "}" );
}
"""


def source(ix):
    out, body = [MORE], []
    for i, p in enumerate(ix.of("struct")):
        n = cpp.cpp_name(p)
        rs = " ".join("pair_of< %s >( o, sep, s.%s );" % (cpp.CPP_TYPE[f["type"]], r) for f, r in ranges_of(ix, p))
        os_ = " ".join("optional_of< %s >( o, sep, s.%s );" % (cpp.CPP_TYPE[f["type"]], f["name"]) for f, _ in optionals_of(ix, p))
        ap = " ".join("if ( k == %d ) assign< %s >( o, sep, m.%s, in );" % (k, cpp.CPP_TYPE[f["type"]], f["name"])
                      for k, (f, _) in enumerate(optionals_of(ix, p)))
        out.append("""template <> struct Special< %(n)s > {
static void ranges( Out& o, %(n)s s ) { o.raw( "[" ); Sep sep{ o }; (void)sep; %(rs)s o.raw( "]" ); }
static void optionals( Out& o, %(n)s s ) { o.raw( "[" ); Sep sep{ o }; (void)sep; %(os)s o.raw( "]" ); }
static void apply( Out& o, Sep& sep, %(n)s::MutatorType m, In& in ) { size_t k = in.n( ); %(ap)s }
};
""" % {"n": n, "rs": rs, "os": os_, "ap": ap})
        body.append('if ( cmd == "view%d" ) { view< %s >( in, o ); return; }' % (i, n))
        body.append('if ( cmd == "change%d" ) { change< %s >( in, o ); return; }' % (i, n))
    for p in ix.of("archive"):
        parts = ['sep.next( ); o.raw( "\\"%s\\":" ); special_rows( o, a.%s( ) );' % (r["name"], r["name"])
                 for r in ix.items[p]["res"] if r["kind"] in ("vector", "inst")]
        body.append('if ( cmd == "special:%s" ) { Ctx ctx; auto a = %s::open( ctx.storage( in.s( ) ) ); o.raw( "{" ); Sep sep{ o }; '
                    '(void)sep; %s o.raw( "}" ); return; }' % (p, cpp.cpp_name(p), " ".join(parts)))
    return "\n".join(out), "\n".join(body)


def compile_special(text, ix, name, case):
    more, body = source(ix)
    return compile_cpp(text, ix, name, case, builders=False, more=more, extra_body=body)


@st.composite
def cases(draw, ix):
    interesting = [p for p in ix.of("struct") if ranges_of(ix, p) or optionals_of(ix, p)] or ix.of("struct")
    p = gen.pick(draw, interesting)
    rows = draw(st.lists(struct_values(ix, p), max_size=7))
    n = max(0, len(rows) - 1) if ix.has_range(p) else len(rows)
    a = draw(st.integers(0, n))
    opts = optionals_of(ix, p)
    edits = []
    if opts:
        def one(k):
            f, const = opts[k]
            lo, hi = value_bounds(ix, f)
            near = sorted({v for v in (const, const + 1, const - 1, lo, hi, 0) if lo <= v <= hi})
            return st.tuples(st.just(k), st.integers(0, 3), st.one_of(st.sampled_from(near), st.integers(lo, hi)))
        edits = draw(st.lists(st.integers(0, len(opts) - 1).flatmap(one), max_size=6))
    path = gen.pick(draw, ix.of("archive"))
    data = draw(gen.archive_data(ix, path))
    for r in ix.items[path]["res"]:
        if data.get(r["name"]) is not None and r["kind"] in ("vector", "inst"):
            v = struct_values(ix, r["types"][0])
            data[r["name"]] = draw(v if r["kind"] == "inst" else st.lists(v, max_size=4))
    return {"struct": p, "rows": rows, "slice": draw(st.one_of(st.none(), st.just((a, draw(st.integers(a, n)))))),
            "noise": draw(st.binary(min_size=8, max_size=8)), "edits": edits, "path": path, "content": data}


def value_bounds(ix, f):
    from fv.schema import bounds, is_signed
    t, w = ix.field_type(f)[:2]
    return (0, 1) if w == 1 and is_signed(t) else bounds(t, w)


def struct_values(ix, p):
    """Rows whose optional fields are often absent, or close to it."""
    opts = {f["name"]: v for f, v in optionals_of(ix, p)}
    out = []
    for name, _, w, _, t, _ in ix.layout(p)[0]:
        from fv.schema import bounds
        lo, hi = bounds(t, w)
        g = gen.boundary_int(lo, hi)
        if name in opts:
            c = opts[name]
            g = st.one_of(st.sampled_from([v for v in (c, c, c + 1, c - 1, c ^ (1 << (w - 1))) if lo <= v <= hi] or [lo]), g)
        out.append(g)
    return st.tuples(*out)


def seen(value, const):
    return [int(value != const), value, None if value == const else value]


def optional_view(ix, p, row):
    names = [n for n, *_ in ix.layout(p)[0]]
    return [seen(row[names.index(f["name"])], v) for f, v in optionals_of(ix, p)]


def range_view(ix, p, row, following):
    names = [n for n, *_ in ix.layout(p)[0]]
    return [[row[names.index(f["name"])], following[names.index(f["name"])]] for f, _ in ranges_of(ix, p)]


def judge_rows(ix, p, got, rows, what, part=None):
    n = max(0, len(rows) - 1) if ix.has_range(p) else len(rows)
    a, b = part or (0, n)
    ranges = [range_view(ix, p, rows[i], rows[i + 1] if i + 1 < len(rows) else rows[i]) for i in range(a, b)]
    require(got["n"] == b - a, "%s: %d stored elements show as %s", what, len(rows), got["n"])
    require(got["ranges"] == ranges and got["iterated"] == ranges, "%s: ranges of %s are %s (iterated: %s), expected %s", what,
            show(rows), got["ranges"], got["iterated"], ranges)
    opts = [optional_view(ix, p, r) for r in rows[a:b]]
    require(got["optionals"] == opts, "%s: optional fields of %s read as %s, expected [set, raw value, value] = %s", what,
            show(rows), got["optionals"], opts)


def check(driver, ix, case, sub, rec):
    p = sub["struct"]
    k = ix.of("struct").index(p)
    rows = [canonical(ix, p, r) for r in sub["rows"]]
    raw = b"".join(layout.enc(ix, p, r) for r in rows)
    part = sub["slice"]
    got = driver.ask("view%d %s %s" % (k, cpp.hexarg(raw), "1 %d %d" % tuple(part) if part else "0"))
    judge_rows(ix, p, got, rows, "%s%s" % (p, " slice %s" % (part,) if part else ""), part)
    # writing optional fields of one element, on top of what is there
    opts = optionals_of(ix, p)
    if opts:
        first = layout.enc(ix, p, rows[0]) if rows else b"\xff" * ix.size_bytes(p)
        state = first + sub["noise"]
        lay = {n: (off, w, t) for n, off, w, _, t, _ in ix.layout(p)[0]}

        def current(b):
            return [seen(read_bits(b, *lay[f["name"]]), v) for f, v in opts]
        cmd = "change%d %s" % (k, cpp.hexarg(state))
        before, want_seen = current(state), []
        for i, mode, value in sub["edits"]:
            f, const = opts[i]
            off, w, _ = lay[f["name"]]
            state = write_bits(state, off, w, const if mode >= 2 else value)
            want_seen.append(current(state)[i])
            cmd += " %d %d %d" % (i, mode, value)
            rec.label("write:" + ["value", "optional", "absent", "none"][mode])
        got = driver.ask(cmd)
        what = "%s: %s" % (p, cmd)
        require(got["before"] == before, "%s: fields read as %s first, expected [set, raw value, value] = %s", what, got["before"],
                before)
        require(got["seen"] == want_seen, "%s: after each write the mutator reads %s, expected %s", what, got["seen"], want_seen)
        require(got["after"] == current(state), "%s: fields read as %s at the end, expected %s", what, got["after"], current(state))
        require(bytes.fromhex(got["bytes"]) == state, "%s: bytes are %s, expected %s", what, got["bytes"], state.hex())
    # whole archives
    path = sub["path"]
    data = dict(sub["content"])
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        if v is not None and r["kind"] == "vector":
            data[r["name"]] = [canonical(ix, r["types"][0], x) for x in v]
        elif v is not None and r["kind"] == "inst":
            data[r["name"]] = canonical(ix, r["types"][0], v)
    root = env.scratch("c18")
    try:
        d = os.path.join(root, "a")
        os.mkdir(d)
        layout.write_files(d, layout.archive_files(ix, path, data))
        got = driver.ask("special:%s exact:%s" % (path, d))
    finally:
        env.rmtree(root)
    for r in ix.items[path]["res"]:
        if r["kind"] not in ("vector", "inst"):
            continue
        v, g = data[r["name"]], got[r["name"]]
        what = "%s.%s" % (path, r["name"])
        require((v is None) == (g is None), "%s is %s", what, "absent" if g is None else "present")
        if v is None:
            continue
        if r["kind"] == "inst":
            require(g == optional_view(ix, r["types"][0], v), "%s: optional fields of %s read as %s", what, show(v), g)
        else:
            judge_rows(ix, r["types"][0], g, v, what)
            if ix.has_range(r["types"][0]):
                rec.label("archive vector with sentinel")
    if ranges_of(ix, p):
        rec.label("ranges")
    if opts:
        rec.label("optionals")
    rec.nontrivial(bool(rows and (ranges_of(ix, p) or opts)) or bool(sub["edits"]))


def canonical(ix, p, row):
    """One-bit fields read 0 or 1 whatever their type."""
    return tuple(abs(v) if w == 1 else v for v, (_, _, w, _, _, _) in zip(row, ix.layout(p)[0]))


CHECK = Check(
    "C18",
    "a case is a generated schema rich in @range and @optional fields, compiled to C++ with sanitizers; an array of up to 7 elements "
    "(with values at and next to the absent one) read through views and slices in an exactly sized allocation, a history of up to 6 "
    "writes of values, optionals and absence over random surrounding bytes, and a whole archive. Oracle: bits at the documented "
    "offsets, the next element's value, comparison with the declared constant. Non-trivial: an element with such a field, or a write.",
    [batch.SchemaPart("fields", schemas, compile_special, lambda ix, case: cases(ix), check, 32, 900, {"quick": 70, "thorough": 500})])
