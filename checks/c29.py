"""C29: C++ structures compare, hash, copy and print by their stored values."""
from fv import batch, cpp, gen, layout
from fv.core import Check, require, show
from fv.schema import bounds, entity_schema
from hypothesis import strategies as st

from checks.c04 import compile_cpp
from checks.c18 import canonical, optionals_of, struct_values

OPT = dict(max_structs=6, max_fields=8, max_archives=1, max_resources=1, max_blocks=2, max_consts=4, range_odds=6, opt_odds=5,
           subarchives=False, refs=False, bound=False, max_enums=3)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


MORE = r"""
struct Buffer
{
    std::unique_ptr< unsigned char[] > p;
    size_t size;
    explicit Buffer( const std::string& b ) : p( new unsigned char[ b.size( ) + 8 ]( ) ), size( b.size( ) ) { std::memcpy( p.get( ), b.data( ), b.size( ) ); }
};
template < typename F > void matrix( Out& o, const char* name, size_t n, F f )
{
    o.raw( ",\"" ); o.raw( name ); o.raw( "\":[" );
    Sep rows{ o };
    for ( size_t i = 0; i < n; i++ )
    {
        rows.next( );
        o.raw( "[" );
        Sep sep{ o };
        for ( size_t j = 0; j < n; j++ ) { sep.next( ); o.num( f( i, j ) ); }
        o.raw( "]" );
    }
    o.raw( "]" );
}
template < typename S > void compare( In& in, Out& o )
{
    Buffer b( in.bytes( ) );
    const size_t k = S::size_in_bytes( ), n = b.size / k;
    using M = typename S::MutatorType;
    auto at = [ & ]( size_t i ) { return S( b.p.get( ) + i * k ); };
    auto mut = [ & ]( size_t i ) { return M( b.p.get( ) + i * k ); };
    o.raw( "{\"n\":" ); o.num( n );
    matrix( o, "eq", n, [ & ]( size_t i, size_t j ) { return at( i ) == at( j ); } );
    matrix( o, "ne", n, [ & ]( size_t i, size_t j ) { return at( i ) != at( j ); } );
    matrix( o, "lt", n, [ & ]( size_t i, size_t j ) { return at( i ) < at( j ); } );
    matrix( o, "meq", n, [ & ]( size_t i, size_t j ) { return mut( i ) == mut( j ); } );
    matrix( o, "mne", n, [ & ]( size_t i, size_t j ) { return mut( i ) != mut( j ); } );
    matrix( o, "mlt", n, [ & ]( size_t i, size_t j ) { return mut( i ) < mut( j ); } );
    matrix( o, "xeq", n, [ & ]( size_t i, size_t j ) { S s = mut( j ); return at( i ) == s && s.data( ) == mut( j ).data( ); } );
    matrix( o, "hash", n, [ & ]( size_t i, size_t j ) { return flatdata::Hash( )( at( i ) ) == flatdata::Hash( )( mut( j ) ); } );
    std::set< S > ordered;
    std::unordered_set< S, flatdata::Hash > hashed;
    std::vector< S > all;
    for ( size_t i = 0; i < n; i++ ) { ordered.insert( at( i ) ); hashed.insert( at( i ) ); all.push_back( at( i ) ); }
    std::stable_sort( all.begin( ), all.end( ) );
    o.raw( ",\"ordered\":[" );
    { Sep sep{ o }; for ( auto s : ordered ) { sep.next( ); o.num( ( s.data( ) - b.p.get( ) ) / k ); } }
    o.raw( "],\"sorted\":[" );
    { Sep sep{ o }; for ( auto s : all ) { sep.next( ); o.num( ( s.data( ) - b.p.get( ) ) / k ); } }
    o.raw( "],\"hashed\":" ); o.num( hashed.size( ) );
    o.raw( ",\"found\":[" );
    { Sep sep{ o }; for ( size_t i = 0; i < n; i++ ) { sep.next( ); o.num( hashed.count( at( i ) ) + 2 * ordered.count( at( i ) ) ); } }
    o.raw( "],\"text\":[" );
    { Sep sep{ o }; for ( size_t i = 0; i < n; i++ ) { sep.next( ); o.str( at( i ).to_string( ) ); sep.next( ); o.str( mut( i ).to_string( ) ); } }
    o.raw( "],\"about\":[" );
    { Sep sep{ o }; sep.next( ); o.str( S::name( ) ); sep.next( ); o.str( M::name( ) ); sep.next( ); o.str( S::schema( ) );
      sep.next( ); o.str( M::schema( ) ); sep.next( ); o.num( S::size_in_bytes( ) ); sep.next( ); o.num( M::size_in_bytes( ) );
      sep.next( ); o.num( static_cast< bool >( S( ) ) ); sep.next( ); o.num( static_cast< bool >( M( ) ) );
      sep.next( ); o.str( S( ).describe( ) ); sep.next( ); o.str( M( ).describe( 3 ) );
      sep.next( ); o.num( static_cast< bool >( at( 0 ) ) ); sep.next( ); o.num( static_cast< bool >( mut( 0 ) ) );
      sep.next( ); o.str( at( 0 ).describe( ) ); sep.next( ); o.str( mut( 0 ).describe( 7 ) ); }
    o.raw( "]}" );
}
template < typename S > std::string bytes_of( const unsigned char* p ) { return std::string( reinterpret_cast< const char* >( p ), S::size_in_bytes( ) ); }
template < typename S > typename std::enable_if< !S::IS_OVERLAPPING_WITH_NEXT >::type owners( In& in, Out& o, Buffer& b )
{
    // two structures owning their memory, next to an array
    flatdata::Struct< S > x, y;
    const size_t k = S::size_in_bytes( );
    while ( !in.done( ) )
    {
        size_t op = in.n( ), i = in.n( );
        flatdata::Struct< S >& t = i % 2 ? y : x;
        const flatdata::Struct< S >& u = i % 2 ? x : y;
        if ( op == 0 ) flatdata::copy_struct( *t, S( b.p.get( ) + i * k ) );
        else if ( op == 1 ) flatdata::copy_struct( typename S::MutatorType( b.p.get( ) + i * k ), *u );
        else if ( op == 2 ) flatdata::copy_struct( *t, *u );
        else if ( op == 3 ) t = u;
        else if ( op == 4 ) { flatdata::Struct< S > fresh; t = fresh; }
        else { flatdata::Struct< S > other( u ); flatdata::copy_struct( *other, typename S::MutatorType( b.p.get( ) + i * k ) );  }
    }
    const flatdata::Struct< S >&cx = x, &cy = y;
    o.raw( ",\"x\":" ); o.hex( ( *cx ).data( ), k ); o.raw( ",\"y\":" ); o.hex( ( *cy ).data( ), k );
    o.raw( ",\"same\":" ); o.num( *cx == *cy );
}
template < typename S > typename std::enable_if< S::IS_OVERLAPPING_WITH_NEXT >::type owners( In&, Out&, Buffer& ) {}
template < typename S > void copies( In& in, Out& o )
{
    Buffer b( in.bytes( ) );
    const size_t k = S::size_in_bytes( );
    for ( size_t n = in.n( ); n > 0; n-- )
    {
        size_t from = in.n( ), to = in.n( );
        bool writer = in.n( );
        if ( writer ) flatdata::copy_struct( typename S::MutatorType( b.p.get( ) + to * k ), typename S::MutatorType( b.p.get( ) + from * k ) );
        else flatdata::copy_struct( typename S::MutatorType( b.p.get( ) + to * k ), S( b.p.get( ) + from * k ) );
    }
    o.raw( "{\"middle\":" ); o.hex( b.p.get( ), b.size + 8 );
    owners< S >( in, o, b );
    o.raw( ",\"bytes\":" ); o.hex( b.p.get( ), b.size + 8 );
    o.raw( "}" );
}
"""


def compile_ops(text, ix, name, case):
    body = []
    for i, p in enumerate(ix.of("struct")):
        n = cpp.cpp_name(p)
        body.append('if ( cmd == "compare%d" ) { compare< %s >( in, o ); return; }' % (i, n))
        body.append('if ( cmd == "copies%d" ) { copies< %s >( in, o ); return; }' % (i, n))
    return compile_cpp(text, ix, name, case, builders=False,
                         more='}\n#include <algorithm>\n#include <unordered_set>\n#include <flatdata/Copy.h>\n'
                              '#include <flatdata/Hash.h>\nnamespace fv {\n' + MORE, extra_body="\n".join(body))


@st.composite
def cases(draw, ix):
    p = gen.pick(draw, ix.of("struct"))
    lay = ix.layout(p)[0]
    rows = [draw(struct_values(ix, p))]
    while len(rows) < 6 and draw(st.integers(0, 5)):
        row = list(gen.pick(draw, rows))
        for _ in range(draw(st.integers(0, 2))):    # equal to an earlier one, or different in a field or two
            k = draw(st.integers(0, len(lay) - 1))
            lo, hi = bounds(lay[k][4], lay[k][2])
            near = [v for v in (row[k] - 1, row[k] + 1, row[k] ^ (1 << (lay[k][2] - 1)), lo, hi) if lo <= v <= hi]
            row[k] = gen.pick(draw, near or [lo])
        rows.append(tuple(row))
    n = len(rows)
    index = st.integers(0, n - 1)
    return {"struct": p, "rows": rows,
            "copies": draw(st.lists(st.tuples(index, index, st.integers(0, 1)), max_size=5)),
            "owners": draw(st.lists(st.tuples(st.integers(0, 5), index), max_size=6))}


def text_of(ix, p, row):
    out = [p.rsplit(".", 1)[1] + " {"]
    names = [n for n, *_ in ix.layout(p)[0]]
    for f in ix.items[p]["fields"]:
        v = row[names.index(f["name"])]
        e = ix.items.get(f["type"])
        if e is not None:
            known = {x: n for n, _, x in e["values"]}
            v = "%s::%s" % (e["name"], known[v]) if v in known else "%s::UNKNOWN_VALUE_%s" % (
                e["name"], str(v).replace("-", "MINUS_"))
        out.append("    %s : %s," % (f["name"], v))
    return "\n".join(out + ["}"])


def check(driver, ix, case, sub, rec):
    p = sub["struct"]
    name = p.rsplit(".", 1)[1]
    k = ix.of("struct").index(p)
    size = ix.size_bytes(p)
    rows = [canonical(ix, p, r) for r in sub["rows"]]
    raw = [layout.enc(ix, p, r) for r in rows]
    n = len(rows)
    got = driver.ask("compare%d %s" % (k, cpp.hexarg(b"".join(raw))))
    what = "%s with the values %s" % (p, show(rows))

    def table(fn):
        return [[int(fn(a, b)) for b in rows] for a in rows]
    same, less = table(lambda a, b: a == b), table(lambda a, b: a < b)
    for key, want in (("eq", same), ("ne", table(lambda a, b: a != b)), ("lt", less), ("meq", same),
                      ("mne", table(lambda a, b: a != b)), ("mlt", less), ("xeq", same)):
        require(got[key] == want, "%s: operator %s between elements gives %s, expected %s", what,
                {"eq": "==", "ne": "!=", "lt": "<"}[key[-2:]] + (" (mutators)" if key[0] == "m" else ""), got[key], want)
    for i in range(n):
        for j in range(n):
            require(got["hash"][i][j] or not same[i][j], "%s: equal elements %d and %d hash differently", what, i, j)
    different = [(i, j) for i in range(n) for j in range(n) if not same[i][j]]
    require(not different or any(not got["hash"][i][j] for i, j in different), "%s: different elements all hash alike", what)
    firsts = [i for i in range(n) if rows.index(rows[i]) == i]
    require(got["ordered"] == sorted(firsts, key=lambda i: rows[i]), "%s: a std::set of them holds %s", what, got["ordered"])
    require(got["sorted"] == sorted(range(n), key=lambda i: rows[i]), "%s: sorting them gives %s", what, got["sorted"])
    require(got["hashed"] == len(firsts) and got["found"] == [3] * n,
            "%s: a hash set holds %s of %d different elements; [in hash set + 2 * in ordered set]: %s", what, got["hashed"],
            len(firsts), got["found"])
    texts = [t for r in rows for t in [text_of(ix, p, r)] * 2]
    require(got["text"] == texts, "%s prints as\n%s\nexpected\n%s", what, "\n".join(got["text"]), "\n".join(texts))
    sized = "Structure of size %d" % size
    empty = "Uninitialized Structure " + name
    a = got["about"]
    require(a[:2] == [name] * 2 and a[4:6] == [size] * 2, "%s: name %s, sizes %s; expected %d", what, a[:2], a[4:6], size)
    schema = entity_schema(ix, p)
    require(a[2] == a[3] == schema, "%s: schema of the structure is %r, expected %r", what, a[2], schema)
    require(a[6:8] == [0, 0] and a[8:10] == [empty] * 2, "%s: an empty handle is %s, describes as %s", what, a[6:8], a[8:10])
    require(a[10:12] == [1, 1] and a[12:14] == [sized] * 2, "%s: an element is %s, describes as %s", what, a[10:12], a[12:14])

    # copying
    cmd = "copies%d %s %d" % (k, cpp.hexarg(b"".join(raw)), len(sub["copies"]))
    state = list(raw)
    for src, dst, writer in sub["copies"]:
        cmd += " %d %d %d" % (src, dst, writer)
        state[dst] = state[src]
    middle = list(state)
    own = [bytes(size), bytes(size)]
    ranged = ix.has_range(p)
    if not ranged:
        for op, i in sub["owners"]:
            cmd += " %d %d" % (op, i)
            t, u = (1, 0) if i % 2 else (0, 1)
            if op == 0:
                own[t] = state[i]
            elif op == 1:
                state[i] = own[u]
            elif op in (2, 3):
                own[t] = own[u]
            elif op == 4:
                own[t] = bytes(size)
    got = driver.ask(cmd)
    what = "%s: %s" % (p, cmd)
    require(got["middle"] == (b"".join(middle) + bytes(8)).hex(), "%s: array is %s after copies, expected %s", what, got["middle"],
            b"".join(middle).hex())
    require(got["bytes"] == (b"".join(state) + bytes(8)).hex(), "%s: array is %s at the end, expected %s", what, got["bytes"],
            b"".join(state).hex())
    if not ranged:
        require([got["x"], got["y"]] == [own[0].hex(), own[1].hex()] and got["same"] == int(own[0] == own[1]),
                "%s: owned structures hold %s and %s (equal: %s), expected %s", what, got["x"], got["y"], got["same"],
                [o.hex() for o in own])
    if optionals_of(ix, p):
        rec.label("optionals")
    if any(f["type"] in ix.items for f in ix.items[p]["fields"]):
        rec.label("enumerations")
    if len(firsts) < n:
        rec.label("equal elements")
    if any(x[0] == y[0] and x != y for x in rows for y in rows):
        rec.label("order decided by a later field")
    if any(x[0] < y[0] and any(a > b for a, b in zip(x, y)) for x in rows for y in rows):
        rec.label("fields in opposite order")
    rec.nontrivial(len(firsts) > 1)


CHECK = Check(
    "C29",
    "a case is a generated schema of structures (bit-packed fields of every type, enumerations, ranges, optional fields) compiled to "
    "C++ with sanitizers, an array of 1-6 elements most of which equal an earlier one or differ from it in one or two fields, up to 5 "
    "copies inside the array and a history of up to 6 copies from, to and between structures that own their memory. Oracle: tuples of "
    "the field values (equality, lexicographic order, membership in ordered and hashed sets), the declared names, bytes. Non-trivial: "
    "two different elements.",
    [batch.SchemaPart("operations", schemas, compile_ops, lambda ix, case: cases(ix), check, 32, 600, {"quick": 70, "thorough": 500})])
