"""C17: C++ containers behave like plain sequences under any operation history."""
from fv import cpp, gen, layout, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

SCHEMA = {"blocks": [{"ns": "c", "items": [
    {"k": "struct", "name": "Bit", "fields": [{"name": "a", "type": "bool", "width": None, "decs": []}]},
    {"k": "struct", "name": "Small", "fields": [{"name": "a", "type": "u8", "width": None, "decs": []}]},
    {"k": "struct", "name": "Pair", "fields": [{"name": "a", "type": "i32", "width": 13, "decs": []},
                                               {"name": "b", "type": "u16", "width": 11, "decs": []}]},
    {"k": "struct", "name": "Exact", "fields": [{"name": "a", "type": "u64", "width": None, "decs": []}]},
    {"k": "struct", "name": "Odd", "fields": [{"name": "a", "type": "u32", "width": 17, "decs": []},
                                              {"name": "b", "type": "i16", "width": 9, "decs": []},
                                              {"name": "c", "type": "u64", "width": 61, "decs": []}]},
    {"k": "struct", "name": "Wide", "fields": [{"name": "a", "type": "u64", "width": None, "decs": []},
                                               {"name": "b", "type": "i64", "width": None, "decs": []},
                                               {"name": "c", "type": "u32", "width": 3, "decs": []}]},
    {"k": "struct", "name": "Rng", "fields": [{"name": "first", "type": "u32", "width": 25, "decs": [["range", "r"]]},
                                              {"name": "x", "type": "i8", "width": 5, "decs": []}]},
    {"k": "struct", "name": "Long", "fields": [{"name": "f", "type": "u64", "width": 40, "decs": [["range", "r"]]},
                                               {"name": "x", "type": "u64", "width": 64, "decs": []}]},
    {"k": "archive", "name": "A", "bound": [], "res": [
        {"name": "m", "kind": "multi", "types": [".c.Small", ".c.Odd"], "width": 40, "decs": []},
        {"name": "n", "kind": "multi", "types": [".c.Wide", ".c.Bit", ".c.Pair"], "width": 33, "decs": []}]}]}]}
IX = schema.Index(SCHEMA)
TYPES = [".c." + n for n in ("Bit", "Small", "Pair", "Exact", "Odd", "Wide", "Rng", "Long")]
BIG = [9437187, 33554425, 33554424]     # sizes around the size of the buffer, 32 MB

MORE = r"""
template < typename T > struct Ranges { static void dump( Out&, T ) { } };
template < typename T, typename U > void range_of( Out& o, U r )
{
    std::pair< uint64_t, uint64_t > p = r;
    o.raw( "[" ); o.num( p.first ); o.raw( "," ); o.num( p.second ); o.raw( "]" );
}
template <> struct Ranges< ::c::Rng > { static void dump( Out& o, ::c::Rng x ) { range_of< ::c::Rng >( o, x.r ); } };
template <> struct Ranges< ::c::Long > { static void dump( Out& o, ::c::Long x ) { range_of< ::c::Long >( o, x.r ); } };

template < typename T >
void row( Out& o, T x ) { Dump< T >::all( o, x ); }

template < typename T, typename V >
void rows( Out& o, const V& v )
{
    o.raw( "[" );
    Sep sep{ o };
    for ( size_t i = 0; i < v.size( ); i++ ) { sep.next( ); row< T >( o, v[ i ] ); }
    o.raw( "]" );
}
template < typename T >
void ranges( Out& o, const flatdata::ArrayView< T >& v )
{
    o.raw( "[" );
    if ( T::IS_OVERLAPPING_WITH_NEXT )
    {
        Sep sep{ o };
        for ( auto x : v ) { sep.next( ); Ranges< T >::dump( o, x ); }
    }
    o.raw( "]" );
}
// VIEW := n op...
template < typename T >
flatdata::ArrayView< T > view_ops( flatdata::ArrayView< T > v, In& in )
{
    size_t n = in.n( );
    for ( size_t i = 0; i < n; i++ )
    {
        std::string op = in.s( );
        size_t a = in.n( ), b = in.n( );
        if ( op == "slice" ) v = v.slice( a, b );
        else if ( op == "slicep" ) v = v.slice( std::make_pair( a, b ) );
        else if ( op == "before" ) v = v.slice_before( a );
        else if ( op == "after" ) v = v.slice_after( a );
        else if ( op == "skip" ) v = v.skip( a );
        else if ( op == "skip_last" ) v = v.skip_last( a );
        else { std::cerr << "DRIVER: view op " << op << std::endl; std::_Exit( 77 ); }
    }
    return v;
}
template < typename T >
void dump_view( Out& o, flatdata::ArrayView< T > v )
{
    o.raw( "{\"rows\":" );
    rows< T >( o, v );
    o.raw( ",\"ranges\":" );
    ranges< T >( o, v );
    o.raw( ",\"bytes\":" ); o.num( v.size_in_bytes( ) );
    o.raw( ",\"empty\":" ); o.num( v.empty( ) );
    o.raw( ",\"bool\":" ); o.num( static_cast< bool >( v ) );
    o.raw( ",\"describe\":" ); o.str( v.describe( ) );
    o.raw( ",\"ends\":[" );
    if ( v.size( ) ) { row< T >( o, v.front( ) ); o.raw( "," ); row< T >( o, v.back( ) ); }
    o.raw( "]}" );
}
// positions of iterators are given relative to begin
template < typename T >
void iterators( Out& o, const flatdata::ArrayView< T >& v, In& in )
{
    o.raw( "[" );
    Sep sep{ o };
    size_t n = in.n( );
    for ( size_t k = 0; k < n; k++ )
    {
        ptrdiff_t i = in.n( ), j = in.n( );
        auto a = v.begin( ) + i, b = v.end( ) - ( static_cast< ptrdiff_t >( v.size( ) ) - j );
        sep.next( );
        o.raw( "[" );
        o.num( static_cast< int64_t >( a - b ) );
        o.raw( "," ); o.num( ( a < b ) + 2 * ( a <= b ) + 4 * ( a > b ) + 8 * ( a >= b ) + 16 * ( a == b ) + 32 * ( a != b ) );
        auto c = v.begin( ); c += j; c -= j - i;
        o.raw( "," ); o.num( static_cast< int64_t >( c - v.begin( ) ) );
        auto d = a;
        auto e = a;
        if ( i < static_cast< ptrdiff_t >( v.size( ) ) ) { auto p = d++; auto q = ++e; o.raw( "," ); o.num( ( p == a ) + 2 * ( q == e ) + 4 * ( d == e ) + 8 * ( d - a == 1 ) );
            o.raw( "," ); row< T >( o, *a );
            o.raw( "," ); row< T >( o, v.begin( )[ i ] );
            o.raw( "," ); row< T >( o, T( ( a )->data( ) ) );
            o.raw( "," ); row< T >( o, b[ i - j ] ); }
        d = a; e = a;
        if ( i > 0 ) { auto p = d--; auto q = --e; o.raw( "," ); o.num( ( p == a ) + 2 * ( q == e ) + 4 * ( d == e ) + 8 * ( a - d == 1 ) ); }
        o.raw( "]" );
    }
    o.raw( "]" );
}
template < typename T >
void state( Out& o, const flatdata::Vector< T >& v )
{
    o.raw( "[" ); o.num( v.size( ) ); o.raw( "," ); o.num( v.size_in_bytes( ) ); o.raw( "," );
    rows< T >( o, v );
    o.raw( "," ); o.hex( v.data( ), v.size_in_bytes( ) );
    o.raw( "]" );
}
template < typename T >
void vectors( In& in, Out& o )
{
    std::vector< flatdata::Vector< T > > slot( 2 );
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        std::string op = in.s( );
        size_t k = in.n( );
        flatdata::Vector< T >& v = slot[ k ];
        const flatdata::Vector< T >& cv = v;
        sep.next( );
        o.raw( "{" );
        if ( op == "new" ) v = flatdata::Vector< T >( in.n( ) );
        else if ( op == "grow" ) { auto m = v.grow( ); o.raw( "\"before\":" ); row< T >( o, m ); o.raw( "," ); }
        else if ( op == "add" ) Dump< T >::fill( v.grow( ), in );
        else if ( op == "put" ) { size_t i = in.n( ); Dump< T >::fill( v[ i ], in ); }
        else if ( op == "front" ) { Dump< T >::fill( v.front( ), in ); }
        else if ( op == "back" ) { Dump< T >::fill( v.back( ), in ); }
        else if ( op == "resize" ) v.resize( in.n( ) );
        else if ( op == "reserve" ) v.reserve( in.n( ) );
        else if ( op == "pop" ) v.pop_back( );
        else if ( op == "copy" ) { flatdata::Vector< T > c( slot[ 1 - k ] ); v = c; }
        else if ( op == "move" ) { v = std::move( slot[ 1 - k ] ); slot[ 1 - k ] = flatdata::Vector< T >( ); }
        else if ( op == "swap" ) std::swap( slot[ 0 ], slot[ 1 ] );
        else if ( op == "peek" ) { o.raw( "\"ends\":[" ); if ( cv.size( ) ) { row< T >( o, cv.front( ) ); o.raw( "," ); row< T >( o, cv.back( ) ); } o.raw( "]," ); }
        else if ( op == "view" ) { flatdata::ArrayView< T > w = v; w = view_ops( w, in ); o.raw( "\"view\":" ); dump_view( o, w ); o.raw( ",\"it\":" ); iterators( o, w, in ); o.raw( "," ); }
        else { std::cerr << "DRIVER: op " << op << std::endl; std::_Exit( 77 ); }
        o.raw( "\"s\":[" ); state( o, slot[ 0 ] ); o.raw( "," ); state( o, slot[ 1 ] ); o.raw( "]}" );
    }
    o.raw( "]" );
}
template < typename T >
void fresh( Out& o )
{
    // a structure of its own on dirty stack memory
    alignas( 16 ) unsigned char room[ sizeof( flatdata::Struct< T > ) ];
    std::memset( room, 0xa5, sizeof( room ) );
    auto* s = new ( room ) flatdata::Struct< T >;
    const auto& c = *s;
    row< T >( o, *c );
}

// ---- elements as large as the buffers of growing containers
template < size_t N >
struct BigW
{
    using StreamType = unsigned char*;
    unsigned char* p;
    explicit BigW( unsigned char* x ) : p( x ) { }
    static constexpr size_t size_in_bytes( ) { return N; }
};
template < size_t N >
struct BigR
{
    using StreamType = const unsigned char*;
    using MutatorType = BigW< N >;
    using AccessorType = BigR< N >;
    static constexpr bool IS_OVERLAPPING_WITH_NEXT = false;
    const unsigned char* p;
    explicit BigR( const unsigned char* x ) : p( x ) { }
    static constexpr size_t size_in_bytes( ) { return N; }
};
template < size_t N >
void fill_big( BigW< N > w, In& in )
{
    size_t n = in.n( );
    for ( size_t i = 0; i < n; i++ ) { size_t at = in.n( ); w.p[ at ] = in.n( ); }
}
template < size_t N >
void dump_big( Out& o, const unsigned char* p )
{
    o.raw( "[" );
    Sep sep{ o };
    size_t i = 0;
    for ( ; i + 8 <= N; i += 8 )
    {
        uint64_t w;
        std::memcpy( &w, p + i, 8 );
        if ( w )
        {
            for ( size_t k = i; k < i + 8; k++ ) if ( p[ k ] ) { sep.next( ); o.raw( "[" ); o.num( k ); o.raw( "," ); o.num( p[ k ] ); o.raw( "]" ); }
        }
    }
    for ( ; i < N; i++ ) if ( p[ i ] ) { sep.next( ); o.raw( "[" ); o.num( i ); o.raw( "," ); o.num( p[ i ] ); o.raw( "]" ); }
    o.raw( "]" );
}
template < size_t N > struct Dump< BigR< N > >
{
    static void all( Out& o, BigR< N > r ) { dump_big< N >( o, r.p ); }
    static void fill( BigW< N > w, In& in ) { fill_big< N >( w, in ); }
};
struct Sink
{
    std::shared_ptr< std::stringstream > s = std::make_shared< std::stringstream >( );
    std::string content;
    std::unique_ptr< unsigned char[] > exact;
    std::unique_ptr< flatdata::ResourceHandle > handle( )
    {
        auto d = std::make_shared< Disk >( );
        disk = d;
        return flatdata::ResourceHandle::create( std::make_shared< DiskStream >( d, "r" ), [ this ]( ) {
            const std::string& f = disk->files[ "r" ];
            uint64_t size;
            std::memcpy( &size, f.data( ), 8 );
            if ( size != f.size( ) - 16 ) return flatdata::MemoryDescriptor( );
            return flatdata::MemoryDescriptor( f.data( ) + 8, size );
        } );
    }
    std::shared_ptr< Disk > disk;
};
// a closed container is used further: nothing may change any more
template < typename G, typename C >
void closed( In& in, Out& o, std::vector< Sink* > sinks, G grow, C close )
{
    size_t n = in.n( ), valid = 0, changed = 0;
    std::vector< std::string > before;
    if ( n ) for ( Sink* s : sinks ) before.push_back( s->disk->files[ "r" ] );
    for ( size_t i = 0; i < n; i++ )
    {
        if ( in.n( ) ) grow( ); else valid += close( );
        for ( size_t k = 0; k < sinks.size( ); k++ ) changed += before[ k ] != sinks[ k ]->disk->files[ "r" ];
    }
    o.raw( "\"closed\":[" ); o.num( valid ); o.raw( "," ); o.num( changed ); o.raw( "]" );
}
// external TYPE n rows...
template < typename T >
void external( In& in, Out& o )
{
    Sink sink;
    flatdata::ExternalVector< T > v( sink.handle( ) );
    o.raw( "{\"empty\":" ); o.num( v.empty( ) ); o.raw( ",\"sizes\":[" );
    Sep sep{ o };
    size_t n = in.n( );
    for ( size_t i = 0; i < n; i++ )
    {
        Dump< T >::fill( v.grow( ), in );
        sep.next( );
        o.num( v.empty( ) ? 0 : v.size( ) );
    }
    auto view = v.close( );
    o.raw( "],\"ok\":" ); o.num( static_cast< bool >( view ) );
    o.raw( ",\"file\":" ); o.num( sink.disk->files[ "r" ].size( ) );
    o.raw( ",\"padding\":" ); const std::string& f = sink.disk->files[ "r" ];
    o.hex( reinterpret_cast< const unsigned char* >( f.data( ) ) + f.size( ) - 8, 8 );
    o.raw( ",\"rows\":[" );
    Sep s2{ o };
    for ( size_t i = 0; i < view.size( ); i++ ) { s2.next( ); row< T >( o, view[ i ] ); }
    o.raw( "]," );
    closed( in, o, { &sink }, [ & ] { v.grow( ); }, [ & ] { return static_cast< bool >( v.close( ) ); } );
    o.raw( "}" );
}
// multi n ( m ( k row ) )
template < typename I, typename... T >
struct Multi
{
    using List = typename flatdata::MultiVector< I, T... >::ListBuilder;
    template < typename X > static void add( List& l, In& in ) { Dump< X >::fill( l.template add< X >( ), in ); }
    static void run( In& in, Out& o )
    {
        static void ( *const adders[] )( List&, In& ) = { &add< T >... };
        Sink index, data;
        flatdata::MultiVector< I, T... > v( flatdata::ExternalVector< I >( index.handle( ) ), data.handle( ) );
        size_t n = in.n( );
        for ( size_t i = 0; i < n; i++ )
        {
            auto list = v.grow( );
            size_t m = in.n( );
            for ( size_t j = 0; j < m; j++ ) { size_t k = in.n( ); adders[ k ]( list, in ); }
        }
        auto view = v.close( );
        o.raw( "{\"ok\":" ); o.num( static_cast< bool >( view ) );
        o.raw( ",\"size\":" ); o.num( view.size( ) );
        o.raw( ",\"file\":" ); o.num( data.disk->files[ "r" ].size( ) );
        o.raw( ",\"items\":[" );
        Sep sep{ o };
        for ( size_t i = 0; i < view.size( ); i++ )
        {
            sep.next( );
            o.raw( "[" );
            Sep s2{ o };
            auto visit = [ & ]( auto x ) {
                using X = decltype( x );
                s2.next( );
                o.raw( "[" ); o.num( static_cast< size_t >( flatdata::index_of< X, T... >::value ) ); o.raw( "," );
                row< X >( o, x );
                o.raw( "]" );
            };
            view.for_each( i, visit );
            o.raw( "]" );
        }
        o.raw( "],\"typed\":[" );
        Sep s3{ o };
        using pass = int[];
        (void)pass{ 0, ( typed< T >( view, o, s3 ), 0 )... };
        o.raw( "]," );
        closed( in, o, { &index, &data }, [ & ] { v.grow( ); }, [ & ] { return static_cast< bool >( v.close( ) ); } );
        o.raw( "}" );
    }
    template < typename X > static void typed( const flatdata::MultiArrayView< I, T... >& view, Out& o, Sep& s3 )
    {
        s3.next( );
        o.raw( "[" );
        Sep s4{ o };
        for ( size_t i = 0; i < view.size( ); i++ )
        {
            s4.next( );
            // by iterator and by a callback for one type only
            std::vector< const unsigned char* > a, b;
            for ( auto it = view.template iterator< X >( i ); it.valid( ); it++ ) a.push_back( stream( *it ) );
            auto f = [ & ]( X x ) { b.push_back( stream( x ) ); };
            view.template for_each< X >( i, f );
            o.num( a == b ? static_cast< int64_t >( a.size( ) ) : -1 );
        }
        o.raw( "]" );
    }
    template < size_t N > static const unsigned char* stream( BigR< N > x ) { return x.p; }
    template < typename X > static const unsigned char* stream( X x ) { return x.data( ); }
};
"""


def body():
    out = []
    for i, t in enumerate(TYPES):
        n = cpp.cpp_name(t)
        out.append('if ( cmd == "vec%d" ) { vectors< %s >( in, o ); return; }' % (i, n))
        out.append('if ( cmd == "ext%d" ) { external< %s >( in, o ); return; }' % (i, n))
        if not IX.has_range(t):
            out.append('if ( cmd == "fresh%d" ) { fresh< %s >( o ); return; }' % (i, n))
    for i, n in enumerate(BIG):
        out.append('if ( cmd == "big%d" ) { external< BigR< %d > >( in, o ); return; }' % (i, n))
    index = "::c::_builtin::multivector::IndexType%d"
    for i, (w, ts) in enumerate(MULTIS):
        out.append('if ( cmd == "multi%d" ) { Multi< %s, %s >::run( in, o ); return; }' % (
            i, index % w, ", ".join("BigR< %d >" % t if isinstance(t, int) else cpp.cpp_name(t) for t in ts)))
    return "\n".join(out)


MULTIS = [(40, [".c.Small", ".c.Odd"]), (33, [".c.Wide", ".c.Bit", ".c.Pair"]), (40, [".c.Odd", BIG[0], ".c.Bit"]),
          (33, [BIG[1], ".c.Small"])]


def driver():
    from flatdata.generator.engine import Engine
    header = Engine(schema.to_text(SCHEMA, schema.Style([]))).render("cpp")
    return cpp.shared({"gen.h": header, "main.cpp": cpp.emit_driver(IX, more=MORE, builders=False, extra_body=body())}, "c17")


# --------------------------------------------------------------------------------------------
# histories of vectors

OPS = ["add", "add", "add", "grow", "grow", "pop", "pop", "resize", "resize", "put", "put", "front", "back", "reserve", "new",
       "copy", "move", "swap", "peek", "view", "view", "view"]
VIEW = ["slice", "slicep", "before", "after", "skip", "skip_last"]


@st.composite
def histories(draw):
    t = draw(st.integers(0, len(TYPES) - 1))
    value = gen.struct_values(IX, TYPES[t])
    small = st.integers(0, 9)
    op = st.tuples(st.sampled_from(OPS), st.sampled_from([0, 0, 0, 1]), value, small,
                   st.lists(st.tuples(st.sampled_from(VIEW), small, small), max_size=3),
                   st.lists(st.tuples(small, small), max_size=2))
    return {"type": t, "ops": draw(st.lists(op, min_size=1, max_size=24))}


def zero(path):
    return tuple(0 for _ in IX.layout(path)[0])


def apply_view(model, sentinel, ops):
    """The commands of a view and what it has to show: (commands, visible rows, next row or None)"""
    rows = list(model)
    lo, hi = 0, len(rows) - (1 if sentinel and rows else 0)
    has = sentinel and bool(rows)
    out = []
    for name, a, b in ops:
        n = hi - lo
        a = a % (n + 1)
        if name == "slice":
            b = b % (n - a + 1)
            lo, hi = lo + a, lo + a + b
        elif name == "slicep":
            b = a + b % (n - a + 1)
            lo, hi = lo + a, lo + b
        elif name == "before":
            hi = lo + a
        elif name in ("after", "skip"):
            lo += a
        else:
            hi -= a
        out.append("%s %d %d" % (name, a, b))
    return out, rows[lo:hi], [rows[i + 1] if i + 1 < len(rows) else None for i in range(lo, hi)], has


def check_history(case, rec):
    path = TYPES[case["type"]]
    size = IX.size_bytes(path)
    ranged = IX.has_range(path)
    slots = [[], []]
    cmds, want = [], []
    for op, k, value, n, vops, its in case["ops"]:
        v = slots[k]
        value = tuple(value)
        extra = {}
        if op in ("put", "front", "back", "pop") and not v:
            continue
        if op == "add":
            cmds.append("add %d %s" % (k, cpp.row_args(value)))
            v.append(value)
        elif op == "grow":
            cmds.append("grow %d" % k)
            v.append(zero(path))
            extra["before"] = zero(path)
        elif op == "put":
            cmds.append("put %d %d %s" % (k, n % len(v), cpp.row_args(value)))
            v[n % len(v)] = value
        elif op in ("front", "back"):
            cmds.append("%s %d %s" % (op, k, cpp.row_args(value)))
            v[0 if op == "front" else -1] = value
        elif op == "pop":
            cmds.append("pop %d" % k)
            v.pop()
        elif op == "resize":
            cmds.append("resize %d %d" % (k, n))
            slots[k] = v[:n] + [zero(path)] * (n - len(v))
        elif op == "reserve":
            cmds.append("reserve %d %d" % (k, n * 3))
        elif op == "new":
            cmds.append("new %d %d" % (k, n))
            slots[k] = [zero(path)] * n
        elif op == "copy":
            cmds.append("copy %d" % k)
            slots[k] = list(slots[1 - k])
        elif op == "move":
            cmds.append("move %d" % k)
            slots[k], slots[1 - k] = slots[1 - k], []
        elif op == "swap":
            cmds.append("swap 0")
            slots.reverse()
        elif op == "peek":
            cmds.append("peek %d" % k)
            extra["ends"] = [v[0], v[-1]] if v else []
        else:
            vcmd, rows, nexts, has = apply_view(v, ranged, vops)
            pos = [(i % (len(rows) + 1), j % (len(rows) + 1)) for i, j in its]
            cmds.append("view %d %d %s %d %s" % (k, len(vcmd), " ".join(vcmd), len(pos), " ".join("%d %d" % p for p in pos)))
            extra["view"] = (rows, nexts, has)
            extra["it"] = pos
        want.append((cmds[-1], [list(s) for s in slots], extra))
    if not cmds:
        return
    got = driver().ask("vec%d %s" % (case["type"], " ".join(cmds)))
    for i, ((cmd, state, extra), g) in enumerate(zip(want, got)):
        what = "%s after %s" % (path, "; ".join(cmds[:i + 1]))
        for k in (0, 1):
            n, nbytes, rows, raw = g["s"][k]
            rows = [tuple(r) for r in rows]
            require(rows == state[k], "vector %d of %s holds %s, expected %s", k, what, show(rows), show(state[k]))
            require(n == len(state[k]) and nbytes == n * size, "vector %d of %s has size %s (%s bytes), expected %d", k, what, n,
                    nbytes, len(state[k]))
            b = b"".join(layout.enc(IX, path, r) for r in state[k])
            require(bytes.fromhex(raw) == b, "vector %d of %s has the bytes %s, expected %s", k, what, raw, b.hex())
        if "before" in extra:
            require(tuple(g["before"]) == extra["before"], "%s: a new element starts as %s", what, g["before"])
        if "ends" in extra:
            require([tuple(x) for x in g["ends"]] == extra["ends"], "%s: front and back are %s", what, g["ends"])
        if "view" in extra:
            judge_view(path, g["view"], *extra["view"], what)
            judge_iterators(g["it"], extra["view"][0], extra["it"], what)
    rec.label("type " + path)
    for c in cmds:
        rec.label("op " + c.split()[0])
    rec.nontrivial(any(slots) or len(cmds) > 2)


def range_field(path):
    return next(i for i, f in enumerate(IX.items[path]["fields"]) if any(d[0] == "range" for d in f["decs"]))


def judge_view(path, g, rows, nexts, has, what):
    size = IX.size_bytes(path)
    require([tuple(r) for r in g["rows"]] == rows, "%s: the view shows %s, expected %s", what, show(g["rows"]), show(rows))
    require(g["empty"] == (0 if rows else 1), "%s: empty() is %s with %d elements", what, g["empty"], len(rows))
    require(g["bytes"] == (len(rows) + has) * size, "%s: size_in_bytes() is %s", what, g["bytes"])
    require(g["bool"] == 1, "%s: a view of existing data is false", what)
    ends = [rows[0], rows[-1]] if rows else []
    require([tuple(r) for r in g["ends"]] == ends, "%s: front and back are %s", what, g["ends"])
    if rows:
        require(g["describe"] == "Array of size: %d in %d bytes" % (len(rows), (len(rows) + has) * size), "%s: describe() is %s",
                what, g["describe"])
    if IX.has_range(path):
        f = range_field(path)
        want = [[r[f], n[f]] for r, n in zip(rows, nexts)]
        require(g["ranges"] == want, "%s: ranges are %s, expected %s", what, g["ranges"], want)


def judge_iterators(got, rows, pos, what):
    for g, (i, j) in zip(got, pos):
        want = [i - j, (i < j) + 2 * (i <= j) + 4 * (i > j) + 8 * (i >= j) + 16 * (i == j) + 32 * (i != j), i]
        if i < len(rows):
            want += [15] + [list(rows[i])] * 4
        if i > 0:
            want.append(15)
        require(g == want, "%s: iterators at %d and %d give %s, expected %s", what, i, j, g, want)


# --------------------------------------------------------------------------------------------
# growing containers

# what is done with a container that has been closed: 0 closes it again, 1 grows it
AFTER = st.lists(st.integers(0, 1), max_size=4)


def after_args(case):
    return " ".join(str(x) for x in [len(case.get("after", []))] + list(case.get("after", [])))


def judge_closed(g, case, rec, what):
    valid, changed = g["closed"]
    require(valid == 0 and changed == 0, "%s: closed, then %s (0: close, 1: grow): %d times close() gives a valid view, %d times the "
            "data differs", what, case.get("after"), valid, changed)
    if case.get("after"):
        rec.label("used after closing")


@st.composite
def externals(draw):
    t = draw(st.integers(0, len(TYPES) - 1))
    return {"type": t, "rows": draw(st.lists(gen.struct_values(IX, TYPES[t]), max_size=12)), "after": draw(AFTER)}


def check_external(case, rec):
    path = TYPES[case["type"]]
    rows = [tuple(r) for r in case["rows"]]
    g = driver().ask("ext%d %s %s" % (case["type"], cpp.value_args({"kind": "vector"}, rows), after_args(case)))
    judge_external(g, rows, IX.size_bytes(path), IX.has_range(path), path)
    judge_closed(g, case, rec, "external vector of " + path)
    if not IX.has_range(path):
        g = driver().ask("fresh%d" % case["type"])
        require(tuple(g) == zero(path), "a new flatdata::Struct of %s holds %s", path, g)
    rec.nontrivial(bool(rows))


def judge_external(g, rows, size, ranged, what):
    require(g["empty"] == 1 and g["sizes"] == list(range(1, len(rows) + 1)), "external vector of %s: sizes while growing are %s", what,
            g["sizes"])
    require(g["ok"] == 1, "external vector of %s: close() fails after %d elements", what, len(rows))
    visible = rows[:-1] if ranged else rows
    got = [tuple(tuple(x) if isinstance(x, list) else x for x in r) for r in g["rows"]]
    require(got == visible, "external vector of %s holds %s after close(), expected %s", what, show(got), show(visible))
    require(g["file"] == 16 + size * len(rows) and g["padding"] == "00" * 8, "external vector of %s: %d elements are stored in %s "
            "bytes ending in %s", what, len(rows), g["file"], g["padding"])


def big_value(n):
    at = st.one_of(st.sampled_from([0, 1, 7, 8, n - 1, n - 8, n - 9, n // 2]), st.integers(0, n - 1))
    return st.dictionaries(at, st.integers(1, 255), max_size=3).map(lambda d: tuple(sorted(d.items())))


def big_args(v):
    return " ".join([str(len(v))] + ["%d %d" % x for x in v])


@st.composite
def bigs(draw):
    t = draw(st.sampled_from([0, 0, 1, 2]))
    return {"big": t, "rows": draw(st.lists(big_value(BIG[t]), max_size=11 if t == 0 else 4)), "after": draw(AFTER)}


def check_big(case, rec):
    n = BIG[case["big"]]
    rows = [tuple(tuple(x) for x in r) for r in case["rows"]]
    g = driver().ask("big%d %d %s %s" % (case["big"], len(rows), " ".join(big_args(r) for r in rows), after_args(case)), 120)
    judge_external(g, rows, n, False, "elements of %d bytes" % n)
    judge_closed(g, case, rec, "external vector of elements of %d bytes" % n)
    rec.label("flushes", max(0, (len(rows) * n - 1) // (1 << 25)))
    rec.nontrivial(len(rows) * n > 1 << 25)


@st.composite
def multis(draw):
    m = draw(st.integers(0, 1))
    ts = MULTIS[m][1]
    elem = st.integers(0, len(ts) - 1).flatmap(lambda i: st.tuples(st.just(i), gen.struct_values(IX, ts[i])))
    return {"multi": m, "items": draw(st.lists(st.lists(elem, max_size=5), max_size=8)), "after": draw(AFTER)}


@st.composite
def big_multis(draw):
    m = draw(st.integers(2, 3))
    ts = MULTIS[m][1]
    out, total = [], 0
    for item in draw(st.lists(st.lists(st.tuples(st.integers(0, len(ts) - 1), st.integers(0, 3)), max_size=3), min_size=1, max_size=9)):
        row = []
        for i, skew in item:
            # large elements are what matters, yet there is only so much memory
            i = next(k for k, t in enumerate(ts) if isinstance(t, int)) if skew and total < 120 << 20 else i
            if isinstance(ts[i], int):
                if total > 150 << 20:
                    continue
                total += ts[i]
                row.append((i, draw(big_value(ts[i]))))
            else:
                row.append((i, draw(gen.struct_values(IX, ts[i]))))
        out.append(row)
    return {"multi": m, "items": out, "after": draw(AFTER)}


def check_multi(case, rec):
    w, ts = MULTIS[case["multi"]]
    items = [[(i, tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in v)) for i, v in item] for item in case["items"]]
    args = " ".join([str(len(items))] + [" ".join([str(len(item))] + ["%d %s" % (
        i, big_args(v) if isinstance(ts[i], int) else cpp.row_args(v)) for i, v in item]) for item in items])
    g = driver().ask("multi%d %s %s" % (case["multi"], args, after_args(case)), 120)
    judge_closed(g, case, rec, "multivector")
    require(g["ok"] == 1 and g["size"] == len(items), "multivector of %d items: close() gives ok = %s with %s items", len(items), g["ok"],
            g["size"])
    got = [[(i, tuple(tuple(x) if isinstance(x, list) else x for x in v)) for i, v in item] for item in g["items"]]
    require(got == items, "multivector holds %s, expected %s", show(got, 1500), show(items, 1500))
    for k, counts in enumerate(g["typed"]):
        want = [sum(1 for i, _ in item if i == k) for item in items]
        require(counts == want, "typed iteration over type %d visits %s elements per item, expected %s (-1: iterator and for_each "
                "disagree)", k, counts, want)
    nbytes = sum(1 + (ts[i] if isinstance(ts[i], int) else IX.size_bytes(ts[i])) for item in items for i, _ in item)
    require(g["file"] == 16 + nbytes, "multivector of %d bytes is stored in %s bytes", nbytes, g["file"])
    if nbytes > 1 << 25:
        rec.label("flushed")
    if nbytes > 3 << 25:
        rec.label("flushed twice")
    rec.nontrivial(any(items))


def _first(big):
    """A few histories that flush more than once."""
    return [{"multi": 2, "items": [[(1, ((0, 1),))], [(1, ((5, 2),)), (0, (1, -1, 2))], [(1, ())] * 3, [(0, (7, 7, 7))],
                                   [(1, ((big - 1, 9),))] * 4, [(2, (1,))], [(1, ((1, 1),))] * 4, [(0, (3, 3, 3))], []]},
            {"multi": 3, "items": [[(0, ((0, 1),))], [(0, ((1, 2),))], [(1, (3,))], [(0, ())], [(1, (4,)), (0, ((2, 2),))], [(1, (5,))]]}]


CHECK = Check(
    "C17",
    "histories: up to 24 operations (grow, add, put, front, back, pop, resize, reserve, new, copy, move, swap, views with chains of "
    "slices, iterator arithmetic) over two vectors of eight structures of 1 to 17 bytes, with and without ranges; external: vectors "
    "grown and closed, then closed again or grown; flush: elements of 9 and 32 MB, so that the internal buffers are flushed up to three times; multi, "
    "multi-flush: the same for multivectors. Oracle: Python lists of rows and their documented bytes; address and undefined "
    "behaviour sanitizers. Non-trivial: something is stored; more than one buffer is filled (flush).",
    [Part("histories", histories, check_history, 5000, 150000), Part("external", externals, check_external, 800, 20000),
     Part("multi", multis, check_multi, 1000, 30000),
     Part("flush", bigs, check_big, 48, 1500, regressions=[{"big": 0, "rows": [((0, k + 1), (BIG[0] - 1, k + 1)) for k in range(11)]}]),
     Part("multi-flush", big_multis, check_multi, 40, 1200, regressions=_first(BIG[0]))],
    assumptions=["positions and lengths given to slices lie inside the view"])
