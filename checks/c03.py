"""C03: C++ field readers and writers are bit-exact and isolated."""
import random

from fv import batch, cpp, gen, layout, schema
from fv.core import CaseViolation, Check, Custom, Violation, require, show
from hypothesis import strategies as st

from checks.c04 import compile_cpp

# --------------------------------------------------------------------------------------------
# part 1: every (type, enumeration or not, bit offset, width)

COMBOS = [(t, e, b, w) for t in schema.WIDTH for e in ((False, True) if t != "bool" else (False,))
          for w in range(1, schema.WIDTH[t] + 1) for b in range(8)]


def offset_of(i):
    return COMBOS[i][2] + 8 * (i * 7 % 5)     # some whole bytes before the field


def combo_source(indices):
    out = ['#include "driver.h"\nnamespace fv {\n']
    for t, c in cpp.CPP_TYPE.items():
        if t != "bool":
            out.append("enum class E_%s : %s {};\n" % (t, c))
    out.append("""
typedef void ( *Fn )( unsigned char*, uint64_t, Out& );
template < typename T, typename I, int offset, int width >
void combo( unsigned char* p, uint64_t v, Out& o )
{
    flatdata::Writer< T, offset, width > w{ p };
    flatdata::Reader< T, offset, width > r{ p };
    o.raw( "[" );
    o.num( static_cast< I >( static_cast< T >( r ) ) );
    w = static_cast< T >( static_cast< I >( v ) );
    o.raw( "," );
    o.num( static_cast< I >( static_cast< T >( r ) ) );
    o.raw( "," );
    o.num( static_cast< I >( static_cast< T >( w ) ) );
    o.raw( "," );
}
static const std::map< size_t, Fn > table = {
""")
    for i in indices:
        t, e, b, w = COMBOS[i]
        c = cpp.CPP_TYPE[t]
        out.append("{ %d, combo< %s, %s, %d, %d > },\n" % (i, "E_" + t if e else c, c, offset_of(i), w))
    out.append("""};
std::map< std::string, ArchiveFns >& archives( ) { static std::map< std::string, ArchiveFns > m; return m; }
void extra( const std::string&, In& in, Out& o )
{
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        size_t i = in.n( );
        uint64_t v = in.n( );
        std::string b = in.bytes( );
        std::unique_ptr< unsigned char[] > p( new unsigned char[ b.size( ) ] );
        std::memcpy( p.get( ), b.data( ), b.size( ) );
        sep.next( );
        table.at( i )( p.get( ), v, o );
        o.hex( p.get( ), b.size( ) );
        o.raw( "]" );
    }
    o.raw( "]" );
}
}
""")
    return "".join(out)


def combo_driver(indices, name):
    exe, err = cpp.compile_exe({"main.cpp": combo_source(indices)}, name)
    if err:
        raise Violation("readers and writers do not compile: %s" % err[:2000])
    return cpp.Driver(exe)


def read_bits(data, off, w, t):
    v = (int.from_bytes(data, "little") >> off) & ((1 << w) - 1)
    if schema.is_signed(t) and w > 1 and v >> (w - 1):
        v -= 1 << w
    return v


def write_bits(data, off, w, v):
    mask = ((1 << w) - 1) << off
    acc = int.from_bytes(data, "little") & ~mask | (v << off) & mask
    return acc.to_bytes(len(data), "little")


def judge_combo(case, got):
    i, v, before = case
    t, e, _, w = COMBOS[i]
    off = offset_of(i)
    what = "%s%s of %d bits at bit %d of %s" % ("enumeration over " if e else "", t, w, off, before.hex())
    require(got[0] == read_bits(before, off, w, t), "reading %s gives %d, the bits hold %d", what, got[0],
            read_bits(before, off, w, t))
    after = write_bits(before, off, w, v)
    require(bytes.fromhex(got[3]) == after, "writing %d to %s gives %s, expected %s", v, what, got[3], after.hex())
    for g, n in ((got[1], "reader"), (got[2], "writer")):
        require(g == read_bits(after, off, w, t), "after writing %d to %s the %s gives %d, expected %d", v, what, n, g,
                read_bits(after, off, w, t))


def combo_case(i, rng):
    t, _, _, w = COMBOS[i]
    lo, hi = schema.bounds(t, w)
    tlo, thi = schema.bounds(t, schema.WIDTH[t])
    v = rng.choice([lo, hi, 0, 1, -1, lo + 1, hi - 1, hi + 1, lo - 1, tlo, thi, hi ^ 0x55, 1 << rng.randrange(w),
                    rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(tlo, thi)])
    v = max(tlo, min(thi, v))
    n = (offset_of(i) + w + 7) // 8 + 8
    k = rng.randrange(5)
    if k == 0:
        b = b"\0" * n
    elif k == 1:
        b = b"\xff" * n
    else:
        b = bytes(rng.randrange(256) for _ in range(n))
    return i, v, b


def ask_combos(driver, cases):
    return driver.ask("bits " + " ".join("%d %d %s" % (i, v, cpp.hexarg(b)) for i, v, b in cases))


def fails(driver, case):
    try:
        judge_combo(case, ask_combos(driver, [case])[0])
    except Violation:
        return True
    return False


def shrink_combo(driver, case):
    i, v, b = case
    for c in [(i, v, b"\0" * len(b)), (i, v, b"\xff" * len(b)), (i, 0, b), (i, 1, b), (i, 0, b"\xff" * len(b)),
              (i, 1, b"\0" * len(b))]:
        if fails(driver, c):
            case = c
            break
    i, v, b = case
    for k in range(len(b)):
        c = (i, v, b[:k] + b"\0" + b[k + 1:])
        if b[k] and fails(driver, c):
            b = c[2]
    return i, v, b


def drive(rec, tier, seed, shard, nshards):
    rng = random.Random(seed)
    mine = [i for i in range(len(COMBOS)) if i % nshards == shard]
    driver = combo_driver(mine, "combos-%d" % shard)
    rounds = 12 if tier == "quick" else 600
    try:
        for _ in range(rounds):
            for k in range(0, len(mine), 60):
                cases = [combo_case(i, rng) for i in mine[k:k + 60]]
                try:
                    answers = ask_combos(driver, cases)
                except cpp.Crash as crash:
                    for c in cases:
                        try:
                            ask_combos(driver, [c])
                        except cpp.Crash as v:
                            raise CaseViolation(str(v), list(shrink_combo(driver, c))) from v
                    raise CaseViolation(str(crash), list(cases[0])) from crash
                for c, a in zip(cases, answers):
                    rec.begin(c)
                    try:
                        judge_combo(c, a)
                    except Violation:
                        c = shrink_combo(driver, c)
                        try:
                            judge_combo(c, ask_combos(driver, [c])[0])
                            raise CaseViolation("not reproducible", list(c))
                        except CaseViolation:
                            raise
                        except Violation as v:
                            raise CaseViolation(str(v), list(c)) from v
                    rec.nontrivial(any(c[2]) or c[1] != 0, c)
        rec.label("combinations of type, offset and width", len(mine))
    finally:
        driver.stop()


def replay(case, rec):
    i, v, b = case
    driver = combo_driver([i], "replay")
    try:
        judge_combo((i, v, b), ask_combos(driver, [(i, v, b)])[0])
    finally:
        driver.stop()


# --------------------------------------------------------------------------------------------
# part 2: generated structures, histories of writes

def struct_commands(ix):
    """(definitions, body of extra()): `struct PATH HEX (field value)*` lists [bytes, fields, other fields...] per write."""
    more, body = [], []
    for p in ix.of("struct"):
        n = cpp.cpp_name(p)
        sets, gets = [], []
        for k, f in enumerate(ix.items[p]["fields"]):
            t = cpp.cpp_field_type(ix, f)
            sets.append("case %d: m.%s = conv< %s >( v ); break;" % (k, f["name"], t))
            gets.append("sep.next( ); o.num( static_cast< %s >( %sm.%s ) );" % (
                t, "*" if cpp.is_tagged(f) else "", f["name"]))
        tag = cpp.builder_class(p)
        more.append("""
static void struct_%(tag)s( In& in, Out& o ) {
std::string b = in.bytes( );
std::unique_ptr< unsigned char[] > p( new unsigned char[ b.size( ) ] ), q( new unsigned char[ b.size( ) ] );
std::memcpy( p.get( ), b.data( ), b.size( ) );
%(n)s::MutatorType m{ p.get( ) };
%(n)s r{ p.get( ) };
o.raw( "[" ); Sep s2{ o };
while ( true ) {
  s2.next( ); o.raw( "[" ); o.hex( p.get( ), b.size( ) ); o.raw( "," );
  dump_one< %(n)s >( o, r ); o.raw( ",[" );
  { Sep sep{ o }; %(gets)s }
  std::memcpy( q.get( ), b.data( ), b.size( ) );
  %(n)s::MutatorType c{ q.get( ) };
  flatdata::copy_struct( c, r );
  %(n)s cr = c, rr = m;
  o.raw( "]," ); o.hex( q.get( ), b.size( ) );
  o.raw( cr == r && !( cr != r ) && rr == r && flatdata::Hash( )( cr ) == flatdata::Hash( )( r ) ? ",true" : ",false" );
  %(n)s orig{ reinterpret_cast< const unsigned char* >( b.data( ) ) };
  o.raw( ( orig == r ) != ( orig != r ) && ( orig == r ) == ( std::memcmp( b.data( ), p.get( ), %(n)s::size_in_bytes( ) ) == 0 )
         ? ",true]" : ",false]" );
  if ( in.done( ) ) { break; }
  size_t k = in.n( ); uint64_t v = in.n( );
  switch ( k ) { %(sets)s default: std::_Exit( 77 ); }
}
o.raw( "]" ); }
""" % {"tag": tag, "n": n, "gets": "\n".join(gets), "sets": "\n".join(sets)})
        body.append('if ( cmd == "struct%s" ) { struct_%s( in, o ); return; }' % (p, tag))
        body.append('if ( cmd == "size%s" ) { o.num( %s::size_in_bytes( ) ); return; }' % (p, n))
        body.append('if ( cmd == "text%s" ) { std::string b = in.bytes( ); o.str( %s{ reinterpret_cast< const unsigned '
                    'char* >( b.data( ) ) }.to_string( ) ); return; }' % (p, n))
    return "".join(more), "\n".join(body)


OPT = dict(max_structs=7, max_fields=14, max_archives=1, max_resources=1, max_blocks=3, max_enums=5, min_archives=0)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def compile_structs(text, ix, name, case):
    more, body = struct_commands(ix)
    return compile_cpp(text, ix, name, case, more=more, extra_body=body, builders=False)


@st.composite
def histories(draw, ix):
    p = gen.pick(draw, ix.of("struct"))
    lay, bits = ix.layout(p)
    n = (bits + 7) // 8 + 8
    back = draw(st.one_of(st.just(b"\0" * n), st.just(b"\xff" * n), st.binary(min_size=n, max_size=n)))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, len(lay) - 1))
        _, _, w, _, t, e = lay[k]
        lo, hi = schema.bounds(t, w)
        tlo, thi = schema.bounds(t, schema.WIDTH[t])
        v = draw(gen.boundary_int(lo, hi))
        if draw(st.integers(0, 4)) == 0:
            v = draw(gen.boundary_int(tlo, thi))
        ops.append([k, v])
    return {"struct": p, "bytes": back, "ops": ops}


def check(driver, ix, case, sub, rec):
    p = sub["struct"]
    lay, bits = ix.layout(p)
    size = driver.ask("size%s" % p)
    require(size == (bits + 7) // 8, "size_in_bytes of %s is %d, expected %d", p, size, (bits + 7) // 8)
    data = sub["bytes"]
    got = driver.ask("struct%s %s %s" % (p, cpp.hexarg(data), " ".join("%d %d" % (k, v) for k, v in sub["ops"])))
    done = "before any write"
    for i, (hexed, values, mut, copied, same, eq) in enumerate(got):
        if i:
            k, v = sub["ops"][i - 1]
            data = write_bits(data, lay[k][1], lay[k][2], v)
            done = "after %s = %d" % (lay[k][0], v)
        require(bytes.fromhex(hexed) == data, "%s of %s the bytes are %s, expected %s", done, p, hexed, data.hex())
        want = [read_bits(data, o, w, t) for _, o, w, _, t, _ in lay]
        require(values == want, "%s the fields of %s read %s, expected %s", done, p, values, want)
        require(mut == want, "%s the mutable fields of %s read %s, expected %s", done, p, mut, want)
        n = (bits + 7) // 8
        copied = bytes.fromhex(copied)
        require(copied[:n] == data[:n] and copied[n:] == sub["bytes"][n:], "copy_struct of %s %s gives %s", p, data.hex(),
                copied.hex())
        require(same and eq, "%s comparisons of %s do not follow its bytes", done, p)
    # the text representation lists each field with its value (enumerations by name)
    text = driver.ask("text%s %s" % (p, cpp.hexarg(data)))
    lines = text.splitlines()
    require(len(lines) == len(lay) + 2, "to_string of %s is %s", p, show(text))
    for (name, o, w, _, t, e), line in zip(lay, lines[1:]):
        v = read_bits(data, o, w, t)
        if e is None:
            require(line == "    %s : %d," % (name, v), "to_string of %s shows %s as %s, it holds %d", p, name, show(line), v)
        else:
            names = [n for n, _, x in ix.items[e]["values"] if x == v]
            if names:
                require(line.endswith(": %s," % names[0]) or line.endswith(":%s," % names[0]), "to_string of %s shows %s as %s, it holds %s",
                        p, name, show(line), names[0])
    rec.nontrivial(any(v for _, v in sub["ops"]) or any(sub["bytes"]))
    rec.label("writes", len(sub["ops"]))


CHECK = Check(
    "C03",
    "combos: for every type, plain or enumeration, every bit offset within a byte and every width, writing a boundary or random "
    "value (also one too large for the field) over a zero, all-ones or random background is compared with arithmetic on the "
    "buffer as one big integer. structs: histories of field writes on generated structures over dirty buffers, comparing all "
    "bytes and all fields after each. Buffers are allocated exactly and watched by the address sanitizer. Non-trivial: the "
    "background or the value is not zero.",
    [Custom("combos", drive, replay, 8),
     batch.SchemaPart("structs", schemas, compile_structs, lambda ix, case: histories(ix), check, 24, 800,
                      {"quick": 40, "thorough": 300})],
    assumptions=["buffers have the 8 bytes of padding the library documents", "a one-bit signed field reads 0 or 1"])
