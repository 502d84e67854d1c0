"""C15: constants and enumerations carry exactly the declared values in every backend."""
from fv import batch, cpp, gen, golang, rust, schema
from fv.core import Check, Violation, require, show
from fv.schema import BASIC, WIDTH, bounds
from hypothesis import strategies as st

from checks.c06 import GO_TYPE, compile_go


@st.composite
def constants(draw, name):
    t = draw(st.sampled_from(BASIC))
    lo, hi = bounds(t, WIDTH[t])
    # powers of two and their neighbours, both signs, and everything else
    v = draw(st.one_of(
        gen.boundary_int(lo, hi),
        st.tuples(st.integers(0, 64), st.integers(-1, 1), st.sampled_from([1, -1])).map(
            lambda x: max(lo, min(hi, x[2] * ((1 << x[0]) + x[1]))))))
    return {"k": "const", "name": name, "type": t, "value": v, "lit": spelling(draw, v)}


def spelling(draw, v):
    """Decimal and hexadecimal, leading zeros, both cases."""
    s, a = "-" if v < 0 else "", abs(v)
    return s + draw(st.sampled_from([str(a), str(a), "0%d" % a, "00%d" % a, "0x%x" % a, "0x%X" % a, "0x%012x" % a,
                                     "0x%020X" % a]))


NAMES = [lambda i: "V%d" % i, lambda i: "VALUE_%d" % i, lambda i: "Value%d" % i, lambda i: "value_%d_x" % i,
         lambda i: "SOME_LONGER_NAME_%d" % i, lambda i: "aB%d" % i]


@st.composite
def enums(draw, name):
    t = draw(st.sampled_from(BASIC))
    cap = min(WIDTH[t], draw(st.sampled_from([4, 8, 8, 10])))
    width = draw(st.integers(2 if schema.is_signed(t) else 1, cap))
    w = None if width == WIDTH[t] and draw(st.booleans()) else width
    lo, hi = bounds(t, width)
    least = max(1, ((1 << width) - 256 + 1) // 2)
    most = hi - lo + 1
    n = draw(st.integers(least, min(most, least + 12)))
    style = draw(st.sampled_from(NAMES))
    values, used, cur = [], set(), 0
    # runs of implicit values, each started by an explicit one
    while len(values) < n:
        if cur in used or not lo <= cur <= hi or draw(st.integers(0, 3)) == 0:
            v = draw(gen.boundary_int(lo, hi))
            if v in used:
                free = [x for x in range(lo, hi + 1) if x not in used]
                v = free[v % len(free)]
            lit = spelling(draw, v)
        else:
            v, lit = cur, None
        run = draw(st.integers(0, 6)) if n < 40 else n
        values.append([style(len(values)), lit, v])
        used.add(v)
        cur = v + 1
        while run and len(values) < n and cur <= hi and cur not in used:
            values.append([style(len(values)), None, cur])
            used.add(cur)
            cur += 1
            run -= 1
    if draw(st.booleans()):      # a declared name that looks like a filled in one, but is not taken
        i = draw(st.integers(0, n - 1))
        values[i][0] = "UNKNOWN_VALUE_%s" % str(values[i][2]).replace("-", "MINUS_")
    return {"k": "enum", "name": name, "type": t, "width": w, "values": values}


@st.composite
def schemas(draw):
    blocks = [{"ns": ns, "items": []} for ns in draw(st.sampled_from([["n"], ["n", "n.m"], ["a.b", "c"], ["n", "k", "n"]]))]

    def put(item):
        b = gen.pick(draw, blocks)
        b["items"].append(item)
        return "." + b["ns"] + "." + item["name"]
    for i in range(draw(st.integers(3, 16))):
        put(draw(constants(draw(st.sampled_from(["K%d", "MAX_%d", "A_B_%d_C", "NO%dX"])) % i)))
    for i in range(draw(st.integers(1, 6))):
        e = draw(enums("E%d" % i))
        path = put(e)
        pad = draw(st.integers(0, 11))
        fields = [] if not pad else [{"name": "pad", "type": "u16", "width": pad, "decs": []}]
        fields += [{"name": "e", "type": path, "width": None, "decs": []},
                   {"name": "tail", "type": "u8", "width": draw(st.integers(1, 8)), "decs": []}]
        put({"k": "struct", "name": "S%d" % i, "fields": fields})
    return {"schema": {"blocks": blocks}, "noise": draw(gen.noise)}


# --------------------------------------------------------------------------------------------
# C++

def cpp_body(ix):
    out = ["""#include "gen.h"
#include <type_traits>
namespace fv {
template< typename T > static void num( T v, Out& o )
{
    std::ostringstream s;
    s << +v;
    o.raw( s.str( ) );
}
std::map< std::string, ArchiveFns >& archives( ) { static std::map< std::string, ArchiveFns > m; return m; }
void extra( const std::string& cmd, In& in, Out& o )
{
    o.raw( "[" );
    Sep sep{ o };
"""]
    for p in ix.of("const"):
        c = cpp.CPP_TYPE[ix.items[p]["type"]]
        n = cpp.cpp_name(p)
        out.append("""    if ( cmd == "%s" )
    {
        sep.next( );
        o.raw( std::is_same< std::underlying_type< decltype( %s ) >::type, %s >::value ? "true" : "false" );
        sep.next( );
        num( static_cast< %s >( %s ), o );
        constexpr %s k = %s;
        sep.next( );
        num( k, o );
    }
""" % (p, n, c, c, n, c, n))
    for p in ix.of("enum"):
        e = ix.items[p]
        c, n = cpp.CPP_TYPE[e["type"]], cpp.cpp_name(p)
        holder = next(s for s in ix.of("struct") if any(f["type"] == p for f in ix.items[s]["fields"]))
        out.append("""    if ( cmd == "%s" )
    {
        sep.next( );
        o.raw( std::is_same< std::underlying_type< %s >::type, %s >::value ? "true" : "false" );
%s        while ( !in.done( ) )
        {
            std::string b = in.bytes( );
            std::unique_ptr< unsigned char[] > raw( new unsigned char[ b.size( ) ] );
            std::memcpy( raw.get( ), b.data( ), b.size( ) );
            %s s( raw.get( ) );
            %s v = s.e;
            sep.next( );
            o.raw( "[" );
            num( static_cast< %s >( v ), o );
            o.raw( "," );
            o.str( to_string( v ) );
            o.raw( "]" );
        }
    }
""" % (p, n, c, "".join("        sep.next( ); num( static_cast< %s >( %s::%s ), o );\n" % (c, n, v[0]) for v in e["values"]),
            cpp.cpp_name(holder), n, c))
    out.append("    o.raw( \"]\" );\n}\n}\n")
    return "".join(out)


def compile_cpp(text, ix, name):
    from flatdata.generator.engine import Engine
    exe, err = cpp.compile_exe({"gen.h": Engine(text).render("cpp"), "main.cpp": "#include \"driver.h\"\n" + cpp_body(ix)}, name)
    if err:
        raise Violation("the generated C++ code does not compile: %s" % "\n".join(
            [l for l in err.splitlines() if "error" in l][:10]))
    return cpp.Driver(exe)


# --------------------------------------------------------------------------------------------
# Rust

def rust_const(p):
    ns, n = p.rsplit(".", 1)
    return rust.name(ns) + "::" + n


def rust_source(ix):
    out = ["""#![feature(variant_count)]
#![allow(warnings)]
#[path = "gen.rs"]
mod schema_gen;
fn extra(c: &str, i: &mut driver::In, o: &mut driver::Out) {
    let mut list: Vec<String> = Vec::new();
    match c {
"""]
    for p in ix.of("const"):
        t = ix.items[p]["type"]
        out.append("\"%s\" => { const K: %s = %s; list.push((K as i128).to_string()); }\n" % (p, t, rust_const(p)))
    for p in ix.of("enum"):
        e = ix.items[p]
        n = rust.name(p)
        holder = rust.name(next(s for s in ix.of("struct") if any(f["type"] == p for f in ix.items[s]["fields"])))
        out.append("\"%s\" => {\n list.push(std::mem::variant_count::<%s>().to_string());\n" % (p, n))
        out.append(" list.push(std::mem::size_of::<%s>().to_string());\n" % n)
        for v in e["values"]:
            out.append(" list.push((%s::%s as i128).to_string());\n" % (n, rust.camel(v[0])))
        out.append(""" while !i.done() {
  let b = i.bytes();
  let s = %s::from_bytes_slice(&b).unwrap();
  let name = format!("\\"{:?}\\"", s.e());
  list.push(format!("[{},{}]", s.e() as i128, name));
 }
}
""" % holder)
    out.append("""_ => driver::unknown(c),
    }
    o.raw(&format!("[{}]", list.join(",")));
}
fn main() { driver::run(Default::default(), extra); }
""")
    return "".join(out)


def compile_rust(text, ix, name):
    from flatdata.generator.engine import Engine
    exe, err = rust.compile_exe({"gen.rs": Engine(text).render("rust"), "main.rs": rust_source(ix)}, name)
    if not exe:
        raise Violation("the generated Rust code does not compile:\n%s" % err[:2000])
    return rust.Driver(exe)


class All:
    def __init__(self, text, *drivers):
        self.text = text
        self.cpp, self.rust, self.go = drivers

    def stop(self):
        for d in self.cpp, self.rust, self.go:
            d.stop()


def compile_all(text, ix, name, case):
    return All(text, compile_cpp(text, ix, name), compile_rust(text, ix, name), compile_go(text, ix, name, case))


# --------------------------------------------------------------------------------------------

def images(ix, path):
    """One buffer for each value of the enumeration, with other bits set all around"""
    holder = next(s for s in ix.of("struct") if any(f["type"] == path for f in ix.items[s]["fields"]))
    lay, bits = ix.layout(holder)
    _, off, width, _, t, _ = next(x for x in lay if x[5] == path)
    lo, hi = bounds(t, width)
    size = ix.size_bytes(holder)
    for v in range(lo, hi + 1):
        for background in (0, (1 << size * 8) - 1):
            mask = ((1 << width) - 1) << off
            yield v, (background & ~mask | (v << off) & mask).to_bytes(size, "little") + bytes(8)     # padding


def check_enum(what, path, e, seen, shown):
    """seen: [(value, (value read, name))]; each value has one name of its own"""
    names = {}
    declared = {v: n for n, _, v in e["values"]}
    for v, (got, name) in seen:
        require(got == v, "%s: %s stored as %d reads as %d", what, path, v, got)
        if v in declared:
            require(name == shown(declared[v]), "%s: value %d of %s is named %s instead of %s", what, v, path, name,
                    declared[v])
        require(names.setdefault(name, v) == v, "%s: values %d and %d of %s are both named %s", what, names[name], v, path,
                name)


def check(every, ix, case, sub, rec):
    from flatdata.generator.engine import Engine
    rec.begin("normal form")
    require(Engine(every.text).render("flatdata") == schema.normalized(ix), "the normal form is not the expected one:\n%s",
            Engine(every.text).render("flatdata"))
    go = every.go.ask("consts")
    for p in ix.of("const"):
        item = ix.items[p]
        rec.begin(show(item))
        got = every.cpp.ask(p)
        require(got == [True, item["value"], item["value"]], "C++: constant %s (%s %s = %s) is [underlying type, values] %s",
                p, item["type"], item["value"], item["lit"], got)
        got = every.rust.ask(p)
        require(got == [item["value"]], "Rust: constant %s (%s = %s) is %s", p, item["value"], item["lit"], got)
        require(go[p] == [GO_TYPE[item["type"]], item["value"]], "Go: constant %s (%s %s = %s) is %s", p, item["type"],
                item["value"], item["lit"], go[p])
        rec.nontrivial(item["value"] not in (0, 1))
        rec.label("hexadecimal" if "x" in item["lit"] else "decimal")
    for p in ix.of("enum"):
        e = ix.items[p]
        rec.begin(show(e))
        want = [v for _, _, v in e["values"]]
        n, short = len(want), p.rsplit(".", 1)[1]
        pictures = list(images(ix, p))
        line = " ".join([p] + ["x" + b.hex() for _, b in pictures])
        got = every.cpp.ask(line)
        require(got[0] is True, "C++: the base type of %s is not %s", p, e["type"])
        require(got[1:n + 1] == want, "C++: the enumerators of %s are %s instead of %s", p, show(got[1:n + 1]), show(want))
        check_enum("C++", p, e, list(zip([v for v, _ in pictures], got[n + 1:])), lambda x: short + "::" + x)
        require(not any("Unknown value" in x[1] for x in got[n + 1:]), "C++: values of %s have no name: %s", p, show(got))
        got = every.rust.ask(line)
        require(got[0] * 2 == len(pictures), "Rust: %s has %d variants for %d values", p, got[0], len(pictures) // 2)
        require(got[1] * 8 == max(8, WIDTH[e["type"]]), "Rust: %s occupies %d bytes", p, got[1])
        require(got[2:n + 2] == want, "Rust: the enumerators of %s are %s instead of %s", p, show(got[2:n + 2]), show(want))
        check_enum("Rust", p, e, list(zip([v for v, _ in pictures], got[n + 2:])), rust.camel)
        rec.nontrivial(n > 1 and len(set(b - a for a, b in zip(want, want[1:]))) > 1)
        for label, cond in (("filled in", len(pictures) > 2 * n), ("signed", schema.is_signed(e["type"])),
                            ("implicit", any(v[1] is None for v in e["values"])), ("wide", len(pictures) > 512)):
            if cond:
                rec.label(label)


CHECK = Check(
    "C15",
    "Generated schemas full of constants (every type, boundary values, decimal and hexadecimal spellings with leading "
    "zeros) and enumerations (every base type, 1 to 10 bits, runs of implicit values after explicit ones in any order, gaps), "
    "compiled to C++, Rust and (constants) Go. Every constant's value and type, every enumerator's value, and for every value the width can "
    "hold, stored in a structure among other set bits, the value read and its name are compared with the declaration; names "
    "are distinct, and the number of Rust variants is that of the values. Non-trivial: constants other than 0 and 1, "
    "enumerations whose values are not one ascending run.",
    [batch.SchemaPart("declarations", schemas, compile_all, lambda ix, case: st.just({}), check, 64, 2400,
                      {"quick": 1, "thorough": 1})],
    assumptions=["enumerator names of one enumeration differ in more than case and underscores (Rust names are derived)",
                 "C++ is compiled with -Wno-c++11-narrowing (see K03)"])
