"""C30: Storages behave as maps from names to the content written last."""
import os

from fv import cpp, env, gen, layout, rust, schema
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

SCHEMA = {"blocks": [{"ns": "c", "items": [
    {"k": "struct", "name": "Odd", "fields": [{"name": n, "type": t, "width": w, "decs": []} for n, t, w in (
        ("a", "u32", 17), ("b", "i16", 9), ("c", "u64", 61))]},
    {"k": "archive", "name": "A", "bound": [], "res": [
        {"name": "m", "kind": "multi", "types": [".c.Odd"], "width": 33, "decs": []},
        {"name": "v", "kind": "vector", "types": [".c.Odd"], "width": 0, "decs": []}]}]}]}
IX = schema.Index(SCHEMA)
ODD = ".c.Odd"
SIZE = IX.size_bytes(ODD)

CPP = r"""
template < typename T > struct Parts;
template < typename I, typename S > struct Parts< flatdata::MultiVector< I, S > > { using Index = I; };
using Index = Parts< decltype( std::declval< ::c::ABuilder& >( ).start_m( ) ) >::Index;
struct Machine
{
    std::map< std::string, std::shared_ptr< flatdata::ResourceStorage > > h;
    std::shared_ptr< flatdata::MemoryResourceStorage > memory;
    std::vector< flatdata::MemoryDescriptor > kept;
    void run( In& in, Out& o );
};
void Machine::run( In& in, Out& o )
{
    using flatdata::MemoryDescriptor;
    auto hex = [ & ]( const MemoryDescriptor& d ) { if ( !d ) o.raw( "null" ); else o.hex( d.data( ), d.size_in_bytes( ) ); };
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        std::string op = in.s( );
        sep.next( );
        if ( op == "file" ) { std::string n = in.s( ); h[ n ] = flatdata::FileResourceStorage::create( in.s( ).c_str( ) ); o.num( !!h[ n ] ); continue; }
        if ( op == "mem" ) { memory = flatdata::MemoryResourceStorage::create( ); h[ in.s( ) ] = memory; o.num( true ); continue; }
        if ( op == "tar" ) { std::string n = in.s( ); h[ n ] = flatdata::TarArchiveResourceStorage::create( in.s( ).c_str( ) ); o.num( !!h[ n ] ); continue; }
        if ( op == "kept" ) { o.raw( "[" ); Sep s{ o }; for ( auto& k : kept ) { s.next( ); hex( k ); } o.raw( "]" ); continue; }
        if ( op == "hex" ) { o.str( memory->hexdump( in.n( ) ) ); continue; }
        if ( op == "bin" ) { o.str( memory->bindump( in.n( ) ) ); continue; }
        auto s = h[ in.s( ) ];
        std::string key = in.s( );
        if ( op == "dir" ) { std::string n = in.s( ); h[ n ] = s->create_directory( key.c_str( ) ); o.num( !!h[ n ] ); }
        else if ( op == "opendir" ) { std::string n = in.s( ); auto x = s->directory( key.c_str( ) ); o.num( !!x ); if ( x ) h[ n ] = std::move( x ); }
        else if ( op == "write" ) { std::string schema = in.bytes( ), data = in.bytes( ); o.num( s->write( key.c_str( ), schema.c_str( ), MemoryDescriptor( data.data( ), data.size( ) ) ) ); }
        else if ( op == "assign" )
        {
            std::string data = in.bytes( );
            if ( in.n( ) ) memory->assign_value( key.c_str( ), MemoryDescriptor( data.data( ), data.size( ) ) );
            else memory->assign_value( key.c_str( ), data.c_str( ) );
            o.num( true );
        }
        else if ( op == "vector" )
        {
            std::string schema = in.bytes( );
            auto v = s->create_external_vector< ::c::Odd >( key.c_str( ), schema.c_str( ) );
            for ( size_t n = in.n( ); n > 0; n-- ) Dump< ::c::Odd >::fill( v.grow( ), in );
            dump_res( o, v.close( ) );
        }
        else if ( op == "multi" )
        {
            std::string schema = in.bytes( );
            auto v = s->create_multi_vector< Index, ::c::Odd >( key.c_str( ), schema.c_str( ) );
            for ( size_t n = in.n( ); n > 0; n-- )
            {
                auto list = v.grow( );
                for ( size_t k = in.n( ); k > 0; k-- ) Dump< ::c::Odd >::fill( list.add< ::c::Odd >( ), in );
            }
            dump_res( o, v.close( ) );
        }
        else if ( op == "read" ) { std::string schema = in.bytes( ); auto d = s->read< MemoryDescriptor >( key.c_str( ), schema.c_str( ) ); if ( d ) { hex( *d ); kept.push_back( *d ); } else o.raw( "null" ); }
        else if ( op == "rows" ) { std::string schema = in.bytes( ); auto d = s->read< flatdata::ArrayView< ::c::Odd > >( key.c_str( ), schema.c_str( ) ); if ( d ) dump_res( o, *d ); else o.raw( "null" ); }
        else if ( op == "one" ) { std::string schema = in.bytes( ); auto d = s->read< ::c::Odd >( key.c_str( ), schema.c_str( ) ); if ( d ) Dump< ::c::Odd >::all( o, *d ); else o.raw( "null" ); }
        else if ( op == "items" ) { std::string schema = in.bytes( ); auto d = s->read< flatdata::MultiArrayView< Index, ::c::Odd > >( key.c_str( ), schema.c_str( ) ); if ( d ) dump_res( o, *d ); else o.raw( "null" ); }
        else if ( op == "schema" ) hex( s->read_schema( key.c_str( ) ) );
        else if ( op == "exists" ) o.num( s->exists( key.c_str( ) ) );
        else if ( op == "build" )
        {
            auto b = ::c::ABuilder::open( std::shared_ptr< flatdata::ResourceStorage >( s->create_directory( key.c_str( ) ) ) );
            auto v = b.start_v( );
            for ( size_t n = in.n( ); n > 0; n-- ) Dump< ::c::Odd >::fill( v.grow( ), in );
            v.close( );
            auto m = b.start_m( );
            for ( size_t n = in.n( ); n > 0; n-- )
            {
                auto list = m.grow( );
                for ( size_t k = in.n( ); k > 0; k-- ) Dump< ::c::Odd >::fill( list.add< ::c::Odd >( ), in );
            }
            m.close( );
            o.num( b.is_open( ) );
        }
        else if ( op == "view" )
        {
            auto d = s->directory( key.c_str( ) );
            if ( !d ) { o.raw( "null" ); continue; }
            auto a = ::c::A::open( std::shared_ptr< flatdata::ResourceStorage >( std::move( d ) ) );
            if ( !a ) { o.raw( "null" ); continue; }
            o.raw( "[" ); dump_res( o, a.v( ) ); o.raw( "," ); dump_res( o, a.m( ) ); o.raw( "]" );
        }
        else { std::cerr << "DRIVER: unknown operation " << op << std::endl; std::_Exit( 77 ); }
    }
    o.raw( "]" );
}
void storage_program( In& in, Out& o ) { Machine( ).run( in, o ); }
"""

RUST = r"""
use flatdata::{ResourceStorage, StorageHandle};
type Handles = std::collections::BTreeMap::<String, StorageHandle>;
fn storage_program(i: &mut driver::In, o: &mut driver::Out) {
    run_storages(i, o, &mut Handles::new(), &mut Vec::new());
}
fn run_storages(i: &mut driver::In, o: &mut driver::Out, h: &mut Handles, all: &mut Vec<StorageHandle>) {
    let mut kept = Vec::<&'static [u8]>::new();
    fn text(b: Vec<u8>) -> String { String::from_utf8(b).unwrap() }
    // everything handed out lives as long as the storages, which end with the program
    fn forever(b: &[u8]) -> &'static [u8] { unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) } }
    o.raw("[");
    let mut first = true;
    while !i.done() {
        if !first { o.raw(","); }
        first = false;
        let op = i.s();
        match op.as_str() {
            "file" => { let n = i.s(); let s: StorageHandle = flatdata::FileResourceStorage::new(i.s()); h.insert(n, s.clone()); all.push(s); o.num(true); continue; }
            "mem" => { let n = i.s(); let s: StorageHandle = flatdata::MemoryResourceStorage::new("/m"); h.insert(n, s.clone()); all.push(s); o.num(true); continue; }
            "tar" => { let n = i.s(); let s: StorageHandle = flatdata::TarArchiveResourceStorage::new(i.s()).unwrap(); h.insert(n, s.clone()); all.push(s); o.num(true); continue; }
            "kept" => { o.list(kept.iter(), |o, k| o.hex(k)); continue; }
            _ => {}
        }
        let s = h[&i.s()].clone();
        let key = i.s();
        match op.as_str() {
            "dir" | "opendir" => { let n = i.s(); let x = s.subdir(&key); h.insert(n, x.clone()); all.push(x); o.num(true); }
            "write" => { let schema = text(i.bytes()); let data = i.bytes(); o.num(s.write(&key, &schema, &data).is_ok()); }
            "vector" => {
                let schema = text(i.bytes());
                let mut v = flatdata::create_external_vector::<crate::schema_gen::c::Odd>(&*s, &key, &schema).unwrap();
                let n = i.n();
                for _ in 0..n { v.grow().unwrap().fill(i); }
                match v.close() { Ok(v) => o.list(v.iter(), |o, x| x.dump(o)), Err(e) => driver::result(o, Err(e)) }
            }
            "multi" => {
                let schema = text(i.bytes());
                let mut v = flatdata::create_multi_vector::<crate::schema_gen::c::M>(&*s, &key, &schema).unwrap();
                let n = i.n();
                for _ in 0..n {
                    let mut list = v.grow().unwrap();
                    let k = i.n();
                    for _ in 0..k { list.add_odd().fill(i); }
                }
                match v.close() {
                    Ok(v) => o.list(v.iter(), |o, item| o.list(item, |o, x| match x { crate::schema_gen::c::MRef::Odd(x) => x.dump(o) })),
                    Err(e) => driver::result(o, Err(e)),
                }
            }
            "read" => { let schema = text(i.bytes()); match s.read(&key, &schema) { Ok(d) => { o.hex(d); kept.push(forever(d)); } Err(_) => o.raw("null") } }
            "rows" | "one" | "items" => { let schema = text(i.bytes()); let _ = schema; o.raw("null"); }
            "schema" => match s.read_resource(&format!("{}.schema", key)) { Ok(d) => o.hex(d), Err(_) => o.raw("null") },
            "exists" => o.num(s.exists(&key)),
            "build" => {
                let b = crate::schema_gen::c::ABuilder::new(s.subdir(&key)).unwrap();
                let mut v = b.start_v().unwrap();
                let n = i.n();
                for _ in 0..n { v.grow().unwrap().fill(i); }
                v.close().unwrap();
                let mut m = b.start_m().unwrap();
                let n = i.n();
                for _ in 0..n {
                    let mut list = m.grow().unwrap();
                    let k = i.n();
                    for _ in 0..k { list.add_odd().fill(i); }
                }
                m.close().unwrap();
                o.num(true);
            }
            "view" => match crate::schema_gen::c::A::open(s.subdir(&key)) {
                Ok(a) => {
                    o.raw("[");
                    o.list(a.v().iter(), |o, x| x.dump(o));
                    o.raw(",");
                    o.list(a.m().iter(), |o, item| o.list(item, |o, x| match x { crate::schema_gen::c::MRef::Odd(x) => x.dump(o) }));
                    o.raw("]");
                }
                Err(_) => o.raw("null"),
            },
            _ => driver::unknown(&op),
        }
    }
    o.raw("]");
}
"""

KEYS = ["a", "b", "a_index", "x.y", "Z", "m"]
DIRS = ["a", "d", "d.e"]
SCHEMAS = ["s", "schema two\n", "index(s)", "  struct { } \"\\ \u00e9", "S", "s "]


@st.composite
def rows(draw, most=4):
    return draw(st.lists(gen.struct_values(IX, ODD), max_size=most))


@st.composite
def histories(draw):
    kind = gen.pick(draw, ["file", "mem"])
    ops, dirs, open_dirs = [], {"r": ""}, ["r"]
    n = draw(st.integers(4, 24))
    assigned = draw(st.booleans())
    for k in range(n):
        h = gen.pick(draw, sorted(dirs))
        key = gen.pick(draw, KEYS[:draw(st.integers(1, len(KEYS)))])
        sch = gen.pick(draw, SCHEMAS[:draw(st.integers(1, len(SCHEMAS)))])
        op = gen.pick(draw, ["write", "write", "write", "vector", "vector", "multi", "read", "read", "rows", "one", "items", "schema",
                             "exists", "dir", "opendir"] + (["assign", "assign", "hex", "bin"] if kind == "mem" else ["fresh"]))
        if op == "write":
            data = draw(st.one_of(st.binary(max_size=40), rows().map(lambda rs: b"".join(layout.enc(IX, ODD, r) for r in rs)),
                                  st.integers(0, 9000).map(lambda n: bytes(i * 7 & 255 for i in range(n)))))
            ops.append([op, h, key, sch, data])
        elif op == "vector":
            ops.append([op, h, key, sch, draw(rows())])
        elif op == "multi":
            ops.append([op, h, key, sch, draw(st.lists(rows(3), max_size=3))])
        elif op in ("read", "rows", "one", "items"):
            ops.append([op, h, key, sch])
        elif op in ("schema", "exists"):
            ops.append([op, h, gen.pick(draw, KEYS + ["nothing"])])
        elif op in ("dir", "opendir"):
            d = gen.pick(draw, DIRS)
            ops.append([op, h, d])
            if op == "dir":
                dirs["%s/%s" % (h, d)] = ""
        elif op == "assign":
            ops.append([op, h, key + gen.pick(draw, ["", ".schema"]), draw(st.binary(max_size=40)), draw(st.booleans())])
        elif op in ("hex", "bin"):
            ops.append([op, draw(st.booleans())])
        else:
            ops.append([op])
    return {"kind": kind, "ops": ops}


class Model:
    def __init__(self, kind, lang):
        self.kind, self.lang = kind, lang
        self.files, self.dirs, self.built = {}, {""}, {}

    def resource(self, key, sch):
        """What reading a resource yields: its payload or None."""
        data, stored = self.files.get(key), self.files.get(key + ".schema")
        return None if data is None or stored != sch.encode() else layout.payload(data)

    def put(self, key, sch, payload):
        self.files[key] = layout.frame(payload)
        self.files[key + ".schema"] = sch.encode()


def multi_bytes(items):
    index, data = b"", b""
    for item in items:
        index += len(data).to_bytes(8, "little")[:5]
        for r in item:
            data += b"\0" + layout.enc(IX, ODD, r)
    return index + len(data).to_bytes(8, "little")[:5], data + b""


def decoded(payload):
    return [layout.decode_struct(IX.layout(ODD)[0], payload[k:k + SIZE]) for k in range(0, len(payload), SIZE)]


def dumped(model, ops_dump, kind):
    """Reference rendering of a dump: {key: lines}"""
    per, digits = (16, lambda b: "%02x" % b) if kind == "hex" else (4, lambda b: format(b, "08b"))
    width = 2 if kind == "hex" else 8
    out = {}
    for key, data in model.files.items():
        if not ops_dump and len(key) > 7 and key.endswith(".schema"):
            continue
        lines = []
        for k in range(0, max(1, len(data)), per):
            part = data[k:k + per]
            cells = ""
            for i, b in enumerate(part):
                cells += (" " if i and i % (per // 2) == 0 else "") + digits(b) + " "
            missing = (per - len(part)) if data and len(part) < per else 0
            text = "".join(chr(b) if 32 <= b < 127 else " " for b in part)
            lines.append(("%08x  " % k if data else "") + cells + " " * (missing * (width + 1)) + "|" + text + "|")
        out["%s (%d bytes):" % (key, len(data))] = lines
    return out


def parsed(text):
    out = {}
    blocks = text.split("\n\n")
    require(blocks[-1] == "", "a dump ends with %r", text[-40:])
    for b in blocks[:-1]:
        lines = b.strip("\n").split("\n")
        require(lines[0] not in out, "a dump lists %r twice", lines[0])
        out[lines[0]] = lines[1:]
    return out


def driver_of(lang):
    from flatdata.generator.engine import Engine
    text = schema.to_text(SCHEMA, schema.Style([]))
    if lang == "C++":
        return cpp.shared({"gen.h": Engine(text).render("cpp"), "main.cpp": cpp.emit_driver(
            IX, more=CPP, builders=False, extra_body='if ( cmd == "storages" ) { storage_program( in, o ); return; }')}, "c30")
    return rust_shared(text)


_RUST = []


def rust_shared(text):
    if not _RUST:
        driver, err = rust.compile_schema(text, IX, "c30-%d" % os.getpid(), more=RUST,
                                          extra='match c { "storages" => storage_program(i, o), _ => driver::unknown(c) }')
        require(not err, "the generated Rust code does not compile:\n%s", (err or "")[-2500:])
        _RUST.append(driver)
    return _RUST[0]


def row_args(rs):
    return " ".join([str(len(rs))] + [cpp.row_args(r) for r in rs])


def check(lang):
    def run(case, rec):
        driver = driver_of(lang)
        kind = case["kind"]
        root = env.scratch("c30")
        try:
            judge(driver, lang, kind, case["ops"], os.path.join(root, "s"), rec)
        finally:
            env.rmtree(root)
    return run


class Plan:
    """The commands of a history and what the model answers to them"""

    def __init__(self, model, prefix):
        self.m = model
        self.prefix = prefix
        self.cmd, self.want = [], []
        self.written, self.seen, self.kept = set(), set(), []

    def ask(self, text, expected, what):
        self.cmd.append(text)
        self.want.append((expected, what))

    def add(self, ops, rec, start=None):
        add_to_plan(self, ops, rec, start)

    def compare(self, got, where):
        for (expected, what), line, g in zip(self.want, self.cmd, got):
            at = "%s, %s\n(%s)" % (where, what, " | ".join(self.cmd)[:3000])
            if isinstance(expected, tuple) and expected[0] in ("hex", "bin"):
                require(parsed(g) == expected[1], "%s: got\n%s\nexpected the resources %s", at, g, show(expected[1]))
                continue
            if isinstance(expected, tuple) and expected[0] == "view":
                require(g is not None, "%s: the archive does not open", at)
                g = [flat("rows", g[0]), flat("items", g[1])]
                expected = [[list(r) for r in expected[1]], [[list(r) for r in x] for x in expected[2]]]
            elif isinstance(expected, tuple):
                g, expected = flat(expected[0], g), [[list(r) for r in x] if expected[0] == "items" else list(x)
                                                     for x in expected[1]]
            require(g == expected, "%s: got %s, expected %s", at, show(g), show(expected))


def add_to_plan(plan, ops, rec, start):
    m, prefix, ask = plan.m, plan.prefix, plan.ask
    written, seen, kept = plan.written, plan.seen, plan.kept
    lang, kind = m.lang, m.kind
    for op in ops:
        name = op[0]
        if name == "fresh":      # new storage objects on the same files
            ask(start, 1, "opening the storage again")
            prefix = plan.prefix = {"r": ""}
            rec.label("reopened")
            continue
        if name in ("hex", "bin"):
            if lang == "C++":
                ask("%s %d" % (name, op[1]), (name, dumped(m, op[1], name)), "%sdump of the storage" % name)
                rec.label("dump")
            continue
        h = op[1] if op[1] in prefix else "r"
        path = prefix[h] + op[2]
        hexed = lambda s: cpp.hexarg(s.encode())
        at = "%s %s %s" % (name, h, op[2])
        if name in ("dir", "opendir"):
            new = "%s/%s" % (h, op[2])
            if path in m.files and kind == "file":      # a file of that name: no directory
                if lang == "C++":
                    ask(at + " -", 0, "directory %s where a file is" % path)
                continue
            if name == "dir":
                m.dirs.add(path + "/")
                prefix[new] = path + "/"
                ask(at + " " + new, 1, "creating directory %s" % path)
            elif lang == "C++":
                there = path + "/" in m.dirs
                ask(at + " " + new, int(there), "opening directory %s" % path)
                if there:
                    prefix[new] = path + "/"
            continue
        if name in ("write", "vector", "multi", "assign") and path + "/" in m.dirs and kind == "file":
            continue        # a directory has that name
        if name in ("write", "vector", "multi"):
            if path in seen:
                rec.label("rewritten after reading")
            elif path in written:
                rec.label("rewritten")
            written.add(path)
            if name != "write":
                seen.add(path)
        if name == "build":
            m.dirs.add(path + "/")
            m.files.update(layout.archive_files(IX, ".c.A", {"v": op[3], "m": [[(0, r) for r in x] for x in op[4]]}, path + "/"))
            ask("%s %s %d %s" % (at, row_args(op[3]), len(op[4]), " ".join(row_args(r) for r in op[4])), 1, "building %s" % path)
            m.built[path] = ("view", op[3], op[4])
        elif name == "view":
            ask(at, m.built.get(path), "opening archive %s" % path)
        elif name == "write":
            m.put(path, op[3], op[4])
            ask("%s %s %s" % (at, hexed(op[3]), cpp.hexarg(op[4])), 1, "writing %s" % path)
        elif name == "vector":
            m.put(path, op[3], b"".join(layout.enc(IX, ODD, r) for r in op[4]))
            ask("%s %s %s" % (at, hexed(op[3]), row_args(op[4])), ("rows", op[4]), "closing vector %s" % path)
        elif name == "multi":
            if path + "_index/" in m.dirs and kind == "file":
                continue
            index, data = multi_bytes(op[4])
            m.put(path + "_index", "index(%s)" % op[3], index)
            m.put(path, op[3], data)
            written.add(path + "_index")
            seen.add(path + "_index")
            ask("%s %s %d %s" % (at, hexed(op[3]), len(op[4]), " ".join(row_args(r) for r in op[4])),
                ("items", op[4]), "closing multivector %s" % path)
        elif name == "assign":
            if lang == "C++":
                data = op[3] if op[4] else op[3].split(b"\0")[0]
                m.files[path] = data
                # names of assigned values are complete paths
                ask("assign r %s %s %d" % (path, cpp.hexarg(data), op[4]), 1, "assigning %s" % path)
                rec.label("assigned")
        elif name in ("read", "rows", "one", "items"):
            got = m.resource(path, op[3])
            seen.add(path)
            if name == "read":
                if got is not None:
                    kept.append(got)
                    rec.label("read")
                ask("%s %s" % (at, hexed(op[3])), None if got is None else got.hex(), "reading %s" % path)
            elif lang == "C++":
                if name == "rows":
                    fits = got is not None and len(got) % SIZE == 0
                    ask("%s %s" % (at, hexed(op[3])), ("rows", decoded(got)) if fits else None, "reading vector %s" % path)
                elif name == "one":
                    fits = got is not None and len(got) == SIZE
                    ask("%s %s" % (at, hexed(op[3])), list(decoded(got)[0]) if fits else None, "reading structure %s" % path)
                else:
                    index = m.resource(path + "_index", "index(%s)" % op[3])
                    seen.add(path + "_index")
                    if index is not None and len(index) % 5 == 0 and got is not None and not sound(index, got):
                        continue        # not a multivector: meaningless
                    if got is None or index is None or len(index) % 5:
                        ask("%s %s" % (at, hexed(op[3])), None, "reading multivector %s" % path)
                    else:
                        offs = [int.from_bytes(index[k:k + 5], "little") for k in range(0, len(index), 5)]
                        items = [decoded(b"".join(got[k + 1:k + 1 + SIZE] for k in range(a, b, SIZE + 1)))
                                 for a, b in zip(offs, offs[1:])]
                        ask("%s %s" % (at, hexed(op[3])), ("items", items), "reading multivector %s" % path)
        elif name == "schema":
            stored = m.files.get(path + ".schema")
            seen.add(path)
            ask(at, None if stored is None or (not stored and kind == "file") else stored.hex(), "schema of %s" % path)
        elif name == "exists":
            dirs_count = lang == "C++" or kind == "file"
            if path + "/" in m.dirs and path not in m.files:
                continue        # empty directories exist on disk only
            under = any(f.startswith(path + "/") for f in m.files)
            ask(at, int(path in m.files or (under and dirs_count)), "existence of %s" % path)


def judge(driver, lang, kind, ops, root, rec):
    plan = Plan(Model(kind, lang), {"r": ""})
    if kind == "file":
        os.mkdir(root)
    start = "file r %s" % root if kind == "file" else "mem r"
    plan.ask(start, 1, "opening the storage")
    plan.add(ops, rec, start)
    if kind == "mem":
        plan.ask("kept", [k.hex() for k in plan.kept], "everything that was read earlier")
    plan.compare(driver.ask("storages " + " ".join(plan.cmd)), "%s %s storage" % (lang, kind))
    if kind == "file":
        files = layout.read_files(root)
        require(files == plan.m.files, "%s file storage: the files are %s, expected %s", lang, show(files), show(plan.m.files))
    rec.label(kind)
    rec.nontrivial(len(plan.written) < sum(1 for op in ops if op[0] in ("write", "vector", "multi"))
                   and bool(plan.kept or plan.seen))


def sound(index, data):
    offs = [int.from_bytes(index[k:k + 5], "little") for k in range(0, len(index), 5)]
    return bool(offs) and offs[0] == 0 and offs[-1] == len(data) and all(
        a <= b and (b - a) % (SIZE + 1) == 0 for a, b in zip(offs, offs[1:])) and all(
        data[k] == 0 for k in range(0, len(data), SIZE + 1))


def flat(kind, g):
    """The rows of a dumped view, in either language's form."""
    if g is None or isinstance(g, str):
        return g
    v = g["v"] if isinstance(g, dict) and "v" in g else g
    if isinstance(v, dict):
        return v
    if kind == "items":
        return [[x[1] if len(x) == 2 and isinstance(x[1], list) else x for x in item] for item in v]
    return v


CHECK = Check(
    "C30",
    "a case is a history of 4-24 operations on a storage and its directories: resources, vectors and multivectors written under a few "
    "names again and again, values assigned, resources read with matching and other schemas and as other kinds, schemas and existence "
    "queried, directories created and opened, storages opened anew, contents dumped. Oracle: a map from paths to bytes. "
    "Non-trivial: something is written again, and something is read.",
    [Part("c++", histories, check("C++"), 2400, 40000),
     Part("rust", histories, check("Rust"), 2400, 40000)])
