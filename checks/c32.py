"""C32: Storages and archives can be used by several threads at once."""
import os

from fv import cpp, env, gen, layout, rust, schema, tars
from fv.core import Check, Part, require, show
from hypothesis import strategies as st

from checks import c30

CPP = c30.CPP + r"""
In part( In& in )
{
    In r;
    std::istringstream words( in.bytes( ) );
    std::string w;
    while ( words >> w ) r.t.push_back( w );
    return r;
}
void threads_program( In& in, Out& o )
{
    Machine shared;
    In first = part( in );
    o.raw( "[" );
    shared.run( first, o );
    size_t n = in.n( );
    std::vector< In > ins;
    for ( size_t i = 0; i < n; i++ ) ins.push_back( part( in ) );
    std::vector< Out > outs( n );
    std::vector< Machine > machines( n, shared );
    for ( auto& m : machines ) m.kept.clear( );
    std::atomic< size_t > waiting( 0 );
    std::vector< std::thread > threads;
    for ( size_t i = 0; i < n; i++ )
    {
        threads.emplace_back( [ &, i ] {
            waiting++;
            while ( waiting < n ) { }
            machines[ i ].run( ins[ i ], outs[ i ] );
        } );
    }
    for ( auto& t : threads ) t.join( );
    for ( auto& x : outs ) { o.raw( "," ); o.raw( x.o.str( ) ); }
    o.raw( "," );
    In last = part( in );
    shared.run( last, o );
    o.raw( "]" );
}
"""

RUST = c30.RUST + r"""
fn threads_program(i: &mut driver::In, o: &mut driver::Out) {
    let part = |i: &mut driver::In| driver::In::of(&String::from_utf8(i.bytes()).unwrap());
    let (mut h, mut all) = (Handles::new(), Vec::new());
    o.raw("[");
    run_storages(&mut part(i), o, &mut h, &mut all);
    let n = i.n();
    let parts: Vec<_> = (0..n).map(|_| part(i)).collect();
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n as usize));
    let threads: Vec<_> = parts.into_iter().map(|mut p| {
        let (mut h, barrier) = (h.clone(), barrier.clone());
        std::thread::spawn(move || {
            let mut o = driver::Out { o: String::new() };
            let mut all = Vec::new();
            barrier.wait();
            run_storages(&mut p, &mut o, &mut h, &mut all);
            o
        })
    }).collect();
    for t in threads {
        let out = t.join().unwrap();
        o.raw(",");
        o.raw(&out.o);
    }
    o.raw(",");
    run_storages(&mut part(i), o, &mut h, &mut all);
    o.raw("]");
}
"""

SHARED = ["common", "x.y", "z"]
SHARED_DIRS = ["d", "e"]
READS = ["read", "read", "rows", "one", "items", "schema", "exists"]


@st.composite
def steps(draw, handles, dirs, keys, archives, write, own, n):
    """Operations on resources `keys`; new ones are called after `own`"""
    ops, made = [], []
    for _ in range(n):
        h = gen.pick(draw, handles)
        what = ["read"] * 3 + (["archive"] if archives else [])
        if write:
            what += ["write"] * 4 + ["build", "dir"]
        op = gen.pick(draw, what)
        if op == "archive":
            ops.append(["view"] + gen.pick(draw, archives))
        elif op == "read":
            # not always of this thread
            pool = [k for k in keys if k[0] in handles]
            if not pool:
                continue
            h, key, sch = gen.pick(draw, pool)
            op = gen.pick(draw, READS)
            ops.append([op, h, key] + ([] if op in ("schema", "exists") else [sch if draw(st.integers(0, 5)) else "other"]))
        elif op == "write":
            key = own + gen.pick(draw, ["a", "b", "c"])
            sch = gen.pick(draw, c30.SCHEMAS[:3])
            op = gen.pick(draw, ["write", "vector", "multi"])
            if op == "write":
                v = draw(st.one_of(st.binary(max_size=20), st.integers(0, 5000).map(lambda n: bytes(i * 7 & 255 for i in range(n)))))
            elif op == "vector":
                v = draw(c30.rows())
            else:
                v = draw(st.lists(c30.rows(3), max_size=3))
            ops.append([op, h, key, sch, v])
            keys = keys + [[h, key, sch]]
        elif op == "build":
            key = "%sarc%d" % (own, len(made))
            made.append(key)
            ops.append(["build", h, key, draw(c30.rows(3)), draw(st.lists(c30.rows(2), max_size=2))])
            archives = archives + [[h, key]]
        else:
            # several threads may create a directory of this name; or none but this one
            key = gen.pick(draw, SHARED_DIRS + [own + "dir"])
            if h == "r":
                ops.append(["dir", h, key])
                handles = sorted(set(handles) | {"r/" + key})
    return {"ops": ops, "handles": handles, "keys": keys, "archives": archives}


@st.composite
def plans(draw):
    kind = gen.pick(draw, ["file", "mem", "mem", "tar"])
    first = [["dir", "r", d] for d in SHARED_DIRS if draw(st.booleans())]
    handles = ["r"] + ["r/" + d[2] for d in first]
    keys, archives = [], []
    for key in SHARED:
        if draw(st.booleans()):
            h = gen.pick(draw, handles)
            sch = gen.pick(draw, c30.SCHEMAS[:3])
            first.append(["multi", h, key, sch, draw(st.lists(c30.rows(3), max_size=3))] if draw(st.booleans()) else
                         ["vector", h, key, sch, draw(c30.rows())] if draw(st.booleans()) else
                         ["write", h, key, sch, draw(st.binary(max_size=30))])
            keys.append([h, key, sch])
    if kind == "tar" or draw(st.booleans()):
        h = gen.pick(draw, handles)
        first.append(["build", h, "arc", draw(c30.rows(3)), draw(st.lists(c30.rows(2), max_size=2))])
        archives.append([h, "arc"])
    threads = []
    for i in range(draw(st.integers(2, 4))):
        threads.append(draw(steps(handles, SHARED_DIRS, keys, archives, kind != "tar", "t%d" % i, draw(st.integers(2, 9)))))
    return {"kind": kind, "first": first, "threads": [t["ops"] for t in threads],
            "last": [["view"] + a for t in threads for a in t["archives"] if a[0] in handles]
            + [["read"] + k for t in threads for k in t["keys"] if k[0] in handles]}


def driver_of(lang):
    from flatdata.generator.engine import Engine
    text = schema.to_text(c30.SCHEMA, schema.Style([]))
    if lang == "C++":
        return cpp.shared({"gen.h": Engine(text).render("cpp"), "main.cpp": cpp.emit_driver(
            c30.IX, more=CPP, builders=False, extra_body='if ( cmd == "threads" ) { threads_program( in, o ); return; }')},
            "c32", flavour="tsan")
    if not _RUST:
        driver, err = rust.compile_schema(text, c30.IX, "c32-%d" % os.getpid(), more=RUST,
                                          extra='match c { "threads" => threads_program(i, o), _ => driver::unknown(c) }')
        require(not err, "the generated Rust code does not compile:\n%s", (err or "")[-2500:])
        _RUST.append(driver)
    return _RUST[0]


_RUST = []


class Quiet:
    def label(self, *args):
        pass


def blob(plan):
    return cpp.hexarg(" ".join(plan.cmd).encode())


def check(lang):
    def run(case, rec):
        driver = driver_of(lang)
        root = env.scratch("c32")
        try:
            judge(driver, lang, case, root, rec)
        finally:
            env.rmtree(root)
    return run


def judge(driver, lang, case, root, rec):
    kind = case["kind"]
    m = c30.Model("mem" if kind == "mem" else "file", lang)
    start = "mem r"
    if kind == "file":
        start = "file r %s/s" % root
        os.mkdir(root + "/s")
    first = c30.Plan(m, {"r": ""})
    first.add(case["first"], Quiet())
    if kind == "tar":
        # nothing but the content is kept
        tars.pack(root + "/s.tar", m.files, dirs="none")
        start = "tar r %s/s.tar" % root
        ops = [["opendir", "r", d[2]] for d in case["first"] if d[0] == "dir"]
        first = c30.Plan(m, {"r": ""})
        for _, _, d in ops:
            first.ask("opendir r %s r/%s" % (d, d), 1, "opening directory %s" % d)
            first.prefix["r/" + d] = d + "/"
    first.cmd.insert(0, start)
    first.want.insert(0, (1, "opening the storage"))
    plans = []
    for ops in case["threads"]:
        # the names are other ones in every thread, so that any order gives this
        t = c30.Plan(m, dict(first.prefix))
        t.add(ops, rec)
        if kind == "mem":
            t.ask("kept", [k.hex() for k in t.kept], "everything that was read earlier")
        plans.append(t)
    last = c30.Plan(m, dict(first.prefix))
    last.add(case["last"], Quiet())
    got = driver.ask("threads %s %d %s %s" % (blob(first), len(plans), " ".join(blob(t) for t in plans), blob(last)), timeout=120)
    everything = "\n".join(" | ".join(p.cmd) for p in [first] + plans)[:4000]
    for p, g, who in zip([first] + plans + [last], got, ["before"] + ["thread %d" % i for i in range(len(plans))] + ["afterwards"]):
        p.compare(g, "%s %s storage, %s, of\n%s\n" % (lang, kind, who, everything))
    if kind == "file":
        files = layout.read_files(root + "/s")
        require(files == m.files, "%s: the files are %s, expected %s", lang, show(files), show(m.files))
    rec.label(kind)
    rec.label("threads:%d" % len(plans))
    rec.nontrivial(sum(1 for t in plans if len(t.cmd) >= 2) >= 2)


CHECK = Check(
    "C32",
    "a case is a storage (in memory, files, or a tar file) with resources, directories and an archive, shared by 2-4 threads that "
    "write, read, build and open resources and archives in it at once, each writing names of its own and reading the common ones. "
    "Oracle: the map model of C30 (names are disjoint, so every schedule has the same outcome) and, in C++, ThreadSanitizer. "
    "Non-trivial: at least two threads do at least two operations.",
    [Part("c++", plans, check("C++"), 1200, 24000),
     Part("rust", plans, check("Rust"), 1000, 20000)],
    assumptions=["threads write different resources, and none reads a resource while it is being written"])
