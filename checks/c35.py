"""C35: the C++ data access statistics report what was read."""
import json
import os
import re
import subprocess

from fv import cpp, env, layout, schema, tars
from fv.core import Check, Part, require, show
from hypothesis import strategies as st


def struct(name, *fields):
    return {"k": "struct", "name": name, "fields": [
        {"name": n, "type": t, "width": w, "decs": d} for n, t, w, d in [(f + ([],))[:4] for f in fields]]}


RES = [("b", "vector", "B"), ("p", "vector", "P"), ("w", "vector", "W"), ("l", "vector", "L"), ("r", "vector", "R"),
       ("o", "vector", "O"), ("i", "inst", "W")]
SCHEMA = {"blocks": [{"ns": "c", "items": [
    {"k": "const", "name": "NONE", "type": "u32", "value": 77, "lit": "77"},
    struct("B", ("a", "u8", None)),
    struct("P", ("a", "u16", 12), ("b", "u32", 20), ("c", "u8", None)),
    struct("W", ("x", "u8", 3), ("y", "u64", 64), ("z", "bool", 1), ("t", "i16", 12)),
    struct("L", *[("f%d" % i, "u64", 64 - i) for i in range(12)]),
    struct("R", ("s", "u32", 19, [["range", "rg"]]), ("v", "u16", 16)),
    struct("O", ("a", "u32", 32, [["opt", ".c.NONE"]]), ("b", "u8", 7)),
    {"k": "archive", "name": "A", "bound": [], "res": [
        {"name": n, "kind": k, "types": [".c." + t], "width": 0, "decs": []} for n, k, t in RES]}]}]}
IX = schema.Index(SCHEMA)
FIELDS = {n: [f["name"] for f in IX.items[".c." + t]["fields"]] + (["rg"] if t == "R" else []) for n, _, t in RES}
LAYOUT = {n: {f[0]: (f[1], f[2]) for f in IX.layout(".c." + t)[0]} for n, _, t in RES}
SIZE = {n: IX.size_bytes(".c." + t) for n, _, t in RES}
MAX_STRUCT = 256
PAGE = 4096


def access(n, kind, f):
    at = "a.%s( )%s" % (n, "[ k ]" if kind == "vector" else "")
    if f == "rg":
        return "{ std::pair< uint64_t, uint64_t > v = %s.rg; sum += v.first + v.second; }" % at
    if n == "o" and f == "a":
        return "{ if ( ( k & 1 ) && %s.a ) sum += *%s.a; if ( !( k & 1 ) ) { boost::optional< uint32_t > v = %s.a; if ( v ) sum += *v; } }" % (at, at, at)
    return "sum += static_cast< uint64_t >( static_cast< decltype( +%s.%s ) >( %s.%s ) );" % (at, f, at, f) if False else \
        "{ %s v = %s.%s; sum += static_cast< uint64_t >( v ); }" % (cpp_type(n, f), at, f)


def cpp_type(n, f):
    t = next(x[4] for x in IX.layout(".c." + dict((a, c) for a, _, c in RES)[n])[0] if x[0] == f)
    return cpp.CPP_TYPE[t]


CPP = """
uint64_t touch( const ::c::A& a, const std::string& what, size_t lo, size_t hi, size_t step )
{
    uint64_t sum = 0;
    %s
    return sum;
}
void stats_program( In& in, Out& o )
{
    std::map< std::string, std::shared_ptr< flatdata::ResourceStorage > > stores;
    std::map< std::string, std::shared_ptr< ::c::A > > open;
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        std::string op = in.s( ), n = in.s( );
        sep.next( );
        if ( op == "file" ) { stores[ n ] = flatdata::FileResourceStorage::create( in.s( ).c_str( ) ); o.raw( "1" ); }
        else if ( op == "tar" ) { stores[ n ] = flatdata::TarArchiveResourceStorage::create( in.s( ).c_str( ) ); o.raw( "1" ); }
        else if ( op == "mem" )
        {
            auto from = flatdata::FileResourceStorage::create( in.s( ).c_str( ) );
            auto memory = flatdata::MemoryResourceStorage::create( );
            for ( size_t k = in.n( ); k > 0; k-- ) { std::string key = in.s( ), data = in.bytes( ); memory->assign_value( key.c_str( ), flatdata::MemoryDescriptor( data.data( ), data.size( ) ) ); }
            stores[ n ] = std::move( memory );
            o.raw( "1" );
        }
        else if ( op == "open" ) { std::string s = in.s( ); open[ n ] = std::make_shared< ::c::A >( ::c::A::open( stores[ s ] ) ); o.num( open[ n ]->is_open( ) ); }
        else if ( op == "close" ) { open.erase( n ); stores.erase( n ); o.raw( "1" ); }
        else if ( op == "leak" ) { new std::shared_ptr< ::c::A >( open[ n ] ); o.raw( "1" ); }
        else if ( op == "clear" ) { flatdata::DebugDataAccessStatistics::clear( ); o.raw( "1" ); }
        else if ( op == "read" )
        {
            std::string what = in.s( );
            size_t lo = in.n( ), hi = in.n( ), step = in.n( ), threads = in.n( );
            auto a = open[ n ];
            std::vector< uint64_t > sums( threads );
            std::vector< std::thread > running;
            for ( size_t t = 1; t < threads; t++ ) running.emplace_back( [ &, t ] { sums[ t ] = touch( *a, what, lo + t * step, hi, step * threads ); } );
            sums[ 0 ] = touch( *a, what, lo, hi, step * threads );
            for ( auto& t : running ) t.join( );
            uint64_t sum = 0;
            for ( auto s : sums ) sum += s;
            o.num( sum );
        }
    }
    o.raw( "]" );
}
""" % "\n".join('if ( what == "%s.%s" ) for ( size_t k = lo; k < hi; k += step ) %s' % (n, f, access(n, k, f))
                for n, k, _ in RES for f in FIELDS[n])

_EXE = []


def executable():
    if not _EXE:
        from flatdata.generator.engine import Engine
        driver = cpp.shared({"gen.h": Engine(schema.to_text(SCHEMA, schema.Style([]))).render("cpp"), "main.cpp": cpp.emit_driver(
            IX, more=CPP, builders=False, extra_body='if ( cmd == "stats" ) { stats_program( in, o ); return; }')}, "c35",
            flavour="stats")
        _EXE.append(driver.exe)
    return _EXE[0]


# --------------------------------------------------------------------------------------------

@st.composite
def cases(draw):
    sizes = {n: draw(st.sampled_from([5, 40, 400, 1500, 1, 2, 3, 0])) for n, k, _ in RES if k == "vector"}
    ops, opened, n = [], [], 0
    for _ in range(draw(st.sampled_from([2, 6, 10, 15]))):
        what = draw(st.sampled_from(["read"] * 14 + ["edge"] * 4 + ["open", "open", "close", "clear"])) if opened else "open"
        if what == "open":
            if n == 3:
                continue
            ops.append(["open", n, draw(st.sampled_from(["file", "file", "file", "mem", "tar"]))])
            opened.append(n)
            n += 1
        elif what == "read":
            r = draw(st.sampled_from([x[0] for x in RES]))
            f = draw(st.sampled_from(FIELDS[r]))
            lo, hi = draw(st.sampled_from([0, 0, 0, 1, 4, 30])), draw(st.sampled_from([2000, 1, 3, 10, 100, 600]))
            if draw(st.integers(0, 3)) == 0:
                lo += draw(st.integers(0, 1500))
                hi = lo + draw(st.integers(1, 20))
            ops.append(["read", draw(st.sampled_from(opened)), r, f, lo, hi, draw(st.sampled_from([1, 1, 1, 2, 7, 100])),
                        draw(st.sampled_from([1, 1, 2, 4]))])
        elif what == "edge":
            # elements around the end of a page, most of all the one on both pages
            i, r = draw(st.sampled_from(opened)), draw(st.sampled_from(["l", "l", "w", "p", "r"]))
            last = (8 + sizes[r] * SIZE[r]) // PAGE
            k = (PAGE * (1 + draw(st.integers(0, 30)) % max(1, last)) - 8) // SIZE[r]
            for _ in range(draw(st.integers(1, 4))):
                lo = max(0, k + draw(st.sampled_from([0, 0, 1, 1, 2, -1])))
                ops.append(["read", i, r, draw(st.sampled_from(FIELDS[r])), lo, lo + draw(st.sampled_from([1, 1, 2, 3])), 1, 1])
        elif what == "close":
            i = draw(st.sampled_from(opened))
            opened.remove(i)
            ops.append(["close", i])
        else:
            ops.append(["clear", 0])
    return {"sizes": sizes, "ops": ops, "salt": draw(st.integers(0, 9)), "leak": draw(st.integers(0, 5)) == 0}


def data_of(case):
    out = {}
    for n, k, t in RES:
        def row(j):
            return tuple((case["salt"] + j * 13 + i * 7) % (1 << min(w, 6)) if not signed else (j % 5) - 2
                         for i, (_, _, w, signed, _, _) in enumerate(IX.layout(".c." + t)[0]))
        rows = [row(j) for j in range(case["sizes"].get(n, 1))]
        if t == "O":
            rows = [(77 if j % 3 == 0 else r[0], r[1]) for j, r in enumerate(rows)]
        if t == "R":
            rows = sorted(rows)
        if t == "W":
            rows = [(r[0], r[1], j % 2, r[3]) for j, r in enumerate(rows)]
        out[n] = rows[0] if k == "inst" else rows
    return out


class Mapping:
    """What was read of one resource of one storage."""

    def __init__(self, name, size):
        self.name, self.size = name, size
        self.least, self.most = set(), set()
        self.counted, self.unsure = 0, False

    def read(self, at, offset, width):
        first, last = at + offset // 8, at + (offset + width - 1) // 8
        self.least.update(range(first, last + 1))
        self.most.update(range(first, min(first + 9, self.size)))

    def clear(self):
        self.least, self.most, self.counted, self.unsure = set(), set(), 0, False


class Model:
    def __init__(self, case, data, files, root):
        self.data, self.files, self.root = data, files, root
        self.open = {}          # number -> {resource: Mapping} or None in tar files
        self.closed = []
        self.unregistered = [0, 0]

    def opened(self, i, kind):
        if kind == "tar":
            self.open[i] = None
            n = len(RES) + 1
            self.unregistered[0] += 8 * n
            self.unregistered[1] += 8 * n * 3
            return
        maps = {}
        for f, c in self.files.items():
            m = Mapping((self.root + "/" + f) if kind == "file" else f, len(c))
            if not f.endswith(".schema"):
                m.read(0, 0, 64)
            maps[f] = m
        self.open[i] = maps

    def read(self, i, r, f, lo, hi, step):
        kind = dict((a, b) for a, b, _ in RES)[r]
        rows = self.data[r] if kind == "vector" else [self.data[r]]
        visible = len(rows) - 1 if r == "r" and rows else len(rows)
        hi = min(hi, visible)
        total, m = 0, None
        if self.open[i] is not None:
            m = self.open[i][r]
        names = FIELDS[r]
        for k in range(lo, hi, step):
            at = 8 + k * SIZE[r]
            spots = []
            if f == "rg":
                spots = [(at, "s"), (at + SIZE[r], "s")]
                total += rows[k][0] + rows[k + 1][0]
            else:
                v = rows[k][names.index(f)]
                spots = [(at, f)]
                if not (r == "o" and f == "a" and v == 77):
                    total += v
            for p, field in spots:
                off, w = LAYOUT[r][field]
                if m is not None:
                    m.read(p, off, w)
                    if r == "o" and f == "a":
                        m.unsure = True
                    else:
                        m.counted += 1
                else:
                    self.unregistered[0] += (off + w - 1) // 8 - off // 8 + 1
                    self.unregistered[1] += 9 * (2 if r == "o" else 1)
        return hi, total % (1 << 64)

    def close(self, i):
        maps = self.open.pop(i)
        if maps:
            self.closed += list(maps.values())

    def clear(self):
        for maps in self.open.values():
            for m in (maps or {}).values():
                m.clear()
        self.closed = []
        self.unregistered = [0, 0]


BLOCK = re.compile(r"^    (.*)\(([^()]*)% of pages\): $")


def parse(text):
    require(text.startswith("===== flatdata debug statistics =====\nTotal pages: "), "no statistics: %s", show(text))
    out = {"total": int(text.split("\n")[1].split(": ")[1]), "blocks": [], "unclosed": [], "unregistered": 0}
    mode, block = None, None
    for line in text.split("\n")[2:]:
        m = BLOCK.match(line)
        if line in ("Usage statistics:", "Resources not properly closed:", "Unregistered data reads:"):
            mode = line[:4]
        elif mode == "Usag" and m:
            block = {"name": m.group(1), "percent": float(m.group(2)), "unused": None, "mixed": False}
            out["blocks"].append(block)
        elif mode == "Usag" and line.startswith("        "):
            s = line.strip()
            if s.startswith("byte "):
                w = s.split()
                block["unused"][int(w[1])] = float(w[3].rstrip("%"))
            elif s.startswith("unused struct"):
                block["unused"] = {}
            elif s.startswith("mixed data"):
                block["mixed"] = True
            else:
                key, value = s.split("]: ")
                block[key + "]"] = value
        elif mode == "Reso" and line.startswith("    "):
            out["unclosed"].append(line.strip())
        elif mode == "Unre" and line.startswith("    "):
            out["unregistered"] = int(line)
        else:
            require(line == "", "unexpected line %r in\n%s", line, text)
    return out


def close_to(a, b):
    return abs(a - b) <= 1e-4 * max(1.0, abs(b))


def pages(positions):
    return len({p // PAGE for p in positions})


def fits(m, b):
    """Why a block does not describe this mapping, or None"""
    if b["name"] != m.name:
        return "name"
    count, size = (int(x) for x in b["bytes [count]"].split(" out of "))
    if size != m.size:
        return "size %d, not %d" % (size, m.size)
    if not len(m.least) <= count <= len(m.most):
        return "%d bytes, between %d and %d were read" % (count, len(m.least), len(m.most))
    if not close_to(float(b["bytes [accessed]"].rstrip("%")), count * 100.0 / size):
        return "%s of bytes" % b["bytes [accessed]"]
    n, of = (int(x) for x in b["pages [count]"].split(" out of "))
    if not pages(m.least) <= n <= pages(m.most):
        return "%d pages, between %d and %d were read" % (n, pages(m.least), pages(m.most))
    if of != (m.size + PAGE - 1) // PAGE:
        return "%d pages in total for %d bytes" % (of, m.size)
    if not close_to(float(b["pages [data access]"].rstrip("%")), count * 100.0 / n / PAGE):
        return "%s of accessed pages" % b["pages [data access]"]
    return padding(m, b)


def padding(m, b):
    res = m.name.rsplit("/", 1)[-1]
    if res not in SIZE:
        return None
    if m.unsure or m.counted < 2:
        return None
    if b["unused"] is None:
        return "no analysis of unused struct members"
    size = SIZE[res]
    n = (m.size - 8) // size
    inside = [range(8 + k * size, 8 + (k + 1) * size) for k in range(n)]
    sure = [k for k in range(n) if any(p in m.least for p in inside[k])]
    maybe = [k for k in range(n) if any(p in m.most for p in inside[k])]
    for byte in range(size):
        used = sum(inside[k][byte] in m.least for k in sure)
        could = sum(inside[k][byte] in m.most for k in maybe)
        got = b["unused"].get(byte)
        if got is not None and not 25 - 1e-3 <= got <= 100 + 1e-3:
            return "byte %d is redundant for %s%%" % (byte, got)
        if could == 0 and (got is None or got < 99.99):
            return "byte %d is never used but listed as %s" % (byte, got)
        # at most `could` of at least `sure` structs use it
        least = (1 - could / len(sure)) * 100 if sure else 0
        if least > 25 + 1e-2 and (got is None or got < least - 1e-2):
            return "byte %d is used by at most %d of %d structs but listed as %s" % (byte, could, len(sure), got)
        # at least `used` of at most `maybe` structs use it
        if got is not None and got > (1 - used / len(maybe)) * 100 + 1e-2:
            return "byte %d is used by %d of %d structs but listed with %s%%" % (byte, used, len(maybe), got)
    extra = set(b["unused"]) - set(range(size))
    return "bytes %s of a struct of %d" % (sorted(extra), size) if extra else None


def match(maps, blocks):
    """Assign blocks to mappings; mappings of at most the size header are not listed"""
    if not blocks:
        bad = [m for m in maps if len(m.least) > 8]
        return None if not bad else "%s is not listed although %d bytes were read" % (bad[0].name, len(bad[0].least))
    b, reason = blocks[0], "%s is listed although it was not read" % blocks[0]["name"]
    for k, m in enumerate(maps):
        if m.name != b["name"]:
            continue
        why = fits(m, b)
        if why is None and len(m.most) > 8:
            why = match(maps[:k] + maps[k + 1:], blocks[1:])
            if why is None:
                return None
            reason = why
        else:
            reason = "%s: %s" % (m.name, why)
    return reason


def check(case, rec):
    base = env.scratch("c35")
    try:
        data = data_of(case)
        files = layout.archive_files(IX, ".c.A", data)
        root = os.path.join(base, "a")
        os.mkdir(root)
        layout.write_files(root, files)
        tars.pack(base + "/a.tar", files)
        model = Model(case, data, files, root)
        words, want = [], []
        for op in case["ops"]:
            if op[0] == "open":
                _, i, kind = op
                if kind == "mem":
                    words.append("mem %d %s %d %s" % (i, root, len(files), " ".join(
                        "%s %s" % (f, cpp.hexarg(c)) for f, c in files.items())))
                else:
                    words.append("%s %d %s" % (kind, i, root if kind == "file" else base + "/a.tar"))
                words.append("open %d %d" % (i, i))
                want += [1, 1]
                model.opened(i, kind)
                rec.label("storage:" + kind)
            elif op[0] == "read":
                _, i, r, f, lo, hi, step, threads = op
                hi, total = model.read(i, r, f, lo, hi, step)
                words.append("read %d %s.%s %d %d %d %d" % (i, r, f, lo, hi, step, threads))
                want.append(total)
                if hi > lo and threads > 1:
                    rec.label("threads")
            elif op[0] == "close":
                model.close(op[1])
                words.append("close %d" % op[1])
                want.append(1)
            else:
                model.clear()
                words.append("clear 0")
                want.append(1)
                rec.label("clear")
        leaked = []
        if case["leak"] and any(m for m in model.open.values()):
            i = min(i for i, m in model.open.items() if m)
            words.append("leak %d" % i)
            want.append(1)
            leaked = sorted(m.name for m in model.open[i].values())
            del model.open[i]
            rec.label("left open")
        for i in sorted(model.open):
            model.close(i)
            words.append("close %d" % i)
            want.append(1)
        p = subprocess.run([executable()], input=("stats " + " ".join(words) + "\n").encode(), capture_output=True, timeout=250,
                           env=dict(os.environ, **cpp.ENVIRON))
        err = p.stderr.decode(errors="replace")
        require(p.returncode == 0, "the program died (status %s): %s", p.returncode, show(err, 1500))
        got = json.loads(p.stdout.decode())
        got = [int(x) for x in got]
        require(got == want, "with statistics the values read are\n%s\nexpected\n%s", got, want)
        report = parse(err)
        maps = model.closed
        why = match([m for m in maps if m.most], report["blocks"])
        require(why is None, "%s\n%s", why, show(err, 3000))
        low, high = sum(pages(m.least) for m in maps), sum(pages(m.most) for m in maps)
        require(low <= report["total"] <= high, "%d pages in total, between %d and %d were read", report["total"], low, high)
        for b in report["blocks"]:
            n = int(b["pages [count]"].split()[0])
            require(close_to(b["percent"], n * 100.0 / report["total"]), "%s has %s%% of the pages, expected %d of %d", b["name"],
                    b["percent"], n, report["total"])
        order = [int(b["pages [count]"].split()[0]) for b in report["blocks"]]
        require(order == sorted(order, reverse=True), "resources are not listed by pages: %s", order)
        # which files of an archive are mapped is up to the library, what is read is not
        require(set(report["unclosed"]) <= set(leaked) and {n for n in leaked if not n.endswith(".schema")} <= set(
            report["unclosed"]), "not closed are %s, listed %s", leaked, report["unclosed"])
        require(model.unregistered[0] <= report["unregistered"] <= model.unregistered[1],
                "%d bytes read without registration, expected %s", report["unregistered"], model.unregistered)
        rec.label("resources listed", len(report["blocks"]))
        rec.label("analysed", sum(b["unused"] is not None for b in report["blocks"]))
        rec.nontrivial(bool(report["blocks"]))
    finally:
        env.rmtree(base)


# --------------------------------------------------------------------------------------------
# programs of whatever headers

headers = st.fixed_dictionaries({"headers": st.lists(st.integers(0, 40), min_size=1, max_size=3), "generated": st.sampled_from([0, 0, 1, 2])})


def check_headers(case, rec):
    from flatdata.generator.engine import Engine
    root = os.path.join(env.REPO, "flatdata-cpp", "include")
    names = sorted(f for f in os.listdir(os.path.join(root, "flatdata")) if f.endswith(".h"))
    lines = ["#include <flatdata/%s>" % names[i % len(names)] for i in case["headers"]]
    if case["generated"]:
        lines.insert(0 if case["generated"] == 1 else len(lines), '#include "gen.h"')
    w = env.scratch("c35h")
    try:
        for n, text in (("gen.h", Engine(schema.to_text(SCHEMA, schema.Style([]))).render("cpp")), ("main.cpp", "\n".join(lines) + "\n")):
            with open(os.path.join(w, n), "w") as f:
                f.write(text)
        command = [cpp.CXX, "-std=c++17", "-fsyntax-only", "-w", "-I", root, "-I", w]
        without, _ = compiles(command + [os.path.join(w, "main.cpp")])
        if without:
            ok, err = compiles(command + ["-DDEBUG_DATA_ACCESS_STATISTICS", os.path.join(w, "main.cpp")])
            require(ok, "a program of these headers compiles, but not with access statistics:\n%s\n%s", "\n".join(lines), show(err, 1500))
        rec.nontrivial(without)
    finally:
        env.rmtree(w)


def compiles(command):
    p = subprocess.run(command, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    return p.returncode == 0, p.stdout.decode(errors="replace")


CHECK = Check(
    "C35",
    "a case is an archive (six vectors of different structures, one instance) of generated sizes, opened up to three times from "
    "files, memory or a tar file, with a history of reads of single fields over ranges of elements, by one or several threads, of "
    "closings and of clearing the statistics. Oracle: the values read, and the bytes of the fields read (at least these, at most "
    "nine from the first byte of the field), from which the bounds of all numbers of the report follow. Non-trivial when at least "
    "one resource is reported. headers: one to three headers of the library and a generated one, in any order, compile with "
    "statistics if they compile without.",
    [Part("report", cases, check, 700, 12000, case_timeout=250),
     Part("headers", lambda: headers, check_headers, 40, 600, case_timeout=450,
          regressions=[{"headers": [i], "generated": 0} for i in range(17)])],
    assumptions=["a reader may touch up to nine bytes from the first byte of a field", "which bytes of the schema files are mapped "
                 "is not part of the property"])
