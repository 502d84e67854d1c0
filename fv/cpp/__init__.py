"""Compiling generated C++ headers together with a driver, and talking to it."""
import fcntl
import json
import os
import select
import subprocess
import time

from .. import env
from ..core import Violation
from ..schema import WIDTH

HERE = os.path.dirname(os.path.abspath(__file__))
CXX = "clang++"
FLAGS = ["-std=c++17", "-O0", "-w", "-Wno-c++11-narrowing", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
         "-fno-omit-frame-pointer"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lpthread"]
ENVIRON = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
                           "hard_rss_limit_mb=3000:symbolize=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}
# for checks that need other instrumentation
FLAVOURS = {
    "": FLAGS,
    "tsan": ["-std=c++17", "-O1", "-w", "-Wno-c++11-narrowing", "-fsanitize=thread", "-fno-omit-frame-pointer"],
    "stats": FLAGS + ["-DDEBUG_DATA_ACCESS_STATISTICS"]}
ENVIRON["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1"
CPP_TYPE = {"bool": "bool", "i8": "int8_t", "u8": "uint8_t", "i16": "int16_t", "u16": "uint16_t", "i32": "int32_t",
            "u32": "uint32_t", "i64": "int64_t", "u64": "uint64_t"}


class HarnessError(RuntimeError):
    pass


def run_dir():
    d = os.environ.get("FV_RUN_DIR")
    if not d:
        d = os.environ["FV_RUN_DIR"] = env.scratch("cpp")
        import atexit
        atexit.register(env.rmtree, d)
    return d


def _run(cmd, timeout=400):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, (p.stderr + p.stdout)


def library_sources():
    root = os.path.join(env.REPO, "flatdata-cpp", "src")
    return sorted(os.path.join(root, f) for f in os.listdir(root) if f.endswith(".cpp"))


def prepare(flavour=""):
    """Precompiled header, library objects and driver main of the working tree; built once per run."""
    d = os.path.join(run_dir(), "cpp" + flavour)
    os.makedirs(d, exist_ok=True)
    done = os.path.join(d, "done")
    with open(os.path.join(d, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return d
        base = [CXX] + FLAVOURS[flavour] + ["-I", os.path.join(env.REPO, "flatdata-cpp", "include"), "-I", HERE]
        jobs = [base + ["-x", "c++-header", os.path.join(HERE, "driver.h"), "-o", os.path.join(d, "driver.pch")]]
        for i, src in enumerate(library_sources() + [os.path.join(HERE, "driver.cpp")]):
            jobs.append(base + ["-c", src, "-o", os.path.join(d, "lib%d.o" % i)])
        procs = [subprocess.Popen(j, stderr=subprocess.PIPE, text=True) for j in jobs]
        for p, j in zip(procs, jobs):
            err = p.communicate(timeout=600)[1]
            if p.returncode:
                raise HarnessError("cannot compile %s:\n%s" % (j, err[-3000:]))
        open(done, "w").close()
    return d


def compile_exe(sources, name, extra=(), timeout=400, flavour=""):
    """sources: {file name: text}; the .cpp files are compiled with driver.h precompiled. Returns (path, error)."""
    d = prepare(flavour)
    flags = FLAVOURS[flavour]
    w = os.path.join(run_dir(), "exe-" + name)
    os.makedirs(w, exist_ok=True)
    for n, text in sources.items():
        with open(os.path.join(w, n), "w") as f:
            f.write(text)
    exe = os.path.join(w, "exe")
    objs = []
    for n in sources:
        if n.endswith(".cpp"):
            o = os.path.join(w, n + ".o")
            rc, err = _run([CXX] + flags + list(extra) + [
                "-I", os.path.join(env.REPO, "flatdata-cpp", "include"), "-I", HERE, "-I", w,
                "-include-pch", os.path.join(d, "driver.pch"), "-c", os.path.join(w, n), "-o", o], timeout)
            if rc:
                return None, err
            objs.append(o)
    libs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o"))
    rc, err = _run([CXX, "-fuse-ld=lld"] + flags + objs + libs + LIBS + ["-o", exe], timeout)
    if rc:
        return None, err
    for o in objs:
        os.unlink(o)
    return exe, None


class Crash(Violation):
    pass


_SHARED = {}


def shared(sources, name, extra=(), flavour=""):
    """A driver of fixed sources, compiled once per run and started once per process."""
    if name not in _SHARED:
        prepare(flavour)
        mark = os.path.join(run_dir(), "shared-" + name)
        with open(mark + ".lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if not os.path.exists(mark):
                exe, err = compile_exe(sources, name, extra, flavour=flavour)
                if err:
                    raise Violation("the library does not compile in %s:\n%s" % (name, "\n".join(
                        [l for l in err.splitlines() if "error" in l][:12]) or err[-2000:]))
                with open(mark, "w") as f:
                    f.write(exe)
        with open(mark) as f:
            exe = f.read()
        own = exe + "-%d" % os.getpid()      # error output is kept per process
        os.link(exe, own)
        _SHARED[name] = Driver(own)
    return _SHARED[name]


class Driver:
    """A running driver process; one command line in, one JSON line out."""
    LANGUAGE = "C++"

    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        e = dict(os.environ)
        e.update(ENVIRON)
        self.err = open(self.exe + ".err", "wb+")
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e)
        self.buf = b""

    def ask(self, line, timeout=60):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            return self.crashed(line)
        end = time.time() + timeout
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.stop()
                raise Crash("no answer within %d s from: %s" % (timeout, line[:1500]))
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if not r:
                continue
            chunk = os.read(self.p.stdout.fileno(), 1 << 16)
            if not chunk:
                return self.crashed(line)
            self.buf += chunk
        out, self.buf = self.buf.split(b"\n", 1)
        return json.loads(out)

    def crashed(self, line):
        self.p.wait()
        rc = self.p.returncode
        self.err.seek(0)
        report = self.err.read().decode("utf-8", "replace")
        self.stop()
        if rc == 77 or "DRIVER:" in report[:200] and rc == 77:
            raise HarnessError("driver: %s" % report[-500:])
        head = [l for l in report.splitlines() if "ERROR" in l or "runtime error" in l or "ThreadSanitizer" in l or l.strip().startswith("#")]
        raise Crash("%s code died (status %s) in: %s\n%s" % (self.LANGUAGE, rc, line[:1500], "\n".join(head[:14]) or report[-1500:]))

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.err.close()
        self.p = None


# --------------------------------------------------------------------------------------------
# the schema specific part of a driver

def cpp_name(path):
    return "::" + path[1:].replace(".", "::")


def cpp_field_type(ix, f):
    return CPP_TYPE[f["type"]] if f["type"] in WIDTH else cpp_name(f["type"])


def is_tagged(f):
    return any(d[0] == "opt" for d in f["decs"])


def emit_struct(ix, path):
    s = ix.items[path]
    n = cpp_name(path)
    dump, fill = [], []
    for f in s["fields"]:
        t = cpp_field_type(ix, f)
        dump.append("sep.next(); o.num( static_cast< %s >( %ss.%s ) );" % (t, "*" if is_tagged(f) else "", f["name"]))
        fill.append("m.%s = conv< %s >( in.n( ) );" % (f["name"], t))
    return """template <> struct Dump< %s > {
static void all( Out& o, %s s ) { o.raw( "[" ); Sep sep{ o }; %s o.raw( "]" ); }
static void fill( %s::MutatorType m, In& in ) { %s }
};
""" % (n, n, "\n".join(dump), n, "\n".join(fill))


def emit_archive_dump(ix, path):
    n = cpp_name(path)
    body = []
    for r in ix.items[path]["res"]:
        body.append('sep.next( ); o.raw( "\\"%s\\":" ); dump_res( o, a.%s( ) );' % (r["name"], r["name"]))
        if r["kind"] == "multi":
            opt = ["optional"] in r["decs"]
            for i, t in enumerate(r["types"]):
                get = "*a.%s( )" % r["name"] if opt else "a.%s( )" % r["name"]
                body.append('%ssep.next( ); o.raw( "\\"%s@%d\\":" ); dump_iter< %s >( o, %s );' % (
                    "if ( a.%s( ) ) {" % r["name"] if opt else "{", r["name"], i, cpp_name(t), get) + " }")
    return """template <> struct DumpArchive< %s > {
static void all( Out& o, const %s& a ) { if ( !a ) {} o.raw( "{" ); Sep sep{ o }; %s o.raw( "}" ); }
};
""" % (n, n, "\n".join(body))


def builder_class(path):
    return "B_" + path[1:].replace(".", "__")


def emit_builder(ix, path):
    n = cpp_name(path)
    cls = builder_class(path)
    members, ops, children = [], [], []
    for r in ix.items[path]["res"]:
        name, kind = r["name"], r["kind"]
        if kind == "archive":
            child = cpp_name(r["types"][0])
            children.append('if ( res == "%s" ) { auto keep = b; if ( !b->is_open( ) ) return std::make_shared< %s >( '
                            'std::make_shared< %sBuilder >( ) ); return std::make_shared< %s >( '
                            'std::shared_ptr< %sBuilder >( keep, &keep->%s( ) ) ); }' % (
                                name, builder_class(r["types"][0]), child, builder_class(r["types"][0]), child, name))
            continue
        t = cpp_name(r["types"][0]) if r["types"] else None
        if kind == "raw":
            ops.append('if ( res == "%s" && op == "set" ) { std::string v = in.bytes( ); std::unique_ptr< char[] > p( '
                       'new char[ v.size( ) + 1 ] ); std::memcpy( p.get( ), v.data( ), v.size( ) ); '
                       'bool ok = b->set_%s( flatdata::MemoryDescriptor( p.get( ), v.size( ) ) ); '
                       'o.raw( ok ? "true" : "false" ); return; }' % (name, name))
        elif kind == "inst":
            ops.append('if ( res == "%s" && op == "set" ) { flatdata::Struct< %s > v; Dump< %s >::fill( *v, in ); '
                       'const auto& c = v; bool ok = b->set_%s( *c ); o.raw( ok ? "true" : "false" ); return; }' % (
                           name, t, t, name))
        else:
            members.append("std::unique_ptr< decltype( std::declval< %sBuilder& >( ).start_%s( ) ) > v_%s;" % (n, name, name))
            ops.append('if ( res == "%s" && op == "start" ) { v_%s.reset( new typename std::decay< decltype( *v_%s ) >::type( '
                       'b->start_%s( ) ) ); o.raw( "true" ); return; }' % (name, name, name, name))
            ops.append('if ( res == "%s" && op == "close" ) { if ( !v_%s ) throw std::runtime_error( "not started" ); '
                       'auto view = v_%s->close( ); v_%s.reset( ); dump_res( o, view ); return; }' % (
                           name, name, name, name))
            ops.append('if ( res == "%s" && op == "drop" ) { v_%s.reset( ); o.raw( "true" ); return; }' % (name, name))
        if kind == "vector":
            ops.append('if ( res == "%s" && op == "set" ) { flatdata::Vector< %s > v; fill_rows< %s >( v, in ); '
                       'bool ok = b->set_%s( v ); o.raw( ok ? "true" : "false" ); return; }' % (name, t, t, name))
            ops.append('if ( res == "%s" && op == "grow" ) { if ( !v_%s ) { flatdata::Vector< %s > v; fill_rows< %s >( v, in ); '
                       'throw std::runtime_error( "not started" ); } fill_rows< %s >( *v_%s, in ); '
                       'o.num( v_%s->size( ) ); return; }' % (name, name, t, t, t, name, name))
        if kind == "multi":
            cases = "".join("if ( k == %d ) { Dump< %s >::fill( list.template add< %s >( ), in ); }" % (
                i, cpp_name(x), cpp_name(x)) for i, x in enumerate(r["types"]))
            skip = "".join("if ( k == %d ) { flatdata::Struct< %s > s; Dump< %s >::fill( *s, in ); }" % (
                i, cpp_name(x), cpp_name(x)) for i, x in enumerate(r["types"]))
            ops.append('if ( res == "%s" && op == "grow" && !v_%s ) { size_t n = in.n( ); for ( size_t i = 0; i < n; i++ ) { '
                       'size_t m = in.n( ); for ( size_t j = 0; j < m; j++ ) { size_t k = in.n( ); %s } } '
                       'throw std::runtime_error( "not started" ); }' % (name, name, skip))
            ops.append('if ( res == "%s" && op == "grow" ) { size_t n = in.n( ); for ( size_t i = 0; i < n; i++ ) { '
                       'auto list = v_%s->grow( ); size_t m = in.n( ); for ( size_t j = 0; j < m; j++ ) { '
                       'size_t k = in.n( ); %s } } o.num( n ); return; }' % (name, name, cases))
    return """struct %(cls)s : BuilderBase {
std::shared_ptr< %(n)sBuilder > b;
%(members)s
explicit %(cls)s( std::shared_ptr< %(n)sBuilder > x ) : b( x ) {}
bool is_open( ) override { return b->is_open( ) && static_cast< bool >( *b ); }
std::shared_ptr< BuilderBase > child( const std::string& res ) override { %(children)s return nullptr; }
void op( const std::string& op, const std::string& res, In& in, Out& o ) override { %(ops)s
std::cerr << "DRIVER: unknown " << op << " " << res << std::endl; std::_Exit( 77 ); }
static std::shared_ptr< BuilderBase > make( std::shared_ptr< flatdata::ResourceStorage > s ) {
auto x = std::make_shared< %(n)sBuilder >( %(n)sBuilder::open( s ) ); return std::make_shared< %(cls)s >( x ); }
};
""" % {"cls": cls, "n": n, "members": "\n".join(members), "children": "\n".join(children), "ops": "\n".join(ops)}


def emit_driver(ix, header="gen.h", more="", builders=True, extra_body=""):
    out = ['#include "driver.h"\n#include "%s"\nnamespace fv {\n' % header]
    for p in ix.of("struct"):
        out.append(emit_struct(ix, p))
    # sub-archives first
    order, seen = [], set()

    def visit(p):
        if p in seen:
            return
        seen.add(p)
        for r in ix.items[p]["res"]:
            if r["kind"] == "archive":
                visit(r["types"][0])
        order.append(p)
    for p in ix.of("archive"):
        visit(p)
    for p in order:
        out.append(emit_archive_dump(ix, p))
    if builders:
        for p in order:
            out.append(emit_builder(ix, p))
    reg = []
    for p in order:
        reg.append('{ "%s", { open_archive< %s >, %s } }' % (
            p, cpp_name(p), builder_class(p) + "::make" if builders else "nullptr"))
    out.append("std::map< std::string, ArchiveFns >& archives( ) { static std::map< std::string, ArchiveFns > m = { %s }; "
               "return m; }\n" % ",\n".join(reg))
    out.append(more)
    out.append('void extra( const std::string& cmd, In& in, Out& o ) { %s\n std::cerr << "DRIVER: unknown command " << cmd '
               '<< std::endl; std::_Exit( 77 ); }\n}\n' % extra_body)
    return "".join(out)


# --------------------------------------------------------------------------------------------
# converting values

def hexarg(b):
    return "x" + b.hex()


def row_args(values):
    return " ".join(str(int(v)) for v in values)


def value_args(r, v):
    if r["kind"] == "raw":
        return hexarg(v)
    if r["kind"] == "inst":
        return row_args(v)
    if r["kind"] == "vector":
        return " ".join([str(len(v))] + [row_args(x) for x in v])
    return " ".join([str(len(v))] + [" ".join([str(len(item))] + ["%d %s" % (t, row_args(x)) for t, x in item])
                                     for item in v])


def view_data(ix, path, got):
    """The driver's dump of an archive in the shape of reference data (ranges: without the sentinel)."""
    out = {}
    for r in ix.items[path]["res"]:
        g = got[r["name"]]
        if g is None:
            out[r["name"]] = None
        elif r["kind"] == "raw":
            out[r["name"]] = bytes.fromhex(g)
        elif r["kind"] == "inst":
            out[r["name"]] = tuple(g)
        elif r["kind"] == "vector":
            out[r["name"]] = [tuple(x) for x in g["v"]]
        elif r["kind"] == "multi":
            out[r["name"]] = [[(t, tuple(x)) for t, x in item] for item in g["v"]]
        else:
            out[r["name"]] = view_data(ix, r["types"][0], g)
    return out


def expected_view(ix, path, data):
    """Reference data as C++ views show it: vectors of range structures hide their last element."""
    out = {}
    for r in ix.items[path]["res"]:
        v = data.get(r["name"])
        if v is not None and r["kind"] == "vector" and ix.has_range(r["types"][0]):
            v = v[:-1]
        elif v is not None and r["kind"] == "archive":
            v = expected_view(ix, r["types"][0], v)
        elif v is not None and r["kind"] == "multi":
            v = [[(t, tuple(x)) for t, x in item] for item in v]
        out[r["name"]] = v
    return out


def compile_schema(schema_text, ix, name, **kw):
    """(Driver, None) or (None, compiler output)"""
    from flatdata.generator.engine import Engine
    header = Engine(schema_text).render("cpp")
    exe, err = compile_exe({"gen.h": header, "main.cpp": emit_driver(ix, **kw)}, name)
    return (Driver(exe), None) if exe else (None, err)
