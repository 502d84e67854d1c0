"""C10: Malformed tar input is rejected without memory errors or hangs."""
import os
import random
import struct
import subprocess

from fv import cpp, env, tars
from fv.core import CaseViolation, Check, Custom, Part, Violation, guarded, require, show
from hypothesis import strategies as st

SOURCE = r"""#include "driver.h"
namespace fv {
std::map< std::string, ArchiveFns >& archives( ) { static std::map< std::string, ArchiveFns > m; return m; }
static void entries( const std::string& b, Out& o )
{
    // an allocation of exactly the size of the input
    std::unique_ptr< unsigned char[] > p( new unsigned char[ b.size( ) ] );
    std::memcpy( p.get( ), b.data( ), b.size( ) );
    try
    {
        auto list = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( p.get( ), b.size( ) ) );
        Out tmp;
        tmp.raw( "[" );
        Sep sep{ tmp };
        for ( auto& e : list )
        {
            sep.next( );
            tmp.raw( "[" );
            tmp.hex( reinterpret_cast< const unsigned char* >( e.name.data( ) ), e.name.size( ) );
            tmp.raw( "," );
            tmp.num( e.offset );
            tmp.raw( "," );
            tmp.num( e.size );
            tmp.raw( "]" );
        }
        tmp.raw( "]" );
        o.raw( tmp.o.str( ) );
    }
    catch ( const std::exception& )
    {
        o.raw( "null" );
    }
}
static void file( In& in, Out& o )
{
    // names follow; each is read from the storage
    std::string path = in.s( );
    std::unique_ptr< flatdata::MemoryMappedTarFileStorage > storage;
    try
    {
        storage.reset( new flatdata::MemoryMappedTarFileStorage( path.c_str( ) ) );
    }
    catch ( const std::exception& )
    {
        o.raw( "null" );
        return;
    }
    o.raw( "[" );
    Sep sep{ o };
    while ( !in.done( ) )
    {
        std::string name = in.bytes( );
        sep.next( );
        auto d = storage->read( name.c_str( ) );
        if ( !d )
        {
            o.raw( "null" );
        }
        else
        {
            o.hex( d.data( ), d.size( ) );
        }
    }
    o.raw( "]" );
}
void extra( const std::string& cmd, In& in, Out& o )
{
    if ( cmd == "entries" )
    {
        entries( in.bytes( ), o );
        return;
    }
    if ( cmd == "file" )
    {
        file( in, o );
        return;
    }
    std::cerr << "DRIVER: unknown command " << cmd << std::endl;
    std::_Exit( 77 );
}
}
"""


def driver():
    return cpp.shared({"main.cpp": SOURCE}, "tar")


def reference_checksum(block):
    return sum(block[:148]) + 8 * 32 + sum(block[156:])


def number(field):
    """Value of a numeric header field, None if it is not one."""
    if field[0] & 0x80:
        return int.from_bytes(bytes([field[0] & 0x7f]) + field[1:], "big")
    digits = field.split(b"\0")[0]
    if any(c not in b"01234567" for c in digits):
        return None
    return int(digits or b"0", 8)


def check_entries(content, listed, what):
    """Every listed entry is backed by a regular file's header of the input."""
    end = 0
    for name, offset, size in listed:
        require(offset % 512 == 0 and 512 <= offset <= len(content), "%s: entry %s starts at %d of %d bytes", what, name, offset,
                len(content))
        head = content[offset - 512:offset]
        require(offset - 512 >= end, "%s: header of entry %s at %d lies inside the previous entry, which ends at %d", what, name,
                offset - 512, end)
        require(number(head[148:156]) == reference_checksum(head), "%s: entry %s comes from a block with a wrong checksum", what,
                name)
        require(head[156:157] in (b"0", b"\0"), "%s: entry %s comes from a block of type %r", what, name, head[156:157])
        require(number(head[124:136]) == size, "%s: entry %s has size %d, its header says %r", what, name, size, head[124:136])
        end = offset + size


def judge(content, rec, python=True):
    d = driver()
    listed = d.ask("entries x" + content.hex())
    if len(content) % 512:
        require(listed is None, "C++ accepts a tar of %d bytes", len(content))
    if listed is not None:
        listed = [(bytes.fromhex(n), o, s) for n, o, s in listed]
        check_entries(content, listed, "C++")
        rec.label("C++ lists %s" % ("nothing" if not listed else "entries"))
        if any(o + s > len(content) for _, o, s in listed):
            rec.label("C++ lists a member cut off by the end of the file")
    else:
        rec.label("C++ rejects")
    root = env.scratch("c10")
    try:
        p = os.path.join(root, "t.tar")
        with open(p, "wb") as f:
            f.write(content)
        if listed is not None:
            # what the storage exposes lies inside the file
            names = sorted({n for n, _, _ in listed if b"\0" not in n} | {b"", b"missing"})
            last = {(n[2:] if n.startswith(b"./") else n): (o, s) for n, o, s in listed}
            got = d.ask("file %s %s" % (p, " ".join("x" + n.hex() for n in names)))
            require(got is not None, "C++ lists entries but refuses to open the file")
            for n, g in zip(names, got):
                o = last.get(n)
                want = None if o is None else content[o[0]:o[0] + o[1]]
                got_b = None if g is None else bytes.fromhex(g)
                require(got_b == want or (want == b"" and got_b is None), "C++ exposes %s as %s, the file holds %s", n,
                        show(got_b), show(want))
        else:
            require(d.ask("file %s" % p) is None or not content, "C++ opens a tar whose entries it rejects")
        if python:
            check_python(p, content, rec)
    finally:
        env.rmtree(root)
    return listed


def check_python(p, content, rec):
    from flatdata.lib.tar_archive_resource_storage import TarArchiveResourceStorage
    try:
        storage = TarArchiveResourceStorage.create(p)
        names = storage.ls()
    except Exception as exc:  # pylint: disable=broad-except
        rec.label("Python raises %s" % type(exc).__name__)
        return None
    rec.label("Python lists %s" % ("nothing" if not names else "entries"))
    out = {}

    def walk(s, prefix, depth):
        for n in s.ls():
            try:
                x = s.get(n)
            except Exception:  # pylint: disable=broad-except
                continue
            if isinstance(x, TarArchiveResourceStorage):
                if depth < 5 and n:
                    walk(x, prefix + n + "/", depth + 1)
                continue
            got = bytes(x)
            require(len(got) <= len(content) and got in content, "Python exposes bytes for %s that are not in the file: %s",
                    prefix + n, show(got))
            out[prefix + n] = got
    walk(storage, "", 0)
    return out


# ---------------------------------------------------------------------------------------------
# structured tars with broken spots

SIZES = [0, 1, 511, 512, 513, 1024, 2**33, 2**62, 2**63 - 1, 2**63, 2**64 - 1, 2**64 - 511, 2**64 - 512, 2**64 - 513, 2**64 - 1024,
         2**64, 2**64 + 512, 2**71 - 1, 2**95 - 1]


@st.composite
def headers(draw):
    """One block sequence of a member, possibly nonsensical."""
    plain = draw(st.integers(0, 4)) < 2         # what follows is only read after sound members
    kind = draw(st.sampled_from("0\x005" if plain else "0055LLLLxgKSDM123467AZ\xff"))
    content = draw(st.one_of(st.binary(max_size=30), st.sampled_from([b"e" * 511, b"f" * 512, b"g" * 513])))
    name = draw(st.one_of(st.sampled_from(["a", "b", "./a", "d/a", "d/", "", "./", "n" * 100, "n" * 99]), st.text(max_size=6)))
    size = None
    if plain:
        content = b"" if kind == "5" else content
    else:
        size = draw(st.one_of(st.none(), st.sampled_from(SIZES), st.integers(2**64 - 2048, 2**64 - 1), st.integers(0, 2000)))
    return {"kind": kind, "content": content, "name": name, "size": size, "base256": draw(st.booleans()),
            "fmt": draw(st.sampled_from(["gnu", "ustar", "v7"])), "prefix": draw(st.sampled_from([b"", b"", b"p", b"p" * 155])),
            "short": 0 if plain else draw(st.sampled_from([0, 0, 0, 0, 512, 1024]))}


def grid():
    """Every interesting size in every kind of member, first or second, at the end of the file or not."""
    def one(kind, content, size):
        return {"kind": kind, "content": content, "name": "a", "size": size, "base256": True, "fmt": "gnu", "prefix": b"", "short": 0}
    for kind in "0L5":
        for size in SIZES:
            for before in ([], [one("0", b"b", None)], [one("0", b"c" * 513, None), one("5", b"", None)]):
                for after in ([], [one("0", b"a" * 512, None)]):
                    yield {"members": before + [one(kind, b"", size)] + after, "trailer": 0, "edits": [], "field": None,
                           "cut": None, "tail": b""}


@st.composite
def structured(draw):
    return {
        "members": draw(st.lists(headers(), max_size=6)),
        "trailer": draw(st.sampled_from([0, 1, 2, 20])),
        # (position, xor or None for random bytes, length, repair the checksum)
        "edits": draw(st.lists(st.tuples(st.integers(0, 1 << 20), st.sampled_from([1, 0x80, 0xff, 0x20, 0x30]), st.integers(1, 3),
                                         st.booleans()), max_size=3)),
        "field": draw(st.one_of(st.none(), st.tuples(st.integers(0, 5), st.sampled_from(["name", "size", "type", "checksum",
                                                                                          "prefix", "magic"]),
                                                     st.binary(min_size=1, max_size=12)))),
        "cut": draw(st.one_of(st.none(), st.none(), st.integers(0, 8000))),
        "tail": draw(st.one_of(st.just(b""), st.binary(max_size=600))),
    }


FIELDS = {"name": 0, "size": 124, "type": 156, "checksum": 148, "prefix": 345, "magic": 257}


def make(case):
    out, starts = b"", []
    for m in case["members"]:
        starts.append(len(out))
        size = len(m["content"]) if m["size"] is None else m["size"]
        base = m["base256"] or size >= 8**11
        size = size % (1 << 95)
        out += tars.header(m["name"].encode("utf-8", "replace")[:100], size, m["kind"].encode("latin-1"), m["fmt"], base,
                           m["prefix"] if m["fmt"] == "ustar" else b"")
        body = tars.padded(m["content"])
        out += body[:max(0, len(body) - m["short"])]
    intact = all(m["size"] is None and not m["short"] and m["kind"] in "0\x005" and m["name"] and
                 (m["kind"] != "5" or not m["content"]) for m in case["members"]) and case["cut"] is None and not case["tail"]
    out = bytearray(out + b"\0" * 512 * case["trailer"])
    if case["field"] and starts:
        which, name, value = case["field"]
        at = starts[which % len(starts)]
        off = FIELDS[name]
        n = {"type": 1, "checksum": 8, "magic": 6}.get(name, 12)
        out[at + off:at + off + len(value[:n])] = value[:n]
        if name != "checksum":
            out[at:at + 512] = tars.seal(out[at:at + 512])
        intact = False
    for pos, x, n, repair in case["edits"]:
        if not out:
            break
        for k in range(n):
            out[(pos + k) % len(out)] ^= x
        if repair:
            at = (pos % len(out)) // 512 * 512
            if at + 512 <= len(out):
                out[at:at + 512] = tars.seal(out[at:at + 512])
        intact = False
    if case["cut"] is not None:
        out = out[:case["cut"] % (len(out) + 1)]
    return bytes(out) + case["tail"], intact


def check_structured(case, rec):
    content, intact = make(case)
    listed = judge(content, rec)
    if intact:
        rec.label("intact")
        want = [m for m in case["members"] if m["kind"] != "5"]
        require(listed is not None and len(listed) == len(want), "C++ lists %s of an intact tar with %d files", show(listed),
                len(want))
    rec.nontrivial(not intact and bool(case["members"]))


@st.composite
def raw(draw):
    blocks = draw(st.lists(st.one_of(st.binary(min_size=512, max_size=512), st.just(b"\0" * 512),
                                     st.binary(max_size=40).map(lambda b: tars.seal(b.ljust(512, b"\0")))), max_size=5))
    return b"".join(blocks) + draw(st.one_of(st.just(b""), st.binary(max_size=20)))


def check_raw(case, rec):
    judge(case, rec)
    rec.nontrivial(bool(case))


# ---------------------------------------------------------------------------------------------
# coverage-guided fuzzing of the C++ reader

FUZZ = r"""
#include <flatdata/internal/TarReader.h>
#include <cstdlib>
#include <cstring>
#include <stdexcept>
extern "C" size_t LLVMFuzzerMutate( uint8_t* data, size_t size, size_t max );
static void seal( uint8_t* h )
{
    memset( h + 148, ' ', 8 );
    unsigned sum = 0;
    for ( int i = 0; i < 512; i++ ) sum += h[ i ];
    h[ 155 ] = ' ';
    h[ 154 ] = 0;
    for ( int i = 5; i >= 0; i-- ) { h[ 148 + i ] = '0' + ( sum & 7 ); sum >>= 3; }
}
extern "C" size_t LLVMFuzzerCustomMutator( uint8_t* data, size_t size, size_t max, unsigned seed )
{
    size = LLVMFuzzerMutate( data, size, max );
    if ( seed % 8 ) size = size / 512 * 512;
    srand( seed );
    // a field of a header is replaced by an interesting value
    if ( size >= 512 && seed % 3 == 0 )
    {
        uint8_t* h = data + rand( ) % ( size / 512 ) * 512;
        static const char types[] = "005LLxgKS\0";
        if ( rand( ) % 2 ) h[ 156 ] = types[ rand( ) % 10 ];
        if ( rand( ) % 2 )
        {
            h[ 124 ] = 0x80;
            for ( int i = 1; i < 12; i++ ) h[ 124 + i ] = rand( ) % 3 ? 0xff : rand( );
            if ( rand( ) % 2 ) for ( int i = 1; i < 10; i++ ) h[ 124 + i ] = 0;
        }
    }
    if ( seed % 16 ) for ( size_t b = 0; b + 512 <= size; b += 512 )
    {
        bool zero = true;
        for ( int i = 0; i < 512; i++ ) zero = zero && !data[ b + i ];
        if ( !zero && rand( ) % 8 ) seal( data + b );
    }
    return size;
}
static unsigned long long numeric( const uint8_t* f, int n )
{
    unsigned long long v = 0;
    if ( f[ 0 ] & 0x80 ) { v = f[ 0 ] & 0x7f; for ( int i = 1; i < n; i++ ) v = v * 256 + f[ i ]; return v; }
    for ( int i = 0; i < n && f[ i ]; i++ ) v = v * 8 + ( f[ i ] - '0' );
    return v;
}
extern "C" int LLVMFuzzerTestOneInput( const uint8_t* data, size_t size )
{
    try
    {
        auto list = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( data, size ) );
        size_t end = 0;
        for ( auto& e : list )
        {
            if ( e.offset % 512 || e.offset < 512 || e.offset > size || e.offset - 512 < end ) __builtin_trap( );
            const uint8_t* h = data + e.offset - 512;
            if ( ( h[ 156 ] != '0' && h[ 156 ] ) || numeric( h + 124, 12 ) != e.size ) __builtin_trap( );
            end = e.offset + e.size;
        }
    }
    catch ( const std::runtime_error& ) { }
    return 0;
}
"""


def fuzz_exe():
    d = cpp.prepare()
    exe = os.path.join(cpp.run_dir(), "tarfuzz")
    import fcntl
    with open(exe + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            with open(exe + ".cpp", "w") as f:
                f.write(FUZZ)
            inc = ["-I", os.path.join(env.REPO, "flatdata-cpp", "include")]
            p = subprocess.run(["clang++", "-std=c++17", "-O1", "-g", "-w", "-fsanitize=fuzzer,address,undefined",
                                "-fno-sanitize-recover=all"] + inc + [exe + ".cpp"] + cpp.library_sources()
                               + cpp.LIBS + ["-o", exe], capture_output=True, text=True)
            if p.returncode:
                raise cpp.HarnessError(p.stderr[-3000:])
    return exe


def drive_fuzz(rec, tier, seed, shard, nshards):
    exe = fuzz_exe()
    root = env.scratch("c10-fuzz")
    try:
        corpus = os.path.join(root, "corpus")
        os.mkdir(corpus)
        rng = random.Random(seed)
        seeds = [b"", tars.build([("a", b"x" * 600, {})]),
                 tars.build([("./d", None, {}), ("./d/a", b"1", {"fmt": "ustar"}), ("n" * 120, b"2", {"base256": True})]),
                 tars.build([("q" * 300 + "/a", b"3", {}), ("p" * 90 + "/" + "r" * 60, b"4" * 512, {"fmt": "ustar"}),
                             ("v7", b"", {"fmt": "v7"})], 0)]
        for i, s in enumerate(seeds):
            with open(os.path.join(corpus, "s%d" % i), "wb") as f:
                f.write(s)
        runs = {"quick": 60000, "thorough": 4000000}[tier]
        e = dict(os.environ)
        e.update(cpp.ENVIRON)
        p = subprocess.run([exe, "-runs=%d" % runs, "-seed=%d" % (1 + rng.randrange(1 << 30)), "-max_len=6144", "-timeout=20",
                            "-rss_limit_mb=2500", "-malloc_limit_mb=1000", "-print_final_stats=1", "-artifact_prefix=" + root + "/",
                            corpus], capture_output=True, text=True, errors="replace", cwd=root, env=e)
        found = [f for f in os.listdir(root) if f.split("-")[0] in ("crash", "timeout", "oom", "leak", "slow")]
        found = [f for f in found if not f.startswith("slow")]
        stats = dict(l.split(":", 1) for l in p.stderr.splitlines() if l.startswith("stat::") for l in [l[6:]])
        executed = int(stats.get("number_of_executed_units", 0))
        rec.evaluations += executed
        rec.label("fuzz executions", executed)
        files = sorted(os.listdir(corpus))
        rec.label("fuzz corpus", len(files))
        for f in files[:2000]:
            with open(os.path.join(corpus, f), "rb") as fh:
                b = fh.read()
            rec.nontrivial(len(b) >= 512, case=b)
        if found:
            with open(os.path.join(root, found[0]), "rb") as f:
                content = f.read()
            lines = [l for l in p.stderr.splitlines() if "ERROR" in l or "runtime error" in l or l.strip().startswith("#")]
            raise CaseViolation("fuzzing the C++ tar reader ends with %s:\n%s" % (found[0].split("-")[0], "\n".join(
                [l for l in lines if "READ" not in l or True][-14:])), minimize(content))
        if p.returncode:
            raise cpp.HarnessError("fuzzer status %s: %s" % (p.returncode, p.stderr[-2000:]))
        # the inputs fuzzing found interesting also go through the storages and Python
        picked = files if len(files) <= 150 else rng.sample(files, 150)
        for f in picked:
            with open(os.path.join(corpus, f), "rb") as fh:
                content = fh.read()
            try:
                guarded(lambda c, r: judge(c, r), content, rec, 120)
            except Violation as v:
                raise CaseViolation(str(v), content) from v
    finally:
        env.rmtree(root)


def fails(content):
    from fv.core import Recorder
    try:
        guarded(lambda c, r: judge(c, r), content, Recorder("x"), 120)
    except Violation:
        return True
    return False


def minimize(content):
    if not fails(content):
        return content
    from fv.core import shrink

    def smaller(c):
        for n in range(0, len(c), 512):
            yield c[:n] + c[n + 512:]
    return shrink(content, smaller, fails, 60, 60)


def replay_fuzz(content, rec):
    judge(content, rec)
    # the fuzz target has its own invariants
    exe = fuzz_exe()
    root = env.scratch("c10-replay")
    try:
        p = os.path.join(root, "input")
        with open(p, "wb") as f:
            f.write(content)
        e = dict(os.environ)
        e.update(cpp.ENVIRON)
        r = subprocess.run([exe, "-timeout=20", p], capture_output=True, text=True, errors="replace", cwd=root, env=e)
        require(r.returncode == 0, "the fuzz target fails: %s", r.stderr[-1500:])
    finally:
        env.rmtree(root)


CHECK = Check(
    "C10",
    "structured: a grid of sizes around every wrap-around, then members with any type, size (octal or base-256 up to 2^95), short bodies, damaged fields and bytes (checksum "
    "repaired or not), cuts and tails; raw: arbitrary and sealed blocks; fuzz: libFuzzer (address and undefined behaviour "
    "sanitizers, checksum repairing mutator) over the C++ reader, its corpus replayed through the storages of both languages. "
    "Oracles: no crash or hang, every listed entry is backed by a valid regular header outside other entries, what storages "
    "expose are exactly the file's bytes, intact tars are listed completely. Non-trivial: not intact and not empty.",
    [Part("structured", structured, check_structured, 3000, 80000, regressions=list(grid())), Part("raw", raw, check_raw, 800, 20000),
     Custom("fuzz", drive_fuzz, replay_fuzz, 8)],
    assumptions=["exceptions of any class count as rejection in Python"])
