"""C33: interrupted and failing writes in Rust and Python never pass for complete resources."""
import errno
import io
import os
import random
import subprocess

from fv import batch, cpp, env, gen, layout, pylib, rust, schema
from fv.core import Check, Part, Violation, require, show
from hypothesis import strategies as st

from checks.c05 import compile_rust, with_sentinels
from checks.c07 import Model
from checks.c08 import expectation
from checks.c22 import World, ops
from checks.c25 import apply

OPT = dict(max_structs=4, max_fields=5, max_archives=3, max_resources=5, max_blocks=2)
CUTS = 40


def no_partial(ix, path, got, final, what):
    """Whatever is exposed is the complete resource."""
    for r in ix.items[path]["res"]:
        g, f = got[r["name"]], final.get(r["name"])
        if g is None:
            continue
        if r["kind"] == "archive":
            require(f is not None, "%s: sub-archive %s is exposed, it was never written", what, r["name"])
            no_partial(ix, r["types"][0], g, f, what)
        else:
            require(f is not None and g == f, "%s: %s is exposed as complete with\n%s\nalthough what is written is\n%s",
                    what, r["name"], show(g), show(f))


def cut_points(events, marks, rng):
    """(number of complete events, bytes of the next one or None)"""
    cuts = [(k, None) for k in range(len(events) + 1)]
    torn = []
    for k, (kind, name, off, data) in enumerate(events):
        if kind == "w":
            js = set(range(1, min(len(data), 18))) | {len(data) - 1, len(data) // 2}
            torn += [(k, j) for j in sorted(js) if 0 < j < len(data)]
    if len(cuts) > CUTS // 2:
        # completed resources are next to the marks: keep those
        near = {m + d for m in marks for d in (-1, 0)} & set(range(len(events) + 1))
        cuts = [(k, None) for k in rng.sample(sorted(near), min(len(near), CUTS // 2))] + rng.sample(cuts, CUTS // 4)
    return cuts + rng.sample(torn, min(len(torn), CUTS // 2))


def describe(events, k, j):
    return "after %d of %d writes%s" % (k, len(events), "" if j is None else " and %d bytes of %s" % (j, events[k][:2]))


# --------------------------------------------------------------------------------------------
# Rust

@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**dict(OPT, **gen.RUST)))), "noise": []}


@st.composite
def histories(draw, ix):
    paths = ix.of("archive")
    path = gen.pick(draw, [p for p in paths if ix.items[p]["res"]] or paths)
    return {"archive": path, "data": with_sentinels(ix, path, draw(gen.archive_data(ix, path))),
            "session": {"ops": draw(ops), "finish": draw(st.integers(0, 6)) and 1, "fault": None},
            "seed": draw(st.integers(0, 1 << 20)), "short": draw(st.sampled_from([0, 0, 0, 1, 5, 8]))}


def world_of(ix, sub, spec):
    w = World(ix, sub["archive"], sub["data"])
    w.session(spec, sub["session"], None)
    w.steps.pop()       # the final open
    return w


def judge_rust(ix, path, got, files, final, data, what):
    require("panic" not in got and "open" in got, "%s: opening gives %s", what, show(got))
    model = Model(ix, path, files, gen.ref_limits(ix), long_instances=True)
    if got["open"]:
        view = rust.view_data(ix, path, got["data"], data, bad := [])
        no_partial(ix, path, view, final, what)
        require(model.open, "%s: opens although there are problems: %s, too large: %s", what, sorted(model.fatal),
                sorted(model.too_large))
        require(view == model.want and not bad, "%s: opened with\n%s\nexpected\n%s\n%s", what, show(view, 1500),
                show(model.want, 1500), bad)
    else:
        require(not model.open or layout.partial(ix, path, files), "%s: a complete archive is rejected with %s", what, got["error"])


def succeeded(ix, cmd, want, got, what):
    """Whether a step reports success; what it returns is judged."""
    require(not (isinstance(got, dict) and "panic" in got), "%s: %s gives %s", what, cmd[:300], show(got))
    if isinstance(got, dict) and "error" in got:
        return False
    if isinstance(want, tuple):
        v = rust.resource_view(ix, "", want[1], got, None, bad := [])
        require(v == want[2] and not bad, "%s: the view returned by %s holds\n%s\nexpected\n%s", what, cmd, show(v),
                show(want[2]))
    elif want is not None:
        require(got is want, "%s: %s gives %s", what, cmd[:300], show(got))
    return True


def fits(ix, sub):
    return not Model(ix, sub["archive"], layout.archive_files(ix, sub["archive"], sub["data"]), gen.ref_limits(ix)).too_large


def open_states(driver, ix, sub, states, root, rec):
    for i, (files, _) in enumerate(states):
        os.mkdir("%s/%d" % (root, i))
        layout.write_files("%s/%d" % (root, i), files)
    out = driver.ask("open %s %s" % (sub["archive"], " ".join("file:%s/%d" % (root, i) for i in range(len(states)))))
    final = cpp.expected_view(ix, sub["archive"], sub["data"])
    for got, (files, what) in zip(out, states):
        judge_rust(ix, sub["archive"], got, files, final, sub["data"], what)


def run_logged(driver, ix, sub, root):
    """(world, [(kind, name, offset, data)], number of events after each step, operations)"""
    w = world_of(ix, sub, "file:" + root)
    cmds = ["hook %s 1 0 0 0 %d" % (root, sub["short"])]
    for c, _ in w.steps:
        cmds += [c, "mark"]
    out = driver.ask("program " + " ".join(cmds + ["events"]))
    require(len(out) == len(cmds) + 1, "program broke off")
    for (cmd, want), got in zip(w.steps, out[1:-1:2]):
        require(succeeded(ix, cmd, want, got, "no faults"), "%s gives %s", cmd[:300], show(got))
    events = [(k, n, o, bytes.fromhex(d)) for k, n, o, d in out[-1][1:]]
    files = layout.read_files(root)
    require(apply(events, len(events)) == files, "the recorded writes do not give the files")
    for n, c in files.items():
        if n not in w.busy:
            require(w.files.get(n) == c, "%s holds %s, expected %s", n, show(c), show(w.files.get(n)))
    return w, events, out[2:-1:2], out[-1][0]


def scratched(f):
    def run(driver, ix, case, sub, rec):
        if not fits(ix, sub):
            rec.label("skipped: above a limit")
            return
        root = env.scratch("c33")
        try:
            f(driver, ix, sub, root, rec)
        finally:
            env.rmtree(root)
    return run


@scratched
def check_prefixes(driver, ix, sub, root, rec):
    world, events, marks, _ = run_logged(driver, ix, sub, root + "/w")
    rng = random.Random(sub["seed"])
    states, partial = [], 0
    cuts = cut_points(events, marks, rng)
    for k, j in cuts:
        files = apply(events, k, j)
        what = describe(events, k, j)
        for step, names in world.completed:
            if marks[step] <= k:
                for n in names:
                    require(files.get(n) == world.files[n], "%s: %s holds %s although %s returned", what, n,
                            show(files.get(n)), world.steps[step][0][:200])
        states.append((files, what))
        partial += 0 < k < len(events)
    # every file on its own way to storage
    for _ in range(8):
        ends = {n: rng.randint(0, len(events)) if rng.randrange(2) else len(events) for n in sorted({e[1] for e in events})}
        one = [e for k, e in enumerate(events) if k < ends[e[1]]]
        states.append((apply(one, len(one)), "with writes up to %s" % ends))
    open_states(driver, ix, sub, states, root, rec)
    rec.label("prefixes", len(states))
    rec.label("torn writes", sum(1 for _, j in cuts if j is not None))
    rec.nontrivial(partial > 2 and any(e[0] == "w" and not e[1].endswith("schema") and len(e[3]) > 0
                                       and ".archive" not in e[1] for e in events))


@st.composite
def fault_cases(draw, ix):
    sub = draw(histories(ix))
    sub["session"]["finish"] = 1
    sub["at"] = draw(st.lists(st.integers(0, 1 << 20), min_size=1, max_size=8))
    sub["calls"] = draw(st.sampled_from([0, 0, 1, 1, 2, 5]))
    sub["interrupt"] = draw(st.sampled_from([0, 0, 0, 1]))
    return sub


@scratched
def check_failing(driver, ix, sub, root, rec):
    """Operations on files fail, for good or for some calls: what reported success is complete."""
    path = sub["archive"]
    total = run_logged(driver, ix, sub, root + "/w")[3]
    final = cpp.expected_view(ix, path, sub["data"])
    failed = 0
    for k, at in enumerate(sub["at"]):
        at = 1 + at % total
        if sub["interrupt"]:
            calls = max(1, sub["calls"])
            what = "%d writes from operation %d of %d interrupted" % (calls, at, total)
        else:
            calls = sub["calls"]
            what = "operations from %d of %d failing %s" % (at, total, "%d times" % calls if calls else "for good")
        d = "%s/%d" % (root, k)
        world = world_of(ix, sub, "file:" + d)
        cmds = ["hook %s 0 %d %d %d %d" % (d, at, calls, sub["interrupt"], sub["short"])]
        cmds += [c for c, _ in world.steps] + ["events", "storage last file:" + d, "open %s last" % path]
        out = driver.ask("program " + " ".join(cmds))
        require(len(out) == len(cmds), "program broke off")
        files = layout.read_files(d) if os.path.isdir(d) else {}
        done = dict(world.completed)
        for i, ((cmd, want), got) in enumerate(zip(world.steps, out[1:])):
            ok = succeeded(ix, cmd, want, got, what)
            require(ok or not sub["interrupt"], "%s: %s gives %s", what, cmd[:300], show(got))
            if not ok:
                failed += 1
                continue
            for n in done.get(i, ()):
                require(files.get(n) == world.files[n], "%s: %s reported success, but %s holds %s", what,
                        cmd[:300], n, show(files.get(n)))
        judge_rust(ix, path, out[-1], files, final, sub["data"], what)
    rec.label("failed calls", failed)
    rec.label("interrupted" if sub["interrupt"] else "for good" if not sub["calls"] else "passing")
    rec.nontrivial(failed > 0 or sub["interrupt"] == 1)


@st.composite
def kill_cases(draw, ix):
    sub = draw(histories(ix))
    sub["session"]["finish"] = 1
    sub["at"] = draw(st.integers(0, 100))
    return sub


def check_kill(driver, ix, case, sub, rec):
    if not fits(ix, sub):
        rec.label("skipped: above a limit")
        return
    base = env.scratch("c33")
    root = os.path.join(base, "a")
    try:
        world = world_of(ix, sub, "file:" + root)
        n = len(world.steps)
        at = 1 + sub["at"] % n
        line = "program " + " ".join([c for c, _ in world.steps[:at]] + ["die"]) + "\n"
        e = dict(os.environ)
        e.update(cpp.ENVIRON)
        p = subprocess.run([driver.exe], input=line.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
        if p.returncode != -6 or p.stderr.strip():
            raise Violation("writing dies with status %d: %s" % (p.returncode, p.stderr.decode()[-1500:]))
        files = layout.read_files(root) if os.path.isdir(root) else {}
        what = "process ended after %d of %d calls" % (at, n)
        for step, names in world.completed:
            if step < at:
                for name in names:
                    require(files.get(name) == world.files[name], "%s: %s holds %s although %s returned", what, name,
                            show(files.get(name)), world.steps[step][0][:200])
        if os.path.isdir(root):
            for kind in ("file", "mem"):
                got = driver.ask("open %s %s:%s" % (sub["archive"], kind, root))[0]
                judge_rust(ix, sub["archive"], got, files, cpp.expected_view(ix, sub["archive"], sub["data"]), sub["data"],
                           what + ", " + kind)
    finally:
        env.rmtree(base)
    rec.label("ended early" if at < n else "ended after the last call")
    rec.nontrivial(2 < at < n)


# --------------------------------------------------------------------------------------------
# Python

POISON = [None, "12", b"\x01", [], {}, object(), 1.5, float("nan")]
RAW_POISON = [None, 5, [300], [0] * 16 + [None], object(), ["a"]]


@st.composite
def py_cases(draw):
    s = draw(gen.schemas(gen.Opt(**OPT)))
    ix = schema.Index(s)
    path = gen.pick(draw, [p for p in ix.of("archive") if ix.items[p]["res"]] or ix.of("archive"))
    data = draw(gen.archive_data(ix, path))
    refuse = draw(st.booleans())
    return {"schema": s, "noise": [], "archive": path, "data": data, "seed": draw(st.integers(0, 1 << 20)),
            "order": draw(st.lists(st.integers(0, 10), max_size=6)),
            # for some resources: refused data is given first, and perhaps the right one then
            "refused": draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 30), st.integers(0, 10), st.booleans()),
                                     min_size=1, max_size=2)) if refuse else [],
            "finish": draw(st.sampled_from([True, True, True, False] if refuse else [True, False])),
            "buffer": draw(st.sampled_from([1, 8, 16, 64, 8192])),
            "fail": draw(st.one_of(st.none(), st.none() if refuse else st.tuples(
                st.integers(0, 1 << 20), st.sampled_from([0, 1, 1, 2, 5]))))}


class Raw(io.RawIOBase):
    def __init__(self, disk, name):
        super().__init__()
        self.disk, self.name, self.at = disk, name, 0
        disk.events.append(("c", name, 0, b""))

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.at

    def seek(self, at, whence=0):
        self.at = at + [0, self.at, len(self.disk.now().get(self.name, b""))][whence]
        return self.at

    def write(self, data):
        data = bytes(data)
        self.disk.op()
        self.disk.events.append(("w", self.name, self.at, data))
        self.at += len(data)
        return len(data)


class Disk:
    """Stands in for `open` of the writer: records what reaches the files, and fails."""

    def __init__(self, root, buffer, fail):
        self.root, self.buffer, self.fail, self.events, self.ops, self.failed = root, buffer, fail, [], 0, 0

    def op(self):
        self.ops += 1
        if self.fail and self.ops >= self.fail[0] and (not self.fail[1] or self.ops < self.fail[0] + self.fail[1]):
            self.failed += 1
            raise OSError(errno.ENOSPC, "disk full")

    def now(self):
        return apply(self.events, len(self.events))

    def open(self, name, mode="r", *args, **kw):
        require("w" in mode, "the writer opens %s with mode %s", name, mode)
        self.op()
        return io.BufferedWriter(Raw(self, os.path.relpath(name, self.root)), self.buffer)


def poison(ix, r, value, where, which):
    """A value whose keys are right, but which cannot be stored; None if there is no such value."""
    if r["kind"] == "raw":
        return RAW_POISON[which % len(RAW_POISON)]
    value = pylib.builder_value(ix, r, value)
    records = {"inst": lambda: [value], "vector": lambda: value,
               "multi": lambda: [o["attributes"] for item in value for o in item]}[r["kind"]]()
    if not records:
        return None
    if r["kind"] in ("vector", "multi") and where % 3:
        # what was serialised until then looks like a complete resource
        t = where // 3 % len(r["types"])
        path, multi = r["types"][t], r["kind"] == "multi"
        fields, size = ix.layout(path)[0], ix.size_bytes(path)
        n = -(-16 // (size + multi))
        total = n * (size + multi)
        content = (total - 16).to_bytes(8, "little").ljust(total, b"\0")
        rows = []
        for k in range(n):
            x = content[k * (size + multi) + multi:][:size]
            x = dict(zip([f[0] for f in fields], layout.decode_struct(ix.layout(path)[0], x)))
            rows.append(x)
        rows.append(dict(rows[0], **{sorted(rows[0])[0]: POISON[which % len(POISON)]}))
        if not multi:
            return rows
        return [[{"name": pylib.struct_type_name(path), "attributes": x}] for x in rows]
    row = records[where % len(records)]
    row[sorted(row)[where % len(row)]] = POISON[which % len(POISON)]
    return value


class Writing:
    """The steps of writing an archive and its sub-archives."""

    def __init__(self, module, ix, case, disk):
        self.module, self.ix, self.case, self.disk = module, ix, case, disk
        self.completed = []     # (number of events, names)
        self.final = layout.archive_files(ix, case["archive"], case["data"])
        self.refused = {x[0]: x[1:] for x in case["refused"]}
        self.sets = 0
        self.errors = self.refusals = 0

    def done(self, names):
        self.completed.append((len(self.disk.events), names))

    def archive(self, path, data, root, prefix):
        from flatdata.lib.resource_storage import ResourceStorage
        from flatdata.lib.file_resource_writer import FileResourceWriter
        try:
            storage = ResourceStorage(FileResourceWriter(), root)
            builder = getattr(self.module, pylib.cls_name(path) + "Builder")(storage)
        except OSError:
            self.errors += 1
            return
        n = prefix + self.ix.items[path]["name"] + ".archive"
        self.done([n, n + ".schema"])
        res = list(self.ix.items[path]["res"])
        order = self.case["order"]
        if order:
            res = sorted(res, key=lambda r: order[res.index(r) % len(order)])
        for r in res:
            v = data.get(r["name"])
            if v is None:
                continue
            if r["kind"] == "archive":
                self.archive(r["types"][0], v, os.path.join(root, r["name"]), prefix + r["name"] + "/")
            else:
                self.resource(builder, r, v, prefix)
        if self.case["finish"]:
            try:
                builder.finish()
            except OSError:
                self.errors += 1

    def resource(self, builder, r, v, prefix):
        self.sets += 1
        if self.sets - 1 in self.refused:
            where, which, again = self.refused[self.sets - 1]
            bad = poison(self.ix, r, v, where, which)
            if bad is not None:
                try:
                    builder.set(r["name"], bad)
                except Exception:  # pylint: disable=broad-except
                    self.refusals += 1
                else:
                    # taken for a value after all, so it counts as written, as something else
                    raise Accepted()
                if not again:
                    return
        try:
            builder.set(r["name"], pylib.builder_value(self.ix, r, v))
        except OSError:
            self.errors += 1
            return
        names = [prefix + r["name"]] + ([prefix + r["name"] + "_index"] if r["kind"] == "multi" else [])
        self.done(names + [n + ".schema" for n in names])


class Accepted(Exception):
    pass


def judge_python(module, ix, case, files, final, what, root):
    from flatdata.lib import errors
    from flatdata.lib.file_resource_storage import FileResourceStorage
    path = case["archive"]
    os.mkdir(root)
    layout.write_files(root, files)
    try:
        fatal, want = expectation(ix, path, files)
    except layout.Undefined:
        fatal, want = None, None
    try:
        archive = getattr(module, pylib.cls_name(path))(FileResourceStorage(root))
        got = pylib.dump_archive(ix, path, archive)
    except (errors.CorruptArchiveError, errors.SchemaMismatchError) as exc:
        require(fatal or fatal is None, "%s: opening fails with %r, but what is there is complete", what, exc)
        return False
    no_partial(ix, path, got, final, what)
    require(not fatal, "%s: opens although %s", what, fatal)
    require(want is None or got == pylib.normalize(ix, path, want), "%s: opened with\n%s\nexpected\n%s", what,
            show(got, 1500), show(want, 1500))
    return True


def check_python(case, rec):
    from flatdata.lib import file_resource_writer
    ix = schema.Index(case["schema"])
    module = pylib.load_module(schema.to_text(case["schema"], schema.Style(case["noise"])))
    base = env.scratch("c33p")
    try:
        def run(fail):
            disk = Disk(base + "/w", case["buffer"], fail)
            env.rmtree(base + "/w")
            file_resource_writer.open = disk.open
            w = Writing(module, ix, case, disk)
            try:
                w.archive(case["archive"], case["data"], base + "/w", "")
            finally:
                del file_resource_writer.open
            return w
        try:
            w = run(None)
            require(not w.errors, "writing fails")
            if case["fail"]:
                w = run((1 + case["fail"][0] % w.disk.ops, case["fail"][1]))
                require(w.errors or not w.disk.failed or w.refusals, "a failing write goes unnoticed")
        except Accepted:
            rec.label("skipped: odd value accepted")
            return
        events, marks = w.disk.events, [m for m, _ in w.completed]
        final = pylib.normalize(ix, case["archive"], case["data"])
        rng = random.Random(case["seed"])
        cuts = cut_points(events, marks, rng)
        cuts = rng.sample(cuts, min(len(cuts), 14)) + [(len(events), None)]
        opened = 0
        for i, (k, j) in enumerate(cuts):
            files = apply(events, k, j)
            what = describe(events, k, j) + (", %d refused" % w.refusals if w.refusals else "")
            for mark, names in w.completed:
                if mark <= k:
                    for n in names:
                        require(files.get(n) == w.final[n], "%s: %s holds %s although its writing returned, expected %s", what,
                                n, show(files.get(n)), show(w.final[n]))
            opened += judge_python(module, ix, case, files, final, what, base + "/s%d" % i)
    finally:
        env.rmtree(base)
    rec.label("refused values", w.refusals)
    rec.label("failed calls", w.errors)
    rec.label("opens", opened)
    rec.nontrivial(len(cuts) > 6 and len(w.completed) > 1)


CHECK = Check(
    "C33",
    "rust: as in C25, a generated schema compiled to Rust, one of its archives with random data and a random interleaving of the "
    "builder calls on files, every write recorded: the files are rebuilt for prefixes of them (torn writes and files stopped "
    "separately included) and opened; operations on files (create, write, seek) fail from some point, for good or "
    "1-5 times, or are interrupted, with short writes; and a process writing real files "
    "aborts. python: the same with what reaches the files recorded below the writer's buffers, with failing writes, and with "
    "resources first set to values that cannot be stored, then perhaps again. Oracle: whatever is exposed equals the whole "
    "resource, files of calls that returned success hold their final bytes, the archive opens exactly if a reference reader finds "
    "everything it needs, failing calls report errors and do not panic, interrupted writes are repeated. Non-trivial: several "
    "partial states of an archive with resources / a call failed / the process ended between the calls.",
    [batch.SchemaPart("prefixes", schemas, lambda text, ix, name, case: compile_rust(text, ix, name, case),
                      lambda ix, case: histories(ix), check_prefixes, 16, 500, {"quick": 20, "thorough": 150}),
     batch.SchemaPart("failing", schemas, lambda text, ix, name, case: compile_rust(text, ix, name, case),
                      lambda ix, case: fault_cases(ix), check_failing, 16, 400, {"quick": 30, "thorough": 200}),
     batch.SchemaPart("kill", schemas, lambda text, ix, name, case: compile_rust(text, ix, name, case),
                      lambda ix, case: kill_cases(ix), check_kill, 8, 200, {"quick": 15, "thorough": 100}),
     Part("python", py_cases, check_python, 1200, 30000)],
    level="fault_enumeration",
    assumptions=["a write that returned is not lost later (storage keeps what was flushed)",
                 "vectors stay below the 32 MB at which they are flushed early (see C28)"])
