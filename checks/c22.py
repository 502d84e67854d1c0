"""C22: the C++ builder protocol protects existing archives and finishes new ones."""
import os

from fv import batch, cpp, env, gen, layout, rust
from fv.core import Check, require, show
from hypothesis import strategies as st

from checks.c04 import compile_cpp, view_of
from checks.c05 import compile_rust, with_sentinels
from checks.c07 import Model, judge

OPT = dict(max_structs=4, max_fields=5, max_archives=4, max_resources=5, max_blocks=2)


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def compile_fn(text, ix, name, case):
    return compile_cpp(text, ix, name, case)


ops = st.lists(st.tuples(st.integers(0, 40), st.integers(0, 5)), max_size=12)


@st.composite
def cases(draw, ix):
    paths = ix.of("archive")
    rich = [p for p in paths if any(r["kind"] == "archive" for r in ix.items[p]["res"])]
    path = gen.pick(draw, rich) if rich and draw(st.booleans()) else gen.pick(draw, paths)
    return {"archive": path, "data": draw(gen.archive_data(ix, path)),
            "store": draw(st.sampled_from(["file", "file", "disk", "mem"])),
            "sessions": draw(st.lists(st.fixed_dictionaries({
                "ops": ops, "finish": st.integers(0, 2),
                "fault": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 9), st.integers(0, 4)))}),
                min_size=1, max_size=3))}


class Node:
    def __init__(self, tag, path, prefix, data, created, open_):
        self.tag, self.path, self.prefix, self.data = tag, path, prefix, data
        self.created, self.open, self.done, self.running, self.kids = created, open_, set(), {}, {}


class World:
    """Reference model of storage and builders; emits the program with its expected results."""

    def __init__(self, ix, path, data):
        self.ix, self.path, self.data = ix, path, data
        self.files, self.busy = {}, set()
        self.steps, self.n, self.seen = [], 0, set()
        self.labels = []
        self.completed = []     # (index of the step, names of the files it completes)

    def emit(self, cmd, want):
        self.steps.append((cmd, want))

    def begin(self, path, prefix, data, cmd):
        """Opening a builder."""
        ix, name = self.ix, self.ix.items[path]["name"]
        sig = prefix + name + ".archive"
        mine = layout.archive_files(ix, path, {})
        created = sig not in self.files
        if created:
            for n, c in mine.items():
                self.files[prefix + n] = c
            ok = True
        else:
            ok = all(self.files.get(prefix + n) == c for n, c in mine.items())
            if not ok:
                self.labels.append("different schema refused")
        self.n += 1
        node = Node("b%d" % self.n, path, prefix, data, created and ok, ok)
        self.emit(cmd % {"tag": node.tag}, ok)
        if created:
            self.completed.append((len(self.steps) - 1, [prefix + n for n in mine]))
        return node

    def names(self, node, r):
        n = [node.prefix + r["name"]] + ([node.prefix + r["name"] + "_index"] if r["kind"] == "multi" else [])
        return n + [x + ".schema" for x in n]

    def finished(self, node, r, value):
        f = layout.archive_files(self.ix, node.path, {r["name"]: value})
        for n in self.names(node, r):
            self.files[n] = f[n[len(node.prefix):]]
            self.busy.discard(n)
        node.done.add(r["name"])
        self.completed.append((len(self.steps) - 1, self.names(node, r)))

    def actions(self, node):
        out = []
        for r in self.ix.items[node.path]["res"]:
            v = node.data.get(r["name"]) if node.data else None
            if r["kind"] == "archive":
                if v is not None and r["name"] not in node.kids:
                    out.append((node, r, v))
                elif v is not None:
                    kid = node.kids[r["name"]]
                    if kid.open:
                        out += self.actions(kid)
            elif v is not None and r["name"] not in node.done:
                out.append((node, r, v))
        return out

    def act(self, node, r, v, mode):
        name = r["name"]
        if r["kind"] == "archive":
            node.kids[name] = self.begin(r["types"][0], node.prefix + name + "/", v,
                                         "child %%(tag)s %s %s" % (node.tag, name))
            return
        if name in node.running:
            at = node.running[name]
            if at >= len(v) or mode == 5:
                while at < len(v):
                    at = self.grow(node, r, v, at, len(v))
                self.emit("close %s %s" % (node.tag, name),
                          ("view", r, cpp.expected_view(self.ix, node.path, {name: v})[name]))
                del node.running[name]
                self.finished(node, r, v)
            else:
                node.running[name] = self.grow(node, r, v, at, 1 + mode)
            return
        can_set = r["kind"] in ("raw", "inst", "vector")
        can_start = r["kind"] in ("vector", "multi")
        if can_set and (mode % 2 == 0 or not can_start):
            cmd = "set %s %s %s" % (node.tag, name, cpp.value_args(r, v))
            if node.created:
                self.emit(cmd, True)
                self.finished(node, r, v)
            else:
                self.emit(cmd, "threw")
                self.labels.append("refused set")
        else:
            cmd = "start %s %s" % (node.tag, name)
            if node.created:
                self.emit(cmd, True)
                node.running[name] = 0
                for n in self.names(node, r):
                    self.busy.add(n)
            else:
                self.emit(cmd, "threw")
                self.labels.append("refused start")

    def grow(self, node, r, v, at, k):
        self.emit("grow %s %s %s" % (node.tag, r["name"], cpp.value_args(r, v[at:at + k])), None)
        return at + k

    def model(self):
        return Model(self.ix, self.path, {n: c for n, c in self.files.items() if n not in self.busy},
                     gen.ref_limits(self.ix))

    def look(self, spec):
        self.n += 1
        self.emit("storage o%d %s" % (self.n, spec), True)
        self.emit("open %s o%d" % (self.path, self.n), self.model())

    def session(self, spec, s, watch):
        self.n += 1
        store = "s%d" % self.n
        self.emit("storage %s %s" % (store, spec), True)
        root = self.begin(self.path, "", self.data, "builder %%(tag)s %s %s" % (self.path, store))
        if watch:
            self.look(watch)
        if not root.open:
            # a builder that did not open refuses everything
            for r in self.ix.items[self.path]["res"]:
                v = self.data.get(r["name"])
                if r["kind"] in ("raw", "inst") and v is not None:
                    self.emit("set %s %s %s" % (root.tag, r["name"], cpp.value_args(r, v)), "threw")
            return
        todo = list(s["ops"])
        limit = 200
        while limit:
            limit -= 1
            options = self.actions(root)
            # refusals do not finish a resource: try each only once when completing
            if not todo:
                if s["finish"] == 0:
                    break
                options = [o for o in options if (o[0].created or o[1]["kind"] == "archive"
                                                  or (o[0].tag, o[1]["name"]) not in self.seen)]
                if not options:
                    break
                pick, mode = limit * 7 + s["finish"], limit % 6
            else:
                pick, mode = todo.pop(0)
                if not options:
                    break
            node, r, v = options[pick % len(options)]
            self.seen.add((node.tag, r["name"]))
            self.act(node, r, v, mode)
            if watch:
                self.look(watch)
        if watch is None:
            self.emit("open %s %s" % (self.path, store), self.model())
        if self.busy:
            self.labels.append("left unfinished")

    def judge(self, results):
        for (cmd, want), got in zip(self.steps, results):
            if isinstance(want, Model):
                judge(self.ix, self.path, got, want, cmd)
            elif want == "threw":
                require(isinstance(got, dict) and "threw" in got, "%s on an archive that exists already gives %s",
                        cmd[:300], show(got))
            elif isinstance(want, tuple):
                require(got is not None, "%s gives no view", cmd)
                v = view_of(self.ix, want[1], got)
                require(v == want[2], "the view returned by %s holds\n%s\nexpected\n%s", cmd, show(v), show(want[2]))
            elif want is not None:
                require(got is want, "%s gives %s, expected %s", cmd[:300], show(got), want)
        require(len(results) == len(self.steps), "program broke off")
        self.steps = []

    def compare(self, files, what):
        a = {n: c for n, c in files.items() if n not in self.busy}
        b = {n: c for n, c in self.files.items() if n not in self.busy}
        require(a == b, "%s: stored files differ: %s", what,
                show([(n, a.get(n), b.get(n)) for n in sorted(set(a) | set(b)) if a.get(n) != b.get(n)][:3], 1500))


def damage(world, root, fault, rec):
    """Between sessions: a signature as another version of the schema would have left it."""
    which, how = fault
    sigs = sorted(n for n in world.files if n.endswith(".archive.schema"))
    if not sigs:
        return
    n = sigs[which % len(sigs)]
    old = world.files[n]
    new = [old + b" ", old[:-1], old.replace(b"archive", b"archivE", 1), b"x" + old[1:], old + b"\n"][how]
    world.files[n] = new
    with open(os.path.join(root, n), "wb") as f:
        f.write(new)
    rec.label("other schema stored")


def check(driver, ix, case, sub, rec):
    path, data = sub["archive"], sub["data"]
    world = World(ix, path, data)
    if Model(ix, path, layout.archive_files(ix, path, data), gen.ref_limits(ix)).nested_large:
        rec.label("skipped: nested archive above a limit")
        return
    kind = sub["store"]

    def run():
        out = driver.ask("program " + " ".join(c for c, _ in world.steps))
        world.judge(out)

    if kind == "mem":
        world.session("mem:", sub["sessions"][0], None)
        run()
    elif kind == "disk":
        for s in sub["sessions"]:
            world.session("disk:d", s, "disk:d")
        steps, world.steps = world.steps, []
        out = driver.ask("program " + " ".join([c for c, _ in steps] + ["files d"]))
        world.steps = steps
        world.judge(out[:-1])
        world.compare({n: bytes.fromhex(c) for n, c in out[-1].items()}, "after all sessions")
    else:
        base = env.scratch("c22")
        root = os.path.join(base, "a")
        try:
            for i, s in enumerate(sub["sessions"]):
                if s["fault"] is not None and i:
                    damage(world, root, s["fault"], rec)
                world.session("file:" + root, s, "open:" + root)
                run()
                world.compare(layout.read_files(root), "after session %d" % i)
        finally:
            env.rmtree(base)
    for x in set(world.labels):
        rec.label(x)
    rec.label("store:" + kind)
    m = world.model()
    rec.label("complete" if m.open else "incomplete")
    rec.nontrivial(len(world.files) > 2 and (bool(world.labels) or m.open))


# --------------------------------------------------------------------------------------------
# Rust: a builder does not open where an archive is

@st.composite
def rust_schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**dict(OPT, **gen.RUST)))), "noise": []}


@st.composite
def rust_cases(draw, ix):
    sub = draw(cases(ix))
    sub["data"] = with_sentinels(ix, sub["archive"], sub["data"])
    sub["store"] = draw(st.sampled_from(["file", "file", "mem"]))
    sub["before"] = draw(st.integers(0, 3))
    return sub


def rust_open(ix, path, got, model, data, what):
    require("panic" not in got and "open" in got, "%s: opening gives %s", what, show(got))
    if got["open"]:
        require(model.open, "%s: opens although there are problems: %s, too large: %s", what, sorted(model.fatal),
                sorted(model.too_large))
        view = rust.view_data(ix, path, got["data"], data, bad := [])
        require(view == model.want and not bad, "%s: opened with\n%s\nexpected\n%s\n%s", what, show(view, 1500),
                show(model.want, 1500), bad)
    else:
        require(not model.open or model.partial, "%s: a complete archive is rejected with %s", what, got["error"])


def rust_judge(ix, sub, world, results):
    require(len(results) == len(world.steps), "program broke off")
    for (cmd, want), got in zip(world.steps, results):
        if isinstance(want, Model):
            rust_open(ix, sub["archive"], got, want, sub["data"], cmd)
        elif isinstance(want, tuple):
            require(not (isinstance(got, dict) and ("error" in got or "panic" in got)), "%s gives %s", cmd, show(got))
            v = rust.resource_view(ix, "", want[1], got, None, bad := [])
            require(v == want[2] and not bad, "the view returned by %s holds\n%s\nexpected\n%s", cmd, show(v), show(want[2]))
        elif want is not None:
            require(got is want, "%s gives %s, expected %s", cmd[:300], show(got), want)
    world.steps = []


class RustWorld(World):
    def model(self):
        m = World.model(self)
        # Rust does not take what is not complete for an absent optional resource
        files = {n: c for n, c in self.files.items() if n not in self.busy}
        m.partial = bool(self.busy) or layout.partial(self.ix, self.path, files)
        return m


def refused(got, what):
    require(isinstance(got, dict) and "error" in got, "%s: a builder where an archive is gives %s", what, show(got))


def check_rust(driver, ix, case, sub, rec):
    path, data = sub["archive"], sub["data"]
    if Model(ix, path, layout.archive_files(ix, path, data), gen.ref_limits(ix)).nested_large:
        rec.label("skipped: nested archive above a limit")
        return
    base = env.scratch("c22")
    root = os.path.join(base, "a")
    kids = [r for r in ix.items[path]["res"] if r["kind"] == "archive"]
    try:
        if sub["store"] == "file" and kids and sub["before"] == 0:
            # a sub-archive that exists already
            r = kids[0]
            kid = root + "/" + r["name"]
            w = RustWorld(ix, r["types"][0], data.get(r["name"]) or {})
            w.session("file:" + kid, sub["sessions"][0], None)
            rust_judge(ix, dict(sub, archive=r["types"][0], data=w.data), w,
                       driver.ask("program " + " ".join(c for c, _ in w.steps)))
            files = layout.read_files(kid)
            out = driver.ask("program storage s file:%s builder b %s s child c b %s" % (root, path, r["name"]))
            require(out[:2] == [True, True], "a builder on empty storage gives %s", show(out))
            refused(out[2], "sub-archive %s" % r["name"])
            require(layout.read_files(kid) == files, "the refused builder of %s changed what was there", r["name"])
            rec.label("existing sub-archive refused")
            rec.nontrivial()
            return
        world = RustWorld(ix, path, data)
        mem = sub["store"] == "mem"
        world.session("new" if mem else "file:" + root, sub["sessions"][0], None if mem else "file:" + root)
        store = world.steps[0][0].split()[1]
        again = ["builder other %s %s" % (path, store), "open %s %s" % (path, store)]
        out = driver.ask("program " + " ".join([c for c, _ in world.steps] + again))
        model, busy = world.model(), set(world.busy)
        rust_judge(ix, sub, world, out[:-2])
        refused(out[-2], "the same storage")
        rust_open(ix, path, out[-1], model, data, "after the refused builder")
        if not mem:
            files = layout.read_files(root)
            for n, c in files.items():
                if n not in busy:
                    require(world.files.get(n) == c, "%s holds %s, expected %s", n, show(c), show(world.files.get(n)))
            missing = set(world.files) - set(files)
            require(not missing, "missing: %s", sorted(missing))
            for s in sub["sessions"][1:]:
                # whatever became of the archive, its signature protects it
                victims = sorted(n for n in files if not n.endswith(".archive") or "/" in n)
                if s["fault"] is not None and victims:
                    n = victims[s["fault"][0] % len(victims)]
                    if s["fault"][1] == 0:
                        os.remove(os.path.join(root, n))
                    else:
                        with open(os.path.join(root, n), "wb") as f:
                            f.write([files[n][:-1], files[n] + b" ", b"", b"x" + files[n]][s["fault"][1] - 1])
                    files = layout.read_files(root)
                    rec.label("damaged")
                out = driver.ask("program storage s file:%s builder b %s s" % (root, path))
                refused(out[1], "files")
                require(layout.read_files(root) == files, "a refused builder changed the stored files")
    finally:
        env.rmtree(base)
    rec.label("store:" + sub["store"])
    rec.label("complete" if model.open else "incomplete")
    rec.nontrivial(len(world.files) > 2)


CHECK = Check(
    "C22",
    "a case is a generated schema compiled to C++ with sanitizers, one of its archives with random data, and one to three builder "
    "sessions over the same storage (files, a byte-exact test storage or memory), each a random interleaving of set, start, grow, "
    "close and sub-archive calls over all builders of the tree, finished or abandoned; between sessions a stored signature may "
    "be replaced by that of another schema. After every call the archive is opened through fresh storage. Oracle: a reference "
    "model of the storage, which says what each call returns or that it throws, whether the archive opens, what it shows, and "
    "which bytes are stored. Non-trivial when something besides the signature was stored and the archive became complete or a "
    "call was refused. Rust: the same histories on files and in memory, then builders for the existing archive or an existing "
    "sub-archive (intact, or damaged anywhere but in the signature), which must fail and change nothing.",
    [batch.SchemaPart("sessions", schemas, compile_fn, lambda ix, case: cases(ix), check, 32, 900,
                      {"quick": 40, "thorough": 250}),
     batch.SchemaPart("rust", rust_schemas, lambda text, ix, name, case: compile_rust(text, ix, name, case),
                      lambda ix, case: rust_cases(ix), check_rust, 16, 500, {"quick": 30, "thorough": 200})],
    assumptions=["each resource is set or started once per session", "builders that failed to open are not asked for sub-archives"])
