"""C25: interrupted C++ writes are detected on open."""
import os
import random
import subprocess

from fv import batch, cpp, env, gen, layout
from fv.core import Check, Violation, require, show
from hypothesis import strategies as st

from checks.c04 import compile_cpp, view_of
from checks.c07 import Model, judge
from checks.c22 import World, ops

OPT = dict(max_structs=4, max_fields=5, max_archives=3, max_resources=5, max_blocks=2)
CUTS = 60


@st.composite
def schemas(draw):
    return {"schema": draw(gen.schemas(gen.Opt(**OPT))), "noise": []}


def compile_fn(text, ix, name, case):
    return compile_cpp(text, ix, name, case)


def histories(ix):
    @st.composite
    def make(draw):
        paths = ix.of("archive")
        path = gen.pick(draw, [p for p in paths if ix.items[p]["res"]] or paths)
        return {"archive": path, "data": draw(gen.archive_data(ix, path)),
                "session": {"ops": draw(ops), "finish": draw(st.integers(0, 6)) and 1, "fault": None},
                "seed": draw(st.integers(0, 1 << 20))}
    return make()


def world_of(ix, sub, spec):
    w = World(ix, sub["archive"], sub["data"])
    w.session(spec, sub["session"], None)
    w.steps.pop()       # the final open
    return w


def fits(ix, sub):
    m = Model(ix, sub["archive"], layout.archive_files(ix, sub["archive"], sub["data"]), gen.ref_limits(ix))
    return not m.nested_large


def final_view(ix, sub):
    return cpp.expected_view(ix, sub["archive"], sub["data"])


def no_partial(ix, path, got, final, what):
    """Whatever is exposed is the complete resource."""
    for r in ix.items[path]["res"]:
        g, f = got[r["name"]], final[r["name"]]
        if g is None:
            continue
        if r["kind"] == "archive":
            require(f is not None, "%s: sub-archive %s is exposed, it was never written", what, r["name"])
            no_partial(ix, r["types"][0], g, f, what)
        else:
            require(f is not None and g == f, "%s: %s is exposed as complete with\n%s\nalthough what is written is\n%s",
                    what, r["name"], show(g), show(f))


def judge_state(ix, sub, answer, files, what):
    path = sub["archive"]
    require("threw" not in answer and "open" in answer, "%s: opening gives %s", what, show(answer))
    no_partial(ix, path, cpp.view_data(ix, path, answer["data"]), final_view(ix, sub), what)
    judge(ix, path, answer, Model(ix, path, files, gen.ref_limits(ix)), what)


def apply(events, k, j=None):
    """Files after the first k events; of event k only the first j bytes if given."""
    files = {}
    todo = events[:k]
    if j is not None:
        kind, name, off, data = events[k]
        todo = todo + [(kind, name, off, data[:j])]
    for kind, name, off, data in todo:
        if kind == "c":
            files[name] = b""
        elif kind == "w":
            f = files[name].ljust(off, b"\0")
            files[name] = f[:off] + data + f[off + len(data):]
    return files


def make_cmd(name, files):
    return "make %s %d %s" % (name, len(files), " ".join("%s %s" % (n, cpp.hexarg(c)) for n, c in sorted(files.items())))


def open_states(driver, ix, sub, states, rec):
    """states: [(files, description)]"""
    if not states:
        return
    cmds = []
    for i, (files, _) in enumerate(states):
        cmds += [make_cmd("d%d" % i, files), "storage s%d disk:d%d" % (i, i), "open %s s%d" % (sub["archive"], i)]
    out = driver.ask("program " + " ".join(cmds))
    require(len(out) == len(cmds), "program broke off")
    for i, (files, what) in enumerate(states):
        judge_state(ix, sub, out[3 * i + 2], files, what)


def run_logged(driver, ix, sub):
    """(world, [(kind, name, offset, data)], number of events after each step)"""
    w = world_of(ix, sub, "disk:d")
    cmds = ["log d"]
    for c, _ in w.steps:
        cmds += [c, "mark d"]
    out = driver.ask("program " + " ".join(cmds + ["events d"]))
    require(len(out) == len(cmds) + 1, "program broke off")
    steps = list(w.steps)
    w.judge(out[1:-1:2])
    w.steps = steps
    return w, [(k, n, o, bytes.fromhex(d)) for k, n, o, d in out[-1]], out[2:-1:2]


def check_prefixes(driver, ix, case, sub, rec):
    if not fits(ix, sub):
        rec.label("skipped: nested archive above a limit")
        return
    world, events, marks = run_logged(driver, ix, sub)
    rng = random.Random(sub["seed"])
    cuts = [(k, None) for k in range(len(events) + 1)]
    torn = []
    for k, (kind, name, off, data) in enumerate(events):
        if kind == "w":
            js = set(range(1, min(len(data), 9))) | {len(data) - 1, len(data) // 2}
            torn += [(k, j) for j in sorted(js) if 0 < j < len(data)]
    if len(cuts) > CUTS // 2:
        # completed resources are next to the marks: keep those
        near = {m + d for m in marks for d in (-1, 0)} & set(range(len(events) + 1))
        cuts = [(k, None) for k in rng.sample(sorted(near), min(len(near), CUTS // 2))] + rng.sample(cuts, CUTS // 4)
    cuts += rng.sample(torn, min(len(torn), CUTS // 2))
    states, partial = [], 0
    for k, j in cuts:
        files = apply(events, k, j)
        what = "after %d of %d writes%s" % (k, len(events), "" if j is None else " and %d bytes of %s" % (j, events[k][:2]))
        # what was closed before is complete, whatever happened later
        for step, names in world.completed:
            if marks[step] <= k:
                for n in names:
                    require(files.get(n) == world.files[n], "%s: %s holds %s although %s returned", what, n,
                            show(files.get(n)), world.steps[step][0][:200])
        states.append((files, what))
        if 0 < k < len(events):
            partial += 1
    # every file on its own way to storage
    for _ in range(8):
        ends = {n: rng.randint(0, len(events)) if rng.randrange(2) else len(events) for n in {e[1] for e in events}}
        one = [e for k, e in enumerate(events) if k < ends[e[1]]]
        states.append((apply(one, len(one)), "with writes up to %s" % ends))
    open_states(driver, ix, sub, states, rec)
    for n, c in apply(events, len(events)).items():
        if n not in world.busy:
            require(world.files.get(n) == c, "%s holds %s, expected %s", n, show(c), show(world.files.get(n)))
    rec.label("prefixes", len(states))
    rec.label("torn writes", sum(1 for _, j in cuts if j is not None))
    rec.label("complete" if not world.busy and world.model().open else "incomplete at the end")
    rec.nontrivial(partial > 2 and any(e[0] == "w" and not e[1].endswith("schema") and len(e[3]) > 0
                                       and ".archive" not in e[1] for e in events))


# --------------------------------------------------------------------------------------------
# failing writes

@st.composite
def fault_cases(draw, ix):
    sub = draw(histories(ix))
    sub["session"]["finish"] = 1
    sub["at"] = draw(st.lists(st.integers(0, 1 << 20), min_size=1, max_size=8))
    sub["calls"] = draw(st.sampled_from([0, 0, 1, 1, 2, 5]))
    sub["buffer"] = draw(st.sampled_from([0, 0, 16, 64, 4096, 1 << 20]))
    return sub


def check_failing(driver, ix, case, sub, rec):
    """Writing fails after some bytes, for good or for some calls: what reported success is complete."""
    if not fits(ix, sub):
        rec.label("skipped: nested archive above a limit")
        return
    path = sub["archive"]
    world, events, marks = run_logged(driver, ix, sub)
    total = sum(len(e[3]) for e in events)
    failed = 0
    for at in sub["at"]:
        # near the borders of the writes
        if at % 3:
            k = at % len(events)
            at = sum(len(e[3]) for e in events[:k]) + (at // 7) % 3
        at = at % (total + 1)
        cmds = ["glitch d %d %s" % (at, sub["calls"])] + [c for c, _ in world.steps]
        if sub["buffer"]:
            cmds[0:0] = ["buffer d %d" % sub["buffer"]]
        cmds += ["files d", "storage last disk:d", "open %s last" % path]
        out = driver.ask("program " + " ".join(cmds))
        require(len(out) == len(cmds), "program broke off")
        files = {n: bytes.fromhex(c) for n, c in out[-3].items()}
        what = "writes failing %s after %d of %d bytes" % (
            "for good" if not sub["calls"] else "%d times" % sub["calls"], at, total)
        done = dict(world.completed)
        for i, ((cmd, want), got) in enumerate(zip(world.steps, out[2 if sub["buffer"] else 1:])):
            if i not in done:
                continue
            if cmd.startswith(("builder", "child")):
                ok = got is True
            elif isinstance(want, tuple):
                ok = got is not None and "threw" not in got
                if ok:
                    v = view_of(ix, want[1], got)
                    require(v == want[2], "%s: %s returns\n%s\nexpected\n%s", what, cmd, show(v), show(want[2]))
            else:
                require(got is True or got is False or "threw" in got, "%s: %s gives %s", what, cmd[:300], show(got))
                ok = got is True
            if not ok:
                failed += 1
                continue
            for n in done[i]:
                require(files.get(n) == world.files[n], "%s: %s reported success, but %s holds %s", what, cmd[:300], n,
                        show(files.get(n)))
        judge_state(ix, sub, out[-1], files, what)
    rec.label("failed calls", failed)
    rec.label("for good" if not sub["calls"] else "passing")
    rec.label("buffered" if sub["buffer"] else "unbuffered")
    rec.nontrivial(failed > 0)


# --------------------------------------------------------------------------------------------
# real files and a process that ends

@st.composite
def kill_cases(draw, ix):
    sub = draw(histories(ix))
    sub["session"]["finish"] = 1
    sub["at"] = draw(st.integers(0, 100))
    return sub


def check_kill(driver, ix, case, sub, rec):
    if not fits(ix, sub):
        rec.label("skipped: nested archive above a limit")
        return
    base = env.scratch("c25")
    root = os.path.join(base, "a")
    try:
        world = world_of(ix, sub, "file:" + root)
        n = len(world.steps)
        at = 1 + sub["at"] % n
        line = "program " + " ".join([c for c, _ in world.steps[:at]] + ["die"]) + "\n"
        e = dict(os.environ)
        e.update(cpp.ENVIRON)
        p = subprocess.run([driver.exe], input=line.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=60)
        if p.returncode:
            raise Violation("writing dies with status %d: %s" % (p.returncode, p.stderr.decode()[-1500:]))
        files = layout.read_files(root) if os.path.isdir(root) else {}
        what = "process ended after %d of %d calls" % (at, n)
        for step, names in world.completed:
            if step < at:
                for name in names:
                    require(files.get(name) == world.files[name], "%s: %s holds %s although %s returned", what, name,
                            show(files.get(name)), world.steps[step][0][:200])
        if os.path.isdir(root):
            for kind in ("open", "mem"):
                answer = driver.ask("open %s %s:%s" % (sub["archive"], kind, root))[0]
                judge_state(ix, sub, answer, files, what + ", " + kind)
    finally:
        env.rmtree(base)
    rec.label("ended early" if at < n else "ended after the last call")
    rec.nontrivial(2 < at < n)


CHECK = Check(
    "C25",
    "a case is a generated schema compiled to C++ with sanitizers, one of its archives with random data and a random interleaving of "
    "the builder calls. (1) all writes to storage are recorded; the storage is rebuilt for prefixes of them (every boundary or a "
    "sample of 30, up to 30 writes torn after some bytes, and 8 states where each file stopped at its own point) and opened; (2) "
    "writing fails after some bytes, for good or for one to five writes; (3) a process writing real files ends after some call. "
    "Oracle: whatever is exposed equals the whole resource, the archive opens exactly if a reference reader finds all mandatory "
    "resources complete, files of calls that returned success hold their final bytes. Non-trivial: (1) more than two partial states "
    "of an archive with resources, (2) some call failed, (3) the process ended between the calls.",
    [batch.SchemaPart("prefixes", schemas, compile_fn, lambda ix, case: histories(ix), check_prefixes, 16, 500,
                      {"quick": 20, "thorough": 150}),
     batch.SchemaPart("failing", schemas, compile_fn, lambda ix, case: fault_cases(ix), check_failing, 16, 400,
                      {"quick": 30, "thorough": 200}),
     batch.SchemaPart("kill", schemas, compile_fn, lambda ix, case: kill_cases(ix), check_kill, 8, 200,
                      {"quick": 15, "thorough": 100})],
    level="fault_enumeration",
    assumptions=["a write that returned is not lost later (storage keeps what was flushed)",
                 "vectors stay below the 32 MB at which they are flushed early (see C17)"])
