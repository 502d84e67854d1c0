"""C16: Generation is deterministic."""
import hashlib
import json
import os
import subprocess
import sys
import tempfile

from fv import env, gen, schema
from fv.core import CaseViolation, Check, Custom, Part, Violation, collect, require
from hypothesis import strategies as st

from checks.c13 import RULES, Skip

BACKENDS = ["cpp", "dot", "go", "py", "rust", "flatdata"]


def render(engine, backend):
    try:
        return engine.render(backend)
    except Exception as exc:  # pylint: disable=broad-except
        return "%s: %s" % (type(exc).__name__, exc)     # whether that may happen is C14's business


def digest(text):
    return hashlib.sha1(text.encode("utf-8", "surrogatepass")).hexdigest()


RENDER = r"""
import json, sys
sys.path.insert(0, %r)
from fv import env
from checks.c16 import render, digest
from flatdata.generator.engine import Engine
job = json.load(open(sys.argv[1]))
print(json.dumps([{b: digest(render(Engine(t), b)) for b in job["order"]} for t in job["texts"]]))
""" % env.VERIF


def other_process(texts, order, hash_seed):
    with tempfile.NamedTemporaryFile("w", suffix=".json", prefix="fv-c16-", dir="/tmp", delete=False) as f:
        json.dump({"texts": texts, "order": order}, f)
    try:
        e = dict(os.environ, PYTHONHASHSEED=str(hash_seed))
        out = subprocess.run([sys.executable, "-B", "-c", RENDER, f.name], env=e, cwd=env.VERIF, capture_output=True,
                             text=True, timeout=600)
    finally:
        os.unlink(f.name)
    if out.returncode:
        raise RuntimeError("rendering process failed: %s" % out.stderr[-2000:])
    return json.loads(out.stdout)


@st.composite
def cases(draw):
    s = draw(gen.schemas(gen.Opt(cross_refs=True, max_consts=6, max_enums=4)))
    return {"schema": s, "noise": draw(gen.noise)}


def text_of(case):
    return schema.to_text(case["schema"], schema.Style(case["noise"]))


def drive(rec, tier, seed, shard, nshards):
    from flatdata.generator.engine import Engine
    n = 8 if tier == "quick" else 600
    batch = collect(cases(), n, seed)
    texts = [text_of(c) for c in batch]
    for c in batch:
        rec.begin(c)
        rec.nontrivial(sum(len(b["items"]) for b in c["schema"]["blocks"]) > 2)
    here = [{b: digest(render(Engine(t), b)) for b in BACKENDS} for t in texts]
    runs = [("this process again, reverse order", None)]
    for hs in [seed % 1000, seed % 997 + 1000]:
        runs.append(("hash seed %d" % hs, hs))
    for what, hs in runs:
        order = BACKENDS[::-1]
        if hs is None:
            got = [{b: digest(render(Engine(t), b)) for b in order} for t in texts[::-1]][::-1]
        else:
            got = other_process(texts, order[shard % 6:] + order[:shard % 6], hs)
        rec.label(what.split(" ")[0] + " runs")
        for c, t, a, b in zip(batch, texts, here, got):
            for k in BACKENDS:
                if a[k] != b[k]:
                    raise CaseViolation("output of %s differs: %s" % (k, what), dict(c, backend=k, hs=hs))


def replay(case, rec):
    from flatdata.generator.engine import Engine
    t = text_of(case)
    b = case["backend"]
    outs = {digest(render(Engine(t), b))}
    for hs in range(12):
        outs.add(other_process([t], BACKENDS, hs)[0][b])
    require(len(outs) == 1, "%d different outputs of %s for one schema", len(outs), b)


# --------------------------------------------------------------------------------------------

@st.composite
def histories(draw):
    opt = gen.Opt(max_blocks=2, max_structs=3, max_archives=2, max_consts=3)
    ss = [draw(gen.schemas(opt)) for _ in range(draw(st.integers(1, 2)))]
    steps = draw(st.lists(st.tuples(st.integers(0, len(ss) - 1), st.sampled_from(BACKENDS), st.booleans()),
                          min_size=2, max_size=8))
    return {"schemas": ss, "noise": draw(gen.noise), "steps": steps}


def check_history(case, rec):
    """Renders in any order, on a shared or a fresh engine, give the same text as a first render."""
    from flatdata.generator.engine import Engine
    texts = [schema.to_text(s, schema.Style(case["noise"])) for s in case["schemas"]]
    first = {}
    shared = [Engine(t) for t in texts]
    for i, b, fresh in case["steps"]:
        if (i, b) not in first:
            first[(i, b)] = render(Engine(texts[i]), b)
        got = render(Engine(texts[i]) if fresh else shared[i], b)
        require(got == first[(i, b)], "output of %s depends on what was rendered before:\n%s\nfirst:\n%s", b, got,
                first[(i, b)])
        rec.label(b)
    rec.nontrivial(len({(i, b) for i, b, _ in case["steps"]}) > 1)


# --------------------------------------------------------------------------------------------

@st.composite
def cli(draw):
    s = draw(gen.schemas(gen.Opt(max_blocks=2, max_structs=3, max_archives=2, max_consts=3)))
    return {"schema": s, "noise": draw(gen.noise), "backend": draw(st.sampled_from(BACKENDS + ["nope"])),
            "rule": draw(st.sampled_from(["", "", ""] + sorted(RULES))), "picks": draw(st.lists(
                st.integers(0, 60), min_size=5, max_size=5)),
            "old": draw(st.booleans()), "nested": draw(st.booleans()), "process": draw(st.integers(0, 9)) == 9,
            "flags": draw(st.sampled_from([[], ["-v"], ["--debug"]]))}


def check_cli(case, rec):
    import copy
    from flatdata.generator.engine import Engine
    s = copy.deepcopy(case["schema"])
    broken = False
    if case["rule"]:
        state = {"i": 0}

        def take(n):
            state["i"] += 1
            return case["picks"][state["i"] % 5] % n
        try:
            RULES[case["rule"]](s, take)
            broken = True
        except Skip:
            s = case["schema"]
    text = schema.to_text(s, schema.Style(case["noise"]))
    expected = None
    if not broken and case["backend"] != "nope":
        try:
            expected = Engine(text).render(case["backend"])
        except Exception:  # pylint: disable=broad-except
            rec.label("backend does not render")
            return
    root = env.scratch("c16")
    try:
        src, out = os.path.join(root, "s.flatdata"), os.path.join(root, "new/dir/o.txt" if case["nested"] else "o.txt")
        with open(src, "w") as f:
            f.write(text)
        if case["old"] and not case["nested"]:
            with open(out, "w") as f:
                f.write("old content")
        argv = ["-s", src, "-g", case["backend"], "-O", out] + case["flags"]
        if case["process"]:
            p = subprocess.run([sys.executable, "-B", os.path.join(env.REPO, "flatdata-generator", "generator.py")] + argv
                               if os.path.exists(os.path.join(env.REPO, "flatdata-generator", "generator.py")) else
                               [sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r); from flatdata.generator.app "
                                "import main; main()" % os.path.join(env.REPO, "flatdata-generator")] + argv,
                               capture_output=True, text=True, timeout=120, cwd=root)
            status = p.returncode
            require("Traceback" not in p.stderr, "the command line tool fails with\n%s", p.stderr[-1500:])
        else:
            status = in_process(argv)
        if expected is not None:
            require(status == 0, "exit status %s for a valid schema", status)
            with open(out) as f:
                got = f.read()
            require(got == expected, "the output file differs from the rendered text")
        else:
            require(status != 0, "exit status 0 for a rejected schema or unknown backend")
            if case["old"] and not case["nested"]:
                with open(out) as f:
                    require(f.read() == "old content", "a failed run changed the existing output file")
            else:
                require(not os.path.exists(out), "a failed run left an output file")
    finally:
        env.rmtree(root)
    rec.label("rejected" if expected is None else case["backend"])
    rec.nontrivial(True)


def in_process(argv):
    import io
    import logging
    from contextlib import redirect_stderr
    from flatdata.generator import app
    old = sys.argv
    sys.argv = ["flatdata-generator"] + argv
    try:
        with redirect_stderr(io.StringIO()):
            app.main()
        return 0
    except SystemExit as exc:
        return exc.code if isinstance(exc.code, int) else (0 if exc.code is None else 1)
    finally:
        sys.argv = old
        logging.getLogger().handlers.clear()


CHECK = Check(
    "C16",
    "processes: each generated schema rendered by all six backends in this process, again in reverse order, and in two other "
    "processes with other hash seeds, digests compared. history: random render sequences over shared and fresh engines. cli: the "
    "command line tool on valid schemas, schemas with one broken rule and unknown backends, with and without an old output "
    "file. Non-trivial: more than two entities; more than one distinct render; every command line run.",
    [Custom("processes", drive, replay, shards=8), Part("history", histories, check_history, 80, 6000),
     Part("cli", cli, check_cli, 160, 10000)])
