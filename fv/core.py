"""Check runner: generated cases, shrinking, replay files, evidence, known findings.

A check is a list of Parts. Each part has a generator of cases (plain Python literals) and an
oracle `fn(case, rec)` that raises Violation when the property is broken. Hypothesis parts are split
over worker processes; each worker is a pure function of (code, VERIF_SEED, shard).
"""
import ast
import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env


class Violation(AssertionError):
    """The property is broken (an oracle said so)."""
    foreign = False     # an exception, not the statement of an oracle


class Inconclusive(Exception):
    """The harness could not decide (not a violation)."""


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


def show(x, limit=600):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "...(%d chars)" % len(s)


# --------------------------------------------------------------------------------------------
# known findings

def known_findings(prop=None):
    path = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        entries = json.load(f)["findings"]
    return {e["id"]: e for e in entries if e.get("status") == "known" and prop in (None, e["property"])}


class Recorder:
    """Counts what a run covered."""

    def __init__(self, prop):
        self.prop = prop
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.known_hits = {}
        self._known = known_findings(prop)
        self._trivial = True
        self._case = None

    def begin(self, case):
        self.evaluations += 1
        self._trivial = True
        self._case = case

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, flag=True, case=None):
        if flag:
            self._trivial = False
            c = self._case if case is None else case
            self.hashes.add(hashlib.sha1(repr(c).encode()).hexdigest()[:16])
            if len(self.samples) < 3:
                s = show(c, 700)
                if s not in self.samples:
                    self.samples.append(s)

    def known(self, finding_id, message):
        """A failure that matches a listed finding; raise if it is not listed."""
        if finding_id not in self._known:
            raise Violation("%s [not a listed finding: %s]" % (message, finding_id))
        self.known_hits[finding_id] = self.known_hits.get(finding_id, 0) + 1

    def dump(self):
        return {"evaluations": self.evaluations, "hashes": sorted(self.hashes),
                "labels": self.labels, "samples": self.samples, "known_hits": self.known_hits}


class Part:
    """A Hypothesis-driven part: `strategy()` yields cases, `fn(case, rec)` is the oracle."""

    def __init__(self, name, strategy, fn, quick, thorough, regressions=(), shards=None,
                 case_timeout=120):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.n = {"quick": quick, "thorough": thorough}
        self.regressions = list(regressions)
        self.shards = shards
        self.case_timeout = case_timeout


class Custom:
    """A part with its own driver: `drive(rec, tier, seed, shard, nshards)` raises CaseViolation."""

    def __init__(self, name, drive, replay, shards=1):
        self.name, self.drive, self.replay, self.shards = name, drive, replay, shards


class CaseViolation(Violation):
    def __init__(self, message, case):
        super().__init__(message)
        self.case = case


class Check:
    def __init__(self, prop, rule, parts, level="exploration", assumptions=()):
        self.prop, self.rule, self.parts = prop, rule, parts
        self.level, self.assumptions = level, list(assumptions)


# --------------------------------------------------------------------------------------------

def in_repo(exc):
    """Did the exception come out of the code under test?"""
    tb = exc.__traceback__
    last_harness, last_repo, i = -1, -1, 0
    root = env.REPO + "/"
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root) or fn.startswith("<flatdata-generated"):
            last_repo = i
        elif fn.startswith(env.VERIF + "/"):
            last_harness = i
        tb = tb.tb_next
        i += 1
    return last_repo > last_harness


def as_violation(exc):
    """Violation for an oracle failure or an unexpected exception of the code under test, else None."""
    if isinstance(exc, Violation):
        return exc
    if isinstance(exc, (KeyboardInterrupt, SystemExit, MemoryError)):
        return None
    if in_repo(exc):
        where = traceback.extract_tb(exc.__traceback__)
        frames = [f for f in where if f.filename.startswith(env.REPO + "/")
                  or f.filename.startswith("<flatdata-generated")]
        last = frames[-1]
        return foreign("unexpected %s from the code under test: %s (at %s:%s in %s)" % (
            type(exc).__name__, str(exc)[:500], os.path.relpath(last.filename, env.REPO), last.lineno,
            last.name))
    if isinstance(exc, UNREADABLE):
        # e.g. a class that is missing in generated code, or an answer without an expected part
        last = traceback.extract_tb(exc.__traceback__)[-1]
        return foreign("what the code under test gave cannot be interpreted: %s: %s (at %s:%s in %s)" % (
            type(exc).__name__, str(exc)[:500], os.path.basename(last.filename), last.lineno, last.name))
    return None


UNREADABLE = (AttributeError, LookupError, ValueError, TypeError, ArithmeticError, AssertionError, RecursionError,
              StopIteration, SyntaxError)


def foreign(message):
    v = Violation(message)
    v.foreign = True
    return v


class _Hang(Violation):
    pass


def _on_alarm(signum, frame):
    raise _Hang("did not terminate")


def guarded(fn, case, rec, timeout):
    """Run one oracle evaluation; unexpected exceptions out of the code under test are violations."""
    rec.begin(case)
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(timeout)
    try:
        fn(case, rec)
    except _Hang:
        raise Violation("no answer within %d s (a case normally takes milliseconds)" % timeout)
    except Violation:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if type(exc).__module__.startswith("hypothesis"):
            raise
        v = as_violation(exc)
        if v is None:
            raise
        raise v from exc
    finally:
        signal.alarm(0)


def run_hypothesis(part, rec, n, seed):
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings
    engine.MAX_SHRINKING_SECONDS = 90
    last = {}

    def test(case):
        try:
            guarded(part.fn, case, rec, part.case_timeout)
        except Violation as v:
            last["case"], last["message"], last["foreign"] = case, str(v), v.foreign
            raise

    wrapped = given(part.strategy())(test)
    wrapped = settings(max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                       print_blob=False, phases=[Phase.generate, Phase.target, Phase.shrink],
                       suppress_health_check=list(HealthCheck))(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        wrapped()
    except Violation as v:
        return {"case": repr(last["case"]), "message": last["message"], "foreign": last["foreign"]}
    except hypothesis.errors.HypothesisException:
        if "case" in last:
            # e.g. Flaky: confirm by running the last failing case on its own
            try:
                guarded(part.fn, last["case"], Recorder(rec.prop), part.case_timeout)
            except Violation as v:
                return {"case": repr(last["case"]), "message": str(v), "foreign": v.foreign}
        raise
    return None


def worker(check, part_name, shard, nshards, tier, out):
    part = next(p for p in check.parts if p.name == part_name)
    rec = Recorder(check.prop)
    result = {"violation": None, "error": None}
    seed = (env.SEED * 1000003 + shard * 7919 + int(hashlib.sha1(part_name.encode()).hexdigest()[:6], 16)) % (2**31)
    try:
        if isinstance(part, Custom):
            try:
                part.drive(rec, tier, seed, shard, nshards)
            except CaseViolation as v:
                result["violation"] = {"case": repr(v.case), "message": str(v)}
            except Exception as exc:  # pylint: disable=broad-except
                v = as_violation(exc)
                if v is None:
                    raise
                result["violation"] = {"case": repr(rec._case), "message": str(v)}
        else:
            if shard == 0:
                for case in part.regressions:
                    try:
                        guarded(part.fn, case, rec, part.case_timeout)
                    except Violation as v:
                        result["violation"] = {"case": repr(case), "message": str(v)}
                        break
            if not result["violation"]:
                total = part.n[tier]
                n = total // nshards + (1 if shard < total % nshards else 0)
                if n:
                    result["violation"] = run_hypothesis(part, rec, n, seed)
    except BaseException as exc:  # pylint: disable=broad-except
        result["error"] = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]
    result.update(rec.dump())
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(result, f)
    os.rename(tmp, out)


def write_replay(check, part, violation):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": check.prop, "part": part, "seed": env.SEED, "message": violation["message"],
            "case": violation["case"]}
    h = hashlib.sha1((part + violation["case"]).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (check.prop, h))
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(check, path):
    with open(path) as f:
        body = json.load(f)
    part = next(p for p in check.parts if p.name == body["part"])
    case = ast.literal_eval(body["case"])
    rec = Recorder(check.prop)
    try:
        if isinstance(part, Custom):
            part.replay(case, rec)
        else:
            guarded(part.fn, case, rec, part.case_timeout)
    except Violation as v:
        print(v)
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    print("replay passes")
    return 0


def main(check, tier, only=None, shards=None):
    started = time.time()
    tmp = tempfile.mkdtemp(prefix="fv-run-", dir="/tmp")
    os.environ["FV_RUN_DIR"] = tmp        # what is built for a run is shared by its workers
    jobs = []
    for part in check.parts:
        if only and part.name not in only:
            continue
        if isinstance(part, Custom):
            n = part.shards
        else:
            n = part.shards or min(env.JOBS, max(1, part.n[tier] // 4))
        if shards:
            n = min(n, shards)
        for s in range(n):
            jobs.append((part.name, s, n))
    # interleave so that every part starts early
    jobs.sort(key=lambda j: j[1])
    running, results, violations, errors = [], [], [], []
    budget = float(os.environ.get("FV_BUDGET", "840" if tier == "quick" else "86400"))

    def reap(block):
        for item in list(running):
            proc, job, out, log = item
            if proc.poll() is None:
                continue
            running.remove(item)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
            else:
                r = {"violation": None, "error": "worker died with status %s\n%s" % (
                    proc.returncode, open(log).read()[-3000:]), "evaluations": 0, "hashes": [],
                    "labels": {}, "samples": [], "known_hits": {}}
            r["job"] = job
            results.append(r)
            if r["violation"]:
                violations.append((job[0], r["violation"]))
            if r["error"]:
                errors.append((job, r["error"]))
        if block and running:
            time.sleep(0.02)

    pending = list(jobs)
    timed_out = False
    try:
        while pending or running:
            while pending and len(running) < env.JOBS and not violations:
                job = pending.pop(0)
                out = os.path.join(tmp, "%s-%d.json" % (job[0], job[1]))
                log = out + ".log"
                with open(log, "w") as lf:
                    proc = subprocess.Popen(
                        [sys.executable, "-B", "-m", "fv.run", check.prop, "--worker", job[0],
                         str(job[1]), str(job[2]), "--tier", tier, "--out", out],
                        cwd=env.VERIF, stdout=lf, stderr=lf, start_new_session=True)
                running.append((proc, job, out, log))
            if violations:
                pending = []
                # let the others finish shrinking only briefly; one minimal case is enough
                for proc, _, _, _ in running:
                    try:
                        os.killpg(proc.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                for proc, _, _, _ in running:
                    proc.wait()
                running = []
                break
            if time.time() - started > budget:
                timed_out = True
                for proc, _, _, _ in running:
                    os.killpg(proc.pid, signal.SIGKILL)
                    proc.wait()
                break
            reap(True)
    finally:
        for proc, _, _, _ in running:
            if proc.poll() is None:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()

    hashes, labels, samples, known_hits, evaluations = set(), {}, [], {}, 0
    per_part = {}
    for r in sorted(results, key=lambda r: (r["job"][0], r["job"][1])):
        hashes.update(r["job"][0] + h for h in r["hashes"])
        evaluations += r["evaluations"]
        pp = per_part.setdefault(r["job"][0], [0, set()])
        pp[0] += r["evaluations"]
        pp[1].update(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["known_hits"].items():
            known_hits[k] = known_hits.get(k, 0) + v
        if r["job"][1] == 0:
            samples += ["%s: %s" % (r["job"][0], s) for s in r["samples"][:2]]
    coverage = {"evaluations": evaluations, "distinct_nontrivial": len(hashes), "rule": check.rule,
                "samples": samples[:12] or ["(none)"], "labels": dict(sorted(labels.items())),
                "parts": {k: {"evaluations": v[0], "distinct_nontrivial": len(v[1])}
                          for k, v in per_part.items()},
                "known_finding_hits": known_hits}
    evidence = {"property": check.prop, "tier": tier, "seed": env.SEED, "level": check.level,
                "coverage": coverage, "assumptions": check.assumptions,
                "wall_s": round(time.time() - started, 2), "violations": len(violations)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    if violations:
        part, v = violations[0]
        path = write_replay(check, part, v)
        print("part %s: %s" % (part, v["message"]))
        print("case: %s" % (v["case"] if len(v["case"]) < 4000 else v["case"][:4000] + "..."))
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if errors:
        for job, e in errors[:3]:
            print("HARNESS ERROR in %s\n%s" % (job, e), file=sys.stderr)
        return 3
    if timed_out:
        print("INCONCLUSIVE: time budget exhausted", file=sys.stderr)
        return 4
    rc = 0
    for fid, e in sorted(known_findings(check.prop).items()):
        print("KNOWN-FINDING: property=%s %s" % (check.prop, e["what"]))
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
        check.prop, evaluations, len(hashes), time.time() - started))
    return rc


# --------------------------------------------------------------------------------------------
# helpers for batch-style parts

def collect(strategy, n, seed, key=repr):
    """The first n cases Hypothesis generates from a strategy under a seed."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    out, seen = [], set()

    def test(case):
        k = key(case)
        if k not in seen:
            seen.add(k)
            out.append(case)

    w = given(strategy)(test)
    w = settings(max_examples=n, deadline=None, database=None, phases=[Phase.generate],
                 suppress_health_check=list(HealthCheck))(w)
    hypothesis.seed(seed)(w)()
    return out


def shrink(case, candidates, fails, max_attempts=200, max_seconds=150):
    """Greedy shrinking for expensive oracles: candidates(case) yields smaller cases."""
    t0, attempts = time.time(), 0
    improved = True
    while improved:
        improved = False
        for c in candidates(case):
            if attempts >= max_attempts or time.time() - t0 > max_seconds:
                return case
            attempts += 1
            try:
                bad = fails(c)
            except Exception:  # pylint: disable=broad-except
                bad = False
            if bad:
                case, improved = c, True
                break
    return case


def load(prop):
    return importlib.import_module("checks." + prop.lower()).CHECK
