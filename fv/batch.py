"""Checks that compile generated code: a batch of schemas, many data cases per compiled schema."""
import copy
import os
import random
import time

from . import schema as sch
from .core import CaseViolation, Custom, Part, Recorder, Violation, as_violation, collect, guarded, run_hypothesis, shrink


def rich(strategy, n, seed, factor=5):
    """n generated cases, preferring large ones (a compilation is too expensive for trivial ones)."""
    pool = collect(strategy, max(30, n * factor), seed)
    pool.sort(key=lambda c: len(repr(c)))
    rng = random.Random(seed)
    low = len(pool) // 2
    picked = pool[low:]
    rng.shuffle(picked)
    return (picked + pool[:low][::-1])[:n]


class Toolchain:
    """compile(text, ix, name) -> driver with stop(); raises Violation if the code does not compile."""

    def __init__(self, compile_fn):
        self.compile = compile_fn


class SchemaPart(Custom):
    """schemas(): strategy of {"schema", "noise", ...}; data(ix, case): strategy of sub cases;
    check(driver, ix, case, sub, rec): the oracle."""

    def __init__(self, name, schemas, compile_fn, data, check, quick, thorough, n_data, shards=8, shrink_seconds=100,
                 fixed=()):
        super().__init__(name, self._drive, self._replay, shards)
        self.schemas, self.compile_fn, self.data, self.check = schemas, compile_fn, data, check
        self.n = {"quick": quick, "thorough": thorough}
        self.n_data = n_data
        self.shrink_seconds = shrink_seconds
        self.fixed = list(fixed)
        self.counter = 0

    def text(self, case):
        return sch.to_text(case["schema"], sch.Style(case.get("noise") or ()))

    def open(self, case, tag):
        self.counter += 1
        ix = sch.Index(case["schema"])
        name = "%s-%s-%d-%d" % (self.name, tag, os.getpid(), self.counter)
        try:
            return ix, self.compile_fn(self.text(case), ix, name, case)
        except Exception as exc:  # pylint: disable=broad-except
            v = as_violation(exc)
            if v is None or v is exc:
                raise
            raise v from exc

    def _one(self, case, sub, rec):
        """Compile and check a single sub case."""
        ix, driver = self.open(case, "r")
        try:
            if sub is not None:
                guarded(lambda c, r: self.check(driver, ix, case, c, r), sub, rec, 300)
        finally:
            driver.stop()

    def _fails(self, c, foreign):
        try:
            self._one(c["case"], c["sub"], Recorder("x"))
        except Violation as v:
            # a smaller case has to fail in the same way
            return v.foreign == foreign
        return False

    def _drive(self, rec, tier, seed, shard, nshards):
        n = self.n[tier]
        mine = [c for i, c in enumerate(self.fixed) if i % nshards == shard]
        count = n // nshards + (1 if shard < n % nshards else 0)
        mine += rich(self.schemas(), count, seed)
        for k, case in enumerate(mine):
            tag = "%d-%d" % (shard, k)
            try:
                ix, driver = self.open(case, tag)
            except Violation as v:
                small = shrink({"case": case, "sub": None}, candidates, lambda c: self._fails(c, v.foreign), 40,
                               self.shrink_seconds)
                raise CaseViolation(self._message(small, v), small) from v
            rec.label("schemas")
            try:
                found = run_hypothesis(
                    Part(self.name, lambda: self.data(ix, case),
                         lambda c, r: self.check(driver, ix, case, c, r), 0, 0, case_timeout=300),
                    rec, self.n_data[tier], seed + k)
            finally:
                driver.stop()
            if found:
                import ast
                whole = {"case": case, "sub": ast.literal_eval(found["case"])}
                small = shrink(whole, candidates, lambda c: self._fails(c, found["foreign"]), 60,
                               self.shrink_seconds)
                raise CaseViolation(self._message(small, found["message"]), small)

    def _message(self, small, default):
        try:
            self._one(small["case"], small["sub"], Recorder("x"))
        except Violation as v:
            return str(v)
        return str(default)

    def _replay(self, case, rec):
        self._one(case["case"], case["sub"], rec)


# --------------------------------------------------------------------------------------------
# structural shrinking of {"case": {"schema", ...}, "sub": {... "archive", "data" ...}}

def uses(s):
    """Paths something refers to."""
    out = set()
    for b in s["blocks"]:
        for it in b["items"]:
            if it["k"] == "struct":
                for f in it["fields"]:
                    if f["type"] not in sch.WIDTH:
                        out.add(f["type"])
                    for d in f["decs"]:
                        if d[0] != "range":
                            out.add(d[1])
            elif it["k"] == "archive":
                for r in it["res"]:
                    out.update(r["types"])
                    for d in r["decs"]:
                        if d[0] == "ref":
                            out.add(d[1])
                            out.add(d[3].rsplit(".", 1)[0])
    return out


def edit_data(ix, path, data, fn):
    """fn(archive path, data dict) applied to every archive instance in the data."""
    if data is None:
        return
    fn(path, data)
    for r in ix.items[path]["res"]:
        if r["kind"] == "archive" and data.get(r["name"]) is not None:
            edit_data(ix, r["types"][0], data[r["name"]], fn)


def candidates(whole):
    s = whole["case"]["schema"]
    ix = sch.Index(s)
    sub = whole["sub"]
    root = (sub or {}).get("archive") if isinstance(sub, dict) else None
    plain = sub is None or (isinstance(sub, dict) and "data" in sub)
    if whole["case"].get("noise"):
        c = copy.deepcopy(whole)
        c["case"]["noise"] = []
        yield c
    used = uses(s)
    # whole items
    for p in reversed(ix.order):
        if p in used or p == root:
            continue
        if sum(len(b["items"]) for b in s["blocks"]) <= 1:
            continue
        c = copy.deepcopy(whole)
        for b in c["case"]["schema"]["blocks"]:
            b["items"] = [i for i in b["items"] if "." + b["ns"] + "." + i["name"] != p]
        c["case"]["schema"]["blocks"] = [b for b in c["case"]["schema"]["blocks"] if b["items"]]
        yield c
    if not plain:
        return
    # resources
    targets = {d[3] for p in ix.of("archive") for r in ix.items[p]["res"] for d in r["decs"] if d[0] == "ref"}
    for p in ix.of("archive"):
        bound = {x for _, rs in ix.items[p]["bound"] for x in rs}
        for r in ix.items[p]["res"]:
            if r["name"] in bound or p + "." + r["name"] in targets:
                continue
            c = copy.deepcopy(whole)
            cx = sch.Index(c["case"]["schema"])

            def drop(ap, d, p=p, r=r):
                if ap == p:
                    d.pop(r["name"], None)
            if root:
                edit_data(cx, root, c["sub"]["data"], drop)
            cx.items[p]["res"] = [x for x in cx.items[p]["res"] if x["name"] != r["name"]]
            yield c
        if ix.items[p]["bound"]:
            c = copy.deepcopy(whole)
            sch.Index(c["case"]["schema"]).items[p]["bound"] = []
            yield c
        for i, r in enumerate(ix.items[p]["res"]):
            for j, d in enumerate(r["decs"]):
                if d[0] == "ref":
                    c = copy.deepcopy(whole)
                    del sch.Index(c["case"]["schema"]).items[p]["res"][i]["decs"][j]
                    yield c
    # fields
    refs = {(d[1], d[2]) for p in ix.of("archive") for r in ix.items[p]["res"] for d in r["decs"] if d[0] == "ref"}
    for p in ix.of("struct"):
        fields = ix.items[p]["fields"]
        for k, f in enumerate(fields):
            if len(fields) < 2 or (p, f["name"]) in refs:
                continue
            c = copy.deepcopy(whole)
            cx = sch.Index(c["case"]["schema"])

            def cut(v, k=k):
                return tuple(v[:k]) + tuple(v[k + 1:])

            def fix(ap, d, p=p, cut=cut):
                for r in ix.items[ap]["res"]:
                    v = d.get(r["name"])
                    if v is None or p not in r["types"]:
                        continue
                    if r["kind"] == "inst":
                        d[r["name"]] = cut(v)
                    elif r["kind"] == "vector":
                        d[r["name"]] = [cut(x) for x in v]
                    elif r["kind"] == "multi":
                        d[r["name"]] = [[(t, cut(x) if r["types"][t] == p else x) for t, x in it] for it in v]
            if root:
                edit_data(cx, root, c["sub"]["data"], fix)
            del cx.items[p]["fields"][k]
            yield c
        for k, f in enumerate(fields):
            for j in range(len(f["decs"])):
                c = copy.deepcopy(whole)
                del sch.Index(c["case"]["schema"]).items[p]["fields"][k]["decs"][j]
                yield c
