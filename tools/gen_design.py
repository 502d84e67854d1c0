"""Writes /verif/DESIGN.md: the hand-written parts are here, rules, bounds, findings and catches come from the files that hold them."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
FOUND = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
MAN = json.load(open(os.path.join(HERE, "MANIFEST.json")))
CATCH = json.load(open(os.path.join(HERE, "tools", "caught.json")))
INTRO = open(os.path.join(HERE, "tools", "design_intro.md")).read()
MORE = {}
cur = None
for line in open(os.path.join(HERE, "tools", "design_properties.md")):
    if line.startswith("## "):
        cur = line[3:].strip()
        MORE[cur] = ""
    elif cur:
        MORE[cur] += line
out = [INTRO.rstrip(), "", "# The properties and how each is decided", ""]
claimed = {c["property"]: c for c in MAN["checks"]}
for p in PROPS:
    i = p["id"]
    out += ["## %s — %s" % (i, p["title"]), "", p["statement"], ""]
    if i not in claimed:
        out += ["Not claimed: %s" % next(n["reason"] for n in MAN["not_applicable"] if n["property"] == i), ""]
        continue
    check = importlib.import_module("checks." + i.lower()).CHECK
    out += ["*Technique:* %s (%s). *Quantified over:* %s." % (claimed[i]["technique"], claimed[i]["level"], p["quantifier"]["text"]), "",
            "*What a case is, the oracle and what counts as non-trivial:* " + check.rule, ""]
    sizes = []
    for part in check.parts:
        if hasattr(part, "n"):
            per = getattr(part, "n_data", None)
            unit = "cases" if not per else "schemas, each with about %s cases" % " / ".join(str(v) for v in per.values())
            sizes.append("%s: %s quick / %s thorough %s" % (part.name, part.n["quick"], part.n["thorough"], unit))
        else:
            sizes.append("%s: own driver" % part.name)
    out += ["*Bounds:* " + "; ".join(sizes) + ".", ""]
    if check.assumptions:
        out += ["*Assumptions:* " + "; ".join(check.assumptions) + ".", ""]
    out += [MORE.get(i, "").strip(), ""]
out += ["# Findings", "", "Genuine defects found by the checks and repaired (each an unguarded \"fix:\" commit in /repo; a fixed entry "
        "suppresses nothing):", ""]
out += ["- " + f["what"][len("fixed: "):] for f in FOUND if f["status"] == "fixed"]
out += ["", "Genuine defects recorded rather than repaired (the check prints KNOWN-FINDING for exactly these):", ""]
out += ["- %s (%s) %s" % (f["id"], f["property"], f["what"]) for f in FOUND if f["status"] == "known"]
out += ["", "# Planted bugs and what catches them", "",
        "Each was written from the property's text and the code, applied to /repo with `git apply`, checked and undone; all pass the "
        "existing tests. \"First miss\" tells what had to be strengthened.", "",
        "| bug | property | needs | caught by | first miss |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    c = CATCH.get(d, {})
    out.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["needs"], c.get("by", "not recorded"), c.get("missed", "")))
out.append("")
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
print("DESIGN.md", sum(len(x) for x in out), "characters; without text:", [p["id"] for p in PROPS if p["id"] not in MORE])
