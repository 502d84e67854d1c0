"""Writes /verif/known_findings.json: FIXED lists repaired defects (they suppress nothing), KNOWN recorded ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {}   # commit -> property, in order; the text is the subject of the commit
for line in open(os.path.join(HERE, "tools", "fixed.txt")):
    if line.strip():
        commit, prop = line.split()
        FIXED[commit] = prop
KNOWN = json.load(open(os.path.join(HERE, "tools", "known.json")))
out = []
for i, (c, p) in enumerate(FIXED.items(), 1):
    what = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", c], capture_output=True, text=True,
                          check=True).stdout.strip()
    assert what.startswith("fix: "), (c, what)
    out.append({"id": "F%02d" % i, "property": p, "status": "fixed", "commit": c,
                "what": "fixed: property=%s %s %s" % (p, c, what[5:])})
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": out + KNOWN}, f, indent=1)
    f.write("\n")
missing = [l for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True
           ).stdout.splitlines() if " fix: " in l and l.split()[0] not in FIXED]
print(len(out), "fixed", len(KNOWN), "known; unlisted fixes:", missing)
