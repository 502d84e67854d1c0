"""Writes /verif/MANIFEST.json from the checks that exist (checks/cNN.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
T = {
 "C01": ("property-based testing against a big-integer bit model", "exploration"),
 "C02": ("schema- and data-generating round-trip against a reference encoder", "exploration"),
 "C03": ("generated structs compiled with sanitizers, random writes against a bit-array model", "exploration"),
 "C04": ("differential testing C++ vs Python vs reference encoder on generated schemas and data", "exploration"),
 "C05": ("generated schemas compiled with rustc, differential against the reference encoder, injected faults", "exploration"),
 "C06": ("generated schemas compiled with go, differential against the reference encoder, injected faults", "exploration"),
 "C07": ("fault injection on generated archives, C++ with sanitizers against a reference validity model", "fault_enumeration"),
 "C08": ("fault injection on generated archives, Python against a reference validity model", "fault_enumeration"),
 "C09": ("metamorphic tar-vs-directory testing with generated tar packings", "exploration"),
 "C10": ("structure-aware mutation and coverage-guided fuzzing of tar input under sanitizers", "exploration"),
 "C11": ("generated schemas and spelling variants, fixpoint and reference normaliser as oracle", "exploration"),
 "C12": ("metamorphic schema edits with a dependency model as oracle", "exploration"),
 "C13": ("grammar-based generation of valid schemas, rule violations and text mutation", "exploration"),
 "C14": ("generated schemas and comments rendered by all backends, compiled and read back against a reference layout", "exploration"),
 "C15": ("generated constants and enumerations, values compared with a reference evaluation in every backend", "exploration"),
 "C16": ("differential runs over hash seeds, render histories and the command line", "exploration"),
 "C17": ("model-based testing of operation histories against plain sequences, under sanitizers", "exploration"),
 "C18": ("generated range/optional structures in C++ against a reference reading", "exploration"),
 "C19": ("generated archives, index/slice/export operations against plain lists", "exploration"),
 "C20": ("stateful call sequences against a model of the builder", "exploration"),
 "C21": ("generated archives opened from their stored schema, differential with the original module", "exploration"),
 "C22": ("stateful call sequences on generated C++ and Rust builders against a protocol model", "exploration"),
 "C23": ("generated reference widths with destination sizes around the limit, C++ and Rust", "exploration"),
 "C24": ("generated namespace trees with colliding names against a reference resolver", "exploration"),
 "C25": ("crash-point enumeration over recorded write sequences of C++ builders", "fault_enumeration"),
 "C26": ("generated payloads against byte-string splitting", "exploration"),
 "C27": ("generated schemas, graph parsed by dot and compared with the schema model", "exploration"),
 "C28": ("model-based testing of operation histories against plain lists, under the address sanitizer", "exploration"),
 "C29": ("generated structures and arrays compared with tuples of field values", "exploration"),
 "C30": ("model-based testing of storage histories against a map from paths to bytes", "exploration"),
 "C31": ("generated archives, faults and schema edits, descriptions compared with the reference model", "exploration"),
 "C32": ("generated histories on several threads against the sequential model, with ThreadSanitizer as a further oracle in C++ and schedules perturbed in Rust", "exploration"),
 "C33": ("generated histories with every write recorded and cut off, injected failures of file operations, refused values, and killed processes", "fault_enumeration"),
 "C34": ("generated trees of schemas and generator failures against a model of the output folder, with stand-ins for generator, pip and python", "exploration"),
 "C35": ("generated histories of reads against a model of the bytes read", "exploration"),
}
NOTE = "Generated-input search: holds on everything explored in the run (counts in the evidence file); absence of violations outside is not established. Trusts the reference model in fv/ and the installed toolchain."
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "./run %s --tier quick" % i,
                       "thorough_cmd": "./run %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": T[i][0], "level": T[i][1], "level_note": NOTE})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Known and fixed findings: known_findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
