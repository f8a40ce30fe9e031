#!/usr/bin/env python3
"""Write MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(H + "/checks.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
note = {
 "proof": "Every obligation of the contracts on the functions this property rests on is discharged by Verus/Z3 for all inputs, on the text woven from /repo/src on every run. Trusted: Verus, Z3, the weaver, the assumed specifications of std and of ciborium, serde_json and regex (unit parser: also of nom's combinators, hex, base64, escape8259; partial correctness of the recursive parsers). A bounded differential search against an independent reference runs after the proof; it is labelled bounded and not counted as proved.",
 "exploration": "Bounded: cases are generated and compared with an independent reference for a fixed time; nothing is proved about cases not tried.",
}
checks = []
for p in props:
    c = C["properties"].get(p["id"])
    if not c:
        continue
    cmd = "python3 check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " thorough", "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c.get("technique") or ("contract-based deductive verification (Verus) of the real functions, counterexamples by differential search"
            if c["level"] == "proof" else "bounded stand-in for contracts: differential search against a reference"),
        "level": c["level"], "level_note": c.get("note") or note[c["level"]]})
    if c.get("theorems"):
        checks[-1]["theorems"] = c["theorems"]
m = {"version": 1,
     "setup_cmd": "cargo build --offline --quiet --manifest-path weaver/Cargo.toml && cargo build --offline --quiet --manifest-path replay/Cargo.toml",
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in C.get("not_applicable", {}).items()],
     "notes": "Each check weaves the contracts in contracts/ onto the current /repo/src, runs Verus on the result, and searches for a failing input; see DESIGN.md. VP_REPO points a check at another tree during development."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
