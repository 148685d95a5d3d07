import json, sys
sys.path.insert(0, "/verif/lib"); sys.path.insert(0, "/verif")
import rules, props
NA = {
 "C24": "quantifies over the numerical reconstruction error of lossy coding (a runtime quantity of image content and quality); no structural necessary condition beyond C07 can be decided from the source",
 "C25": "needs the C++ reference implementation and its arithmetic as the oracle; it is not part of the Rust source that static analysis sees (the format-level clauses are decided under C01-C10)",
 "C26": "wall-clock time and compression ratio are measurements, not facts visible in the source",
}
TVN = ("translation validation of the type-checked MIR: value graph of each listed function (callees resolved, private helpers inlined, loops summarised) compared "
       "with the graph of a reference crate under /verif/spec; equal normal forms prove the obligation, otherwise random interpretation of the two graphs refutes or fails to distinguish them; "
       "undecided functions are listed in the evidence and never alarm. Trusts rustc's MIR, the library models in lib/models.py and that the reference states the format.")
checks = []
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in NA:
        continue
    lv = rules.LEVEL.get(i, "translation_validation")
    note = TVN if props.OBLIGATIONS.get(i) else ""
    if i in rules.NOTE:
        note = (note + " " + rules.NOTE[i]).strip()
    checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": rules.TECH.get(i, "value-graph translation validation of MIR against a reference crate"),
                   "level": lv, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. All checks read /repo's current source through a rustc driver (driver/); nothing of gfwx is executed."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
