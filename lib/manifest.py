"""Writes MANIFEST.json from plan.py and properties.jsonl (run by hand after editing)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOTE = ("Bounded: every value within the stated bounds is decided by symbolic execution of the compiled crate (LLVM IR of /repo, its dependencies and std) with Z3; "
        "inputs made by the solver are also run natively on the real crate. Trusted: the engine, rustc, Z3, the stand-ins for SHA-256/RSA and the HTTP transport; outside the bounds nothing is claimed.")
checks = [{"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough", "evidence_file": f"evidence/{p}.json",
           "technique": "bounded symbolic execution of the compiled code (LLVM IR) with the Z3 SMT solver, counterexamples replayed natively",
           "level": "model_checking", "level_note": NOTE} for p in ids if p in plan.PLAN]
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": plan.NA.get(p, "check not built yet")} for p in ids if p not in plan.PLAN],
     "notes": "See DESIGN.md. No hooks in /repo; all checks go through the public API."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
