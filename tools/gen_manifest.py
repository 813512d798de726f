import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the repository's LLVM IR with SMT (z3), counterexamples replayed on a native build"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = registry.PROPS.get(p["id"])
    if not s: na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "no check registered yet")}); continue
    checks.append({"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"], "technique": s.get("technique", TECH), "level": s.get("level", "model_checking"),
      "level_note": "Bounded: holds for every value, call sequence and interleaving within: %s. Outside: %s. %s" % (s["bounds"], s.get("outside", "") or "larger sizes and longer histories", s.get("trust", "Trusts clang 18's IR, the OS model in rt/model.cpp and z3's unsat answers; every reported violation is reproduced on a native build of the same code first."))})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo are needed: the checks compile the repository's own sources. See DESIGN.md; known findings in KNOWN_FINDINGS.json."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
