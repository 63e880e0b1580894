import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {"C24": "the grammar is a Boost.Spirit Qi expression-template parser: no deductive verifier available here (nor ncvc) can give it a contract without a hand-written model of Qi, which would be proving a model; see DESIGN.md",
      "C25": "same reason as C24 for the Heidenhain grammar (Boost.Spirit Qi expression templates); see DESIGN.md"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(V + "/props/%s.py" % i.lower()):
        m = importlib.import_module("props." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i, "thorough_cmd": "python3-vt check.py %s --thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification: contracts on the real functions (clang AST of /repo), VC generation with inductive loop invariants, z3/cvc5"),
                       "level": getattr(m, "LEVEL", "proof"), "level_note": getattr(m, "NOTE", "") or "All obligations generated from the current source must be discharged; concrete bounded companion supplies failing inputs and covers what DESIGN.md lists as bounded. Assumptions are in the evidence file."})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt setup.py", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo are needed: the verifier reads the sources as they are."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
