"""Writes MANIFEST.json from the list of implemented checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness")); sys.dont_write_bytecode = True
import checks
NOTE = ("TLA+ design model checked exhaustively at small constants; recorded executions of the real library "
        "(seeded random scenarios, fixed adversarial ones and behaviours generated by TLC) validated by TLC against the "
        "specification. Decides the executions driven; trusts the driver's projection and TLC.")
T = "TLA+/TLC model checking + trace validation and replay against the library"
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: the drivers use the public API. Language: TLA+ with TLC. See DESIGN.md.")
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in checks.CHECKS:
        m["checks"].append(dict(property=p, quick_cmd=f"python3 harness/main.py {p} quick",
                                thorough_cmd=f"python3 harness/main.py {p} thorough", technique=T,
                                level="model_checking", level_note=NOTE))
    else:
        m["not_applicable"].append(dict(property=p, reason="check under construction"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
