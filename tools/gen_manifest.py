"""Writes MANIFEST.json from properties.jsonl and the implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {
 "C30": "numerical accuracy of a pure function of its arguments; no schedule, fault, clock, I/O or history enters, so a simulator has nothing to decide",
 "C31": "Galerkin optimality and convergence is numerical analysis of a deterministic computation; no schedule, fault or history enters",
 "C32": "convergence order of quadrature rules is a mathematical property of a pure function; nothing to simulate",
 "C33": "curve derivatives are pure functions of the parameter; nothing to simulate",
 "C34": "dimension and reproduction of an edge space is linear algebra on a pure function of edge and degree; nothing to simulate",
 "C35": "argument validation of single calls has no schedule, fault or history; an input-fuzzing property, not one for simulation",
}
NOTE = ("seeded search over simulated runs: holds on everything explored, no claim beyond; real library code in one process under a simulator that decides "
        "order of operations, interruptions, faults, clock and thread schedule; see DESIGN.md and the evidence file")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]}); continue
    if not os.path.exists(os.path.join(ROOT, "sim", "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"}); continue
    src = open(os.path.join(ROOT, "sim", "checks", i.lower() + ".py")).read()
    if "DRAFT = True" in src:
        na.append({"property": i, "reason": "check not built yet"}); continue
    checks.append({"property": i, "quick_cmd": f"python3 -m sim {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 -m sim {i}",
                   "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection",
                   "level": "exploration", "level_note": NOTE})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks are needed: the simulator uses Python-level seams only", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check imports the library from /repo's working tree (VERIF_REPO overrides). Replays: python3 -m sim <id> --replay <file>."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
