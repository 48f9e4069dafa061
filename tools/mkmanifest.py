#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and bin/plan.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN  # noqa: E402

TECH = "TLA+ specification checked with TLC; behaviours drawn from it by TLC are run on the real code and the recorded traces are validated against it with TLC (exact rational arithmetic)"
NOTE = {
    "C01": "Every recorded answer is compared, in exact arithmetic, with the boundary values of the problem; sampled over calls drawn from the scenario specification.",
    "C02": "Every sample of every returned motion is visited by the trace specification, against the H-polytope of the phases in force; the polytopes themselves come from hpp-centroidal-dynamics and are trusted.",
    "C03": "Every sample of every returned motion is visited by the trace specification, against the kinematic rows of the phases in force.",
    "C04": "Every sample of every returned motion is visited by the trace specification.",
    "C05": "All instants: the wrench, position and acceleration curves are decided by exact subdivision of their Bezier control points.",
    "C06": "A reported failure is refuted by a point that TLC verifies to satisfy every row of the specified problem with a margin; the search for the point is not trusted.",
    "C07": "Optimality is refuted by a cheaper point that TLC verifies to satisfy every row of the specified problem; the search for the point is not trusted. The force representation with quadprog is excepted (named deviation: it also regularises the forces).",
    "C08": "Every part of every recorded result is recomputed in exact arithmetic from the specification.",
    "C09": "Solutions are accepted by verifying the KKT conditions from the multipliers reported, failures are refuted by verified feasible points.",
    "C10": "Feasibility, value and optimality of every answer are verified; competitors come from an untrusted search and are verified.",
    "C11": "As C02 and C05 for the zero-step problem.",
    "C12": "As C06 and C07 for the zero-step problem.",
    "C13": "Boundary values, limits, objective and optimality of every recorded answer are recomputed from the specification.",
    "C14": "Every expression recorded is compared, in exact arithmetic, with the Bezier curve of the specification.",
    "C15": "Every sample of every recorded discretisation is read by an automaton of the schedule.",
    "C16": "All combinations of the boundary condition flags with every function that dispatches on them, and all pairs of sizes of expressions, are enumerated; wrong planner arguments are sampled.",
    "C17": "Repeated calls and histories in one process are compared bit for bit with a fresh process.",
    "C18": "Polynomial identity: the control points of the recorded wrench curve are compared with those of the specified one, for all times at once.",
    "C19": "Histories drawn from the specification of the interface are performed by an embedded interpreter on the module built from the repository; every value seen is compared, every answer is judged by the specifications of the planner, the zero-step and the end-effector problems. The Python class of contact geometries comes from another package that cannot be loaded here, a stand-in is used.",
    "C20": "Recorded results are compared, in exact arithmetic, with the definitions.",
    "C21": "Every begin and end recorded from threads that start calls together is a step of the specification of concurrent calls; the interleavings inside the calls are those the machine produced, the design specification explores them all on a small scale. Making contact geometries is left out (it is another library's, and not re-entrant).",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in PLAN:
        checks.append({"property": p, "quick_cmd": f"bin/check {p} quick", "thorough_cmd": f"bin/check {p} thorough",
                       "technique": PLAN[p].get("technique", TECH), "level": PLAN[p].get("level", "model_checking"),
                       "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": "not built yet"})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the public interface already shows everything that the specification talks about."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
