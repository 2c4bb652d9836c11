#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand after editing)."""
import json, os
T = "deterministic simulation with fault injection: seeded search over schedules, setting histories, disturbances and solver faults; "
C = {
 "C01": ("oracle: independent feasibility certificate of the published command (reference QP) at every tick", "A run is decided by an independently written model of the limits and a separate QP feasibility solver; the property is judged at every simulated tick. Trusts the reference model and the 1e-5 feasibility tolerance."),
 "C02": ("oracle: exact integration of the published states, setter neutrality", "Pure check over the published history of all three controllers, both precisions; needs no model beyond integration."),
 "C03": ("oracle: independently solved reference QP at every tick", "Published jerk compared with the optimum of an independently written problem; trusts that model."),
 "C04": ("oracle: independent feasibility certificate of the published command", "As C01 for ZMP, CoM, motion and tilt limits."),
 "C05": ("oracle: independently solved reference QP at every tick", "As C03 for the wheeled base with all seven objectives."),
 "C06": ("oracle: reference phase machine run in lockstep", "The published feet are compared at every tick with a small executable phase model."),
 "C07": ("oracle: reference swing trajectory from the published state at every tick", "Heights are predicted exactly; horizontally the landing point implied by the motion must explain position, velocity and acceleration together."),
 "C08": ("oracle: independent feasibility certificate of the published command and landing point", "As C01 for CoP in support polygons and steps in reach; ambiguous hulls (nearly coincident or aligned feet) are skipped and counted."),
 "C09": ("oracle: independently solved reference QP at every tick", "As C03 for the humanoid; tolerance 5e-3 because the library rounds polygon edges by design; sensitive problems are skipped and counted."),
 "C10": ("oracle: fresh twin built from the current settings in random order, run in lockstep", "Differential over whole histories; no reference model needed."),
 "C11": ("oracle: bitwise comparison of the same calls under different heap contents and foreign instances interleaved", "Interleaving with other controllers and the allocator's contents are chosen by the seed."),
 "C12": ("oracle: injected failure known to the simulator against the reported result; plan kept", "Four kinds of solver failure injected at arbitrary internal points."),
 "C13": ("liveness oracle: solves again, and optimally, once faults stop", "After the last fault every solvable tick must be solved and optimal."),
 "C14": ("oracle: AddressSanitizer, UBSan, Eigen and libstdc++ assertions, watchdog, finiteness", "The real code is built with sanitizers and driven through the same simulated histories."),
 "C15": ("oracle: transformed twin run in lockstep", "Metamorphic relation between two whole runs."),
 "C16": ("liveness oracle: convergence within a bounded number of steps, closed-loop reference controller", "Only judged where a reference controller converges from the same state."),
 "C17": ("oracle: crash and restart from published state against the uninterrupted twin", "Crash points are chosen by the seed between any two ticks (humanoid: while it stands)."),
 "C18": ("oracle: double-precision twin run in lockstep", "Ill-conditioned and bound-sensitive problems are skipped and counted."),
}
NA = {
 "C19": "pure function of its input: no schedule, time, I/O, fault or history for a simulator to decide (it is exercised indirectly by C04, C08 and C14)",
 "C20": "pure function of its input: nothing for a simulator to schedule or fail (exercised indirectly by C07)",
 "C21": "wall-clock execution time on the target robot; a simulator with virtual time cannot decide it",
 "C22": "qpOASES is third-party, not part of the repository and not present in this sandbox: the simulator replaces it by a stand-in",
}
json.dump({
 "version": 1, "setup_cmd": "python3 check.py --build",
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "evidence_file": "evidence/%s.json" % p, "technique": T + t, "level": "exploration",
             "level_note": n + " Seeded search: evidence for the explored runs, not a proof."} for p, (t, n) in C.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seam is the third-party solver header <qpOASES/QProblem.hpp>, which is absent here and is supplied by the simulator. Replay: python3 check.py --replay FILE.",
}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
