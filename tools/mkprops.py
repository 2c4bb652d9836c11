#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech], "observe_at": list(observe), "hook_needed": hook}})

TW, ZW, HW, FS = "src/trajectory_walkgen.cpp", "src/zebulon_walkgen.cpp", "src/humanoid_walkgen.cpp", "src/humanoid_feet_supervisor.cpp"
QS = "qpsolver/src/qpsolver_qpoases.hxx"
LD = "src/lineardynamic.cpp"

p("C01", "Trajectory controller: limits respected, and unsolvable only if truly so",
  "With the motion limits enabled, whenever the one-axis trajectory controller reports a feedback step as solved, the jerk it commands lies within the jerk limit and can be continued over the whole preview so that velocity, acceleration and jerk stay within the currently configured limits at every preview sample. It reports a step as unsolved exactly when no such jerk sequence exists for the current state and limits (or the numerical solver itself failed). With the limits disabled every step is reported as solved.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every preview length, sampling period, weightings, limits, references, initial or externally disturbed state, feedback period (shorter than, equal to or longer than the sampling period), order of setting changes between steps, and solver failure pattern",
  "No existing test runs the controller class: the function tests evaluate constraint matrices at a few fixed samples, and feasibility over the preview for every state and setting history is a universal claim.",
  [TW, "src/function/trajectory_motion_constraint.cpp", "src/model/no_dynamic_model.cpp", LD, QS],
  [("motion limits expressed over the preview", "src/function/trajectory_motion_constraint.cpp"), ("QP assembly and result handling", TW + " TrajectoryWalkgen::solve"), ("solver status mapped to the reported result", QS)],
  [("jerk plan", "jerk sequence over the preview", TW)], ["return value of solve()", "getState(), getJerk()"])
p("C02", "Published motion is the exact integral of the published command",
  "After every feedback step of every controller, each published axis state (position, velocity, acceleration) equals the state before the step integrated exactly at constant published jerk over exactly the given feedback period: position plus f*velocity plus f^2/2*acceleration plus f^3/6*jerk, and the derivatives of that. For the one-axis trajectory controller the jerk is the one it publishes; for the wheeled base the base and centre-of-mass axes x and y, and for the humanoid the centre-of-mass x and y, each change by one such constant jerk. Changing settings or references never changes a published state, and setting a state publishes exactly the state given.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every state, feedback period, setting-change history, for solved and for failed steps alike",
  "The existing tests only check the preview dynamics matrices for single configurations; none steps a controller, so no sequence of steps, partial feedback periods or failed steps is ever integrated.",
  ["src/model/no_dynamic_model.cpp", "src/model/lip_model.cpp", "src/model/zebulon_base_model.cpp", TW, ZW, HW, "src/tools.cpp"],
  [("constant-jerk state update", "src/model/*.cpp updateState"), ("constant jerk dynamics", "src/tools.cpp ConstantJerkDynamic")],
  [], ["getState(), getJerk()", "getBaseStateX/Y(), getComStateX/Y()", "getComStateX/Y()"])
p("C03", "Trajectory controller: the commanded jerk is the optimal one",
  "Whenever the one-axis trajectory controller reports a step as solved, its commanded jerk is the first element of the jerk sequence that minimises, over the preview, the weighted sum of the squared velocity errors, squared position errors and squared jerks with respect to the current references and weightings, among all sequences satisfying the enabled motion limits. This holds whatever was solved, changed or had failed before, and with or without warm starts.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every state, reference trajectory, weighting, limit, horizon, feedback schedule and failure history",
  "The existing tests evaluate each objective's value and gradient alone at one or two points; the assembly, weighting, normalisation, variable update and warm start of the controller are never executed.",
  [TW, "src/function/trajectory_velocity_tracking_objective.cpp", "src/function/trajectory_position_tracking_objective.cpp", "src/function/trajectory_jerk_minimization_objective.cpp"],
  [("cost assembly", TW), ("objective gradients and Hessians", "src/function/trajectory_*_objective.cpp"), ("warm start", QS)],
  [("jerk plan kept between steps", "warm-start iterate and linearisation point", TW)], ["getJerk()", "getState()"])
p("C04", "Wheeled base: balance, motion and tilt limits hold, failure only if impossible",
  "Whenever the wheeled-base controller reports a step as solved, its commanded base and centre-of-mass jerks can be continued over the preview such that every enabled limit holds at every preview sample: base speed, acceleration and jerk within their limits, the zero-moment point (computed with the current gravity, masses and heights) inside the support polygon given in the base frame, the centre of mass inside its polygon given in the base frame, and the tilt limits. It reports a step as unsolved only if no such command exists for the current state and settings, or the numerical solver itself failed. Polygons are the convex polygons the user gave, not necessarily centred or symmetric.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every combination of enabled limits, polygon, gravity vector, masses, heights, state, reference, horizon and schedule of steps, disturbances and setting changes",
  "The existing tests check each constraint's matrix at one symmetric polygon and a fixed state; asymmetric polygons, the combination of constraints and whole runs of the controller are never exercised.",
  [ZW, "src/function/zebulon_cop_constraint.cpp", "src/function/zebulon_com_constraint.cpp", "src/function/zebulon_base_motion_constraint.cpp", "src/function/zebulon_tilt_motion_constraint.cpp", "src/model/zebulon_base_model.cpp", "src/model/lip_model.cpp", LD, "src/convexpolygon.cpp"],
  [("CoP in polygon over the preview", "src/function/zebulon_cop_constraint.cpp"), ("CoM in polygon", "src/function/zebulon_com_constraint.cpp"), ("base motion limits", "src/function/zebulon_base_motion_constraint.cpp"), ("constraint assembly and normalisation", ZW)],
  [], ["return value of solve()", "getBaseStateX/Y()", "getComStateX/Y()"])
p("C05", "Wheeled base: the commanded jerks are the optimal ones",
  "Whenever the wheeled-base controller reports a step as solved, the base and centre-of-mass jerks it commands are those of the jerk sequence that minimises the weighted sum of its objectives (base velocity and position tracking, zero-moment-point and centre-of-mass centering, jerk, tilt and tilt-velocity minimisation) for the current settings, state and references, among all sequences satisfying the enabled limits. References given in the world frame mean what the same positions and accelerations mean physically, for every gravity vector.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every weighting, reference form, gravity, mass, height, contact point, state, horizon and history",
  "The existing tests evaluate objectives in isolation, mostly with default gravity and masses; no test runs the controller, mixes objectives, or changes settings after construction.",
  [ZW, "src/function/zebulon_base_velocity_tracking_objective.cpp", "src/function/zebulon_base_position_tracking_objective.cpp", "src/function/zebulon_cop_centering_objective.cpp", "src/function/zebulon_com_centering_objective.cpp", "src/function/zebulon_jerk_minimization_objective.cpp", "src/function/zebulon_tilt_minimization_objective.cpp", "src/function/zebulon_tilt_velocity_minimization_objective.cpp", LD],
  [("objective assembly and normalisation", ZW), ("gradients and Hessians", "src/function/zebulon_*_objective.cpp"), ("ZMP and tilt dynamics", LD)],
  [], ["getBaseStateX/Y()", "getComStateX/Y()"])
p("C06", "Humanoid: gait sequencing, timing and bounded stop",
  "The humanoid stands in double support until told to move; then single supports alternate strictly, the left foot supporting first, each lasting one step period, and once told to stop it finishes the step under way (and the next if that was already committed), returns to double support and stays there until told to move again. A foot published while it supports, both feet in double support, and both feet during the first sampling period of each single support are on the ground and do not move at all; the other foot swings for the rest of the single support. This holds with a bounded start and stop delay for every timing of the commands relative to the gait, every split of sampling periods into feedback periods, and whether or not the solver fails.",
  ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
  "for every schedule of feedback periods within a sampling period, every timing of start and stop commands and of setting changes, every step period, horizon and double-support length, and every solver failure pattern",
  "The feet supervisor tests run one or two scripted walks with a fixed feedback period; start/stop timings, partial feedback periods and failures form an unbounded schedule space.",
  [FS, HW, "src/model/humanoid_foot_model.cpp"],
  [("phase timeline update and FSM", FS + " updateTimeline"), ("foot state interpolation", FS + " updateFeetStates"), ("move command", HW)],
  [("timeline of sampling instants and phases", "phase type, duration and number of iterations of each previewed phase", FS)], ["getLeftFootStateX/Y/Z()", "getRightFootStateX/Y/Z()"])
p("C07", "Humanoid: swing foot leaves, rises, moves and lands smoothly in time",
  "In every single support the swing foot moves from where it stands to the landing position commanded, and at every feedback step it follows, in x, y and height, the smooth polynomial from its published state to its target state at rest (first the configured maximum height at half of the swing time and then the ground; horizontally the landing position at the end of the swing). It therefore reaches exactly the configured maximum height half way when a feedback step ends there, and it touches down exactly at the end of the single support, on the ground, with zero velocity and acceleration, at the last commanded landing position. This holds however sampling periods are split into feedback periods, however the landing position changes during the swing, and whether or not the solver fails.",
  ["schedules", "inputs", "histories", "configurations", "fault_sequences"],
  "for every feedback schedule (including periods that do not divide the sampling period), swing height, step period, change of landing target during the swing and solver failure pattern",
  "The tests check the interpolation polynomials at sampled points and one scripted walk with a fixed feedback period; the swing under jittered feedback and moving targets is not sampled.",
  [FS, "src/interpolator.cpp", "src/model/humanoid_foot_model.cpp", HW],
  [("swing polynomial re-planning", FS + " updateFeetStates"), ("polynomial interpolation", "src/interpolator.cpp"), ("foot state", "src/model/humanoid_foot_model.cpp")],
  [], ["getLeftFootStateX/Y/Z()", "getRightFootStateX/Y/Z()"])
p("C08", "Humanoid: pressure point in the support polygon, steps within reach",
  "Whenever the humanoid controller reports a step as solved, the centre-of-mass jerk and, while a foot swings, the landing position it commands can be continued over the preview such that at every preview sample the centre of pressure lies inside the sole polygon of the foot (or the hull of both soles in double support) then supporting, and each previewed foot placement lies inside the reachable region configured relative to the foot it steps from. It reports a step as unsolved only when that is impossible or the numerical solver itself failed.",
  ["inputs", "schedules", "histories", "configurations", "fault_sequences"],
  "for every pair of sole and reachability polygons, foot state, phase of the gait, horizon, centre-of-mass state, disturbance and schedule",
  "The existing tests check constraint matrices for a few fixed gaits and rectangular polygons; the controller that combines them is never run.",
  [HW, "src/function/humanoid_cop_constraint.cpp", "src/function/humanoid_foot_constraint.cpp", FS, "src/convexpolygon.cpp", "src/model/lip_model.cpp"],
  [("CoP constraint over the preview", "src/function/humanoid_cop_constraint.cpp"), ("step reachability constraint", "src/function/humanoid_foot_constraint.cpp"), ("constraint selection and CoP-to-jerk conversion", HW), ("convex hull of both soles", "src/convexpolygon.cpp")],
  [], ["getComStateX/Y()", "landing position of the swing foot"])
p("C09", "Humanoid: commanded jerk and foot placement are optimal",
  "Whenever the humanoid controller reports a step as solved, the centre-of-mass jerk and foot landing position it commands are those that minimise the weighted sum of its objectives (centre-of-mass velocity tracking, centre-of-pressure centering in the supporting foot, jerk minimisation) over the preview for the current references, weightings and gait, among all commands satisfying the enabled limits, regardless of what was solved or changed before.",
  ["inputs", "schedules", "histories", "configurations", "fault_sequences"],
  "for every weighting, reference, gait phase, horizon, centre-of-mass height, polygon, state, feedback schedule and history",
  "The existing tests evaluate objectives alone at fixed gaits; the change of variables, warm start and shifting preview of the controller are never executed.",
  [HW, "src/function/humanoid_cop_centering_objective.cpp", "src/function/humanoid_lip_com_velocity_tracking_objective.cpp", "src/function/humanoid_lip_com_jerk_minimization_objective.cpp", FS, "src/model/lip_model.cpp", LD],
  [("cost assembly in the (CoP in local frame, steps) variables", HW), ("objectives", "src/function/humanoid_*_objective.cpp")],
  [("plan kept between steps", "previous CoP and step variables", HW)], ["getComStateX/Y()", "landing position of the swing foot"])
p("C10", "Behaviour depends on the current settings and state, not on how they were set",
  "Two controllers of the same kind that have the same current settings and the same published state behave identically from then on, whatever setting values were active before, in whatever order the setters were called, and whatever was solved in between; only for the humanoid, the phase of its gait must also be the same.",
  ["histories", "configurations", "inputs"],
  "for every pair of setting histories that end in the same settings, at any point of a run and with any continuation",
  "Tests set each parameter once, in one order, on fresh objects; order and stale-cache effects need arbitrary histories compared against a fresh twin.",
  [TW, ZW, HW, FS, LD, "src/model/lip_model.cpp", "src/model/no_dynamic_model.cpp", "src/model/zebulon_base_model.cpp"],
  [("setters recompute cached constant parts", "set*() and computeConstantPart() of every controller, model and function")],
  [("precomputed matrices", "functions and models cache matrices depending on settings", "src/function/*.cpp, src/model/*.cpp")], ["all published states and results"])
p("C11", "Determinism and isolation of controller instances",
  "The same sequence of calls on a newly created controller always yields bit-for-bit the same published states and results: nothing depends on uninitialised or previously used memory, on addresses, or on other controller instances alive or used in between in the same process.",
  ["schedules", "histories", "inputs"],
  "for every call sequence, every interleaving with the calls of another instance of any kind and precision, and every content of recycled memory",
  "A test executes one process layout; uninitialised members and shared mutable state show only for particular memory contents or interleavings.",
  [TW, ZW, HW, FS, QS, "src/qpsolverfactory.cpp", "src/model/zebulon_base_model.cpp", "src/interpolator.cpp", "src/tools.cpp"],
  [("initialisation of every member", "constructors"), ("no shared mutable state", "whole library")], [], ["all published states and results"])
p("C12", "Solver failures are reported, never disguised",
  "Whenever the numerical solver fails in a step (iteration limit, infeasible, internal failure, or a failure without any result), the controller reports that step as unsolved, with or without diagnostic output, and when the solver delivers no result the controller carries on with the plan it had (or with zero jerk if none is usable) rather than with garbage. Published states stay finite and the controller remains usable; a step in which the solver did not fail is not reported as failed.",
  ["fault_sequences", "histories", "inputs"],
  "for every sequence and kind of solver failure at any step of any run",
  "A real solver fails only on particular numerical inputs, so no test reaches the failure paths; they need injected faults at arbitrary steps.",
  [QS, TW, ZW, HW, "src/qpsolverfactory.cpp"],
  [("status handling", QS + " solve"), ("use of the solution", "solve() of each controller")], [("warm-start state", "whether the last solve initialised the solver", QS)], ["return value of solve()", "published states"])
p("C13", "Recovery once solver failures stop",
  "Once the numerical solver stops failing, every controller again solves its feasible problems from the next step on, for as long as they stay feasible, without being recreated; its commands are then the optimal ones again.",
  ["fault_sequences", "histories", "inputs"],
  "for every failure sequence followed by fault-free operation",
  "Needs injected failures followed by long fault-free operation; tests never see a failing solver.",
  [QS, TW, ZW, HW],
  [("cold start after a failure", QS), ("plan reset or kept", "solve() of each controller")], [("warm-start state", "whether the last solve initialised the solver", QS)], ["return value of solve()", "published commands"])
p("C14", "No legal call sequence crashes or corrupts memory",
  "Any sequence of documented calls with valid arguments, in any order, on any controller neither crashes, aborts, hangs, throws, reads or writes outside its memory, reads memory it released, nor produces non-finite results, including when settings that change problem sizes change between steps, and when the numerical solver fails.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "for every order and value of setter calls and steps that respects the documented ranges, and every failure pattern",
  "Memory errors depend on sequences of size changes and on failure paths that tests do not take, and no test runs the controllers under a sanitizer.",
  [TW, ZW, HW, FS, "src/convexpolygon.cpp", "src/qpsolverfactory.cpp", QS, "src/interpolator.cpp"],
  [("resizing on every setting change", "setters and computeConstantPart()"), ("index bounds of timeline and QP tables", FS + ", " + HW)], [], ["process behaviour under AddressSanitizer/UBSan", "published states"])
p("C15", "Translation, mirror and axis symmetry of the commanded motion",
  "Moving the whole scene (states, position references, feet) by a constant horizontal offset moves the published motion by that offset and changes nothing else. Mirroring every position, direction, polygon and gravity component of the scene about the x or the y axis mirrors the published motion, and exchanging the x and y axes of the whole scene exchanges the published x and y motions, for all three controllers (for the one-axis controller, reversing the sign of the axis). Reported results are the same in both runs.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every run: configuration, history, schedule and failures, and every offset",
  "A relation between two whole runs of a controller; tests execute neither.",
  [TW, ZW, HW, FS, "src/function", LD, "src/convexpolygon.cpp"],
  [("equal treatment of both axes and of left and right", "all functions, models and the supervisor")], [], ["published states and results"])
p("C16", "Tracking: the motion converges to a reachable constant reference",
  "With constant reachable references that dominate the cost, and after any disturbance or solver-failure burst has ended, the controlled motion converges within a bounded number of steps: the trajectory and wheeled-base controllers reach and keep the velocity or position reference, the humanoid told to stop comes to rest over its feet, and the walking humanoid's mean speed over a gait cycle settles at the speed reference.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every initial state from which the limits allow it, every disturbance and failure burst that ends, and every such reference",
  "Liveness of a closed loop over hundreds of steps; no test closes the loop.",
  [TW, ZW, HW, FS],
  [("receding-horizon loop", "solve() of each controller")], [], ["published states over time"])
p("C17", "Restart from the last published state continues identically",
  "If a controller is lost between two steps and a new one of the same kind is created, given the same settings and the states the old one last published, then it continues exactly as the old one would have: same commands, same states, same reported results. For the humanoid this holds while it stands in double support with no step pending.",
  ["crash_points", "histories", "configurations", "inputs"],
  "for every crash point between two steps of every run",
  "Needs every possible crash point of arbitrary runs, compared with an uninterrupted twin.",
  [TW, ZW, HW, FS, QS],
  [("published state is the complete durable state", "get*/set*State of each controller")], [("warm-start plan", "must only influence speed, not the result", QS)], ["published states and results after restart"])
p("C18", "Single and double precision versions agree",
  "The single-precision version of each controller, given the same settings, states and references as the double-precision one, commands the same motion up to single-precision accuracy and reports the same result, except where the problem is borderline or too ill-conditioned for single precision.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for every run that is numerically well conditioned",
  "Both instantiations share the sources but not the solver instantiation, tolerances and constants; tests compare them with constants one by one, and never on a controller.",
  [TW, ZW, HW, QS, "src/qpsolverfactory.cpp", "mpc-walkgen/constant.h", "qpsolver/src/qpsolver_qpoases_float.cpp", "qpsolver/src/qpsolver_qpoases_double.cpp"],
  [("explicit instantiations", "every src/*.cpp"), ("float and double solver adapters", QS)], [], ["published states and results"])
p("C19", "Convex hull extraction returns the hull of its points",
  "For every finite set of planar points, the vertices returned are exactly the extreme points of the set's convex hull, in order.",
  ["inputs"], "for every point set", "Tests use a few fixed point sets.",
  ["src/convexpolygon.cpp"], [("gift wrapping", "src/convexpolygon.cpp extractVertices")], [], ["returned vertices"])
p("C20", "Interpolation polynomials meet their boundary conditions",
  "For every pair of boundary states and duration, the interpolating polynomial attains the given values and derivatives at both ends.",
  ["inputs"], "for all boundary conditions and durations", "Tests use a few fixed values.",
  ["src/interpolator.cpp"], [("closed-form factors", "src/interpolator.cpp")], [], ["returned polynomials"])
p("C21", "Each control step finishes within its real-time budget",
  "Every feedback step returns within the feedback period on the target robot.",
  ["schedules", "inputs"], "for every problem instance", "Wall-clock worst case cannot be sampled.",
  [TW, ZW, HW, QS], [("solver time and iteration limits", QS)], [], ["duration of solve()"])
p("C22", "The numerical QP solver returns true optima",
  "Whenever the third-party QP solver reports success, its solution is feasible and optimal.",
  ["inputs"], "for every convex QP", "Third-party code not part of this repository.",
  [QS], [("qpOASES::QProblem", "third-party, not in this tree")], [], ["primal solution"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
