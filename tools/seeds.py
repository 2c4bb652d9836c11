SEEDS = {}
def seed(name, **k): SEEDS[name] = k
R = "src/"; F = "src/function/"; M = "src/model/"

seed("C01-overspeed-relaxed", property="C01",
 needs="a state whose speed is already beyond the configured limit while the limit can be met from the first preview sample on",
 breaks="the trajectory controller's speed limit is silently raised to the current speed, so steps reported as solved break the configured limit",
 edits=[(F+"trajectory_motion_constraint.cpp",
"""  tmp_.fill(velLimit);
  tmp2_.fill(accLimit);
""",
"""  // When the state is already beyond the limit, do not ask for an impossible jump
  const Scalar speed = model_.getState()(1);
  tmp_.fill(velLimit > 0 ? std::max(velLimit, speed) : std::min(velLimit, speed));
  tmp2_.fill(accLimit);
"""), (F+"trajectory_motion_constraint.cpp", '#include "../macro.h"\n', '#include <algorithm>\n#include "../macro.h"\n')],
 demo=r'''
int main() {
  const int N = 8; const double T = 0.1;
  TrajectoryWalkgen<double> w; w.setNbSamples(N); w.setSamplingPeriod(T);
  trajWeights(w, 1, 0, 1e-4); trajLimits(w, true, 0.5, 10, 100);
  w.setVelRefInWorldFrame(V::Constant(N, 0.9)); w.setPosRefInWorldFrame(V::Zero(N));
  w.setState(v3(0, 0.8, 0));
  bool ok = w.solve(T);
  EXPECT(ok, "a step that is feasible was reported unsolved");
  EXPECT(w.getState()(1) <= 0.5 + 1e-6, "speed %g beyond the limit 0.5 in a solved step", w.getState()(1));
  return 0;
}''')

seed("C03-stale-hessian", property="C03",
 needs="a change of weightings (same horizon, same limits) between two steps of a controller which has already solved a step",
 breaks="the warm-started solver keeps the old cost matrix: after a weighting change the commanded jerk is no longer the optimal one",
 edits=[(R+"trajectory_walkgen.cpp",
"""  qpoasesSolver_.reset(makeQPSolver<Scalar>(N, M));
""",
"""  // The solver only depends on the dimensions of the problem
  if (qpMatrix_.Q.rows() != N || qpMatrix_.A.rows() != M || qpMatrix_.A.cols() != N)
  {
    qpoasesSolver_.reset(makeQPSolver<Scalar>(N, M));
  }
""")],
 demo=r'''
static double next(TrajectoryWalkgen<double>& w) { w.solve(0.1); return w.getJerk(); }
static void setup(TrajectoryWalkgen<double>& w) {
  w.setNbSamples(6); w.setSamplingPeriod(0.1);
  w.setVelRefInWorldFrame(V::Constant(6, 0.3)); w.setPosRefInWorldFrame(V::Constant(6, 1));
}
int main() {
  TrajectoryWalkgen<double> a, b; setup(a); setup(b);
  trajWeights(a, 1, 0, 1e-3); a.setState(v3(0, 0, 0)); next(a); next(a);
  V s = a.getState();
  trajWeights(a, 0.1, 2, 1e-2); trajWeights(b, 0.1, 2, 1e-2); b.setState(s);
  double ja = next(a), jb = next(b);
  EXPECT(std::abs(ja - jb) < 1e-5 * (1 + std::abs(jb)), "jerk %g, optimal one is %g", ja, jb);
  return 0;
}''')

seed("C05-gravity-norm", property="C05",
 needs="a new gravity vector of the same magnitude in another direction (the usual case of a slope)",
 breaks="the zero-moment-point dynamics of the body are not updated when only the direction of gravity changes, so the commanded jerks are not the optimal ones",
 edits=[(M+"lip_model.cpp",
"""  gravity_ = gravity;

  if (autoCompute_)
  {
""",
"""  const bool changed = std::abs(gravity.norm() - gravity_.norm()) > Constant<Scalar>::EPSILON;
  gravity_ = gravity;

  // The dynamics are costly to compute: nothing to do when the same gravity is set again
  if (autoCompute_ && changed)
  {
""")],
 demo=r'''
// the robot stands still on a slope: with the right dynamics it keeps its centre of pressure at the reference
static V run(bool direct) {
  Zeb z(5, 0.1); z.weights(1, 0, 10, 0.01, 1e-4);
  double s = std::sin(0.1), c = std::cos(0.1);
  if (direct) z.w.setGravity(Eigen::Vector3d(0, 0, 5));
  z.w.setGravity(Eigen::Vector3d(9.81 * s, 0, 9.81 * c));
  z.w.setBaseStateX(v3(0, 0, 0)); z.w.setComStateX(v3(0.02, 0, 0));
  for (int i = 0; i < 5; ++i) z.w.solve(0.1);
  V o(6); o << z.w.getComStateX(), z.w.getBaseStateX(); return o;
}
int main() {
  V a = run(false), b = run(true);
  EXPECT((a - b).norm() < 1e-6, "the motion on a slope depends on how the gravity was set (%g)", (a - b).norm());
  return 0;
}''')

seed("C04-polygon-same-size", property="C04",
 needs="a new support polygon with as many vertices as the one before, set after the first one",
 breaks="the zero-moment-point limit keeps using the previous support polygon",
 edits=[(F+"zebulon_cop_constraint.cpp",
"""  computeconstraintMatrices();

  const LinearDynamic""",
"""  if (b_.size() != getNbConstraints() || A_.cols() != 2*lipModel_.getNbSamples())
  {
    computeconstraintMatrices();
  }

  const LinearDynamic""")],
 demo=r'''
int main() {
  Zeb z(5, 0.1); z.weights(1, 0, 0, 0, 1e-4); z.limits(true, false, true);
  z.w.setBaseCopConvexPolygon(rect(-.2, .2, -.2, .2));
  z.w.solve(0.1);
  z.w.setBaseCopConvexPolygon(rect(-.03, .03, -.03, .03));
  z.vel(0.8, 0.2);
  for (int i = 0; i < 12; ++i) {
    if (!z.w.solve(0.1)) continue;
    const V &c = z.w.getComStateX(), &b = z.w.getBaseStateX();
    double zmp = ((c(0) - 0.8 * c(2) / 9.81) + (b(0) - 0.15 * b(2) / 9.81)) / 2 - b(0);
    EXPECT(std::abs(zmp) <= 0.03 + 1e-5, "zero-moment point %g outside the support polygon", zmp);
  }
  return 0;
}''')

seed("C02-no-update-on-failure", property="C02",
 needs="a step in which the QP solver fails while the robot moves",
 breaks="after a solver failure the wheeled base's published state is not integrated over the feedback period: it freezes for one step",
 edits=[(R+"zebulon_walkgen.cpp",
"""    std::cerr << "bR: " << baseModel_.getStateRoll() << std::endl;
  }
""",
"""    std::cerr << "bR: " << baseModel_.getStateRoll() << std::endl;
    return false;
  }
""")],
 demo=r'''
int main() {
  Zeb z(4, 0.1); z.vel(0.5, 0);
  for (int i = 0; i < 5; ++i) z.w.solve(0.1);
  V b = z.w.getBaseStateX();
  simfault::seam().kind = simfault::NO_ITERATE; simfault::seam().param = 0;
  std::freopen("/dev/null", "w", stderr);
  bool ok = z.w.solve(0.1);
  EXPECT(!ok, "failure not reported");
  V c = z.w.getBaseStateX(); double j = (c(2) - b(2)) / 0.1;
  double p = b(0) + b(1) * .1 + b(2) * .005 + j * .001 / 6, v = b(1) + b(2) * .1 + j * .005;
  EXPECT(std::abs(c(0) - p) + std::abs(c(1) - v) < 1e-9, "published base state is not the integral of a constant jerk: %g %g", c(0) - p, c(1) - v);
  return 0;
}''')

seed("C06-phase-duration-kept", property="C06",
 needs="a start command while standing with an initial double support of another length than the step period and a preview which already holds later phases",
 breaks="the phase which was already previewed keeps the duration of a double support when it becomes a single support: the first step does not last the step period",
 edits=[(R+"humanoid_feet_supervisor.cpp",
"""          timeline_[phaseIndex + 1].phaseType_ = phase_.phaseType_;
          timeline_[phaseIndex + 1].duration_ = phase_.duration_;
""",
"""          timeline_[phaseIndex + 1].phaseType_ = phase_.phaseType_;
""")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 4, 2);
  for (int i = 0; i < 6; ++i) h.w.solve(0.1);
  h.w.setMove(true); h.vel(0.1, 0);
  // the swing feet: right, left, right...; each single support lasts 4 sampling periods
  int first = -1, second = -1;
  for (int i = 0; i < 40; ++i) {
    h.w.solve(0.1);
    if (first < 0 && h.w.getRightFootStateZ()(0) > 1e-4) first = i;
    if (second < 0 && h.w.getLeftFootStateZ()(0) > 1e-4) second = i;
  }
  EXPECT(first >= 0 && first <= 4 && second - first == 4, "the right foot rises at period %d and the left foot at period %d, instead of one step period later", first, second);
  return 0;
}''')

seed("C07-other-foot-height", property="C07",
 needs="different maximum heights for the two feet",
 breaks="both feet swing to the right foot's configured maximum height",
 edits=[(R+"humanoid_feet_supervisor.cpp", "Vector3(flyingFoot->getMaxHeight(), 0, 0)", "Vector3(rightFootModel_.getMaxHeight(), 0, 0)")],
 demo=r'''
int main() {
  Hum h(10, 0.1, 5, 3); h.w.setLeftFootMaxHeight(0.03); h.w.setRightFootMaxHeight(0.07); h.vel(0.05, 0);
  h.w.setMove(true);
  double l = 0, r = 0;
  for (int i = 0; i < 40; ++i) { h.w.solve(0.1); l = std::max(l, h.w.getLeftFootStateZ()(0)); r = std::max(r, h.w.getRightFootStateZ()(0)); }
  EXPECT(std::abs(l - 0.03) < 1e-6 && std::abs(r - 0.07) < 1e-6, "maximum heights reached: left %g right %g", l, r);
  return 0;
}''')

seed("C08-hull-per-phase", property="C08",
 needs="feet which are moved (by the user, or by a landing position which is replanned) while the phase goes on",
 breaks="the double-support polygon is computed once per phase: the centre of pressure is kept in a polygon of feet which are elsewhere",
 edits=[("mpc-walkgen/humanoid_feet_supervisor.h", "      mutable vectorOfVector2 copDSpoints_;\n", "      mutable vectorOfVector2 copDSpoints_;\n      mutable bool copDSUpToDate_ = false;\n"),
 (R+"humanoid_feet_supervisor.cpp", "      computeDSCopConvexPolygon();\n      return", "      if(!copDSUpToDate_)\n      {\n        computeDSCopConvexPolygon();\n        copDSUpToDate_ = true;\n      }\n      return"),
 (R+"humanoid_feet_supervisor.cpp", "    leftFootModel_.setCopConvexPolygon(convexPolygon);\n", "    leftFootModel_.setCopConvexPolygon(convexPolygon);\n    copDSUpToDate_ = false;\n"),
 (R+"humanoid_feet_supervisor.cpp", "    rightFootModel_.setCopConvexPolygon(convexPolygon);\n", "    rightFootModel_.setCopConvexPolygon(convexPolygon);\n    copDSUpToDate_ = false;\n"),
 (R+"humanoid_feet_supervisor.cpp", "    move_ = move;\n", "    move_ = move;\n    copDSUpToDate_ = false;\n"),
 (R+"humanoid_feet_supervisor.cpp", "      timeline_.pop_front();\n", "      timeline_.pop_front();\n      copDSUpToDate_ = false;\n")],
 demo=r'''
int main() {
  Hum h(6, 0.1, 4, 20);
  h.w.setLeftFootStateY(v3(.25, 0, 0)); h.w.setRightFootStateY(v3(-.25, 0, 0));
  for (int i = 0; i < 3; ++i) h.w.solve(0.1);
  h.w.setLeftFootStateY(v3(.06, 0, 0)); h.w.setRightFootStateY(v3(-.06, 0, 0));
  h.w.setComStateY(v3(0.02, 0.3, 0));
  bool ok = h.w.solve(0.1);
  const V& c = h.w.getComStateY(); double cop = c(0) - 0.8 / 9.81 * c(2);
  if (ok) EXPECT(std::abs(cop) <= 0.1 + 1e-4, "centre of pressure %g outside the feet", cop);
  return 0;
}''')

seed("C09-feedback-count", property="C09",
 needs="two feedback periods of different length which fit the same number of times in a sampling period (for instance a whole period after a sampling period split unevenly)",
 breaks="the previewed dynamics are those of the previous feedback period: the humanoid's command is not the optimal one",
 edits=[(M+"lip_model.cpp",
"""  feedbackPeriod_ = feedbackPeriod;

  if (autoCompute_)
""",
"""  feedbackPeriod_ = feedbackPeriod;

  // The dynamics only have to be computed again if the samples are split otherwise
  const int nbFeedbacks = static_cast<int>(
      (samplingPeriod_ + Constant<Scalar>::EPSILON)/feedbackPeriod_);
  if (autoCompute_ && nbFeedbacks != nbFeedbackInOneSample_)
""")],
 demo=r'''
// the same instant reached with and without an uneven split before must give the same command
int main() {
  Hum a(6, 0.12, 4, 10), b(6, 0.12, 4, 10);
  a.w.solve(0.04); a.w.solve(0.08);
  for (int i = 0; i < 3; ++i) b.w.solve(0.04);
  V s = v3(0.01, 0.1, 0.05);
  a.w.setComStateX(s); b.w.setComStateX(s); a.w.setComStateY(s); b.w.setComStateY(s);
  a.w.solve(0.12); b.w.solve(0.12);
  double d = (a.w.getComStateX() - b.w.getComStateX()).norm() + (a.w.getComStateY() - b.w.getComStateY()).norm();
  EXPECT(d < 1e-6, "commands differ by %g", d);
  return 0;
}''')

seed("C10-height-hysteresis", property="C10",
 needs="a centre-of-mass height which changes by several small increments",
 breaks="height changes under five millimetres are not taken into account, however many follow each other: the behaviour depends on how the height was set",
 edits=[(M+"lip_model.cpp",
"""  comHeight_ = comHeight;
  stateZ_(0) = comHeight;

  if (autoCompute_)
""",
"""  // Measured heights are noisy: do not compute the dynamics again for a small change
  const bool significant = std::abs(comHeight - comHeight_) > static_cast<Scalar>(0.005);
  comHeight_ = comHeight;
  stateZ_(0) = comHeight;

  if (autoCompute_ && significant)
""")],
 demo=r'''
int main() {
  Zeb a(5, 0.1), b(5, 0.1);
  for (int i = 0; i <= 50; ++i) a.w.setComBodyHeight(0.8 + 0.004 * i);
  b.w.setComBodyHeight(1.0);
  a.w.setComStateX(v3(0.03, 0.1, 0)); b.w.setComStateX(v3(0.03, 0.1, 0));
  for (int i = 0; i < 5; ++i) { a.w.solve(0.1); b.w.solve(0.1); }
  double d = (a.w.getComStateX() - b.w.getComStateX()).norm();
  EXPECT(d < 1e-6, "same settings, other motion (%g)", d);
  return 0;
}''')

seed("C11-hull-shared", property="C11",
 needs="two humanoid controllers in one process, with different soles, in double support with the feet at the same relative place",
 breaks="the hull of the soles is remembered in a place shared by all controllers and looked up by the position of the feet: a controller uses the soles of another one",
 edits=[(R+"humanoid_feet_supervisor.cpp",
"""    copDSConvexPolygon_ = ConvexPolygon<Scalar>(copDSpoints_);
""",
"""    // The extraction of the hull is expensive: keep the last one
    static Vector2 lastLeft, lastRight;
    static vectorOfVector2 lastPoints;
    static ConvexPolygon<Scalar> lastHull;
    if(lastPoints.size() != copDSpoints_.size() || lastLeft != leftFootPos || lastRight != rightFootPos
       || lastPoints.front() != copDSpoints_.front())
    {
      lastHull = ConvexPolygon<Scalar>(copDSpoints_);
      lastPoints = copDSpoints_;
      lastLeft = leftFootPos;
      lastRight = rightFootPos;
    }
    copDSConvexPolygon_ = lastHull;
""")],
 demo=r"""
static void soles(Hum& h, double y0, double y1) {
  // same first corner, other width
  h.w.setLeftFootCopConvexPolygon(rect(-.08, .08, -.04, y1)); h.w.setRightFootCopConvexPolygon(rect(-.08, .08, y0, .04));
  h.w.setComStateY(v3(0.0, 0.5, 0));
}
static double run(bool other) {
  Hum a(8, 0.1, 4, 8), b(8, 0.1, 4, 8);
  soles(a, -.04, .04); soles(b, -.02, .01); a.vel(0, 0.1);
  for (int i = 0; i < 5; ++i) { if (other) b.w.solve(0.1); a.w.solve(0.1); }
  return a.w.getComStateY()(0);
}
int main() {
  double with = run(true);   // b steps first
  { Hum c(8, 0.1, 4, 8); c.w.setLeftFootCopConvexPolygon(rect(-.05, .05, -.05, .05)); c.w.setRightFootCopConvexPolygon(rect(-.05, .05, -.05, .05)); c.w.solve(0.1); }
  double alone = run(false);
  EXPECT(alone == with, "motion depends on another controller: %.12g alone, %.12g", alone, with);
  return 0;
}""")

seed("C12-budget-is-success", property="C12",
 needs="a step in which the QP solver runs out of iterations",
 breaks="a step stopped by the iteration limit is reported as solved",
 edits=[("qpsolver/src/qpsolver_qpoases.hxx",
"""    return false;
  }

  return true;""",
"""    // the last iterate is still usable when the solver merely ran out of iterations
    return ret == ::qpOASES::RET_MAX_NWSR_REACHED;
  }

  return true;""")],
 demo=r'''
int main() {
  TrajectoryWalkgen<double> w; w.setNbSamples(8); w.setSamplingPeriod(0.1);
  trajWeights(w, 1, 0, 1e-5); trajLimits(w, true, 0.5, 1, 3);
  w.setVelRefInWorldFrame(V::Constant(8, 2)); w.setPosRefInWorldFrame(V::Zero(8));
  std::freopen("/dev/null", "w", stderr);
  int n = 0;
  for (int i = 0; i < 10; ++i) {
    simfault::Seam& s = simfault::seam(); s.beginTick(simfault::ITER_LIMIT, 1);
    bool ok = w.solve(0.1);
    if (s.failures) { ++n; EXPECT(!ok, "solver stopped at its iteration limit, step reported as solved"); }
  }
  EXPECT(n > 0, "no failure happened");
  return 0;
}''')

seed("C13-shrinking-budget", property="C13",
 needs="a burst of at least four solver failures, then a problem which needs more than one iteration",
 breaks="the iteration budget shrinks with each failed step and only grows again after a solved one: after a burst of failures the controller never solves again",
 edits=[("mpc-walkgen/trajectory_walkgen.h", "    VectorX dX_;\n", "    int nbIterations_ = 10000;\n    VectorX dX_;\n"),
 (R+"trajectory_walkgen.cpp",
"""  const int maxNbIterations = 10000;
""",
"""  // A failing problem must not take all the time of several feedback periods in a row
  const int maxNbIterations = nbIterations_;
"""),
 (R+"trajectory_walkgen.cpp",
"""  if (!solutionFound)
  {
""",
"""  nbIterations_ = solutionFound ? 10000 : std::max(1, nbIterations_/10);

  if (!solutionFound)
  {
"""), (R+"trajectory_walkgen.cpp", "#include <cmath>\n", "#include <algorithm>\n#include <cmath>\n")],
 demo=r'''
int main() {
  TrajectoryWalkgen<double> w; w.setNbSamples(8); w.setSamplingPeriod(0.1);
  trajWeights(w, 1, 0, 1e-5); trajLimits(w, true, 0.5, 1, 3);
  w.setVelRefInWorldFrame(V::Constant(8, 2)); w.setPosRefInWorldFrame(V::Zero(8));
  std::freopen("/dev/null", "w", stderr);
  for (int i = 0; i < 6; ++i) { simfault::seam().beginTick(simfault::NO_ITERATE, 0); w.solve(0.1); w.setState(v3(0, 0, 0)); }
  for (int i = 0; i < 6; ++i) {
    simfault::seam().beginTick(0, 0); w.setState(v3(0, 0, 0));
    EXPECT(w.solve(0.1), "feasible step %d after the failures stopped is reported unsolved", i);
  }
  return 0;
}''')

seed("C14-sized-by-one-foot", property="C14",
 needs="a reachable region of the right foot with more slanted edges than the left one's",
 breaks="the table of QP problems is sized from the left foot's region only: out-of-bounds access when the right one has more edges",
 edits=[(R+"humanoid_feet_supervisor.cpp",
"""    return std::max(leftFootModel_.getKinematicConvexPolygon().getNbVertices(),
                    rightFootModel_.getKinematicConvexPolygon().getNbVertices());
""",
"""    // Both feet have mirrored regions, hence as many constraints
    return leftFootModel_.getKinematicConvexPolygon().getNbVertices();
""")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 2, 2);
  Type<double>::vectorOfVector2 l, r;
  l.push_back(Eigen::Vector2d(-.2, -.3)); l.push_back(Eigen::Vector2d(.2, -.3)); l.push_back(Eigen::Vector2d(0, -.12));
  for (int i = 0; i < 20; ++i) r.push_back(Eigen::Vector2d(.2 * std::cos(.1 + i * .314159), .21 + .08 * std::sin(.1 + i * .314159)));
  h.w.setLeftFootKinematicConvexPolygon(ConvexPolygon<double>(l)); h.w.setRightFootKinematicConvexPolygon(ConvexPolygon<double>(r));
  h.limits(false, true); h.vel(0.05, 0); h.w.setMove(true);
  for (int i = 0; i < 20; ++i) h.w.solve(0.1);
  return h.w.getComStateX()(0) == h.w.getComStateX()(0) ? 0 : 1;
}''')

seed("C15-base-lateral-gravity", property="C15",
 needs="a gravity with a horizontal component (slope) and a heavy base",
 breaks="the base's zero-moment point along y uses gravity along x: exchanging or mirroring the axes of the scene does not exchange or mirror the motion",
 edits=[(M+"zebulon_base_model.cpp", "comHeight_, gravity_(1),", "comHeight_, gravity_(0),")],
 demo=r'''
int main() {
  Zeb a(5, 0.1), b(5, 0.1);
  a.w.setGravity(Eigen::Vector3d(0.8, 0, 9.7)); b.w.setGravity(Eigen::Vector3d(0, 0.8, 9.7));
  a.vel(0.3, 0); b.vel(0, 0.3);
  for (int i = 0; i < 5; ++i) { a.w.solve(0.1); b.w.solve(0.1); }
  double d = (a.w.getBaseStateX() - b.w.getBaseStateY()).norm() + (a.w.getComStateX() - b.w.getComStateY()).norm();
  EXPECT(d < 1e-6, "exchanged axes, other motion (%g)", d);
  return 0;
}''')

seed("C16-position-deadband", property="C16",
 needs="a position reference reached from a distance under one centimetre, or the end of any approach",
 breaks="position errors under one centimetre are ignored: the position reference is approached but never reached",
 edits=[(F+"trajectory_position_tracking_objective.cpp",
"""  tmp_.noalias() -= posRefInWorldFrame_;
""",
"""  tmp_.noalias() -= posRefInWorldFrame_;
  // Do not react to errors under the accuracy of the localisation
  const Scalar accuracy = static_cast<Scalar>(0.01);
  const Scalar error = tmp_.size() > 0 ? std::abs(model_.getState()(0) - posRefInWorldFrame_(0)) : 0;
  if (error < accuracy)
  {
    tmp_ = dyn.S.rightCols(2) * model_.getState().tail(2);
  }
""")],
 demo=r'''
int main() {
  TrajectoryWalkgen<double> w; const int N = 10; w.setNbSamples(N); w.setSamplingPeriod(0.1);
  trajWeights(w, 0, 10, 1e-5); w.setVelRefInWorldFrame(V::Zero(N)); w.setPosRefInWorldFrame(V::Constant(N, 1));
  w.setState(v3(0.994, 0, 0));
  for (int i = 0; i < 300; ++i) w.solve(0.1);
  EXPECT(std::abs(w.getState()(0) - 1) < 1e-3, "position %g, reference 1", w.getState()(0));
  return 0;
}''')

seed("C17-soft-start", property="C17",
 needs="a controller replaced by a new one in the same state while its reference asks for a strong motion",
 breaks="the first steps of every controller are damped by a hidden counter: a restarted controller does not continue as the lost one would have",
 edits=[("mpc-walkgen/zebulon_walkgen.h", "    VectorX dX_;\n", "    int nbSteps_ = 0;\n    VectorX dX_;\n"),
 (R+"zebulon_walkgen.cpp",
"""       weighting_.velocityTracking*velTrackingObj_.getGradient(B_);
""",
"""       weighting_.velocityTracking*velTrackingObj_.getGradient(B_)*std::min<Scalar>(1, Scalar(++nbSteps_)/5);
"""), (R+"zebulon_walkgen.cpp", '#include "macro.h"\n', '#include <algorithm>\n#include "macro.h"\n')],
 demo=r'''
int main() {
  Zeb a(5, 0.1), b(5, 0.1); a.vel(0.4, 0); b.vel(0.4, 0);
  for (int i = 0; i < 10; ++i) a.w.solve(0.1);
  b.w.setBaseStateX(a.w.getBaseStateX()); b.w.setBaseStateY(a.w.getBaseStateY()); b.w.setComStateX(a.w.getComStateX()); b.w.setComStateY(a.w.getComStateY());
  a.vel(-0.4, 0); b.vel(-0.4, 0);
  a.w.solve(0.1); b.w.solve(0.1);
  double d = (a.w.getBaseStateX() - b.w.getBaseStateX()).norm();
  EXPECT(d < 1e-6, "the restarted controller continues otherwise (%g)", d);
  return 0;
}''')

seed("C18-tight-timer", property="C18",
 needs="single precision and a step period whose multiples of the sampling period are not exact in binary",
 breaks="the end of a phase is detected with a tolerance under the rounding errors of single precision: phases last one step longer than in double precision",
 edits=[(R+"humanoid_feet_supervisor.cpp",
"""    // Check if the current phase needs to change
    if(timeToNextPhase_ < Constant<Scalar>::EPSILON)
""",
"""    // Check if the current phase needs to change
    if(timeToNextPhase_ < static_cast<Scalar>(1e-9))
""")],
 demo=r"""
template <typename S> std::vector<double> walk(double T, int sp) {
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> X;
  auto s3 = [](double a, double b, double c) { X r(3); r << S(a), S(b), S(c); return r; };
  auto rc = [](double x0, double x1, double y0, double y1) { typename Type<S>::vectorOfVector2 p; typedef Eigen::Matrix<S, 2, 1> P;
    p.push_back(P(x0, y0)); p.push_back(P(x1, y0)); p.push_back(P(x1, y1)); p.push_back(P(x0, y1)); return ConvexPolygon<S>(p); };
  HumanoidWalkgen<S> w; const int N = 8;
  w.setSamplingPeriod(S(T)); w.setNbSamples(N); w.setStepPeriod(S(sp * T)); w.setInitialDoubleSupportLength(S(2 * T));
  w.setLeftFootKinematicConvexPolygon(rc(-.25, .25, -.28, -.16)); w.setRightFootKinematicConvexPolygon(rc(-.25, .25, .16, .28));
  w.setLeftFootCopConvexPolygon(rc(-.08, .08, -.04, .04)); w.setRightFootCopConvexPolygon(rc(-.08, .08, -.04, .04));
  w.setComStateX(s3(0, 0, 0)); w.setComStateY(s3(0, 0, 0)); w.setComStateZ(s3(.8, 0, 0));
  w.setLeftFootStateX(s3(0, 0, 0)); w.setLeftFootStateY(s3(.1, 0, 0)); w.setLeftFootStateZ(s3(0, 0, 0));
  w.setRightFootStateX(s3(0, 0, 0)); w.setRightFootStateY(s3(-.1, 0, 0)); w.setRightFootStateZ(s3(0, 0, 0));
  w.setLeftFootMaxHeight(S(.05)); w.setRightFootMaxHeight(S(.05));
  HumanoidWalkgenWeighting<S> x; x.velocityTracking = 1; x.jerkMinimization = S(1e-3); x.copCentering = S(.1); w.setWeightings(x);
  HumanoidWalkgenConfig<S> c; c.withCopConstraints = true; c.withFeetConstraints = true; w.setConfig(c);
  X r(2 * N); r.setZero(); w.setVelRefInWorldFrame(r); w.setMove(true);
  std::vector<double> o;
  for (int i = 0; i < 40; ++i) { w.solve(S(T)); o.push_back(w.getLeftFootStateZ()(0)); o.push_back(w.getRightFootStateZ()(0)); }
  return o;
}
int main() {
  const double Ts[] = {0.1, 0.12, 0.07, 0.13, 0.11};
  for (double T : Ts) for (int sp = 3; sp < 7; ++sp) {
    std::vector<double> d = walk<double>(T, sp), f = walk<float>(T, sp);
    for (size_t i = 0; i < d.size(); ++i) EXPECT(std::abs(d[i] - f[i]) < 1e-2, "foot height %g in double, %g in single precision", d[i], f[i]);
  }
  return 0;
}""")

# ---- second round
seed("C01-zero-jerk-limit", property="C01",
 needs="a jerk limit of zero (the acceleration must be kept), or limits set before they are known",
 breaks="a jerk limit of zero is taken for no limit at all",
 edits=[(R+"trajectory_walkgen.cpp", "    qpMatrix_.xu.fill(noDynModel_.getJerkLimit());\n", "    // No limit was given\n    if (noDynModel_.getJerkLimit() > 0)\n    {\n    qpMatrix_.xu.fill(noDynModel_.getJerkLimit());\n"),
  (R+"trajectory_walkgen.cpp", "    qpMatrix_.xl-= X_;\n", "    qpMatrix_.xl-= X_;\n    }\n")],
 demo=r'''
int main() {
  TrajectoryWalkgen<double> w; const int N = 6; w.setNbSamples(N); w.setSamplingPeriod(0.1);
  trajWeights(w, 1, 0, 1e-4); trajLimits(w, true, 1, 2, 0);
  w.setVelRefInWorldFrame(V::Constant(N, 0.9)); w.setPosRefInWorldFrame(V::Zero(N)); w.setState(v3(0, 0.2, 0));
  bool ok = w.solve(0.1);
  EXPECT(ok && std::abs(w.getJerk()) < 1e-6, "solved %d with jerk %g, the limit is zero", ok, w.getJerk());
  return 0;
}''')

seed("C03-weight-threshold", property="C03",
 needs="a position tracking weight which is small in absolute terms, but not relative to the other weights",
 breaks="an objective with a small weight is dropped: the command is not the optimal one",
 edits=[(R+"trajectory_walkgen.cpp", """  if (weighting_.positionTracking>0.0)
  {
    qpMatrix_.p +=""", """  if (weighting_.positionTracking>Constant<Scalar>::EPSILON)
  {
    qpMatrix_.p +="""), (R+"trajectory_walkgen.cpp", """  if (weighting_.positionTracking>0.0)
  {
    qpMatrix_.Q +=""", """  if (weighting_.positionTracking>Constant<Scalar>::EPSILON)
  {
    qpMatrix_.Q +="""), (R+"trajectory_walkgen.cpp", '#include "macro.h"\n', '#include <mpc-walkgen/constant.h>\n#include "macro.h"\n')],
 demo=r'''
int main() {
  TrajectoryWalkgen<double> w; const int N = 10; w.setNbSamples(N); w.setSamplingPeriod(0.1);
  trajWeights(w, 0, 5e-5, 1e-8); w.setVelRefInWorldFrame(V::Zero(N)); w.setPosRefInWorldFrame(V::Constant(N, 1)); w.setState(v3(0, 0, 0));
  for (int i = 0; i < 100; ++i) w.solve(0.1);
  EXPECT(std::abs(w.getState()(0) - 1) < 1e-2, "position %g, reference 1", w.getState()(0));
  return 0;
}''')

seed("C04-short-edges", property="C04",
 needs="a centre of mass region with many short edges (a disc)",
 breaks="short edges of the centre of mass region are not enforced",
 edits=[(F+"zebulon_com_constraint.cpp", "    for(int j=0; j<N; ++j)\n    {\n", "    // Edges of nearly coincident vertices do not have a reliable direction\n    const bool degenerate = (p2 - p1).norm() < Scalar(0.02);\n    for(int j=0; j<N; ++j)\n    {\n      if (degenerate)\n      {\n        b_(i*N + j) = Scalar(1);\n        continue;\n      }\n")],
 demo=r'''
int main() {
  Zeb z(5, 0.1); Type<double>::vectorOfVector2 p;
  for (int i = 0; i < 24; ++i) p.push_back(Eigen::Vector2d(.05 * std::cos(.1 + i * .2617994), .05 * std::sin(.1 + i * .2617994)));
  z.w.setBaseComConvexPolygon(ConvexPolygon<double>(p)); z.limits(false, true, false); z.weights(1, 0, 1, 0, 1e-4); z.vel(0.8, 0);
  for (int i = 0; i < 15; ++i) {
    bool ok = z.w.solve(0.1);
    double d = z.w.getComStateX()(0) - z.w.getBaseStateX()(0);
    if (ok) EXPECT(std::abs(d) < 0.0505, "centre of mass at %g from the base, radius of its region 0.05", d);
  }
  return 0;
}''')

seed("C05-mass-shift", property="C05",
 needs="a base mass set after the centre of mass reference, on a slope or with a heavy base",
 breaks="the offset of the centre of mass reference due to gravity keeps using the former base mass",
 edits=[(R+"zebulon_walkgen.cpp", """  baseModel_.setMass(mass);

  copConstraint_.computeConstantPart();
  copCenteringObj_.computeConstantPart();
  comCenteringObj_.updateGravityShift();
""", """  baseModel_.setMass(mass);

  copConstraint_.computeConstantPart();
  copCenteringObj_.computeConstantPart();
""")],
 demo=r'''
static V run(bool late) {
  Zeb z(5, 0.1); if (!late) z.w.setBaseMass(40);
  z.w.setGravity(Eigen::Vector3d(1, 0, 9.7));
  if (late) z.w.setBaseMass(40);
  z.weights(1, 0, 0.1, 5, 1e-4);
  for (int i = 0; i < 8; ++i) z.w.solve(0.1);
  return z.w.getComStateX();
}
int main() {
  V a = run(false), b = run(true);
  EXPECT((a - b).norm() < 1e-6, "the motion depends on when the base mass was set (%g)", (a - b).norm());
  return 0;
}''')

seed("C10-small-yaw", property="C10",
 needs="a base which turns by small angles, or a yaw close to the former one",
 breaks="small changes of the measured yaw are not taken into account by the constraints and objectives, however many follow each other",
 edits=[(R+"zebulon_walkgen.cpp", "  baseModel_.setStateYaw(state);\n", "  // Rotating the polygons is only worth it for a visible rotation\n  const Scalar rotation = std::abs(state(0) - baseModel_.getStateYaw()(0));\n  baseModel_.setStateYaw(state);\n  if (rotation < static_cast<Scalar>(0.05))\n  {\n    return;\n  }\n")],
 demo=r'''
int main() {
  Zeb a(5, 0.1), b(5, 0.1);
  for (Zeb* z : {&a, &b}) { z->weights(1, 0, 0, 0, 1e-4); ZebulonWalkgenConfig<double> c; c.withCopConstraints = c.withComConstraints = c.withBaseMotionConstraints = false; c.withTiltMotionConstraints = true; z->w.setConfig(c); z->vel(0.6, 0.1); }
  for (int i = 1; i <= 40; ++i) a.w.setBaseStateYaw(v3(0.03 * i, 0, 0));
  b.w.setBaseStateYaw(v3(1.2, 0, 0));
  for (int i = 0; i < 6; ++i) { a.w.solve(0.1); b.w.solve(0.1); }
  double d = (a.w.getBaseStateX() - b.w.getBaseStateX()).norm();
  EXPECT(d < 1e-6, "same yaw, other motion (%g)", d);
  return 0;
}''')

seed("C11-dynamics-cache", property="C11",
 needs="several controllers (or models of one controller) whose body and base have different masses but otherwise the same parameters",
 breaks="the zero-moment point dynamics are remembered in a place shared by everybody, and looked up without the mass",
 edits=[(R+"tools.cpp", "  assert(mass>=0.0);\n", """  assert(mass>=0.0);

  // These dynamics are the same at most calls: keep the last ones
  struct Cache
  {
    Scalar key[6];
    int N = 0;
    LinearDynamic<Scalar> dyn;
  };
  static Cache cache;
  const Scalar key[6] = {S, T, comHeight, gravityX, gravityZ, totalMass};
  if (cache.N == N && std::equal(key, key + 6, cache.key))
  {
    dyn = cache.dyn;
    return;
  }
  struct Store
  {
    LinearDynamic<Scalar>& dyn; const Scalar* key; int N;
    ~Store() { cache.dyn = dyn; cache.N = N; std::copy(key, key + 6, cache.key); }
  } store{dyn, key, N};
"""), (R+"tools.cpp", '#include "macro.h"\n', '#include <algorithm>\n#include "macro.h"\n')],
 demo=r'''
static double run(bool other) {
  Zeb a(5, 0.1); a.w.setBodyMass(20); a.w.setBaseMass(10);
  Zeb b(5, 0.1); b.w.setBodyMass(10); b.w.setBaseMass(20);
  a.vel(0.5, 0);
  if (other) b.w.setComBodyHeight(0.9);
  a.w.setComBodyHeight(0.9);
  for (int i = 0; i < 6; ++i) a.w.solve(0.1);
  return a.w.getComStateX()(0);
}
int main() {
  double x = run(false), y = run(true);
  EXPECT(std::abs(x - y) < 1e-9, "motion depends on another controller: %.12g alone, %.12g", x, y);
  return 0;
}''')

seed("C12-nothing-to-do", property="C12",
 needs="a step of the humanoid in which the solver fails without delivering anything",
 breaks="a failed step is reported as solved when the correction of the previous plan is zero",
 edits=[(R+"humanoid_walkgen.cpp", "    return solutionFound;\n", "    // Nothing to correct: the previous plan is still the right one\n    return solutionFound || dX_.isZero(Constant<Scalar>::EPSILON*Constant<Scalar>::EPSILON);\n")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 4, 4); h.vel(0.1, 0); h.w.setMove(true);
  std::freopen("/dev/null", "w", stderr);
  for (int i = 0; i < 8; ++i) h.w.solve(0.1);
  simfault::seam().beginTick(simfault::NO_ITERATE, 0);
  bool ok = h.w.solve(0.1);
  EXPECT(!ok, "the solver failed and the step is reported as solved");
  return 0;
}''')

seed("C06-restart-ignored", property="C06",
 needs="a stop command followed by a start command during the last step",
 breaks="a start command given while a foot is in the air, after a stop, is lost: the robot stops although it was told to walk",
 edits=[(R+"humanoid_walkgen.cpp", "    move_ = move;\n", "    // The robot has to come to rest before it starts again\n    if(move && !move_ && !feetSupervisor_.isInDS())\n    {\n      return;\n    }\n    move_ = move;\n")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 4, 4); h.vel(0.1, 0); h.w.setMove(true);
  for (int i = 0; i < 10; ++i) h.w.solve(0.1);
  h.w.setMove(false); h.w.solve(0.1); h.w.setMove(true);
  for (int i = 0; i < 20; ++i) h.w.solve(0.1);
  double m = 0; for (int i = 0; i < 20; ++i) { h.w.solve(0.1); m = std::max(m, std::max(h.w.getLeftFootStateZ()(0), h.w.getRightFootStateZ()(0))); }
  EXPECT(m > 0.01, "the robot was told to walk and does not lift its feet");
  return 0;
}''')

seed("C09-period-tolerance", property="C09",
 needs="feedback periods which vary by a few milliseconds between steps",
 breaks="the previewed dynamics are not updated when the feedback period varies by less than ten milliseconds",
 edits=[(R+"humanoid_walkgen.cpp", "std::abs(feedBackPeriod - lipModel_.getFeedbackPeriod()) > Constant<Scalar>::EPSILON", "std::abs(feedBackPeriod - lipModel_.getFeedbackPeriod()) > 100*Constant<Scalar>::EPSILON")],
 demo=r'''
int main() {
  Hum a(10, 0.1, 4, 20), b(10, 0.1, 4, 20);
  // the same end of a sample: 0.02 left, reached with and without a feedback period close to it
  a.w.solve(0.028); a.w.solve(0.052); b.w.solve(0.02); b.w.solve(0.06);
  a.w.solve(0.02); b.w.solve(0.02);
  a.w.solve(0.05); b.w.solve(0.025); b.w.solve(0.025);
  V s = v3(0.02, 0.1, 0.1);
  a.w.setComStateX(s); b.w.setComStateX(s); a.w.setComStateY(s); b.w.setComStateY(s);
  // a's previous feedback period is 0.05, b's is 0.025
  a.w.solve(0.025); b.w.solve(0.025); a.w.setComStateX(s); b.w.setComStateX(s); a.w.setComStateY(s); b.w.setComStateY(s);
  a.w.solve(0.025 + 0.0); b.w.solve(0.025);
  // now a nearby one
  Hum c(10, 0.1, 4, 20), d(10, 0.1, 4, 20);
  c.w.solve(0.058); c.w.solve(0.042); d.w.solve(0.05); d.w.solve(0.05);
  c.w.setComStateX(s); d.w.setComStateX(s); c.w.setComStateY(s); d.w.setComStateY(s);
  c.w.solve(0.05); d.w.solve(0.05);
  double e = (c.w.getComStateX() - d.w.getComStateX()).norm() + (c.w.getComStateY() - d.w.getComStateY()).norm();
  EXPECT(e < 1e-7, "commands differ by %g", e);
  return 0;
}''')

seed("C08-axis-tolerance", property="C08",
 needs="feet (or soles) such that an edge of the double-support polygon is nearly, but not exactly, aligned with an axis",
 breaks="edges which are nearly aligned with the x axis are taken for aligned ones: the centre of pressure leaves the support polygon",
 edits=[("src/convexpolygon.cpp", "std::abs(hullEdge(0))<Constant<Scalar>::EPSILON", "std::abs(hullEdge(0))<Scalar(0.01)")],
 demo=r'''
int main() {
  // soles whose lateral edges lean by a few millimetres
  Type<double>::vectorOfVector2 p;
  p.push_back(Eigen::Vector2d(-.03, -.04)); p.push_back(Eigen::Vector2d(.03, -.04)); p.push_back(Eigen::Vector2d(.022, .04)); p.push_back(Eigen::Vector2d(-.03, .04));
  Hum h(8, 0.1, 4, 30); h.w.setLeftFootCopConvexPolygon(ConvexPolygon<double>(p)); h.w.setRightFootCopConvexPolygon(ConvexPolygon<double>(p));
  h.w.setLeftFootStateX(v3(0.05, 0, 0)); h.w.setRightFootStateX(v3(0.042, 0, 0)); h.weights(1, 1e-5, 0); h.vel(0.0, 0); 
  h.w.setComStateX(v3(0.05, 0.1, 0)); h.w.setComStateY(v3(0.05, 0.08, 0));
  for (int i = 0; i < 12; ++i) {
    bool ok = h.w.solve(0.1);
    const V &x = h.w.getComStateX(), &y = h.w.getComStateY();
    double cx = x(0) - 0.8 / 9.81 * x(2), cy = y(0) - 0.8 / 9.81 * y(2);
    // front edge of the support: from the right foot's front corners to the left foot's
    Eigen::Vector2d f[] = {{.072, -.14}, {.08, .06}, {.072, .14}};
    for (int k = 0; k < 2; ++k) { Eigen::Vector2d e = f[k + 1] - f[k]; double d = (e(1) * (cx - f[k](0)) - e(0) * (cy - f[k](1))) / e.norm();
      if (ok) EXPECT(d < 2e-4, "centre of pressure %g outside of the support", d); }
  }
  return 0;
}''')

seed("C18-first-weight", property="C18",
 needs="single precision and a sampling period which is not exact in binary",
 breaks="in single precision the weight of the first previewed sample collapses when the rest of a sample is rounded up",
 edits=[(R+"humanoid_feet_supervisor.cpp", """    while(timeToNextSample > samplingPeriod_ + Constant<Scalar>::EPSILON)
    {
      timeToNextSample -= samplingPeriod_;
    }

    sampleWeight""", """    while(timeToNextSample > samplingPeriod_)
    {
      timeToNextSample -= samplingPeriod_;
    }

    sampleWeight""")],
 demo=r'''
template <typename S> std::vector<double> stand(double T, int ds) {
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> X;
  auto s3 = [](double a, double b, double c) { X r(3); r << S(a), S(b), S(c); return r; };
  auto rc = [](double x0, double x1, double y0, double y1) { typename Type<S>::vectorOfVector2 p; typedef Eigen::Matrix<S, 2, 1> P;
    p.push_back(P(x0, y0)); p.push_back(P(x1, y0)); p.push_back(P(x1, y1)); p.push_back(P(x0, y1)); return ConvexPolygon<S>(p); };
  HumanoidWalkgen<S> w; const int N = 8;
  w.setSamplingPeriod(S(T)); w.setNbSamples(N); w.setStepPeriod(S(4 * T)); w.setInitialDoubleSupportLength(S(ds * T));
  w.setLeftFootKinematicConvexPolygon(rc(-.25, .25, -.28, -.16)); w.setRightFootKinematicConvexPolygon(rc(-.25, .25, .16, .28));
  w.setLeftFootCopConvexPolygon(rc(-.08, .08, -.04, .04)); w.setRightFootCopConvexPolygon(rc(-.08, .08, -.04, .04));
  w.setComStateX(s3(.05, .1, 0)); w.setComStateY(s3(0, .1, 0)); w.setComStateZ(s3(.8, 0, 0));
  w.setLeftFootStateX(s3(0, 0, 0)); w.setLeftFootStateY(s3(.1, 0, 0)); w.setLeftFootStateZ(s3(0, 0, 0));
  w.setRightFootStateX(s3(0, 0, 0)); w.setRightFootStateY(s3(-.1, 0, 0)); w.setRightFootStateZ(s3(0, 0, 0));
  w.setLeftFootMaxHeight(S(.05)); w.setRightFootMaxHeight(S(.05));
  HumanoidWalkgenWeighting<S> x; x.velocityTracking = 1; x.jerkMinimization = S(1e-2); x.copCentering = S(1); w.setWeightings(x);
  HumanoidWalkgenConfig<S> c; c.withCopConstraints = false; c.withFeetConstraints = false; w.setConfig(c);
  X r(2 * N); r.setZero(); w.setVelRefInWorldFrame(r);
  std::vector<double> o;
  for (int i = 0; i < ds; ++i) { w.solve(S(T)); o.push_back(w.getComStateX()(0)); o.push_back(w.getComStateY()(0)); }
  return o;
}
int main() {
  const double Ts[] = {0.1, 0.12, 0.07, 0.13, 0.11, 0.15};
  for (double T : Ts) for (int ds = 3; ds < 12; ++ds) {
    std::vector<double> d = stand<double>(T, ds), f = stand<float>(T, ds);
    for (size_t i = 0; i < d.size(); ++i) EXPECT(std::abs(d[i] - f[i]) < 2e-3, "centre of mass %g in double, %g in single precision", d[i], f[i]);
  }
  return 0;
}''')

seed("C02-clamped-period", property="C02",
 needs="a feedback period longer than the sampling period (a late step)",
 breaks="the base is not integrated over the whole feedback period when it is longer than the sampling period",
 edits=[(R+"zebulon_walkgen.cpp", "  baseModel_.updateStateY(X_(3*N), feedBackPeriod);", "  // The command is only planned for one sample\n  baseModel_.updateStateY(X_(3*N), std::min(feedBackPeriod, lipModel_.getSamplingPeriod()));"),
  (R+"zebulon_walkgen.cpp", '#include "macro.h"\n', '#include <algorithm>\n#include "macro.h"\n')],
 demo=r'''
int main() {
  Zeb z(5, 0.1); z.vel(0.4, 0.4);
  for (int i = 0; i < 4; ++i) z.w.solve(0.1);
  double f = 0.14; V b = z.w.getBaseStateY(); z.w.solve(f); V a = z.w.getBaseStateY(), x = z.w.getBaseStateX();
  EXPECT((a - x).norm() < 1e-6, "same scene along both axes, other motion (%g)", (a - x).norm());
  return 0;
}''')

seed("C14-new-horizon", property="C14",
 needs="a humanoid whose horizon is changed after its first step, without a new sampling period",
 breaks="the pressure point constraints keep the size of the former horizon: assertion or out of bounds access",
 edits=[(R+"humanoid_walkgen.cpp", """    feetSupervisor_.setNbSamples(nbSamples);

    copConstraint_.computeConstantPart();
""", """    feetSupervisor_.setNbSamples(nbSamples);

""")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 4, 10); h.weights(1, 1e-3, 0);
  h.w.solve(0.1);
  h.w.setNbSamples(12); V r = V::Zero(24); r.head(12).fill(0.1); h.w.setVelRefInWorldFrame(r); 
  h.w.setMove(true);
  for (int i = 0; i < 30; ++i) { bool ok = h.w.solve(0.1); EXPECT(ok && h.w.getComStateX()(0) == h.w.getComStateX()(0), "step %d", i); }
  return 0;
}''')

seed("C12-next-step-mixed", property="C12",
 needs="a solver that delivers nothing in the steps right after a footstep has been completed",
 breaks="when a footstep is completed the lateral places of the remaining planned steps are shifted by one: if the solver then fails, the swing foot goes to a place which was never planned",
 edits=[(R+"humanoid_feet_supervisor.cpp", "save.segment(nbSamples_ + save.rows()/2 + 1,  newNbOfSteps);", "save.segment(nbSamples_ + save.rows()/2,  newNbOfSteps);")],
 demo=r'''
int main() {
  Hum h(8, 0.1, 4, 4); h.vel(0.1, 0); h.w.setMove(true);
  std::freopen("/dev/null", "w", stderr);
  for (int i = 0; i < 40; ++i) {
    // the foot is put down at the end of tick 8, 12, ...
    if (i >= 12 && (i / 4) % 2) simfault::seam().beginTick(simfault::NO_ITERATE, 0); else simfault::seam().beginTick(0, 0);
    h.w.solve(0.1);
    const double l = h.w.getLeftFootStateY()(0), r = h.w.getRightFootStateY()(0);
    EXPECT(l - r > 0.12, "tick %d: the feet come as close as %g to each other, the reachable region starts at 0.16", i, l - r);
  }
  return 0;
}''')

seed("C06-standing-length-late", property="C06",
 needs="a new double-support length set while the robot walks, then a stop",
 breaks="a double-support length set while walking is lost: after the stop the robot stands for the former length",
 edits=[(R+"humanoid_feet_supervisor.cpp",
"""      timeline_.front().duration_ +=  initialDoubleSupportLength - DSPeriod_;
    }

    DSPeriod_ = initialDoubleSupportLength;
""",
"""      timeline_.front().duration_ +=  initialDoubleSupportLength - DSPeriod_;
      DSPeriod_ = initialDoubleSupportLength;
    }
""")],
 demo=r'''
int main() {
  Hum h(10, 0.1, 4, 4); h.vel(0.05, 0); h.w.setMove(true);
  for (int i = 0; i < 10; ++i) h.w.solve(0.1);
  h.w.setInitialDoubleSupportLength(0.8); h.w.setMove(false);
  int i = 0;
  auto up = [&]() { return std::max(h.w.getLeftFootStateZ()(0), h.w.getRightFootStateZ()(0)) > 1e-6; };
  while (i < 12 && !up()) { h.w.solve(0.1); ++i; }
  i = 0; while (i < 20 && up()) { h.w.solve(0.1); ++i; }
  EXPECT(!up(), "the robot does not stop");
  h.w.solve(0.1); h.w.setMove(true);
  int n = 0; while (n < 30 && !up()) { h.w.solve(0.1); ++n; }
  EXPECT(n >= 7, "the robot lifts a foot %d ticks after the stop, double support must last 8", n + 1);
  return 0;
}''')

seed("C07-height-latched", property="C07",
 needs="a maximum foot height which is lowered while the foot is already higher than the new value, before mid-swing",
 breaks="the swing foot keeps the height it has instead of reaching the configured one at mid-swing",
 edits=[(R+"humanoid_feet_supervisor.cpp", "        flyingFoot->updateStateZ(Vector3(flyingFoot->getMaxHeight(), 0, 0),", "        // never lower the foot while it goes up\n        flyingFoot->updateStateZ(Vector3(std::max(flyingFoot->getMaxHeight(), flyingFoot->getStateZ()(0)), 0, 0),")],
 demo=r'''
int main() {
  Hum h(10, 0.1, 9, 4); h.vel(0.05, 0); h.w.setMove(true);
  double top = 0, apex = 0; int n = 0;
  for (int i = 0; i < 40 && n < 4; ++i) {
    h.w.solve(0.1);
    const double z = std::max(h.w.getLeftFootStateZ()(0), h.w.getRightFootStateZ()(0));
    if (z > 1e-9) ++n;
    if (n == 3) { top = z; h.w.setLeftFootMaxHeight(0.02); h.w.setRightFootMaxHeight(0.02); }
    if (n == 4) apex = z;
  }
  EXPECT(top > 0.021, "unexpected swing: height %g after three ticks", top);
  EXPECT(std::abs(apex - 0.02) < 1e-6, "the foot is at %g at mid-swing, 0.02 configured", apex);
  return 0;
}''')

seed("C13-old-commands-after-failure", property="C13",
 needs="a failed step followed by a healthy one, of a moving base",
 breaks="after a failed step the base commands used to build the next problem are those before the failure",
 edits=[(R+"zebulon_walkgen.cpp", "  B_ = X_.segment(2*N, 2*N);", "  if (B_.size() != 2*N || solved_)\n  {\n    B_ = X_.segment(2*N, 2*N);\n  }"),
        (R+"zebulon_walkgen.cpp", "  X_ += dX_;\n", "  X_ += dX_;\n  solved_ = solutionFound;\n"),
        ("mpc-walkgen/zebulon_walkgen.h", "  VectorX B_;", "  VectorX B_;\n  bool solved_ = true;")],
 demo=r'''
int main() {
  Zeb a(6, 0.1), b(6, 0.1);
  for (Zeb* z : {&a, &b}) { z->vel(0.5, -0.2); z->limits(true, true, true); }
  std::freopen("/dev/null", "w", stderr);
  for (int i = 0; i < 3; ++i) a.w.solve(0.1);
  simfault::seam().beginTick(simfault::STEP_FAILED, 0); a.w.solve(0.1); simfault::seam().beginTick(0, 0);
  b.w.setBaseStateX(a.w.getBaseStateX()); b.w.setBaseStateY(a.w.getBaseStateY()); b.w.setComStateX(a.w.getComStateX()); b.w.setComStateY(a.w.getComStateY());
  bool ka = a.w.solve(0.1), kb = b.w.solve(0.1);
  EXPECT(ka == kb, "one step reported %d, the other %d", ka, kb);
  const double d = (a.w.getBaseStateX() - b.w.getBaseStateX()).norm() + (a.w.getComStateX() - b.w.getComStateX()).norm();
  EXPECT(d < 1e-5, "one step after the failure the motion still differs by %g from the one of a fresh controller", d);
  return 0;
}''')

seed("C05-base-on-the-ground", property="C05",
 needs="a base whose centre of mass is at height zero, on a slope",
 breaks="the effect of the slope on the centre of mass is computed for the body alone when the base is at height zero",
 edits=[(F+"zebulon_com_centering_objective.cpp", "  Scalar factor = (m*cy+M*by)/(M+m);", "  Scalar factor = by > 0 ? (m*cy+M*by)/(M+m) : cy;")],
 demo=r'''
static V run(double hB) {
  Zeb z(6, 0.1); z.w.setComBaseHeight(hB); z.w.setGravity(v3(1.0, 0.5, 9.7)); z.vel(0.3, 0.1); z.weights(1, 0, 0.1, 2, 1e-3);
  for (int i = 0; i < 4; ++i) z.w.solve(0.1);
  return z.w.getComStateX();
}
int main() {
  const double d = (run(0) - run(1e-7)).norm();
  EXPECT(d < 1e-4, "a base lifted by a tenth of a micrometre changes the motion by %g", d);
  return 0;
}''')
