#include "run.hpp"
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <malloc.h>
#include <algorithm>
#include <functional>

namespace sim {
namespace {

const char* FK[] = {"none", "iteration_limit", "no_iterate", "false_infeasible", "step_failed"};

struct Fail { Violation v; };
[[noreturn]] void fail(const std::string& cls, const std::string& msg) { throw Fail{{cls, msg}}; }
std::string fmt(const char* f, double a = 0, double b = 0, double c = 0, double d = 0) { char o[512]; std::snprintf(o, sizeof o, f, a, b, c, d); return o; }

struct Axis { const char* name; int off; };
std::vector<Axis> axes(char k) {
  if (k == 'T') return {{"state", 0}};
  if (k == 'Z') return {{"base x", 0}, {"base y", 3}, {"com x", 6}, {"com y", 9}};
  return {{"com x", 0}, {"com y", 3}};
}
S3 s3(const VD& p, int o) { return S3{{p[o], p[o + 1], p[o + 2]}}; }

// distance from here to the next sampling instant, for a tick about to happen
double humS(const Inst& in) {
  double tn = in.fsm.tNext; if (tn < 1e-4) tn = in.fsm.haveNext ? in.fsm.next.dur : in.h.DS;
  while (tn > in.h.T + 1e-4) tn -= in.h.T;
  return tn;
}
Op resolve(const Inst& in, const Op& o) {
  if (o.n == "foot") {   // the measured place of a foot differs from the published one: leg, dx, dy, dvx, dvy
    const int leg = o.a[0] != 0, off = leg == 0 ? 9 : 18; VD p = in.pub();
    const bool flying = in.fsm.type != Fsm::DS && leg == (in.fsm.type == Fsm::LEFT ? 1 : 0) && in.fsm.tNext > 1e-3 && in.fsm.tNext < in.fsm.dur - in.h.T - 1e-3;
    Op r(leg == 0 ? "lf" : "rf", VD(p.begin() + off, p.begin() + off + 9));
    for (int ax = 0; ax < 2; ++ax) { r.a[3 * ax] += o.a[1 + ax]; if (flying) r.a[3 * ax + 1] += o.a[3 + ax]; }
    return r;
  }
  if (o.n != "hk") return o;
  double S = humS(in); int k = std::max(1, static_cast<int>(o.a[0]));
  while (k > 1 && S / k < in.h.T / 8) --k;
  Op r("tick", o.a); r.a[0] = S / k; return r;
}
void dirty(int byte) {
  mallopt(M_PERTURB, byte);
  std::vector<void*> v;
  for (int i = 0; i < 40; ++i) { size_t n = 16 + 37 * i * (i % 3 + 1); void* p = malloc(n); std::memset(p, byte, n); v.push_back(p); }
  for (size_t i = 0; i < v.size(); i += 2) free(v[i]);
  for (size_t i = 1; i < v.size(); i += 2) free(v[i]);
}

bool cfgConOn(const Inst& in) {
  if (in.kind == 'T') return in.t.con;
  if (in.kind == 'Z') return in.z.con[0] || in.z.con[1] || in.z.con[2] || in.z.con[3];
  return in.h.conCop || in.h.conFeet;
}

// ---------------------------------------------------------------- one observed tick
struct Tick {
  Op op; VD b, a; TickResult r; double f = 0;
  // humanoid, at the time of the tick
  Fsm fsm; bool flying = false; int leg = 0; double tNext = 0;
  bool popped = false, goalKnown = false; P2 goal{0, 0}; bool prevKnown = false; P2 prev{0, 0};
  std::vector<double> jerk(char k) const {
    std::vector<double> j;
    for (auto& x : axes(k)) j.push_back((a[x.off + 2] - b[x.off + 2]) / f);
    if (k == 'T') j[0] = a[3];
    return j;
  }
};

// The motion has left any physical range (an unstable closed loop the user configured, e.g. a
// one-sample horizon): comparisons would only measure rounding. The run ends without a verdict.
struct Diverged {};
// a humanoid that has fallen: its centre of mass is out of reach of its feet
bool fallen(const VD& p) {
  double mx = (p[9] + p[18]) / 2, my = (p[12] + p[21]) / 2;
  return std::hypot(p[0] - mx, p[3] - my) > 1 || std::abs(p[2]) > 12 || std::abs(p[5]) > 12 || std::abs(p[1]) > 4 || std::abs(p[4]) > 4;
}
// a step no robot could make: the plan of a controller whose feet are not constrained
bool wild(const VD& p, const P2& goal) { return std::hypot(goal.x - (p[9] + p[18]) / 2, goal.y - (p[12] + p[21]) / 2) > 2.5; }
bool physical(char kind, const VD& p) {
  static const double lim[3] = {300, 300, 1500};
  size_t n = kind == 'T' ? 3 : p.size();
  for (size_t i = 0; i < n; ++i) {
    size_t c = i % 3;
    if (kind == 'H' && i >= 9 && c == 2) continue;   // swing accelerations scale with 1/f^2
    if (!(std::abs(p[i]) <= lim[c])) return false;
  }
  return true;
}
struct Exec {
  const Trace& t; RunOut& o;
  Hash h, sig;
  bool prevKnown = false; P2 prevGoal{0, 0}; // last implied landing point (humanoid)
  Exec(const Trace& t_, RunOut& o_) : t(t_), o(o_) {}

  enum R { SKIP, CFG, TICK };
  void record(const Inst& in, const Tick& k) {
    Stats& st = o.st;
    for (double x : k.a) h.d(x);
    h.i(k.r.ok);
    st.add("ticks"); st.add("sim_time_s", k.f);
    st.add(k.r.ok ? "ticks_reported_solved" : "ticks_reported_failed");
    if (k.r.warm) st.add("probe.warm_start");
    st.mx("solver_iterations", k.r.iters);
    if (k.r.iters > 0) st.add("probe.active_constraints");
    if (in.kind != 'H' && k.f < in.T() - 1e-9) st.add("probe.partial_feedback_period");
    if (k.f > in.T() + 1e-9) st.add("probe.late_tick");
    if (k.r.injected()) {
      int fk = k.r.numeric ? -1 : k.op.a.size() > 1 ? static_cast<int>(k.op.a[1]) : 0;
      st.add(std::string("fault.solver.") + (fk >= 0 && fk < simfault::NKINDS ? FK[fk] : "gave_up"));
      o.nontrivial = true;
    }
    if (k.r.failures && k.r.natural) { st.add("probe.problem_truly_infeasible"); o.nontrivial = true; }
    if (k.r.iters > 0) o.nontrivial = true;
    Hash s; s.i(in.kind); s.i(in.N()); s.i(cfgConOn(in)); s.i(k.r.ok); s.i(k.r.lastRet); s.i(k.r.warm); s.i(std::min(k.r.iters, 20));
    s.i(k.f < in.T() - 1e-9);
    if (in.kind == 'H') {
      s.i(k.fsm.type); s.i(std::lround(4 * k.tNext / in.h.T)); s.i(k.fsm.M); s.i(in.h.move); s.i(k.flying);
      if (k.fsm.type == Fsm::DS) st.add("probe.tick_in_double_support"); else st.add(k.flying ? "probe.tick_swing" : "probe.tick_transition_support");
      if (k.fsm.type != Fsm::DS && !in.h.move) st.add("probe.stopping_while_stepping");
    }
    if (in.kind == 'Z') s.i(in.z.con[0] + 2 * in.z.con[1] + 4 * in.z.con[2] + 8 * in.z.con[3]);
    o.states.insert(s.h);
    sig.i(in.kind); sig.i(k.r.ok); sig.i(k.r.lastRet); sig.i(std::min(k.r.iters, 20)); sig.d(k.f);
  }
  // applies op to an instance; fills k when it was a tick
  R step(Inst& in, const Op& op0, Tick& k, bool rec) {
    Op op = resolve(in, op0);
    if (op.n == "dirty") { dirty(static_cast<int>(op.a[0])); if (rec) o.st.add("fault.dirty_allocator"); return SKIP; }
    if (!in.legal(op)) { if (rec) o.st.add("ops_skipped_precondition"); return SKIP; }
    if (op.n != "tick") {
      in.apply(op);
      if (rec) { o.st.add("config_ops"); sig.i(static_cast<int64_t>(hashStr(op.n)));
        if (op.n == "state" || op.n == "sX" || op.n == "cX" || op.n == "sY" || op.n == "cY" || op.n == "sR" || op.n == "sP" || op.n == "sYaw" || op.n == "lf" || op.n == "rf") o.st.add("fault.state_disturbance"); }
      return CFG;
    }
    k = Tick(); k.op = op; k.f = op.a[0]; k.b = in.pub();
    if (!physical(in.kind, k.b)) throw Diverged();
    if (in.kind == 'H' && (t.prop == "C10" || t.prop == "C15" || t.prop == "C17" || t.prop == "C18") && (fallen(k.b) || (prevKnown && wild(k.b, prevGoal)))) throw Diverged();
    if (in.isFloat) k.f = static_cast<double>(static_cast<float>(k.f));
    if (in.kind == 'H' && in.fsm.atBoundary()) { prevKnown = false; k.popped = true; }
    k.r = in.tick(op);
    k.a = in.pub();
    if (in.kind == 'H') {
      k.fsm = in.fsm; k.tNext = in.fsm.tNext + op.a[0]; k.fsm.tNext = k.tNext;
      k.flying = k.fsm.flying(in.h); k.leg = k.fsm.type == Fsm::LEFT ? 1 : 0; // moving leg
      k.prevKnown = prevKnown; k.prev = prevGoal; prevKnown = false;
      if (k.flying && allFinite(k.a)) {
        int ox = k.leg == 0 ? 9 : 18;
        k.goal.x = impliedGoal(s3(k.b, ox), s3(k.a, ox), k.tNext, k.f);
        k.goal.y = impliedGoal(s3(k.b, ox + 3), s3(k.a, ox + 3), k.tNext, k.f);
        k.goalKnown = std::isfinite(k.goal.x) && std::isfinite(k.goal.y);
        prevKnown = k.goalKnown; prevGoal = k.goal;
      }
    }
    if (rec) record(in, k);
    if (!allFinite(k.a)) {
      // non-finite published motion is never acceptable
      fail("non-finite", "non-finite published state");
    }
    return TICK;
  }
};

// reference model of a tick
struct Model { Qp q; gi::Mat copMap; bool usable = true; bool exact = true; bool poly = true; std::vector<int> cmd; double scale = 1; };
// cmd: variable indices of the published commands, in axes() order (+ landing x,y for a flying humanoid)
Model modelOf(const Inst& in, const Tick& k) {
  Model m;
  if (in.kind == 'T') { m.q = trajQp(in.t, s3(k.b, 0)); m.cmd = {0}; m.scale = std::max(1.0, in.t.J); }
  else if (in.kind == 'Z') { int N = in.z.N; m.q = zebQp(in.z, k.b); m.cmd = {2 * N, 3 * N, 0, N}; m.scale = 1; }
  else {
    HumModel hm = humModel(in.h, k.fsm, k.b, k.f, k.prevKnown ? &k.prev : nullptr);
    m.q = hm.q; m.copMap = hm.copMap; m.exact = hm.exactCons; m.usable = !hm.ambiguousHull; m.poly = !hm.ambiguousPoly;
    m.cmd = {0, hm.N};
    if (k.flying && hm.M > 0) { m.cmd.push_back(2 * hm.N); m.cmd.push_back(2 * hm.N + hm.M); }
  }
  return m;
}
std::vector<double> cmdOf(const Inst& in, const Tick& k, size_t n) {
  std::vector<double> c = k.jerk(in.kind);
  if (n > c.size()) { c.push_back(k.goal.x); c.push_back(k.goal.y); }
  return c;
}

double relaxOf(const Inst& in) { return in.isFloat ? 5e-3 : in.kind == 'H' ? 4e-4 : 1e-5; }

// the limits/constraints of the tick admit the published command
void checkCertificate(Exec& e, const Inst& in, const Tick& k) {
  Stats& st = e.o.st;
  if (!cfgConOn(in)) return;
  if (k.r.injected()) return;
  Model m = modelOf(in, k);
  if (!m.usable) { st.add("skipped_ambiguous"); return; }
  const double d = relaxOf(in);
  if (k.r.ok) {
    std::vector<double> c = cmdOf(in, k, m.cmd.size());
    if (m.cmd.size() > c.size()) return;
    if (m.cmd.size() > 2 && in.kind == 'H' && !k.goalKnown) return;
    Qp q = m.q;
    for (size_t i = 0; i < m.cmd.size(); ++i) {
      // in float the published acceleration carries rounding of the order of eps*|a|/f
      double slack = in.isFloat ? 1e-6 * (1 + std::abs(k.a[2])) / k.f + 1e-4 * (1 + std::abs(c[i])) : 0;
      q.con(Aff::var(q.n, m.cmd[i]), c[i] - slack, c[i] + slack, TAG_FIX);
    }
    gi::Result r = solveQp(q, d, false, m.scale);
    st.add("certificates_checked");
    if (r.status == gi::INFEASIBLE && solveQp(q, 3 * d, false, m.scale).status == gi::INFEASIBLE) {
      // attribute: was there any solution at all?
      bool any = feasible(m.q, d, m.scale);
      fail(any ? "constraint-violated" : "unsolvable-reported-solved",
           fmt("reported solved, but no continuation of the published command respects the configured constraints (command %.6g, feedback %.4g; problem itself ", c[0], k.f) + (any ? "solvable)" : "unsolvable)"));
    }
    if (r.status != gi::SOLVED && r.status != gi::INFEASIBLE) st.add("inconclusive");
  } else if (k.r.natural && m.exact && !in.isFloat) {
    if (feasible(m.q, -20 * d, m.scale)) fail("solvable-reported-unsolvable", "reported unsolved with a healthy solver although motions within the configured constraints exist");
    st.add("infeasible_confirmed");
  }
}

// the published command is the one of the optimal plan
void checkOptimal(Exec& e, const Inst& in, const Tick& k, bool mustSolve = false) {
  Stats& st = e.o.st;
  if (k.r.injected()) return;
  Model m = modelOf(in, k);
  if (!m.usable || !m.exact) { st.add("skipped_ambiguous"); return; }
  if (!k.r.ok) {
    if (mustSolve && !in.isFloat && feasible(m.q, -20 * relaxOf(in), m.scale)) fail("not-recovered", "solver healthy and the problem solvable, but the tick is reported failed");
    return;
  }
  gi::Result r = solveQp(m.q, 0, true, m.scale);
  if (r.status != gi::SOLVED) { st.add("reference_unsolved"); return; }
  std::vector<double> c = cmdOf(in, k, m.cmd.size());
  if (m.cmd.size() > 2 && in.kind == 'H' && !k.goalKnown) return;
  st.add("optima_compared");
  double scale = 1; for (int i : m.cmd) scale = std::max(scale, std::abs(r.x(i)));
  double worst = 0; size_t wi = 0;
  for (size_t i = 0; i < m.cmd.size(); ++i) {
    double sc = (in.kind == 'H' && i >= 2) ? 1 : scale;
    double d = std::abs(c[i] - r.x(m.cmd[i])) / sc;
    if (d > worst) { worst = d; wi = i; }
  }
  st.mx("optimality_gap_rel", worst);
  double tol = in.kind == 'H' ? 5e-3 : 1e-5;
  if (worst > tol) {
    // confirm through the cost: fixing the published command must cost more than the optimum
    Qp q = m.q; for (size_t i = 0; i < m.cmd.size(); ++i) q.con(Aff::var(q.n, m.cmd[i]), c[i], c[i], TAG_FIX);
    gi::Result r2 = solveQp(q, 1e-7, true, m.scale);
    double c0 = m.q.cost(r.x), c1 = r2.status == gi::SOLVED ? m.q.cost(r2.x) : 1e300;
    if (in.kind == 'H') {
      // support polygons are rounded to 1e-4 by design: judge by the optimum of slightly relaxed problems
      gi::Result ra = solveQp(m.q, 4e-4, true, m.scale);
      if (ra.status == gi::SOLVED) {
        double spread = 0; for (size_t i = 0; i < m.cmd.size(); ++i) spread = std::max(spread, std::abs(ra.x(m.cmd[i]) - r.x(m.cmd[i])) / ((i >= 2) ? 1 : scale));
        st.mx("optimality_spread", spread);
        if (worst < 4 * spread) { st.add("skipped_sensitive"); return; }
      }
    }
    if (r2.status != gi::SOLVED && r2.status != gi::INFEASIBLE) { st.add("inconclusive"); return; }
    if (c1 - c0 < 1e-13 * (1 + std::abs(c0))) { st.add("skipped_flat"); return; }
    fail("not-optimal", fmt("published command %.9g, optimal plan has %.9g (cost %.9g against %.9g)", c[wi], r.x(m.cmd[wi]), c1, c0) + " component " + std::to_string(wi));
  }
}

void checkIntegral(Exec& e, const Inst& in, const Tick& k) {
  const double f = k.f;
  for (auto& ax : axes(in.kind)) {
    S3 b = s3(k.b, ax.off), a = s3(k.a, ax.off);
    double v = b[1] + f * (b[2] + a[2]) / 2, p = b[0] + f * b[1] + f * f * (2 * b[2] + a[2]) / 6;
    double j = (a[2] - b[2]) / f;
    double sp = std::abs(b[0]) + std::abs(f * b[1]) + f * f * (std::abs(b[2]) + std::abs(a[2])), sv = std::abs(b[1]) + f * (std::abs(b[2]) + std::abs(a[2]));
    double eps = in.isFloat ? 3e-6 : 1e-11;
    if (std::abs(a[1] - v) > eps * (sv + 1e-3) || std::abs(a[0] - p) > eps * (sp + 1e-3))
      fail("not-integral", std::string(ax.name) + fmt(": published pos %.12g vel %.12g, the constant-jerk integral gives %.12g %.12g", a[0], a[1], p, v));
    if (in.kind == 'T' && std::abs(a[2] - (b[2] + f * k.a[3])) > eps * (1 + std::abs(b[2]) + f * std::abs(k.a[3])))
      fail("jerk-mismatch", fmt("published jerk %.12g, acceleration changed by %.12g in %.4g (jerk %.12g)", k.a[3], a[2] - b[2], f, j));
  }
  if (in.kind == 'H') {
    double hh = in.isFloat ? static_cast<double>(static_cast<float>(in.h.h)) : in.h.h;
    if (k.a[6] != hh || k.a[7] != 0 || k.a[8] != 0) fail("com-height", fmt("com height published as %.9g %.9g %.9g", k.a[6], k.a[7], k.a[8]));
  }
  e.o.st.add("integrals_checked");
}

void checkConfigNeutral(Exec& e, const Inst& in, const Op& op, const VD& b, const VD& a) {
  VD x = b;
  auto set3 = [&](int o, size_t i) { for (int c = 0; c < 3; ++c) { double v = op.a[i + c]; x[o + c] = in.isFloat ? static_cast<double>(static_cast<float>(v)) : v; } };
  size_t n = b.size();
  if (in.kind == 'T') { n = 3; if (op.n == "state") set3(0, 0); }
  if (in.kind == 'Z') { if (op.n == "sX") set3(0, 0); if (op.n == "sY") set3(3, 0); if (op.n == "cX") set3(6, 0); if (op.n == "cY") set3(9, 0); }
  if (in.kind == 'H') {
    if (op.n == "cX") set3(0, 0);
    if (op.n == "cY") set3(3, 0);
    if (op.n == "h") { x[6] = in.isFloat ? static_cast<double>(static_cast<float>(op.a[0])) : op.a[0]; x[7] = x[8] = 0; }
    if (op.n == "lf") { set3(9, 0); set3(12, 3); set3(15, 6); }
    if (op.n == "rf") { set3(18, 0); set3(21, 3); set3(24, 6); }
  }
  for (size_t i = 0; i < n; ++i) if (x[i] != a[i]) fail("setter-moves-robot", "after " + op.n + fmt(" published component %.0f is %.9g instead of %.9g", double(i), a[i], x[i]));
  e.o.st.add("setters_checked");
}

void checkGait(Exec& e, const Inst& in, const Tick& k) {
  // which feet may move
  for (int leg = 0; leg < 2; ++leg) {
    bool moves = k.flying && k.leg == leg;
    int o = leg == 0 ? 9 : 18;
    if (!moves) {
      for (int i = 0; i < 9; ++i) if (k.a[o + i] != k.b[o + i])
        fail("stance-foot-moved", std::string(leg == 0 ? "left" : "right") + fmt(" foot must be on the ground and still, component %.0f went from %.9g to %.9g", i, k.b[o + i], k.a[o + i]));
      // single precision leaves a residue which scales like the swing itself
      double tf = std::max(1e-3, in.h.SP - in.h.T), z = std::abs(k.a[o + 6]) + std::abs(k.a[o + 7]) * tf + std::abs(k.a[o + 8]) * tf * tf;
      if (z > (in.isFloat ? 1e-3 * (1 + in.h.hmax[leg]) : 1e-6)) fail("stance-foot-in-air", std::string(leg == 0 ? "left" : "right") + fmt(" foot must be on the ground and still, its height is %.6g (vel %.6g acc %.6g)", k.a[o + 6], k.a[o + 7], k.a[o + 8]));
    } else {
      double d = 0; for (int i = 6; i < 9; ++i) d += std::abs(k.a[o + i] - k.b[o + i]);
      const bool up = k.tNext - 0.5 * (k.fsm.dur - in.h.T) >= k.f - 1e-4;
      if (d == 0 && (up ? std::abs(in.h.hmax[leg] - k.b[o + 6]) + std::abs(k.b[o + 7]) * k.f > 0.01 : k.b[o + 6] > 1e-3) && k.f < 0.5 * (k.fsm.dur - in.h.T) - 1e-3) fail("swing-foot-still", std::string(leg == 0 ? "left" : "right") + " foot must be swinging, but its height does not change");
    }
  }
  e.o.st.add("gait_ticks_checked");
}

void checkSwing(Exec& e, const Inst& in, const Tick& k) {
  if (!k.flying) return;
  int o = k.leg == 0 ? 9 : 18;
  double fly = k.fsm.dur - in.h.T, eps = in.isFloat ? 2e-3 : 1e-7;
  S3 z = s3(k.b, o + 6), za = s3(k.a, o + 6), ref;
  bool down = k.tNext - fly * 0.5 < k.f - 1e-4;
  if (down) ref = swing(z, 0, k.tNext, k.f); else ref = swing(z, in.h.hmax[k.leg], k.tNext - fly * 0.5, k.f);
  double Trem = down ? k.tNext : k.tNext - fly * 0.5;
  const double sc[3] = {1, 1 / Trem, 1 / (Trem * Trem)};
  double mag = std::max({std::abs(z[0]), std::abs(z[1]) * Trem, std::abs(z[2]) * Trem * Trem, in.h.hmax[k.leg], 1e-3});
  for (int i = 0; i < 3; ++i) if (std::abs(za[i] - ref[i]) > eps * 10 * mag * sc[i] * (in.isFloat ? 10 : 1))
    fail("swing-height", fmt("swing foot height component %.0f is %.9g, expected %.9g (time to touchdown %.4g)", i, za[i], ref[i], k.tNext));
  if (k.goalKnown && !in.isFloat) for (int ax = 0; ax < 2; ++ax) {
    S3 b = s3(k.b, o + 3 * ax), a = s3(k.a, o + 3 * ax), r = swing(b, ax == 0 ? k.goal.x : k.goal.y, k.tNext, k.f);
    const double s2[3] = {1, 1 / k.tNext, 1 / (k.tNext * k.tNext)};
    double m2 = std::max({std::abs(b[0]), std::abs(b[1]) * k.tNext, std::abs(b[2]) * k.tNext * k.tNext, std::abs(ax == 0 ? k.goal.x : k.goal.y), 1e-2});
    for (int i = 0; i < 3; ++i) if (std::abs(a[i] - r[i]) > 1e-5 * m2 * s2[i])
      fail("swing-plan", fmt("swing foot horizontal component %.0f is %.9g, no landing point explains it (closest %.9g)", i, a[i], r[i]));
  }
  // touchdown
  if (k.tNext - k.f < 1e-4) {
    double tv = in.isFloat ? 5e-2 : 1e-5;
    for (int ax = 0; ax < 3; ++ax) {
      S3 a = s3(k.a, o + 3 * ax), b = s3(k.b, o + 3 * ax);
      double m2 = 1 + std::abs(b[0]) + std::abs(b[1]) + std::abs(b[2]) + std::abs(a[0]) / (k.f * k.f);
      if (ax == 2 && std::abs(a[0]) > tv * m2) fail("touchdown", fmt("swing foot lands at height %.9g", a[0]));
      if (std::abs(a[1]) > tv * m2 || std::abs(a[2]) > tv * m2 * 10) fail("touchdown", fmt("swing foot axis %.0f touches down with velocity %.9g acceleration %.9g", ax, a[1], a[2]));
    }
    e.o.st.add("touchdowns_checked");
  }
  if (!down && k.tNext - k.f - fly * 0.5 < 1e-4) {
    if (std::abs(za[0] - in.h.hmax[k.leg]) > (in.isFloat ? 2e-3 : 1e-6)) fail("apex", fmt("swing foot at %.9g at mid-swing, configured height %.9g", za[0], in.h.hmax[k.leg]));
    e.o.st.add("apexes_checked");
  }
  e.o.st.add("swing_ticks_checked");
}

// the solver has delivered nothing since the tick m was built for; `popped` steps of that plan have been
// completed since, and the swing foot must be on its way to the next step of the same plan
void checkKeptStep(Exec& e, const Model& m, int N, int M, int popped, const P2& goal) {
  Stats& st = e.o.st;
  gi::Result r = solveQp(m.q, 0, true, m.scale);
  if (r.status != gi::SOLVED) { st.add("reference_unsolved"); return; }
  const int v[2] = {2 * N + popped, 2 * N + M + popped}; const double g[2] = {goal.x, goal.y};
  st.add(popped ? "kept_next_steps_checked_H" : "kept_steps_checked_H");
  const double worst = std::max(std::abs(g[0] - r.x(v[0])), std::abs(g[1] - r.x(v[1])));
  st.mx("kept_step_gap", worst);
  if (worst < 2e-3 * (1 + std::hypot(g[0], g[1]))) return;
  Qp q = m.q; for (int i = 0; i < 2; ++i) q.con(Aff::var(q.n, v[i]), g[i], g[i], TAG_FIX);
  gi::Result r2 = solveQp(q, 4e-4, true, m.scale), ra = solveQp(m.q, 4e-4, true, m.scale);
  if (ra.status != gi::SOLVED || (r2.status != gi::SOLVED && r2.status != gi::INFEASIBLE)) { st.add("inconclusive"); return; }
  const double spread = std::max(std::abs(ra.x(v[0]) - r.x(v[0])), std::abs(ra.x(v[1]) - r.x(v[1])));
  if (worst < 4 * spread) { st.add("skipped_sensitive"); return; }
  const double c0 = m.q.cost(ra.x), c1 = r2.status == gi::SOLVED ? m.q.cost(r2.x) : 1e300;
  if (c1 - c0 < 1e-7 * (1 + std::abs(c0))) { st.add("skipped_flat"); return; }
  fail("plan-not-kept", fmt("solver delivered nothing, and the next step goes to %.6g %.6g, planned to %.6g %.6g", g[0], g[1], r.x(v[0]), r.x(v[1])));
}

// ---------------------------------------------------------------- runners
std::unique_ptr<Inst> mk(const Trace& t) { return makeInst(t.kind[0], t.get("float") != 0); }

void runSingle(Exec& e) {
  const Trace& t = e.t; const std::string& P = t.prop;
  std::unique_ptr<Inst> in = mk(t);
  bool havePrevJ = true; std::vector<double> prevJ(axes(in->kind).size(), 0.0);
  bool calm = false; int calmTicks = 0; bool started = false, virgin = true;
  struct { bool on = false, cop = false, move = false; int N = 0; double z[2] = {0, 0}; } keep;
  struct { bool on = false; int N = 0, M = 0, popped = 0; Model m; } plan;
  // C16
  struct { bool on = false; bool pos = false; VD start, ref; int n = 0; bool allOk = true; double px = 0, py = 0, tt = 0, refV[2] = {0, 0}, err0 = 0; int fails = 0; std::vector<VD> hist; std::vector<double> ts; } c16;
  for (auto& op : t.ops) {
    if (op.n == "calm") {
      calm = op.a[0] != 0; calmTicks = 0;
      if (calm && P == "C16") { c16.on = true; c16.start = in->pub(); c16.ref = c16.start; }
      continue;
    }
    Tick k; VD b = in->pub(); const Op real = resolve(*in, op);
    const bool wasStepping = in->kind == 'H' && in->fsm.type != Fsm::DS;
    Exec::R r = e.step(*in, op, k, true);
    if (r == Exec::SKIP) continue;
    if (r == Exec::CFG) {
      if (P == "C02") checkConfigNeutral(e, *in, real, b, in->pub());
      if (op.n == "move" || op.n == "N") keep.on = false;
      if (op.n == "move" || op.n == "N" || op.n == "T" || op.n == "SP" || op.n == "DS") plan.on = false;
      if (started && (op.n == "N" || op.n == "lf" || op.n == "rf" || op.n == "foot" || op.n == "kinL" || op.n == "kinR")) virgin = false;
      if (op.n == "N") { prevJ.assign(prevJ.size(), 0.0); havePrevJ = in->kind != 'H'; }
      continue;
    }
    started = true;
    if (P == "C01" || P == "C04" || P == "C08") checkCertificate(e, *in, k);
    if (P == "C03" || P == "C05" || P == "C09") checkOptimal(e, *in, k);
    if (P == "C02") checkIntegral(e, *in, k);
    if (P == "C06") checkGait(e, *in, k);
    if (P == "C07") checkSwing(e, *in, k);
    if (P == "C12") {
      if (k.r.calls < 1) fail("no-solve", "a tick did not consult the solver");
      bool want = k.r.failures == 0;
      if (k.r.ok != want) fail(want ? "success-reported-failed" : "failure-reported-solved",
        fmt("solver returned %.0f, tick reported ok=%.0f", k.r.lastRet, k.r.ok));
      if (in->kind != 'H' && !k.r.touched && havePrevJ) {
        std::vector<double> j = k.jerk(in->kind);
        for (size_t i = 0; i < j.size(); ++i) {
          double tol = (in->isFloat ? 1e-5 : 1e-10) * (1 + std::abs(j[i]) + (std::abs(k.a[axes(in->kind)[i].off + 2]) + std::abs(k.b[axes(in->kind)[i].off + 2])) / k.f);
          if (std::abs(j[i] - prevJ[i]) > tol) fail("plan-not-kept", fmt("solver delivered nothing, yet the command changed from %.9g to %.9g", prevJ[i], j[i]));
        }
        e.o.st.add("kept_plans_checked");
      }
      if (in->kind == 'H') {
        // the plan of the humanoid: where the swing foot lands, and the centre of pressure relative to the support
        double zc[2]; bool cop = allFinite(k.a) && k.fsm.phaseOf[0] == 0;
        if (cop) for (int ax = 0; ax < 2; ++ax) {
          const double S = k.fsm.toSample(in->h.T); S3 s = integrate(s3(k.b, 3 * ax), k.jerk('H')[ax], S);
          const double l = k.b[9 + 3 * ax], r2 = k.b[18 + 3 * ax];
          zc[ax] = s[0] - in->h.h / 9.81 * s[2] - (k.fsm.type == Fsm::RIGHT ? r2 : k.fsm.type == Fsm::DS && !in->h.move ? (l + r2) / 2 : l);
        }
        const bool same = !k.popped && keep.on && keep.move == in->h.move && keep.N == in->h.N;
        if (!k.r.touched && same) {
          const double tol = in->isFloat ? 5e-2 : 2e-3;
          if (cop && keep.cop) for (int ax = 0; ax < 2; ++ax) if (std::abs(zc[ax] - keep.z[ax]) > tol * (1 + std::abs(keep.z[ax])))
            fail("plan-not-kept", fmt("solver delivered nothing, yet the planned centre of pressure changed from %.9g to %.9g", keep.z[ax], zc[ax]));
          if (k.prevKnown && k.goalKnown && std::hypot(k.goal.x - k.prev.x, k.goal.y - k.prev.y) > tol * (1 + std::hypot(k.prev.x, k.prev.y)) * (in->isFloat ? 1 : 1e-2))
            fail("plan-not-kept", fmt("solver delivered nothing, yet the landing position changed from %.9g %.9g to %.9g %.9g", k.prev.x, k.prev.y, k.goal.x, k.goal.y));
          e.o.st.add("kept_plans_checked_H");
        }
        if (k.r.touched) {
          plan.on = false;
          if (k.r.ok && !k.r.injected() && !in->isFloat && k.fsm.M > 0) {
            plan.m = modelOf(*in, k);
            if (plan.m.usable && plan.m.exact) { plan.on = true; plan.N = in->h.N; plan.M = k.fsm.M; plan.popped = 0; }
          }
        } else if (plan.on) {
          if (k.popped && wasStepping) ++plan.popped;
          if (plan.popped >= plan.M) plan.on = false;
          else if (k.flying && k.goalKnown) checkKeptStep(e, plan.m, plan.N, plan.M, plan.popped, k.goal);
        }
        // never a plan delivered: the steps previewed by default are reachable ones
        if (k.r.touched) virgin = false;
        if (virgin && k.flying && k.goalKnown && !in->isFloat) {
          const int o = k.leg == 0 ? 18 : 9; const Poly& kp = in->h.kin[k.leg == 0 ? 1 : 0];
          const double x = k.goal.x - k.b[o], y = k.goal.y - k.b[o + 3];
          for (size_t i = 0; i < kp.size(); ++i) {
            const P2 &u = kp[i], &w = kp[(i + 1) % kp.size()]; double dx = w.x - u.x, dy = w.y - u.y, l = std::hypot(dx, dy);
            if (l > 1e-9 && (dx * (y - u.y) - dy * (x - u.x)) / l < -1e-3 * (1 + std::abs(x) + std::abs(y)))
              fail("garbage-plan", fmt("the solver never delivered anything, and the swing foot goes to %.6g %.6g relative to the support foot, out of its reach", x, y));
          }
          e.o.st.add("default_steps_checked");
        }
        keep.on = true; keep.cop = cop; keep.move = in->h.move; keep.N = in->h.N; keep.z[0] = zc[0]; keep.z[1] = zc[1];
      }
      e.o.st.add("reports_checked");
    }
    prevJ = k.jerk(in->kind); havePrevJ = true;
    if (P == "C13" && calm) {
      ++calmTicks;
      if (calmTicks >= 1) { checkOptimal(e, *in, k, true); e.o.st.add("recoveries_checked"); }
    }
    if (P == "C16" && c16.on) {
      ++c16.n; c16.tt += k.f;
      if (!k.r.ok) { ++c16.fails; }
      c16.hist.push_back(k.a); c16.ts.push_back(c16.tt);
      if (in->kind != 'H') {
        Tick kr = k; kr.b = c16.ref; Model m = modelOf(*in, kr);
        gi::Result rr = solveQp(m.q, 0, true, m.scale);
        if (rr.status != gi::SOLVED) { c16.on = false; e.o.st.add("reference_unsolved"); continue; }
        auto ax = axes(in->kind);
        for (size_t i = 0; i < ax.size(); ++i) { S3 s = integrate(s3(c16.ref, ax[i].off), rr.x(m.cmd[i]), k.f); for (int c = 0; c < 3; ++c) c16.ref[ax[i].off + c] = s[c]; }
      }
    }
  }
  if (P == "C16" && c16.on && c16.n > 20) {
    bool pos = t.get("pos") != 0;
    if (in->kind != 'H') {
      double e0 = 0, e1 = 0, er = 0;
      int na = in->kind == 'T' ? 1 : 2;
      for (int i = 0; i < na; ++i) {
        int o = 3 * i; double target = in->kind == 'T' ? (pos ? in->t.pref.a : in->t.vref.a) : (pos ? in->z.pref[i].a : in->z.vref[i].a);
        int c = pos ? 0 : 1;
        VD a = c16.hist.back();
        e0 = std::max(e0, std::abs(c16.start[o + c] - target)); e1 = std::max(e1, std::abs(a[o + c] - target)); er = std::max(er, std::abs(c16.ref[o + c] - target));
      }
      if (er < 0.03 * (1 + e0)) {
        if (c16.fails && t.get("lim") != 0) { e.o.st.add("limited_run_had_unsolved_ticks"); return; }
        e.o.st.add("convergences_checked"); if (t.get("lim") != 0) e.o.st.add("convergences_checked_with_limits");
        if (c16.fails) fail("unsolved-while-calm", fmt("%.0f unconstrained ticks reported failed with a healthy solver", c16.fails));
        if (t.get("lim") != 0 ? e1 > 0.06 * (1 + e0) : e1 > er + 2e-3 * (0.1 + e0)) fail("no-convergence", fmt("after %.0f calm ticks the tracking error is %.4g (started at %.4g, reference controller reaches %.4g)", c16.n, e1, e0, er));
      } else e.o.st.add("reference_not_convergent");
    } else if (t.get("stand") != 0) {
      double om = std::sqrt(9.81 / in->h.h), cpx = c16.start[0] + c16.start[1] / om - (c16.start[9] + c16.start[18]) / 2, cpy = c16.start[3] + c16.start[4] / om - (c16.start[12] + c16.start[21]) / 2;
      if (std::hypot(cpx, cpy) > 0.12 && t.get("faulty") != 0) { e.o.st.add("calm_start_not_recoverable"); return; }
      if (c16.fails && t.get("faulty") != 0) return;
      const VD& b = c16.hist.back(); double mx = (b[9] + b[18]) / 2, my = (b[12] + b[21]) / 2;
      e.o.st.mx("stand_speed", std::hypot(b[1], b[4])); e.o.st.mx("stand_offset", std::hypot(b[0] - mx, b[3] - my));
      e.o.st.add("convergences_checked"); e.o.st.add("stands_checked");
      if (c16.fails) fail("unsolved-while-calm", fmt("%.0f ticks reported failed with a healthy solver and no disturbance", c16.fails));
      if (!in->fsm.standing()) fail("not-standing", "told to stop long ago, but still stepping");
      if (std::hypot(b[1], b[4]) > 0.02) fail("no-convergence", fmt("standing, but still moving at %.4g %.4g", b[1], b[4]));
      if (std::hypot(b[0] - mx, b[3] - my) > 0.15) fail("no-convergence", fmt("standing, but the centre of mass is %.4g %.4g away from the middle of the feet", b[0] - mx, b[3] - my));
    } else {
      // average over whole gait cycles (two steps): the lateral sway cancels out
      int n = static_cast<int>(c16.hist.size()); double te = c16.ts.back(), cyc = 2 * in->h.SP;
      int nc = static_cast<int>(std::floor(0.5 * te / cyc)); if (nc < 1) nc = 1;
      double dt = nc * cyc, t0 = te - dt;
      if (t0 <= c16.ts[0] || !in->h.move) { e.o.st.add("walk_too_short"); return; }
      int i0 = 0; while (i0 + 1 < n && c16.ts[i0 + 1] <= t0 + 1e-9) ++i0;
      double al = i0 + 1 < n ? std::min(1.0, std::max(0.0, (t0 - c16.ts[i0]) / (c16.ts[i0 + 1] - c16.ts[i0]))) : 0;
      const VD &A0 = c16.hist[i0], &A1 = c16.hist[std::min(i0 + 1, n - 1)], &b = c16.hist.back();
      double vx = (b[0] - A0[0] * (1 - al) - A1[0] * al) / dt, vy = (b[3] - A0[3] * (1 - al) - A1[3] * al) / dt;
      // disturbances before the calm phase may have made the fall unavoidable
      double om = std::sqrt(9.81 / in->h.h), cpx = c16.start[0] + c16.start[1] / om - (c16.start[9] + c16.start[18]) / 2, cpy = c16.start[3] + c16.start[4] / om - (c16.start[12] + c16.start[21]) / 2;
      e.o.st.mx("walk_start_capture", std::hypot(cpx, cpy));
      if (std::hypot(cpx, cpy) > 0.12 && t.get("faulty") != 0) { e.o.st.add("calm_start_not_recoverable"); return; }
      e.o.st.mx("walk_speed_error_x", std::abs(vx - in->h.vref[0].a)); e.o.st.mx("walk_speed_error_y", std::abs(vy - in->h.vref[1].a));
      double dev = 0; for (auto& p : c16.hist) { double mx = (p[9] + p[18]) / 2, my = (p[12] + p[21]) / 2; dev = std::max(dev, std::hypot(p[0] - mx, p[3] - my)); }
      e.o.st.mx("walk_com_offset", dev);
      e.o.st.add("convergences_checked"); e.o.st.add("calm_walk_ticks_failed", c16.fails);
      if (t.get("faulty") == 0 || c16.fails == 0) {
        if (c16.fails) fail("unsolved-while-calm", fmt("%.0f walking ticks reported failed with a healthy solver and no disturbance", c16.fails));
        if (dev > 0.6) fail("fell", fmt("centre of mass %.4g m away from the feet", dev));
        if (std::abs(vx - in->h.vref[0].a) > 0.05 + 0.3 * std::abs(in->h.vref[0].a) || std::abs(vy - in->h.vref[1].a) > 0.05 + 0.3 * std::abs(in->h.vref[1].a))
          fail("no-convergence", fmt("walks at %.4g %.4g, reference %.4g %.4g", vx, vy, in->h.vref[0].a, in->h.vref[1].a));
      }
    }
  }
}

// settings of `in`, as operations in a random order, for a fresh instance
std::vector<Op> settingsOps(const Inst& in, uint64_t seed) {
  Rng r(seed); std::vector<Op> o; auto P = [](const PR& p) { return VD{p.a, p.b, p.c, double(p.k0)}; };
  auto cat = [](VD a, const VD& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  auto pl = [](const Poly& p) { VD v; for (auto& q : p) { v.push_back(q.x); v.push_back(q.y); } return v; };
  VD p = in.pub(); auto st = [&](int i) { return VD{p[i], p[i + 1], p[i + 2]}; };
  if (in.kind == 'T') {
    const TrajCfg& c = in.t;
    o = {Op("N", {double(c.N)}), Op("T", {c.T}), Op("W", {c.wv, c.wp, c.wj}), Op("C", {double(c.con)}), Op("V", {c.V}), Op("A", {c.A}), Op("J", {c.J}), Op("vref", P(c.vref)), Op("pref", P(c.pref)), Op("state", st(0))};
    r.shuffle(o);
  } else if (in.kind == 'Z') {
    const ZebCfg& c = in.z;
    o = {Op("N", {double(c.N)}), Op("T", {c.T}), Op("W", VD(c.w, c.w + 7)), Op("C", {double(c.con[0]), double(c.con[1]), double(c.con[2]), double(c.con[3])}), Op("g", {c.g[0], c.g[1], c.g[2]}),
         Op("hb", {c.hb}), Op("hB", {c.hB}), Op("m", {c.m}), Op("M", {c.M}), Op("vref", cat(P(c.vref[0]), P(c.vref[1]))), Op("pref", cat(P(c.pref[0]), P(c.pref[1]))),
         Op("V", {c.V}), Op("A", {c.A}), Op("J", {c.J}), Op("sX", st(0)), Op("sY", st(3)), Op("cX", st(6)), Op("cY", st(9)),
         Op("sR", VD(c.roll.begin(), c.roll.end())), Op("sP", VD(c.pitch.begin(), c.pitch.end())), Op("sYaw", VD(c.yaw.begin(), c.yaw.end())), Op("tX", {c.tX}), Op("tY", {c.tY})};
    if (c.M == 0) o.erase(std::find_if(o.begin(), o.end(), [](const Op& x) { return x.n == "M"; }));  // never set
    if (c.copP.size() >= 3) o.push_back(Op(r.p(0.5) ? "copP" : "copH", pl(c.copP)));
    if (c.comP.size() >= 3) o.push_back(Op(r.p(0.5) ? "comP" : "comH", pl(c.comP)));
    r.shuffle(o);
    // the tilt weights are only legal with the final geometry
    if (c.w[5] > 0 || c.w[6] > 0) { auto w = std::find_if(o.begin(), o.end(), [](const Op& x) { return x.n == "W"; }); Op keep = *w; o.erase(w); o.push_back(keep); }
    o.push_back(Op("copraw", c.copRef)); o.push_back(Op("comraw", c.comRef));
  } else {
    const HumCfg& c = in.h;
    o = {Op("N", {double(c.N)}), Op("SP", {c.SP}), Op("DS", {c.DS}), Op("kinL", pl(c.kin[0])), Op("kinR", pl(c.kin[1])), Op("copL", pl(c.cop[0])), Op("copR", pl(c.cop[1])),
         Op("hL", {c.hmax[0]}), Op("hR", {c.hmax[1]}), Op("h", {c.h}), Op("vref", cat(P(c.vref[0]), P(c.vref[1]))), Op("W", {c.wv, c.wj, c.wc}), Op("C", {double(c.conCop), double(c.conFeet)}),
         Op("cX", st(0)), Op("cY", st(3)),
         Op("lf", {p[9], p[10], p[11], p[12], p[13], p[14], p[15], p[16], p[17]}), Op("rf", {p[18], p[19], p[20], p[21], p[22], p[23], p[24], p[25], p[26]})};
    std::vector<Op> k; for (auto& x : o) if (!x.a.empty()) k.push_back(x);
    o = k; r.shuffle(o);
    o.insert(o.begin(), Op("T", {c.T}));
  }
  return o;
}

// compares two controllers that must behave alike. tol: relative to the magnitudes
void compare(Exec& e, const Inst& in, const VD& a, const VD& b, double tolP, double f, const char* cls, const char* what) {
  for (size_t i = 0; i < a.size(); ++i) {
    double sc = 1 + std::abs(a[i]) + std::abs(b[i]);
    // velocities and accelerations of feet scale with 1/f
    if (in.kind == 'H' && i >= 9) { int c = (i - 9) % 3; if (c == 1) sc += 1 / f; if (c == 2) sc += 1 / (f * f); }
    if (in.kind == 'H' && i < 9 && i % 3 == 2) sc += 1 / f;
    e.o.st.mx(std::string("twin_gap_") + in.kind, std::abs(a[i] - b[i]) / sc);
    if (!(std::abs(a[i] - b[i]) <= tolP * sc)) fail(cls, std::string(what) + fmt(": published component %.0f is %.9g in one and %.9g in the other", double(i), a[i], b[i]));
  }
}
// Is the published command as good as the optimal one up to rounding? Two commands which both are
// may differ noticeably when the optimum is flat.
bool optimalUpToRounding(const Inst& in, const Tick& k) {
  Model m = modelOf(in, k); if (!m.usable || !m.exact) return false;
  std::vector<double> c = cmdOf(in, k, m.cmd.size());
  if (m.cmd.size() > c.size() || (m.cmd.size() > 2 && in.kind == 'H' && !k.goalKnown)) return false;
  gi::Result r = solveQp(m.q, 0, true, m.scale); if (r.status != gi::SOLVED) return false;
  Qp q = m.q; for (size_t i = 0; i < m.cmd.size(); ++i) q.con(Aff::var(q.n, m.cmd[i]), c[i], c[i], TAG_FIX);
  gi::Result r2 = solveQp(q, 1e-7, true, m.scale);
  double c0 = m.q.cost(r.x);
  return r2.status == gi::SOLVED && m.q.cost(r2.x) - c0 < 1e-12 * (1 + std::abs(c0));
}
// the twins' published motions, unless they differ because the optimum is flat
bool sameMotion(Exec& e, const Inst& ia, const Tick& ka, const VD& a, const Inst& ib, const Tick& kb, double tol, const char* cls, const char* what) {
  try { compare(e, ia, a, kb.a, tol, ka.f, cls, what); }
  catch (Fail&) {
    if (!physical(ia.kind, a) && !physical(ib.kind, kb.a)) throw Diverged();
    if (ka.r.injected() || kb.r.injected() || ia.kind == 'H' || !optimalUpToRounding(ia, ka) || !optimalUpToRounding(ib, kb)) throw;
    e.o.st.add("skipped_flat"); return false;
  }
  return true;
}
// Rounding differences grow in a closed loop that is unstable (bang-bang commands of a badly
// configured controller): once noticeable, but far below the tolerance, the twin is set back on the
// published state of the other one, so that every tick is compared from the same state.
void resync(Exec& e, Inst& tw, const VD& want, double above) {
  VD have = tw.pub(); double g = 0;
  size_t n = tw.kind == 'T' ? 3 : tw.kind == 'H' ? 6 : have.size();
  for (size_t i = 0; i < n; ++i) g = std::max(g, std::abs(have[i] - want[i]) / (1 + std::abs(want[i])));
  if (g <= above) return;
  auto st = [&](int i) { return VD{want[i], want[i + 1], want[i + 2]}; };
  if (tw.kind == 'T') tw.apply(Op("state", st(0)));
  else if (tw.kind == 'H') { tw.apply(Op("cX", st(0))); tw.apply(Op("cY", st(3))); }
  else { tw.apply(Op("sX", st(0))); tw.apply(Op("sY", st(3))); tw.apply(Op("cX", st(6))); tw.apply(Op("cY", st(9))); }
  e.o.st.add("twin_resyncs");
}
// both reported, at least one unsolved without injected fault: is the disagreement excusable?
bool settle(Exec& e, const Inst& in, const Tick& ka, const Tick& kb, double dmin = 0) {
  if (ka.r.ok && kb.r.ok) return true;
  if (ka.r.numeric || kb.r.numeric) { e.o.st.add("twins_solver_gave_up"); return false; }
  if (ka.r.ok == kb.r.ok) { e.o.st.add("twins_both_unsolved"); return false; }
  Model m = modelOf(in, ka);
  if (m.usable && m.exact) {
    double d = std::max(dmin, in.isFloat ? 5e-3 : relaxOf(in));
    if (feasible(m.q, -20 * d, m.scale) || solveQp(m.q, 3 * d, false, m.scale).status == gi::INFEASIBLE) fail("twin-report", fmt("one reports ok=%.0f, the other ok=%.0f for the same problem", ka.r.ok, kb.r.ok));
  }
  e.o.st.add("twins_borderline");
  return false;
}

void runSync(Exec& e) {
  const Trace& t = e.t; const char* what = t.prop == "C10" ? "same settings reached through different histories" : "continued and restarted controller";
  std::unique_ptr<Inst> in = mk(t), tw; Exec e2(t, e.o);
  for (auto& op : t.ops) {
    if (op.n == "sync" || op.n == "syncif") {
      if (in->kind == 'H') {
        if (tw) continue;
        bool fresh = !in->everTicked && in->fsm.tNext == in->h.DS;
        bool ok = in->fsm.standing() && !in->h.move && ((in->fsm.atBoundary() && in->fsm.haveNext && in->fsm.next.type == Fsm::DS && std::abs(in->fsm.next.dur - in->h.DS) < 1e-9) || fresh);
        if (!ok || in->h.kin[0].size() < 3 || in->h.kin[1].size() < 3) continue;
        VD p = in->pub();   // feet at rest (an injected solver failure can leave a foot short of touchdown)
      }
      std::vector<Op> s = settingsOps(*in, static_cast<uint64_t>(op.a[0]) * 7919 + 13);
      tw = makeInst(in->kind, in->isFloat);
      Tick k;
      for (auto& o : s) { if (o.n == "copraw" || o.n == "comraw") e.step(*in, o, k, false); e2.step(*tw, o, k, false); }
      e.o.st.add(t.prop == "C17" ? "fault.crash_restart" : "probe.fresh_twin"); e.o.nontrivial = true;
      VD pa = in->pub(), pb = tw->pub();
      if (in->kind == 'T') { pa.resize(3); pb.resize(3); }   // the last command is not part of the state
      compare(e, *in, pa, pb, 1e-15, 1, "state-not-taken", "state set from the published one");
      continue;
    }
    Tick ka, kb;
    Exec::R r = e.step(*in, op, ka, true);
    if (!tw) continue;
    Exec::R r2 = e2.step(*tw, op, kb, false);
    if (r != r2) throw HarnessError("twins disagree about the legality of " + op.n);
    if (r != Exec::TICK) continue;
    if (!settle(e, *in, ka, kb)) { tw.reset(); continue; }
    if (in->kind == 'H') { Model m = modelOf(*in, ka); if (!m.usable || !m.exact) { e.o.st.add("skipped_ambiguous"); tw.reset(); continue; } }
    if (!sameMotion(e, *in, ka, ka.a, *tw, kb, in->isFloat ? 1e-2 : in->kind == 'H' ? 1e-4 : 3e-5, "twin-diverged", what)) { tw.reset(); continue; }
    if (!in->isFloat) resync(e, *tw, ka.a, 1e-9);
    e.o.st.add("twin_ticks_compared");
  }
}

void runIsolation(Exec& e) {
  const Trace& t = e.t;
  std::vector<uint64_t> first; 
  {
    dirty(static_cast<int>(t.seed % 256));
    Exec e1(t, e.o); std::unique_ptr<Inst> in = mk(t);
    for (auto& op : t.ops) {
      if (op.n.compare(0, 2, "b:") == 0 || op.n == "dirty") continue;
      Tick k; Exec::R r = e1.step(*in, op, k, false);
      Hash h; h.i(r); for (double x : in->pub()) h.d(x); h.i(k.r.ok);
      first.push_back(h.h);
    }
  }
  {
    dirty(static_cast<int>((t.seed >> 8) % 256) ^ 0xA5);
    Exec eb(t, e.o); std::unique_ptr<Inst> in = mk(t), b = makeInst(static_cast<char>(t.get("kindB", 'T')), t.get("floatB") != 0);
    size_t i = 0; RunOut dummy; Exec ed(t, dummy);
    for (auto& op : t.ops) {
      Tick k;
      if (op.n == "dirty") { e.step(*in, op, k, true); continue; }
      if (op.n.compare(0, 2, "b:") == 0) {
        Op o2 = op; o2.n = op.n.substr(2);
        try { ed.step(*b, o2, k, false); } catch (Fail&) {}
        e.o.st.add("probe.interleaved_foreign_op");
        continue;
      }
      Exec::R r = e.step(*in, op, k, true);
      Hash h; h.i(r); for (double x : in->pub()) h.d(x); h.i(k.r.ok);
      if (i >= first.size() || h.h != first[i]) fail("interference", "same calls, different published motion when another controller runs interleaved and the heap content differs (op " + op.n + ")");
      ++i; e.o.st.add("bitwise_comparisons");
    }
  }
}

// --- symmetries
struct Sym {
  int k; double dx, dy;
  void vec(double& x, double& y) const { if (k == 1) y = -y; if (k == 2) std::swap(x, y); if (k == 3) x = -x; }
};
Op symOp(const Sym& s, char kind, const Op& op, double curYaw, bool& ok) {
  (void)curYaw; ok = true; Op o = op; VD& a = o.a;
  if (kind == 'T') {
    if (s.k == 0) { if (o.n == "state") a[0] += s.dx; if (o.n == "pref") a[0] += s.dx; }
    else { if (o.n == "state") for (auto& v : a) v = -v; if (o.n == "pref" || o.n == "vref") for (int i = 0; i < 3; ++i) a[i] = -a[i]; }
    return o;
  }
  auto polyT = [&]() { if (s.k == 0) return; for (size_t i = 0; i + 1 < a.size(); i += 2) s.vec(a[i], a[i + 1]); };
  auto refT = [&](size_t off, bool posn) {  // two PRs
    if (s.k == 0) { if (posn) { a[off] += s.dx; a[off + 4] += s.dy; } return; }
    if (s.k == 2) for (int i = 0; i < 4; ++i) std::swap(a[off + i], a[off + 4 + i]);
    else { size_t b = off + (s.k == 1 ? 4 : 0); for (int i = 0; i < 3; ++i) a[b + i] = -a[b + i]; }
  };
  // single-axis state ops
  auto axisOp = [&](const std::string& nx, const std::string& ny, bool posn, double d) {
    bool isX = o.n == nx;
    if (s.k == 0) { if (posn) a[0] += d; }
    else if (s.k == 2) o.n = isX ? ny : nx;
    else if ((s.k == 1 && !isX) || (s.k == 3 && isX)) for (auto& v : a) v = -v;
  };
  if (o.n == "copP" || o.n == "comP" || o.n == "copH" || o.n == "comH" || o.n == "kinL" || o.n == "kinR" || o.n == "copL" || o.n == "copR") polyT();
  else if (o.n == "vref") refT(0, false);
  else if (o.n == "pref") refT(0, true);
  else if (o.n == "copref" || o.n == "comref") refT(0, false);
  else if (o.n == "cwref") { refT(0, true); refT(8, false); refT(16, true); refT(24, false); }
  else if (o.n == "g") { if (s.k) s.vec(a[0], a[1]); }
  else if (o.n == "sX" || o.n == "sY") axisOp("sX", "sY", true, o.n == "sX" ? s.dx : s.dy);
  else if (o.n == "cX" || o.n == "cY") axisOp("cX", "cY", true, o.n == "cX" ? s.dx : s.dy);
  else if (o.n == "sR" || o.n == "sP") axisOp("sR", "sP", false, 0);
  else if (o.n == "tX" || o.n == "tY") axisOp("tX", "tY", false, 0);
  else if (o.n == "sYaw") { if (s.k == 1) for (auto& v : a) v = -v; if (s.k == 2) { a[0] = M_PI / 2 - a[0]; a[1] = -a[1]; } if (s.k == 3) { a[0] = M_PI - a[0]; a[1] = -a[1]; } }
  else if (o.n == "foot") { if (s.k) { s.vec(a[1], a[2]); s.vec(a[3], a[4]); } }
  else if (o.n == "lf" || o.n == "rf") {
    if (s.k == 0) { a[0] += s.dx; a[3] += s.dy; } else for (int i = 0; i < 3; ++i) s.vec(a[i], a[3 + i]);
  }
  return o;
}
VD symPub(const Sym& s, char kind, VD p) {
  if (kind == 'T') { if (s.k == 0) p[0] += s.dx; else for (auto& v : p) v = -v; return p; }
  auto pairT = [&](int ox, int oy) { if (s.k == 0) { p[ox] += s.dx; p[oy] += s.dy; } else for (int i = 0; i < 3; ++i) s.vec(p[ox + i], p[oy + i]); };
  if (kind == 'Z') { pairT(0, 3); pairT(6, 9); } else { pairT(0, 3); pairT(9, 12); pairT(18, 21); }
  return p;
}
void runSym(Exec& e) {
  const Trace& t = e.t; Sym s{static_cast<int>(t.get("sym")), t.get("dx"), t.get("dy")};
  static const char* nm[] = {"translated", "mirrored", "axes swapped", "mirrored"};
  e.o.st.add(std::string("probe.sym_") + std::to_string(s.k));
  std::unique_ptr<Inst> a = mk(t), b = mk(t); Exec e2(t, e.o);
  if (s.k == 0) {
    // origin of the default states
    Tick k; bool ok;
    if (t.kind == "T") { Op o("state", {0, 0, 0}); e2.step(*b, symOp(s, 'T', o, 0, ok), k, false); }
    else if (t.kind == "Z") for (const char* n : {"sX", "sY", "cX", "cY"}) { Op o(n, {0, 0, 0}); e2.step(*b, symOp(s, 'Z', o, 0, ok), k, false); }
    else { for (const char* n : {"cX", "cY"}) { Op o(n, {0, 0, 0}); e2.step(*b, symOp(s, 'H', o, 0, ok), k, false); }
      for (const char* n : {"lf", "rf"}) { Op o(n, VD(9, 0.0)); e2.step(*b, symOp(s, 'H', o, 0, ok), k, false); } }
    if (t.kind != "H") { Op o("pref", VD(t.kind == "T" ? 4 : 8, 0.0)); e2.step(*b, symOp(s, t.kind[0], o, 0, ok), k, false); }
  }
  if (t.kind == "Z" && s.k >= 2) { Tick k; bool ok; Op o("sYaw", {0, 0, 0}); e2.step(*b, symOp(s, 'Z', o, 0, ok), k, false); }
  for (auto& op : t.ops) {
    if (op.n == "dirty") continue;
    bool ok; Op ob = symOp(s, t.kind[0], op, 0, ok);
    Tick ka, kb; Exec::R r = e.step(*a, op, ka, true), r2 = e2.step(*b, ob, kb, false);
    if (r != r2) throw HarnessError("twins disagree about the legality of " + op.n);
    if (r != Exec::TICK) continue;
    if (ka.r.numeric || kb.r.numeric) { e.o.st.add("twins_solver_gave_up"); return; }
    if (!ka.r.injected() && !settle(e, *a, ka, kb)) return;
    if (a->kind == 'H') {
      Model m = modelOf(*a, ka), m2 = modelOf(*b, kb); if (!m.usable || !m2.usable || !m.poly || !m2.poly) { e.o.st.add("skipped_ambiguous"); return; }
    }
    if (!sameMotion(e, *a, ka, symPub(s, t.kind[0], ka.a), *b, kb, a->kind == 'H' ? 1e-4 : 3e-5, "asymmetric", nm[s.k])) return;
    resync(e, *b, symPub(s, t.kind[0], ka.a), 1e-9);
    e.o.st.add("twin_ticks_compared");
  }
}

void runFloat(Exec& e) {
  const Trace& t = e.t;
  std::unique_ptr<Inst> a = makeInst(t.kind[0], false), b = makeInst(t.kind[0], true); Exec e2(t, e.o);
  double plan = 0;   // size of the plan kept from the previous tick: the next one is computed as an increment of it
  for (auto& op : t.ops) {
    if (op.n == "dirty") continue;
    Tick ka, kb, k;
    if (op.n == "tick" || op.n == "hk") resync(e, *b, a->pub(), 0);
    Exec::R r = e.step(*a, op, ka, true), r2 = e2.step(*b, op, kb, false);
    if (r != r2 && (op.n == "lf" || op.n == "rf")) { e.o.st.add("skipped_ambiguous"); return; }   // a height which is zero in one precision and a residue in the other
    if (r != r2) throw HarnessError("twins disagree about the legality of " + op.n);
    if (r != Exec::TICK) continue;
    double before = plan, kappa = 1; plan = 1e300;
    if (a->kind == 'H') { Model m = modelOf(*a, ka); if (!m.usable || !m.exact) { e.o.st.add("skipped_ambiguous"); return; } }
    {
      // single precision cannot be expected to solve what it cannot represent
      Model m = modelOf(*a, ka);
      gi::Mat H = m.q.H;
      if (a->kind == 'H') { // it plans in terms of the centre of pressure and of the steps
        const int n = m.q.n, z = static_cast<int>(m.copMap.rows());
        gi::Mat G = gi::Mat::Identity(n, n); G.topRows(z) = m.copMap;
        gi::Mat Gi = G.inverse(); H = Gi.transpose() * H * Gi;
      }
      gi::Vec d = H.diagonal().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
      gi::Vec ev = Eigen::SelfAdjointEigenSolver<gi::Mat>(d.asDiagonal() * H * d.asDiagonal(), Eigen::EigenvaluesOnly).eigenvalues();
      kappa = ev(ev.size() - 1) / std::max(ev(0), 1e-300);
      // the centre of mass diverges by this factor over the preview
      double grow = a->kind == 'H' ? std::exp(std::sqrt(9.81 / a->h.h) * a->h.N * a->h.T) : 1;
      e.o.st.mx(std::string("float_kappa_") + a->kind, kappa);
      if (kappa > (a->kind == 'H' ? 4e5 : 2e4) || grow > 150) { e.o.st.add("skipped_ill_conditioned"); if (a->kind == 'H' || kappa > 1e7) return; continue; }
    }
    {
      Model m = modelOf(*a, ka); gi::Result r0 = solveQp(m.q, 0, true, m.scale);
      if (r0.status == gi::SOLVED) plan = r0.x.cwiseAbs().maxCoeff();
      // ... or as far off as the single precision version shows it was
      for (size_t i = 0; i < ka.a.size(); ++i) if (a->kind != 'H') plan = std::max(plan, std::abs(ka.a[i] - kb.a[i]) / ka.f);
      const bool huge = before > 1e3 * (1 + plan);
      if (!ka.r.ok || !kb.r.ok) plan = 1e300;   // whatever a solver which gave up left behind
      if (huge) { e.o.st.add("skipped_huge_previous_plan"); if (a->kind == 'H') return; continue; }
    }
    if (!settle(e, *a, ka, kb, 5e-3)) { if (a->kind == 'H') return; continue; }
    double worst = 0; for (size_t i = 0; i < ka.a.size(); ++i) {
      double sc = 1 + std::abs(ka.a[i]);
      if (a->kind == 'H' && i >= 9) { int c = (i - 9) % 3; if (c == 1) sc += 1 / ka.f; if (c == 2) sc += 1 / (ka.f * ka.f); }
      if (a->kind == 'T' && i == 3) sc += 1 / ka.f;
      worst = std::max(worst, std::abs(ka.a[i] - kb.a[i]) / sc); }
    e.o.st.mx(std::string("float_gap_") + a->kind, worst);
    double tol = a->kind == 'H' ? 6e-2 : a->kind == 'Z' && (a->z.w[5] > 0 || a->z.w[6] > 0) ? 5e-2 : 1e-2;
    if (worst > tol) {
      // the optimum itself may hinge on what single precision rounds away: constraint bounds
      Model m = modelOf(*a, ka); double spread = 0;
      gi::Result r0 = solveQp(m.q, 0, true, m.scale);
      Rng pr(97);
      for (int draw = 0; draw < 4; ++draw) {
        Qp q = m.q;
        for (auto& c : q.cons) { double s = pr.sym(2e-5); c.lo += s * (1 + std::abs(c.lo)); c.hi += s * (1 + std::abs(c.hi)); for (int i = 0; i < q.n; ++i) c.e.a(i) *= 1 + pr.sym(3e-6); }
        // and the objective is only known up to the rounding of its sums
        gi::Vec d = q.H.diagonal().cwiseMax(0).cwiseSqrt(); double gr = 0;
        for (int i = 0; i < q.n; ++i) if (d(i) > 0) gr = std::max(gr, std::abs(q.g(i)) / d(i));
        for (int i = 0; i < q.n; ++i) { q.g(i) += pr.sym(3e-7) * d(i) * gr; for (int j = 0; j < i; ++j) { double x = pr.sym(3e-7) * d(i) * d(j); q.H(i, j) += x; q.H(j, i) += x; } }
        gi::Result r1 = solveQp(q, 0, true, m.scale);
        if (r0.status != gi::SOLVED || r1.status != gi::SOLVED) { spread = 1e9; break; }
        for (size_t i = 0; i < m.cmd.size(); ++i) spread = std::max(spread, std::abs(r0.x(m.cmd[i]) - r1.x(m.cmd[i])) * (a->kind == 'H' && i >= 2 ? 1.0 : std::max(ka.f, ka.f * ka.f * ka.f)));
      }
      double big = 1; for (double x : ka.a) big = std::max(big, std::abs(x));
      // one axis out of any physical range shares its rounding with the other one
      if (big > 1e3) { e.o.st.add("skipped_out_of_physical_range"); if (a->kind == 'H') return; continue; }
      // a solution is known up to the condition of its problem
      double off = 0; for (size_t i = 0; i < ka.a.size(); ++i) off = std::max(off, std::abs(ka.a[i] - kb.a[i]));
      if (off < std::min(1e-3, 1e-5 + 1.2e-7 * kappa) * std::max(big, before * std::max(ka.f, ka.f * ka.f * ka.f))) { e.o.st.add("skipped_sensitive"); if (a->kind == 'H') return; continue; }
      if (spread > 0.2 * tol * big) { e.o.st.add("skipped_sensitive"); if (a->kind == 'H') return; continue; }
    }
    if (worst > tol) compare(e, *a, ka.a, kb.a, tol, ka.f, "precision-divergence", "double and single precision");
    e.o.st.add("twin_ticks_compared");
  }
}

} // namespace

RunOut execute(const Trace& t) {
  RunOut o; simfault::seam() = simfault::Seam();
  Exec e(t, o);
  mallopt(M_PERTURB, 0x33);
  try {
    if (t.prop == "C10" || t.prop == "C17") runSync(e);
    else if (t.prop == "C11") runIsolation(e);
    else if (t.prop == "C15") runSym(e);
    else if (t.prop == "C18") runFloat(e);
    else runSingle(e);
  } catch (Fail& f) { o.violated = true; o.v = f.v; }
  catch (Diverged&) { o.st.add("runs_ended_out_of_physical_range"); }
  simfault::Seam& s = simfault::seam();
  o.st.add("solver_calls", s.totalCalls); o.st.add("solver_warm_starts", s.warm); o.st.add("solver_numeric_failures", s.numeric);
  o.st.add("solver_refused_uninitialised", s.notInit);
  e.h.i(o.violated); if (o.violated) e.h.i(static_cast<int64_t>(hashStr(o.v.cls + o.v.msg)));
  if (t.prop == "C11" && o.violated) { Hash x; x.i(static_cast<int64_t>(hashStr(o.v.cls + o.v.msg))); e.h = x; }  // the values themselves may be what is not repeatable
  o.hash = e.h.h; o.sig = e.sig.h;
  return o;
}

} // namespace sim
