#include "inst.hpp"
#include <mpc-walkgen/trajectory_walkgen.h>
#include <mpc-walkgen/zebulon_walkgen.h>
#include <mpc-walkgen/humanoid_walkgen.h>
#include <mpc-walkgen/convexpolygon.h>
#include <algorithm>

namespace simfault { Seam& seam() { static Seam s; return s; } }

namespace sim {

Poly hullOf(Poly p) {
  std::sort(p.begin(), p.end(), [](const P2& a, const P2& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
  p.erase(std::unique(p.begin(), p.end(), [](const P2& a, const P2& b) { return a.x == b.x && a.y == b.y; }), p.end());
  size_t n = p.size(); if (n < 3) return p;
  Poly h(2 * n); size_t k = 0;
  auto cr = [](const P2& o, const P2& a, const P2& b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); };
  for (size_t i = 0; i < n; ++i) { while (k >= 2 && cr(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
  for (size_t i = n - 1, t = k + 1; i-- > 0;) { while (k >= t && cr(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
  h.resize(k - 1);
  return h;
}

namespace {
using namespace MPCWalkgen;

template <class S> typename Type<S>::VectorX vx(const VD& v) {
  typename Type<S>::VectorX r(v.size()); for (size_t i = 0; i < v.size(); ++i) r(i) = static_cast<S>(v[i]); return r;
}
template <class S> typename Type<S>::VectorX v3(const VD& v, size_t o = 0) { return vx<S>(VD(v.begin() + o, v.begin() + o + 3)); }
template <class V> void put(VD& o, const V& v) { for (int i = 0; i < v.size(); ++i) o.push_back(static_cast<double>(v(i))); }
template <class S> ConvexPolygon<S> cp(const Poly& p) {
  typename Type<S>::vectorOfVector2 v; for (auto& q : p) v.push_back(typename Type<S>::Vector2(static_cast<S>(q.x), static_cast<S>(q.y)));
  return ConvexPolygon<S>(v);
}
template <class S> typename Type<S>::vectorOfVector3 hull3(const Poly& p) {
  typename Type<S>::vectorOfVector3 v; for (auto& q : p) v.push_back(typename Type<S>::Vector3(static_cast<S>(q.x), static_cast<S>(q.y), static_cast<S>(0.3)));
  return v;
}

bool tiltRegular(double T, double hb, double hB, double m, double M) {
  double a1 = 9.81 * (hb * m + M * hB), a6 = m * hb * hb + M * hB * hB;
  return a6 > 0 && a6 - a1 * T * T / 2 > 0.3 * a6;
}
// a support polygon with an interior, away from the library's point-merging tolerance
bool properPoly(const Poly& p) {
  Poly h = hullOf(p); if (h.size() < 3) return false;
  double A = 0;
  for (size_t i = 0; i < h.size(); ++i) {
    const P2 &u = h[i], &w = h[(i + 1) % h.size()];
    A += (u.x * w.y - w.x * u.y) / 2;
    if (std::hypot(u.x - w.x, u.y - w.y) < 5e-3) return false;
  }
  return A > 1e-4;
}
template <class S> struct TrajInst : Inst {
  TrajectoryWalkgen<S> w;
  TrajInst() { kind = 'T'; isFloat = sizeof(S) == 4; }
  void refs() { w.setVelRefInWorldFrame(vx<S>(expand(t.vref, t.N))); w.setPosRefInWorldFrame(vx<S>(expand(t.pref, t.N))); }
  // a tick needs a strictly convex problem: weights set, jerk weight positive
  bool legal(const Op& o) const override {
    if (o.n == "tick") return o.a[0] > 1e-4 && t.wj > 0;
    if (o.n == "W") return o.a[2] >= 1e-6;
    if (o.n == "T" || o.n == "N") return o.a[0] > 1e-3;
    return true;
  }
  void apply(const Op& o) override {
    const VD& a = o.a;
    if (o.n == "N") { t.N = static_cast<int>(a[0]); w.setNbSamples(t.N); refs(); }
    else if (o.n == "T") { t.T = a[0]; w.setSamplingPeriod(static_cast<S>(a[0])); }
    else if (o.n == "W") {
      t.wv = a[0]; t.wp = a[1]; t.wj = a[2];
      TrajectoryWalkgenWeighting<S> x; x.velocityTracking = static_cast<S>(a[0]); x.positionTracking = static_cast<S>(a[1]); x.jerkMinimization = static_cast<S>(a[2]);
      w.setWeightings(x);
    }
    else if (o.n == "C") { t.con = a[0] != 0; TrajectoryWalkgenConfig<S> c; c.withMotionConstraints = t.con; w.setConfig(c); }
    else if (o.n == "V") { t.V = a[0]; w.setVelLimit(static_cast<S>(a[0])); }
    else if (o.n == "A") { t.A = a[0]; w.setAccLimit(static_cast<S>(a[0])); }
    else if (o.n == "J") { t.J = a[0]; w.setJerkLimit(static_cast<S>(a[0])); }
    else if (o.n == "vref") { t.vref = pr(a, 0); w.setVelRefInWorldFrame(vx<S>(expand(t.vref, t.N))); }
    else if (o.n == "pref") { t.pref = pr(a, 0); w.setPosRefInWorldFrame(vx<S>(expand(t.pref, t.N))); }
    else if (o.n == "state") w.setState(v3<S>(a));
    else throw HarnessError("unknown op " + o.n);
  }
  bool solve(double f) override { return w.solve(static_cast<S>(f)); }
  VD pub() const override { VD o; put(o, w.getState()); o.push_back(static_cast<double>(w.getJerk())); return o; }
};

template <class S> struct ZebInst : Inst {
  ZebulonWalkgen<S> w;
  ZebInst() { kind = 'Z'; isFloat = sizeof(S) == 4; z.copRef.assign(2, 0); z.comRef.assign(2, 0); }
  bool legal(const Op& o) const override {
    if (o.n == "tick") return o.a[0] > 1e-4 && z.w[4] > 0 && (!z.con[0] || z.copP.size() >= 3) && (!z.con[1] || z.comP.size() >= 3);
    if (o.n == "W") {
      if (o.a[4] < 1e-5) return false;
      return (o.a[5] == 0 && o.a[6] == 0) || tiltRegular(z.T, z.hb, z.hB, z.m, z.M);
    }
    if (o.n == "T" || o.n == "N") { if (o.a[0] <= 1e-3) return false; }
    if (o.n == "m" && o.a[0] < 0.1) return false;
    if (o.n == "M" && o.a[0] < 0.1) return false;
    if (o.n == "g" && o.a[2] < 1) return false;
    if ((o.n == "copP" || o.n == "comP" || o.n == "copH" || o.n == "comH") && !properPoly(polyFrom(o.a))) return false;
    if (z.w[5] > 0 || z.w[6] > 0) {
      // the tilt recurrence must stay regular
      double T = z.T, hb = z.hb, hB = z.hB, m = z.m, M = z.M;
      if (o.n == "T") T = o.a[0];
      if (o.n == "hb") hb = o.a[0];
      if (o.n == "hB") hB = o.a[0];
      if (o.n == "m") m = o.a[0];
      if (o.n == "M") M = o.a[0];
      if (!tiltRegular(T, hb, hB, m, M)) return false;
    }
    if (o.n == "hb" && o.a[0] < 0.05) return false;
    if (o.n == "copraw" || o.n == "comraw") return o.a.size() == static_cast<size_t>(2 * z.N);
    return true;
  }
  void setCopLocal() { z.copRef = expand2(pr(z.copArgs, 0), pr(z.copArgs, 4), z.N); w.setCopRefInLocalFrame(vx<S>(z.copRef)); }
  void setComLocal() { z.comRef = expand2(pr(z.comArgs, 0), pr(z.comArgs, 4), z.N); w.setComRefInLocalFrame(vx<S>(z.comRef)); }
  void setWorld(bool mirrorCop, bool mirrorCom) {
    VD q[4];
    for (int k = 0; k < 4; ++k) q[k] = expand2(pr(z.cwArgs, 8 * k), pr(z.cwArgs, 8 * k + 4), z.N);
    VD com(2 * z.N), cop(2 * z.N);
    for (int i = 0; i < 2 * z.N; ++i) {
      com[i] = q[0][i] - q[2][i];
      double gx = i < z.N ? z.g[0] : z.g[1];
      double body = q[0][i] - z.hb * q[1][i] / z.g[2] - z.hb * gx / z.g[2];
      double base = q[2][i] - z.hB * q[3][i] / z.g[2] - z.hB * gx / z.g[2];
      double mt = z.m + z.M;
      cop[i] = (z.m * body + z.M * base) / mt - q[2][i];
    }
    if (mirrorCom) z.comRef = com;
    if (mirrorCop) z.copRef = cop;
    w.setComAndCopRefInWorldFrame(vx<S>(q[0]), vx<S>(q[1]), vx<S>(q[2]), vx<S>(q[3]));
  }
  void refs() {
    w.setVelRefInWorldFrame(vx<S>(expand2(z.vref[0], z.vref[1], z.N)));
    w.setPosRefInWorldFrame(vx<S>(expand2(z.pref[0], z.pref[1], z.N)));
    z.copRef.assign(2 * z.N, 0); z.comRef.assign(2 * z.N, 0);
    w.setCopRefInLocalFrame(vx<S>(z.copRef)); w.setComRefInLocalFrame(vx<S>(z.comRef));
    if (z.copMode == 2 || z.comMode == 2) setWorld(true, true);
    if (z.copMode == 1) setCopLocal(); 
    if (z.comMode == 1) setComLocal();
  }
  void apply(const Op& o) override {
    const VD& a = o.a;
    auto s = [&](double x) { return static_cast<S>(x); };
    if (o.n == "N") { z.N = static_cast<int>(a[0]); w.setNbSamples(z.N); refs(); }
    else if (o.n == "T") { z.T = a[0]; w.setSamplingPeriod(s(a[0])); }
    else if (o.n == "W") {
      for (int i = 0; i < 7; ++i) z.w[i] = a[i];
      ZebulonWalkgenWeighting<S> x; x.velocityTracking = s(a[0]); x.positionTracking = s(a[1]); x.copCentering = s(a[2]); x.comCentering = s(a[3]);
      x.jerkMinimization = s(a[4]); x.tiltMinimization = s(a[5]); x.tiltVelMinimization = s(a[6]);
      w.setWeightings(x);
    }
    else if (o.n == "C") {
      for (int i = 0; i < 4; ++i) z.con[i] = a[i] != 0;
      ZebulonWalkgenConfig<S> c; c.withCopConstraints = z.con[0]; c.withComConstraints = z.con[1]; c.withBaseMotionConstraints = z.con[2]; c.withTiltMotionConstraints = z.con[3];
      w.setConfig(c);
    }
    else if (o.n == "g") { for (int i = 0; i < 3; ++i) z.g[i] = a[i]; w.setGravity(typename Type<S>::Vector3(s(a[0]), s(a[1]), s(a[2]))); }
    else if (o.n == "copP") { Poly p = polyFrom(a); z.copP = hullOf(p); w.setBaseCopConvexPolygon(cp<S>(p)); }
    else if (o.n == "comP") { Poly p = polyFrom(a); z.comP = hullOf(p); w.setBaseComConvexPolygon(cp<S>(p)); }
    else if (o.n == "copH") { Poly p = polyFrom(a); z.copP = hullOf(p); w.setBaseCopHull(hull3<S>(p)); }
    else if (o.n == "comH") { Poly p = polyFrom(a); z.comP = hullOf(p); w.setBaseComHull(hull3<S>(p)); }
    else if (o.n == "hb") { z.hb = a[0]; w.setComBodyHeight(s(a[0])); }
    else if (o.n == "hB") { z.hB = a[0]; w.setComBaseHeight(s(a[0])); }
    else if (o.n == "m") { z.m = a[0]; w.setBodyMass(s(a[0])); }
    else if (o.n == "M") { z.M = a[0]; w.setBaseMass(s(a[0])); }
    else if (o.n == "vref") { z.vref[0] = pr(a, 0); z.vref[1] = pr(a, 4); w.setVelRefInWorldFrame(vx<S>(expand2(z.vref[0], z.vref[1], z.N))); }
    else if (o.n == "pref") { z.pref[0] = pr(a, 0); z.pref[1] = pr(a, 4); w.setPosRefInWorldFrame(vx<S>(expand2(z.pref[0], z.pref[1], z.N))); }
    else if (o.n == "copref") { z.copArgs = a; z.copMode = 1; setCopLocal(); }
    else if (o.n == "comref") { z.comArgs = a; z.comMode = 1; setComLocal(); }
    else if (o.n == "copraw") { z.copRef = a; z.copMode = 0; w.setCopRefInLocalFrame(vx<S>(a)); }
    else if (o.n == "comraw") { z.comRef = a; z.comMode = 0; w.setComRefInLocalFrame(vx<S>(a)); }
    else if (o.n == "cwref") { z.cwArgs = a; z.copMode = z.comMode = 2; setWorld(true, true); }
    else if (o.n == "V") { z.V = a[0]; w.setBaseVelLimit(s(a[0])); }
    else if (o.n == "A") { z.A = a[0]; w.setBaseAccLimit(s(a[0])); }
    else if (o.n == "J") { z.J = a[0]; w.setBaseJerkLimit(s(a[0])); }
    else if (o.n == "sX") w.setBaseStateX(v3<S>(a));
    else if (o.n == "sY") w.setBaseStateY(v3<S>(a));
    else if (o.n == "sR") { z.roll = {{a[0], a[1], a[2]}}; w.setBaseStateRoll(v3<S>(a)); }
    else if (o.n == "sP") { z.pitch = {{a[0], a[1], a[2]}}; w.setBaseStatePitch(v3<S>(a)); }
    else if (o.n == "sYaw") { z.yaw = {{a[0], a[1], a[2]}}; w.setBaseStateYaw(v3<S>(a)); }
    else if (o.n == "cX") w.setComStateX(v3<S>(a));
    else if (o.n == "cY") w.setComStateY(v3<S>(a));
    else if (o.n == "tX") { z.tX = a[0]; w.setTiltContactPointOnTheGroundInLocalFrameX(s(a[0])); }
    else if (o.n == "tY") { z.tY = a[0]; w.setTiltContactPointOnTheGroundInLocalFrameY(s(a[0])); }
    else throw HarnessError("unknown op " + o.n);
  }
  bool solve(double f) override { return w.solve(static_cast<S>(f)); }
  VD pub() const override { VD o; put(o, w.getBaseStateX()); put(o, w.getBaseStateY()); put(o, w.getComStateX()); put(o, w.getComStateY()); return o; }
};

template <class S> struct HumInst : Inst {
  HumanoidWalkgen<S> w;
  HumInst() { kind = 'H'; isFloat = sizeof(S) == 4; }
  static bool mult(double x, double T) { double k = x / T; return std::abs(k - std::lround(k)) < 1e-6 && std::lround(k) >= 1; }
  bool legal(const Op& o) const override {
    const VD& a = o.a;
    if (o.n == "tick") {
      double f = a[0]; if (!(f > 1e-3)) return false;
      if (!mult(h.SP, h.T) || !mult(h.DS, h.T) || h.SP < 2 * h.T - 1e-9) return false;
      if (h.N * h.T < h.SP - 1e-9) return false;
      if (!(h.wj > 0 && h.wc > 0)) return false;
      for (int i = 0; i < 2; ++i) if (h.kin[i].size() < 3 || (h.conCop && h.cop[i].size() < 3)) return false;
      double tn = fsm.tNext;
      if (tn < 1e-4) { if (!fsm.haveNext) return false; tn = fsm.next.dur; }
      double sp = tn; while (sp > h.T + 1e-4) sp -= h.T;
      if (sp > h.T + 2e-5) return false;   // off the sampling grid by about the tolerance it is compared with
      double k = sp / f; if (std::abs(k - std::lround(k)) > 1e-6 || std::lround(k) < 1) return false;
      // boundaries of the current phase are reached on the sampling grid
      if (everTicked && std::abs(f - lastF) < 3e-4 && std::abs(f - lastF) > 1e-9) return false;
      return true;
    }
    if (o.n == "W" && (a[1] < 1e-7 || a[2] < 1e-5)) return false;
    if ((o.n == "h" && a[0] < 0.1) || ((o.n == "T" || o.n == "N" || o.n == "DS") && a[0] <= 1e-3)) return false;
    if (o.n == "SP" && !(a[0] >= h.T)) return false;
    if ((o.n == "kinL" || o.n == "kinR" || o.n == "copL" || o.n == "copR") && !properPoly(polyFrom(a))) return false;
    if (o.n == "lf" || o.n == "rf") {   // while walking: a measurement of where the foot is, its height is not disturbed
      if (fsm.standing()) return !fsm.atBoundary();
      VD p = pub(); int off = o.n == "lf" ? 15 : 24;
      return everTicked && a[6] == p[off] && a[7] == p[off + 1] && a[8] == p[off + 2];
    }
    if (o.n == "N" || o.n == "T") return fsm.standing() && !fsm.atBoundary();
    if (o.n == "DS" && !fsm.standing()) return !fsm.atBoundary() && mult(a[0], h.T);   // for the next time it stands
    if (o.n == "DS") return fsm.standing() && !fsm.atBoundary() && fsm.tNext + a[0] - h.DS > 1e-3;
    if (o.n == "SP") {   // while walking the step under way gets longer or shorter, as long as some of it is left
      if (fsm.atBoundary()) return false;
      if (fsm.standing()) return true;
      return mult(a[0], h.T) && a[0] > 2 * h.T - 1e-9 && h.N * h.T > a[0] - 1e-9 && fsm.tNext + a[0] - h.SP > h.T - 1e-9;
    }
    return true;
  }
  void vel() { w.setVelRefInWorldFrame(vx<S>(expand2(h.vref[0], h.vref[1], h.N))); }
  void apply(const Op& o) override {
    const VD& a = o.a;
    auto s = [&](double x) { return static_cast<S>(x); };
    if (o.n == "N") { h.N = static_cast<int>(a[0]); w.setNbSamples(h.N); vel(); }
    else if (o.n == "T") { h.T = a[0]; w.setSamplingPeriod(s(a[0])); }
    else if (o.n == "SP") { if (!fsm.standing()) { fsm.tNext += a[0] - h.SP; fsm.dur += a[0] - h.SP; } h.SP = a[0]; w.setStepPeriod(s(a[0])); }
    else if (o.n == "DS") { if (fsm.standing()) { fsm.tNext += a[0] - h.DS; fsm.dur += a[0] - h.DS; } h.DS = a[0]; w.setInitialDoubleSupportLength(s(a[0])); }
    else if (o.n == "kinL") { Poly p = polyFrom(a); h.kin[0] = hullOf(p); w.setLeftFootKinematicConvexPolygon(cp<S>(p)); }
    else if (o.n == "kinR") { Poly p = polyFrom(a); h.kin[1] = hullOf(p); w.setRightFootKinematicConvexPolygon(cp<S>(p)); }
    else if (o.n == "copL") { Poly p = polyFrom(a); h.cop[0] = hullOf(p); w.setLeftFootCopConvexPolygon(cp<S>(p)); }
    else if (o.n == "copR") { Poly p = polyFrom(a); h.cop[1] = hullOf(p); w.setRightFootCopConvexPolygon(cp<S>(p)); }
    else if (o.n == "vref") { h.vref[0] = pr(a, 0); h.vref[1] = pr(a, 4); vel(); }
    else if (o.n == "lf") { w.setLeftFootStateX(v3<S>(a, 0)); w.setLeftFootStateY(v3<S>(a, 3)); w.setLeftFootStateZ(v3<S>(a, 6)); }
    else if (o.n == "rf") { w.setRightFootStateX(v3<S>(a, 0)); w.setRightFootStateY(v3<S>(a, 3)); w.setRightFootStateZ(v3<S>(a, 6)); }
    else if (o.n == "cX") w.setComStateX(v3<S>(a));
    else if (o.n == "cY") w.setComStateY(v3<S>(a));
    else if (o.n == "h") { h.h = a[0]; w.setComStateZ(vx<S>(VD{a[0], 0, 0})); }
    else if (o.n == "hL") { h.hmax[0] = a[0]; w.setLeftFootMaxHeight(s(a[0])); }
    else if (o.n == "hR") { h.hmax[1] = a[0]; w.setRightFootMaxHeight(s(a[0])); }
    else if (o.n == "W") {
      h.wv = a[0]; h.wj = a[1]; h.wc = a[2];
      HumanoidWalkgenWeighting<S> x; x.velocityTracking = s(a[0]); x.jerkMinimization = s(a[1]); x.copCentering = s(a[2]);
      w.setWeightings(x);
    }
    else if (o.n == "C") {
      h.conCop = a[0] != 0; h.conFeet = a[1] != 0;
      HumanoidWalkgenConfig<S> c; c.withCopConstraints = h.conCop; c.withFeetConstraints = h.conFeet; w.setConfig(c);
    }
    else if (o.n == "yaw") {
      w.setLeftFootYawUpperBound(s(a[0])); w.setLeftFootYawLowerBound(s(a[1])); w.setRightFootYawUpperBound(s(a[2])); w.setRightFootYawLowerBound(s(a[3]));
      w.setLeftFootYawSpeedUpperBound(s(a[4])); w.setRightFootYawSpeedUpperBound(s(a[4]));
      w.setLeftFootYawAccelerationUpperBound(s(a[5])); w.setRightFootYawAccelerationUpperBound(s(a[5]));
    }
    else if (o.n == "angv") w.setAngularVelRefInWorldFrame(vx<S>(VD(h.N, a[0])));
    else if (o.n == "move") { h.move = a[0] != 0; w.setMove(h.move); }
    else throw HarnessError("unknown op " + o.n);
  }
  bool solve(double f) override { return w.solve(static_cast<S>(f)); }
  VD pub() const override {
    VD o; put(o, w.getComStateX()); put(o, w.getComStateY()); put(o, w.getComStateZ());
    put(o, w.getLeftFootStateX()); put(o, w.getLeftFootStateY()); put(o, w.getLeftFootStateZ());
    put(o, w.getRightFootStateX()); put(o, w.getRightFootStateY()); put(o, w.getRightFootStateZ());
    return o;
  }
};
} // namespace

std::unique_ptr<Inst> makeInst(char kind, bool f) {
  switch (kind) {
    case 'T': if (f) return std::unique_ptr<Inst>(new TrajInst<float>()); return std::unique_ptr<Inst>(new TrajInst<double>());
    case 'Z': if (f) return std::unique_ptr<Inst>(new ZebInst<float>()); return std::unique_ptr<Inst>(new ZebInst<double>());
    case 'H': if (f) return std::unique_ptr<Inst>(new HumInst<float>()); return std::unique_ptr<Inst>(new HumInst<double>());
  }
  throw HarnessError("kind");
}
} // namespace sim
