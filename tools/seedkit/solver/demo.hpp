#pragma once
#include <cassert>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <mpc-walkgen/trajectory_walkgen.h>
#include <mpc-walkgen/zebulon_walkgen.h>
#include <mpc-walkgen/humanoid_walkgen.h>
#include <mpc-walkgen/convexpolygon.h>
#include "faults.hpp"
namespace simfault { Seam& seam() { static Seam s; return s; } }
using namespace MPCWalkgen;
typedef Eigen::VectorXd V;
inline V v3(double a, double b, double c) { V r(3); r << a, b, c; return r; }
inline Eigen::VectorXf v3f(double a, double b, double c) { return v3(a, b, c).cast<float>(); }
inline ConvexPolygon<double> rect(double x0, double x1, double y0, double y1) {
  Type<double>::vectorOfVector2 p;
  p.push_back(Eigen::Vector2d(x0, y0)); p.push_back(Eigen::Vector2d(x1, y0));
  p.push_back(Eigen::Vector2d(x1, y1)); p.push_back(Eigen::Vector2d(x0, y1));
  return ConvexPolygon<double>(p);
}
#define EXPECT(c, ...) do { if (!(c)) { std::printf("FAIL: " __VA_ARGS__); std::printf("\n"); std::exit(1); } } while (0)
// one-axis controller
inline void trajWeights(TrajectoryWalkgen<double>& w, double wv, double wp, double wj) {
  TrajectoryWalkgenWeighting<double> x; x.velocityTracking = wv; x.positionTracking = wp; x.jerkMinimization = wj; w.setWeightings(x);
}
inline void trajLimits(TrajectoryWalkgen<double>& w, bool on, double v, double a, double j) {
  TrajectoryWalkgenConfig<double> c; c.withMotionConstraints = on; w.setConfig(c);
  w.setVelLimit(v); w.setAccLimit(a); w.setJerkLimit(j);
}
// wheeled base with usual settings
struct Zeb {
  ZebulonWalkgen<double> w; int N; double T;
  Zeb(int n, double t) : N(n), T(t) {
    w.setNbSamples(N); w.setCopRefInLocalFrame(V::Zero(2 * N)); w.setComRefInLocalFrame(V::Zero(2 * N)); w.setSamplingPeriod(T); w.setComBodyHeight(0.8); w.setComBaseHeight(0.15); w.setBodyMass(15); w.setBaseMass(15);
    w.setBaseVelLimit(1); w.setBaseAccLimit(3); w.setBaseJerkLimit(50);
    w.setBaseCopConvexPolygon(rect(-.15, .15, -.15, .15)); w.setBaseComConvexPolygon(rect(-.15, .15, -.15, .15));
    vel(0, 0); pos(0, 0); weights(1, 0, 0.1, 0.1, 1e-3); limits(false, false, false);
  }
  void vel(double x, double y) { V r(2 * N); r.head(N).fill(x); r.tail(N).fill(y); w.setVelRefInWorldFrame(r); }
  void pos(double x, double y) { V r(2 * N); r.head(N).fill(x); r.tail(N).fill(y); w.setPosRefInWorldFrame(r); }
  void weights(double v, double p, double cop, double com, double j) {
    ZebulonWalkgenWeighting<double> x; x.velocityTracking = v; x.positionTracking = p; x.copCentering = cop; x.comCentering = com; x.jerkMinimization = j;
    x.tiltMinimization = 0; x.tiltVelMinimization = 0; w.setWeightings(x);
  }
  void limits(bool cop, bool com, bool motion) {
    ZebulonWalkgenConfig<double> c; c.withCopConstraints = cop; c.withComConstraints = com; c.withBaseMotionConstraints = motion; c.withTiltMotionConstraints = false; w.setConfig(c);
  }
};
// humanoid with usual settings, standing; left foot at y = +0.1, right foot at y = -0.1
struct Hum {
  HumanoidWalkgen<double> w; int N; double T, SP, DS;
  Hum(int n, double t, int sp, int ds) : N(n), T(t), SP(sp * t), DS(ds * t) {
    w.setSamplingPeriod(T); w.setNbSamples(N); w.setStepPeriod(SP); w.setInitialDoubleSupportLength(DS);
    w.setLeftFootKinematicConvexPolygon(rect(-.25, .25, -.28, -.16)); w.setRightFootKinematicConvexPolygon(rect(-.25, .25, .16, .28));
    w.setLeftFootCopConvexPolygon(rect(-.08, .08, -.04, .04)); w.setRightFootCopConvexPolygon(rect(-.08, .08, -.04, .04));
    w.setComStateX(v3(0, 0, 0)); w.setComStateY(v3(0, 0, 0)); w.setComStateZ(v3(0.8, 0, 0));
    w.setLeftFootStateX(v3(0, 0, 0)); w.setLeftFootStateY(v3(.1, 0, 0)); w.setLeftFootStateZ(v3(0, 0, 0));
    w.setRightFootStateX(v3(0, 0, 0)); w.setRightFootStateY(v3(-.1, 0, 0)); w.setRightFootStateZ(v3(0, 0, 0));
    w.setLeftFootMaxHeight(0.05); w.setRightFootMaxHeight(0.05);
    weights(1, 1e-3, 0.1); limits(true, true); vel(0, 0);
  }
  void vel(double x, double y) { V r(2 * N); r.head(N).fill(x); r.tail(N).fill(y); w.setVelRefInWorldFrame(r); }
  void weights(double v, double j, double c) {
    HumanoidWalkgenWeighting<double> x; x.velocityTracking = v; x.jerkMinimization = j; x.copCentering = c; w.setWeightings(x);
  }
  void limits(bool cop, bool feet) { HumanoidWalkgenConfig<double> c; c.withCopConstraints = cop; c.withFeetConstraints = feet; w.setConfig(c); }
};
