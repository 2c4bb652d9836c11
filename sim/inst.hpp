// Controller instances under simulation, behind one interface. Only the public API is used.
#pragma once
#include "cfg.hpp"
#include "faults.hpp"
#include <memory>

namespace sim {

struct TickResult {
  bool ok = false;       // what the controller reported
  int calls = 0, failures = 0, lastRet = 0; bool touched = false, natural = false, numeric = false, warm = false; int iters = 0;
  bool injected() const { return failures > 0 && !natural; }
};

struct Inst {
  char kind; bool isFloat;
  TrajCfg t; ZebCfg z; HumCfg h; Fsm fsm; double lastF = 0; bool everTicked = false;
  virtual ~Inst() {}
  // is the operation within the documented preconditions, in the current state?
  virtual bool legal(const Op& op) const = 0;
  // applies a non-tick operation to the real object and to the mirror
  virtual void apply(const Op& op) = 0;
  virtual bool solve(double f) = 0;
  virtual VD pub() const = 0;      // everything the getters publish
  double T() const { return kind == 'T' ? t.T : kind == 'Z' ? z.T : h.T; }
  int N() const { return kind == 'T' ? t.N : kind == 'Z' ? z.N : h.N; }
  // tick: args f faultKind faultParam
  TickResult tick(const Op& op) {
    simfault::Seam& s = simfault::seam();
    double f = op.a[0];
    s.beginTick(op.a.size() > 1 ? static_cast<int>(op.a[1]) : 0, op.a.size() > 2 ? static_cast<int>(op.a[2]) : 0);
    TickResult r;
    if (kind == 'H') fsm.begin(h);
    r.ok = solve(f);
    if (kind == 'H') fsm.end(f);
    s.endTick();
    r.calls = s.calls; r.failures = s.failures; r.lastRet = s.lastRet; r.touched = s.lastTouched; r.natural = s.lastNatural; r.numeric = s.lastNumeric; r.warm = s.lastWarm; r.iters = s.lastIters;
    lastF = f; everTicked = true;
    return r;
  }
};
// layout of pub(): T: p v a jerk ; Z: baseX(3) baseY(3) comX(3) comY(3) ; H: comX comY comZ lfX lfY lfZ rfX rfY rfZ (3 each)
std::unique_ptr<Inst> makeInst(char kind, bool isFloat);

} // namespace sim
