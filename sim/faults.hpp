// Fault seam of the simulated QP solver. Single threaded, one plan pending at a time:
// it is consumed by the next solver call.
#pragma once
#include <cstdint>
namespace simfault {
enum Kind {
  NONE = 0,
  ITER_LIMIT = 1,   // working-set recalculation budget exhausted after `param` changes
  NO_ITERATE = 2,   // set-up / hot start fails before any iterate exists: solution buffer untouched
  FALSE_INFEASIBLE = 3, // stops after `param` changes, claims infeasibility, leaves partial iterate
  STEP_FAILED = 4,  // homotopy step fails after `param` changes; object refuses hot starts until re-initialised
  NKINDS = 5
};
struct Seam {
  int kind = 0; int param = 0;        // pending plan
  // observation of the calls of the current tick
  int calls = 0; int failures = 0; int lastRet = 0; bool lastTouched = false;
  bool lastNatural = false;           // last failure was not injected
  bool lastNumeric = false;           // the solver gave up on an ill-conditioned problem of the kind a real one gives up on
  bool lastWarm = false;
  int lastIters = 0;
  int fired[NKINDS] = {0, 0, 0, 0, 0};
  int naturalInfeasible = 0, notInit = 0, numeric = 0;
  uint64_t totalCalls = 0, totalIters = 0, warm = 0, cold = 0;
  int liveObjects = 0;
  void beginTick(int k, int p) { kind = k; param = p; calls = failures = 0; lastRet = 0; lastTouched = false; lastNatural = false; lastNumeric = false; lastWarm = false; lastIters = 0; }
  void endTick() { kind = 0; }
};
Seam& seam();
}
