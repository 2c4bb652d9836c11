// Simulated qpOASES 2.0 QProblem: same calls and call-order rules as the real class,
// numerics by a dense dual active-set method, failures decided by the simulator.
// Rules kept from the real library:
//  * the matrices given to init() are kept and used by hotstart();
//  * hotstart() on an object that is not set up fails;
//  * init() on an object in use resets it;
//  * getPrimalSolution() writes only if some homotopy iterate exists.
#pragma once
#include <algorithm>
#include <memory>
#include "../gi.hpp"
#include "../faults.hpp"

namespace qpOASES {
enum returnValue {
  SUCCESSFUL_RETURN = 0,
  RET_INIT_FAILED = 37,
  RET_INIT_FAILED_INFEASIBILITY = 40,
  RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED = 51,
  RET_HOTSTART_FAILED = 52,
  RET_HOTSTART_STOPPED_INFEASIBILITY = 55,
  RET_HOMOTOPY_STEP_FAILED = 57,
  RET_MAX_NWSR_REACHED = 64,
  RET_QP_NOT_SOLVED = 90
};
enum PrintLevel { PL_NONE = 0, PL_LOW, PL_MEDIUM, PL_HIGH };

#ifdef QPOASES_REAL_IS_FLOAT
inline namespace sim_f32 {
typedef float real_t;
#else
inline namespace sim_f64 {
typedef double real_t;
#endif

class QProblem {
public:
  QProblem(int nV, int nC) : nV_(nV), nC_(nC) { ++simfault::seam().liveObjects; }
  QProblem(const QProblem&) = delete;
  QProblem& operator=(const QProblem&) = delete;
  ~QProblem() { --simfault::seam().liveObjects; }
  returnValue setPrintLevel(PrintLevel) { return SUCCESSFUL_RETURN; }

  returnValue init(const real_t* H, const real_t* g, const real_t* A,
                   const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                   int& nWSR, real_t* /*cputime*/)
  {
    s_.reset(new St);
    s_->H.resize(nV_, nV_); s_->A.resize(nC_, nV_);
    for (int i = 0; i < nV_; ++i) for (int j = 0; j < nV_; ++j) s_->H(i, j) = H[i * nV_ + j];
    for (int i = 0; i < nC_; ++i) for (int j = 0; j < nV_; ++j) s_->A(i, j) = A[i * nV_ + j];
    return run(g, lb, ub, lbA, ubA, nWSR, false);
  }
  returnValue hotstart(const real_t* g, const real_t* lb, const real_t* ub,
                       const real_t* lbA, const real_t* ubA, int& nWSR, real_t* /*cputime*/)
  {
    return run(g, lb, ub, lbA, ubA, nWSR, true);
  }
  returnValue getPrimalSolution(real_t* x) const
  {
    if (!s_ || !s_->hasIterate) return RET_QP_NOT_SOLVED;
    for (int i = 0; i < nV_; ++i) x[i] = static_cast<real_t>(s_->x(i));
    simfault::seam().lastTouched = true;
    return SUCCESSFUL_RETURN;
  }

private:
  struct St {
    gi::Mat H, A; gi::Vec x, g, lb, ub, la, ua; bool ready = false; bool hasIterate = false;
  };
  returnValue run(const real_t* g, const real_t* lb, const real_t* ub, const real_t* lbA,
                  const real_t* ubA, int& nWSR, bool hot)
  {
    simfault::Seam& f = simfault::seam();
    ++f.calls; ++f.totalCalls; f.lastTouched = false; f.lastNatural = false; f.lastNumeric = false;
    (hot ? f.warm : f.cold)++;
    f.lastWarm = hot; f.lastIters = 0;
    int kind = f.kind, param = f.param; f.kind = 0;
    returnValue ret = exec(g, lb, ub, lbA, ubA, nWSR, hot, kind, param);
    f.lastRet = ret;
    if (ret != SUCCESSFUL_RETURN) ++f.failures;
    return ret;
  }
  returnValue exec(const real_t* g, const real_t* lb, const real_t* ub, const real_t* lbA,
                   const real_t* ubA, int& nWSR, bool hot, int kind, int param)
  {
    simfault::Seam& f = simfault::seam();
    if (hot && (!s_ || !s_->ready)) {
      ++f.notInit; f.lastNatural = true;
      return RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED;
    }
    if (kind == simfault::NO_ITERATE) {
      ++f.fired[kind];
      if (!hot) { s_->ready = false; s_->hasIterate = false; return RET_INIT_FAILED; }
      s_->ready = false; s_->hasIterate = false;
      return RET_HOTSTART_FAILED;
    }
    const int budget = nWSR;
    gi::Vec G(nV_), LB(nV_), UB(nV_), LA(nC_), UA(nC_);
    for (int i = 0; i < nV_; ++i) { G(i) = g[i]; LB(i) = lb[i]; UB(i) = ub[i]; }
    for (int i = 0; i < nC_; ++i) { LA(i) = lbA[i]; UA(i) = ubA[i]; }
    // float inputs carry ~1e-7 relative noise (e.g. in lb==ub pairs): same tolerance class as the real float build
    const double tol = sizeof(real_t) == 4 ? 1e-6 : 1e-9;
    gi::Result r = gi::solve(s_->H, G, s_->A, LB, UB, LA, UA, nWSR, tol);
    const bool cut = (kind == simfault::ITER_LIMIT || kind == simfault::STEP_FAILED || kind == simfault::FALSE_INFEASIBLE)
                     && r.status == gi::SOLVED && param < r.iterations;
    if (cut || r.status == gi::MAXITER || r.status == gi::INFEASIBLE) {
      // The real solver follows a homotopy from an auxiliary problem it has already solved
      // (the origin for a cold start, the previous problem for a hot start); stopped half way,
      // it holds the exact solution of the problem interpolated at that point.
      gi::Vec g0 = gi::Vec::Zero(nV_), lb0 = LB.cwiseMin(0.0), ub0 = UB.cwiseMax(0.0), la0 = LA.cwiseMin(0.0), ua0 = UA.cwiseMax(0.0);
      if (hot && s_->g.size() == nV_) { g0 = s_->g; lb0 = s_->lb; ub0 = s_->ub; la0 = s_->la; ua0 = s_->ua; }
      auto at = [&](double tau) {
        auto mix = [tau](const gi::Vec& p, const gi::Vec& q) {
          gi::Vec o(q.size());
          for (int i = 0; i < q.size(); ++i) o(i) = std::abs(q(i)) >= gi::BIG ? q(i) : std::abs(p(i)) >= gi::BIG ? p(i) : (1 - tau) * p(i) + tau * q(i);
          return o;
        };
        return gi::solve(s_->H, mix(g0, G), s_->A, mix(lb0, LB), mix(ub0, UB), mix(la0, LA), mix(ua0, UA), nWSR, tol);
      };
      const int full = r.iterations;
      gi::Vec x = gi::Vec::Zero(nV_);
      if (r.status == gi::INFEASIBLE) { // it stops where the interpolated problem becomes infeasible
        double lo = 0, hi = 1;
        for (int k = 0; k < 5; ++k) {
          double mid = (lo + hi) / 2; gi::Result h = at(mid);
          if (h.status == gi::SOLVED) { lo = mid; x = h.x; } else hi = mid;
        }
      } else {
        gi::Result h = at(cut ? (param + 1.0) / (r.iterations + 2.0) : 0.5);
        if (h.status == gi::SOLVED) x = h.x;
        r.iterations = std::min(param, full);
        if (cut && kind == simfault::ITER_LIMIT) r.status = gi::MAXITER;
      }
      r.x = x;
    }
    s_->g = G; s_->lb = LB; s_->ub = UB; s_->la = LA; s_->ua = UA;
    f.totalIters += r.iterations; f.lastIters = r.iterations;
    nWSR = r.iterations;
    s_->x = r.x; s_->hasIterate = r.x.allFinite();
    s_->ready = true;
    if (kind == simfault::STEP_FAILED && r.status != gi::INFEASIBLE) {
      ++f.fired[kind]; s_->ready = false; return RET_HOMOTOPY_STEP_FAILED;
    }
    if (kind == simfault::FALSE_INFEASIBLE && r.status != gi::INFEASIBLE) {
      ++f.fired[kind]; if (!hot) s_->ready = false;
      return hot ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_INIT_FAILED_INFEASIBILITY;
    }
    switch (r.status) {
      case gi::SOLVED: return SUCCESSFUL_RETURN;
      case gi::MAXITER:
        if (cut) ++f.fired[simfault::ITER_LIMIT];
        else (budget >= 2000 ? f.lastNumeric : f.lastNatural) = true;   // the caller allowed too few iterations
        return RET_MAX_NWSR_REACHED;
      case gi::INFEASIBLE:
        ++f.naturalInfeasible; f.lastNatural = true;
        if (!hot) s_->ready = false;
        return hot ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_INIT_FAILED_INFEASIBILITY;
      default:
        { // give-up on finite data counts as a failure of the solver; garbage data is the caller's doing
          const bool finite = G.allFinite() && s_->H.allFinite() && s_->A.allFinite() && LB.allFinite() && UB.allFinite() && LA.allFinite() && UA.allFinite();
          (finite ? f.lastNumeric : f.lastNatural) = true; }
        ++f.numeric; s_->ready = false; return RET_HOMOTOPY_STEP_FAILED;
    }
  }
  int nV_, nC_;
  std::unique_ptr<St> s_;
};
} // inline namespace
} // namespace qpOASES
