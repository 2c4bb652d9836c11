// Dense dual active-set QP solver (Goldfarb & Idnani 1983), double precision.
//   minimise 1/2 x'Hx + g'x   s.t.  lb <= x <= ub,  lbA <= A x <= ubA
// Used twice, for unrelated purposes:
//  * inside the simulated third-party solver (stub/QProblem.hpp), and
//  * as the numerical engine of the reference models / feasibility oracles.
// A verdict of infeasibility comes with a Farkas certificate whose reach (radius) is checked;
// what is not certified is reported as a numerical failure, never as a verdict.
#pragma once
#include <Eigen/Core>
#include <vector>
#include <cmath>

namespace gi {

typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

enum Status { SOLVED = 0, INFEASIBLE = 1, MAXITER = 2, NUMERIC = 3 };

struct Result {
  Status status = NUMERIC;
  int iterations = 0;
  Vec x;                 // last dual-feasible iterate
  double maxViolation = 0;  // row-normalised
  std::vector<int> activeIds; // signed constraint ids (1-based)
  Vec farkas; double gap = 0; // infeasible: combination of constraints which is impossible, up to this residual
  double radius = 1e300;      // infeasible: no point within this distance of the origin satisfies the constraints
};

static const double BIG = 1e9;

Result solve(const Mat& H, const Vec& g, const Mat& A, const Vec& lb, const Vec& ub,
             const Vec& lbA, const Vec& ubA, int maxIter, double tol = 1e-9);

} // namespace gi
