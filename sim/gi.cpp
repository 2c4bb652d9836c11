#include "gi.hpp"
#include <Eigen/Cholesky>
#include <limits>
#include <cmath>
namespace gi {
class Solver {
public:
  // row-normalised one-sided constraints n'x >= d ; equalities first
  Result solve(const Mat& Hin, const Vec& g, const Mat& A, const Vec& lb, const Vec& ub,
               const Vec& lbA, const Vec& ubA, int maxIter, double tol = 1e-9)
  {
    Result r;
    const int n = static_cast<int>(g.size());
    const int m = static_cast<int>(lbA.size());
    r.x.setZero(n);
    if (!g.allFinite() || !Hin.allFinite() || !A.allFinite()) { r.status = NUMERIC; return r; }
    // --- Hessian, tiny proximal term so that PSD Hessians are handled
    Mat H = 0.5 * (Hin + Hin.transpose());
    double dmax = H.size() ? H.diagonal().cwiseAbs().maxCoeff() : 1.0;
    if (!(dmax > 0)) dmax = 1.0;
    double reg = 1e-11 * dmax;
    Eigen::LLT<Mat> llt;
    for (int t = 0; t < 8; ++t) {
      Mat Hr = H; Hr.diagonal().array() += reg;
      llt.compute(Hr);
      if (llt.info() == Eigen::Success) break;
      reg *= 10;
    }
    if (llt.info() != Eigen::Success) { r.status = NUMERIC; return r; }
    // --- constraints
    struct C { int row; double sgn; double scale; double d; bool eq; int id; };
    std::vector<C> cs;
    auto add = [&](int row, double scale, double lo, double hi, int id) {
      if (lo > -BIG && hi < BIG && std::abs(hi - lo) <= 1e-13 * (1 + std::abs(hi))) {
        cs.push_back({row, 1.0, scale, lo * scale, true, id});
        return;
      }
      if (lo > -BIG) cs.push_back({row, 1.0, scale, lo * scale, false, id});
      if (hi < BIG) cs.push_back({row, -1.0, scale, -hi * scale, false, -id});
    };
    for (int i = 0; i < n; ++i) {
      if (lb(i) > ub(i) + 1e-12) { r.status = INFEASIBLE; r.x = llt.solve(-g); return r; }
      add(-1 - i, 1.0, lb(i), ub(i), i + 1);
    }
    for (int i = 0; i < m; ++i) {
      double nr = A.row(i).norm();
      if (!(nr > 1e-12)) {
        if (lbA(i) > 1e-9 || ubA(i) < -1e-9) { r.status = INFEASIBLE; r.x = llt.solve(-g); return r; }
        continue;
      }
      if (lbA(i) > ubA(i) + 1e-12 * (1 + std::abs(ubA(i)))) { r.status = INFEASIBLE; r.x = llt.solve(-g); return r; }
      add(i, 1.0 / nr, lbA(i), ubA(i), n + i + 1);
    }
    const int nc = static_cast<int>(cs.size());
    auto normalVec = [&](const C& c, Vec& out) {
      if (c.row < 0) { out.setZero(n); out(-1 - c.row) = c.sgn; }
      else out = (c.sgn * c.scale) * A.row(c.row).transpose();
    };
    auto slack = [&](const C& c, const Vec& x, const Vec& Ax) {
      double v = c.row < 0 ? x(-1 - c.row) : Ax(c.row) * c.scale;
      return c.sgn * v - c.d;
    };
    // J = L^-T
    Mat L = llt.matrixL();
    Mat J = L.transpose().triangularView<Eigen::Upper>().solve(Mat::Identity(n, n));
    Mat R = Mat::Zero(n, n);
    Vec x = llt.solve(-g);
    // proximal-point refinement: removes the bias of the proximal term
    for (int t = 0; t < 3; ++t) x += llt.solve(-g - H * x);
    std::vector<int> act; std::vector<double> u; std::vector<char> isAct(nc, 0);
    std::vector<double> eqSign;
    Vec Ax(m), np(n), d(n), z(n), rr(n);
    int iq = 0; r.iterations = 0;
    auto addConstraint = [&](const Vec& dIn, double& Rnorm) -> bool {
      Vec dd = dIn;
      for (int j = n - 1; j >= iq + 1; --j) {
        double cc = dd(j - 1), ss = dd(j), h = std::hypot(cc, ss);
        if (h == 0.0) continue;
        dd(j) = 0.0; ss /= h; cc /= h;
        if (cc < 0) { cc = -cc; ss = -ss; dd(j - 1) = -h; } else dd(j - 1) = h;
        double xny = ss / (1.0 + cc);
        for (int k = 0; k < n; ++k) {
          double t1 = J(k, j - 1), t2 = J(k, j);
          J(k, j - 1) = t1 * cc + t2 * ss;
          J(k, j) = xny * (t1 + J(k, j - 1)) - t2;
        }
      }
      ++iq;
      for (int i = 0; i < iq; ++i) R(i, iq - 1) = dd(i);
      Rnorm = std::max(Rnorm, std::abs(dd(iq - 1)));
      return std::abs(dd(iq - 1)) > 1e-13 * Rnorm;
    };
    auto delConstraint = [&](int l) {
      int qq = l;
      isAct[act[qq]] = 0;
      for (int i = qq; i < iq - 1; ++i) { act[i] = act[i + 1]; u[i] = u[i + 1]; R.col(i) = R.col(i + 1); }
      act.pop_back(); u.erase(u.begin() + (iq - 1));
      R.col(iq - 1).setZero();
      --iq;
      if (iq == 0) return;
      for (int j = qq; j < iq; ++j) {
        double cc = R(j, j), ss = R(j + 1, j), h = std::hypot(cc, ss);
        if (h == 0) continue;
        cc /= h; ss /= h; R(j + 1, j) = 0.0;
        if (cc < 0) { R(j, j) = -h; cc = -cc; ss = -ss; } else R(j, j) = h;
        double xny = ss / (1.0 + cc);
        for (int k = j + 1; k < iq; ++k) {
          double t1 = R(j, k), t2 = R(j + 1, k);
          R(j, k) = t1 * cc + t2 * ss;
          R(j + 1, k) = xny * (t1 + R(j, k)) - t2;
        }
        for (int k = 0; k < n; ++k) {
          double t1 = J(k, j), t2 = J(k, j + 1);
          J(k, j) = t1 * cc + t2 * ss;
          J(k, j + 1) = xny * (J(k, j) + t1) - t2;
        }
      }
    };
    double Rnorm = 1.0;
    // --- equalities
    for (int c = 0; c < nc; ++c) if (cs[c].eq) {
      normalVec(cs[c], np);
      Ax.noalias() = A * x;
      double s = slack(cs[c], x, Ax);
      d.noalias() = J.transpose() * np;
      z.noalias() = J.rightCols(n - iq) * d.tail(n - iq);
      double zn = z.dot(np);
      if (iq >= n || !(z.norm() > 1e-11 * (1 + J.norm()*0) ) || zn <= 1e-13) {
        if (std::abs(s) > 1e-7) {
          rr.setZero(n);
          if (iq > 0) rr.head(iq) = R.topLeftCorner(iq, iq).triangularView<Eigen::Upper>().solve(d.head(iq));
          r.farkas = np; Vec nk(n);
          for (int k = 0; k < iq; ++k) { normalVec(cs[act[k]], nk); r.farkas -= rr(k) * nk; }
          r.gap = std::abs(s);
          r.status = INFEASIBLE; r.x = x; return r;
        }
        continue; // redundant
      }
      rr.setZero(n);
      if (iq > 0) rr.head(iq) = R.topLeftCorner(iq, iq).triangularView<Eigen::Upper>().solve(d.head(iq));
      double t = -s / zn;
      x += t * z;
      for (int i = 0; i < iq; ++i) u[i] -= t * rr(i);
      act.push_back(c); u.push_back(t); isAct[c] = 1;
      if (!addConstraint(d, Rnorm)) { // nearly dependent equality: drop it
        delConstraint(iq - 1);
      }
    }
    int nEq = iq;
    // --- inequalities
    std::vector<char> banned(nc, 0);
    const int hard = 50 * (n + nc) + 200;
    while (true) {
      if (m) Ax.noalias() = A * x;
      int best = -1; double worst = -tol * 0.1;
      double xs = 1.0 + x.cwiseAbs().maxCoeff() * 1e-12;
      (void)xs;
      double wv = 0;
      for (int c = 0; c < nc; ++c) if (!cs[c].eq) {
        double s = slack(cs[c], x, Ax);
        if (s < wv) wv = s;
        if (!isAct[c] && !banned[c] && s < worst * (1 + std::abs(cs[c].d))) {
          double rel = s / (1 + std::abs(cs[c].d));
          if (best < 0 || rel < slack(cs[best], x, Ax) / (1 + std::abs(cs[best].d))) best = c;
        }
      }
      r.maxViolation = -wv;
      if (best < 0) { r.status = SOLVED; break; }
      if (r.iterations >= maxIter) { r.status = MAXITER; break; }
      if (r.iterations >= hard) { r.status = NUMERIC; break; }
      normalVec(cs[best], np);
      double up = 0.0;
      bool done = false; int guard = 0;
      while (!done) {
        if (++guard > 4 * (n + nc)) { r.status = NUMERIC; r.x = x; return r; }
        d.noalias() = J.transpose() * np;
        if (iq < n) z.noalias() = J.rightCols(n - iq) * d.tail(n - iq); else z.setZero();
        if (iq > 0) rr.head(iq) = R.topLeftCorner(iq, iq).triangularView<Eigen::Upper>().solve(d.head(iq));
        // dual step length
        double t1 = std::numeric_limits<double>::infinity(); int l = -1;
        for (int k = nEq; k < iq; ++k) {
          if (rr(k) > 1e-14) { double q = u[k] / rr(k); if (q < t1) { t1 = q; l = k; } }
        }
        if (m) Ax.noalias() = A * x;
        double s = slack(cs[best], x, Ax);
        double zn = z.dot(np);
        double t2 = std::numeric_limits<double>::infinity();
        double dn2 = d.squaredNorm();
        if (iq < n && zn > 1e-12 * dn2 && zn > 0) t2 = std::max(0.0, -s / zn);
        double t = std::min(t1, t2);
        if (!(t < std::numeric_limits<double>::infinity())) {
          // no step: infeasible unless the violation is numerically nil
          if (-s < 1e-8 * (1 + std::abs(cs[best].d))) { banned[best] = 1; done = true; break; }
          r.farkas = np; Vec nk(n);
          for (int k = 0; k < iq; ++k) { normalVec(cs[act[k]], nk); double c = k < nEq ? rr(k) : std::min(0.0, rr(k)); r.farkas -= c * nk; }
          r.gap = -s;
          r.status = INFEASIBLE; r.x = x; return r;
        }
        if (t < 0) t = 0;
        if (t2 == std::numeric_limits<double>::infinity()) {
          for (int k = 0; k < iq; ++k) u[k] -= t * rr(k);
          up += t;
          delConstraint(l);
          ++r.iterations;
          continue;
        }
        x += t * z;
        for (int k = 0; k < iq; ++k) u[k] -= t * rr(k);
        up += t;
        if (t == t2) {
          act.push_back(best); u.push_back(up); isAct[best] = 1;
          if (!addConstraint(d, Rnorm)) { delConstraint(iq - 1); banned[best] = 1; }
          else std::fill(banned.begin(), banned.end(), 0);
          done = true;
        } else {
          delConstraint(l);
          ++r.iterations;
        }
      }
      ++r.iterations;
    }
    // --- polish: re-solve the KKT system of the final active set
    if (r.status == SOLVED && iq > 0 && iq <= n) {
      Mat N(n, iq); Vec rhs(iq); Vec uu(iq);
      for (int k = 0; k < iq; ++k) { normalVec(cs[act[k]], np); N.col(k) = np; rhs(k) = cs[act[k]].d; uu(k) = u[k]; }
      for (int it = 0; it < 4; ++it) {
        Vec r1 = -(H * x + g) + N * uu;         // (H + reg) dx - N du = r1
        Vec r2 = rhs - N.transpose() * x;        // N'dx = r2
        Mat Y = llt.solve(N);
        Vec y = llt.solve(r1);
        Mat S = N.transpose() * Y;
        Vec du = S.ldlt().solve(r2 - N.transpose() * y);
        Vec dx = y + Y * du;
        if (!dx.allFinite() || !du.allFinite() || dx.norm() > 1e-3 * (1 + x.norm())) break;
        x += dx; uu += du;
      }
    }
    r.x = x;
    if (!x.allFinite()) r.status = NUMERIC;
    r.activeIds.clear();
    for (int k = 0; k < iq; ++k) r.activeIds.push_back(cs[act[k]].id);
    return r;
  }
};


Result solve(const Mat& H, const Vec& g, const Mat& A, const Vec& lb, const Vec& ub,
             const Vec& lbA, const Vec& ubA, int maxIter, double tol)
{
  // equilibration: unit diagonal of the Hessian
  const int n = static_cast<int>(g.size());
  if (H.rows() != n || !H.allFinite() || !g.allFinite() || !A.allFinite()) return Solver().solve(H, g, A, lb, ub, lbA, ubA, maxIter, tol);
  const double dmax = n ? H.diagonal().cwiseAbs().maxCoeff() : 1;
  Vec s(n);
  for (int i = 0; i < n; ++i) s(i) = 1 / std::sqrt(std::max(std::abs(H(i, i)), 1e-12 * (dmax > 0 ? dmax : 1)));
  if (n) s /= s.maxCoeff();          // only ever shrinks the unit of a variable: the tolerances keep their meaning
  for (int i = 0; i < n; ++i) { int e; std::frexp(s(i), &e); s(i) = std::ldexp(1.0, e); }   // powers of two: exact
  auto bnd = [&](const Vec& b) { Vec o(n); for (int i = 0; i < n; ++i) o(i) = std::abs(b(i)) >= BIG ? b(i) : b(i) / s(i); return o; };
  Result r = Solver().solve(s.asDiagonal() * H * s.asDiagonal(), s.asDiagonal() * g, A * s.asDiagonal(), bnd(lb), bnd(ub), lbA, ubA, maxIter, tol);
  r.x = s.asDiagonal() * r.x;
  if (r.status == INFEASIBLE && r.farkas.size() == n) {
    double l1 = 0; for (int i = 0; i < n; ++i) l1 += std::abs(r.farkas(i)) / s(i);
    r.radius = r.gap / std::max(l1, 1e-300);
    if (!(r.radius > 1e8)) r.status = NUMERIC;
  }
  return r;
}
} // namespace gi
