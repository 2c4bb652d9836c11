#include "refs.hpp"
#include <algorithm>

namespace sim {

gi::Result solveQp(const Qp& q, double relax, bool useCost, double scale) {
  const int n = q.n, m = static_cast<int>(q.cons.size());
  // variables scaled: x = scale * y
  gi::Mat H = useCost ? gi::Mat(q.H * (scale * scale)) : gi::Mat(gi::Mat::Identity(n, n));
  gi::Vec g = useCost ? gi::Vec(q.g * scale) : gi::Vec(gi::Vec::Zero(n));
  gi::Mat A(m, n); gi::Vec lo(m), hi(m);
  for (int i = 0; i < m; ++i) {
    const Con& c = q.cons[i];
    A.row(i) = c.e.a.transpose() * scale;
    double l = c.lo, h = c.hi; bool eq = (l == h);
    // a limit of zero leaves no margin
    if (relax < 0 && eq && (c.tag == TAG_VEL || c.tag == TAG_ACC || c.tag == TAG_JERK)) { gi::Result none; none.status = gi::INFEASIBLE; return none; }
    if (relax > 0) {
      if (l > -gi::BIG) l -= relax * (1 + std::abs(c.lo));
      if (h < gi::BIG) h += relax * (1 + std::abs(c.hi));
    } else if (relax < 0 && !eq) {
      if (l > -gi::BIG) l -= relax * (1 + std::abs(c.lo));
      if (h < gi::BIG) h += relax * (1 + std::abs(c.hi));
    }
    lo(i) = l - c.e.b; hi(i) = h - c.e.b;
    if (c.lo <= -gi::BIG) lo(i) = -1e12;
    if (c.hi >= gi::BIG) hi(i) = 1e12;
  }
  gi::Vec lb = gi::Vec::Constant(n, -1e12), ub = gi::Vec::Constant(n, 1e12);
  gi::Result r = gi::solve(H, g, A, lb, ub, lo, hi, 20000);
  if (r.x.size() == n) r.x *= scale;
  if (r.status == gi::NUMERIC && !useCost) { gi::Result r2 = solveQp(q, relax, true, scale); if (r2.status == gi::SOLVED) return r2; }
  return r;
}

Chain chain(int n, int off, int N, const S3& s, double S, double T) {
  Chain c; Aff p = Aff::cst(n, s[0]), v = Aff::cst(n, s[1]), a = Aff::cst(n, s[2]);
  for (int k = 0; k < N; ++k) {
    double t = k == 0 ? S : T;
    Aff j = Aff::var(n, off + k);
    Aff np = p + v * t + a * (t * t / 2) + j * (t * t * t / 6);
    Aff nv = v + a * t + j * (t * t / 2);
    Aff na = a + j * t;
    p = np; v = nv; a = na;
    c.p.push_back(p); c.v.push_back(v); c.a.push_back(a);
  }
  return c;
}

void polyCon(Qp& q, const Poly& p, const Aff& x, const Aff& y, int tag) {
  for (size_t i = 0; i < p.size(); ++i) {
    const P2 &u = p[i], &w = p[(i + 1) % p.size()];
    double dx = w.x - u.x, dy = w.y - u.y, l = std::hypot(dx, dy);
    if (l < 1e-12) continue;
    Aff e = x * (-dy / l) + y * (dx / l) + (dy / l * u.x - dx / l * u.y);
    q.con(e, 0, 1e12, tag);
  }
}

S3 integrate(const S3& s, double j, double f) {
  return S3{{s[0] + s[1] * f + s[2] * f * f / 2 + j * f * f * f / 6, s[1] + s[2] * f + j * f * f / 2, s[2] + j * f}};
}

Qp trajQp(const TrajCfg& c, const S3& s) {
  Qp q(c.N);
  Chain ch = chain(c.N, 0, c.N, s, c.T, c.T);
  for (int k = 0; k < c.N; ++k) {
    q.lsq(c.wv, ch.v[k] + (-c.vref.at(k)));
    q.lsq(c.wp, ch.p[k] + (-c.pref.at(k)));
    q.lsq(c.wj, Aff::var(c.N, k));
    if (c.con) {
      q.con(ch.v[k], -c.V, c.V, TAG_VEL);
      q.con(ch.a[k], -c.A, c.A, TAG_ACC);
      q.con(Aff::var(c.N, k), -c.J, c.J, TAG_JERK);
    }
  }
  return q;
}

Qp zebQp(const ZebCfg& c, const VD& pub) {
  const int N = c.N, n = 4 * N;
  Qp q(n);
  S3 st[4]; // comX comY baseX baseY
  const int o[4] = {6, 9, 0, 3};
  for (int i = 0; i < 4; ++i) st[i] = S3{{pub[o[i]], pub[o[i] + 1], pub[o[i] + 2]}};
  Chain ch[4];
  for (int i = 0; i < 4; ++i) ch[i] = chain(n, i * N, N, st[i], c.T, c.T);
  const double gz = c.g[2], mt = c.m + c.M;
  std::vector<Aff> cop[2];   // relative to base
  for (int ax = 0; ax < 2; ++ax) for (int k = 0; k < N; ++k) {
    Aff body = ch[ax].p[k] - ch[ax].a[k] * (c.hb / gz) + (-c.hb * c.g[ax] / gz);
    Aff e = body;
    if (c.M > 1e-4) {
      Aff base = ch[2 + ax].p[k] - ch[2 + ax].a[k] * (c.hB / gz) + (-c.hB * c.g[ax] / gz);
      e = body * (c.m / mt) + base * (c.M / mt);
    }
    cop[ax].push_back(e - ch[2 + ax].p[k]);
  }
  for (int ax = 0; ax < 2; ++ax) {
    const S3& ang = ax == 0 ? c.roll : c.pitch;   // tilt motion coupled to this axis
    const double d = ax == 0 ? c.tX : c.tY;
    const double G = 9.81;
    const double a1 = G * (c.hb * c.m + c.M * c.hB), a2 = c.m * G, a6 = c.m * c.hb * c.hb + c.M * c.hB * c.hB;
    // second-order recurrence; the angular acceleration of an interval is the one at its end sample
    Aff psi = Aff::cst(n, ang[0]), psid = Aff::cst(n, ang[1]);
    const double shift = (c.m * c.hb + c.M * c.hB) / mt * c.g[ax] / gz;
    for (int k = 0; k < N; ++k) {
      q.lsq(c.w[0], ch[2 + ax].v[k] + (-c.vref[ax].at(k)));
      q.lsq(c.w[1], ch[2 + ax].p[k] + (-c.pref[ax].at(k)));
      q.lsq(c.w[2], cop[ax][k] + (-c.copRef[ax * N + k]));
      q.lsq(c.w[3], ch[ax].p[k] - ch[2 + ax].p[k] + (-c.comRef[ax * N + k] - shift));
      q.lsq(c.w[4], Aff::var(n, ax * N + k));
      q.lsq(c.w[4], Aff::var(n, (2 + ax) * N + k));
      if (c.w[5] > 0 || c.w[6] > 0) {
        // tilt of the whole machine about the contact point: inverted pendulum driven by both masses,
        //   a6*psi'' = a1*psi - a2*(com-base) + m*h*com'' + M*L*base'' + M*G*d
        // with psi'' constant over each preview interval and the equation holding at its end
        Aff rhs = (ch[ax].p[k] - ch[2 + ax].p[k]) * a2 - ch[ax].a[k] * (c.m * c.hb) - ch[2 + ax].a[k] * (c.M * c.hB) + (-c.M * G * d);
        Aff free = psi + psid * c.T;
        Aff acc = (rhs - free * a1) * (1.0 / (a1 * c.T * c.T / 2 - a6));
        psi = free + acc * (c.T * c.T / 2);
        psid = psid + acc * c.T;
        q.lsq(c.w[5], psi);
        q.lsq(c.w[6], psid);
      }
      if (c.con[2]) {
        q.con(ch[2 + ax].v[k], -c.V, c.V, TAG_VEL);
        q.con(ch[2 + ax].a[k], -c.A, c.A, TAG_ACC);
        q.con(Aff::var(n, (2 + ax) * N + k), -c.J, c.J, TAG_JERK);
      }
    }
  }
  for (int k = 0; k < N; ++k) {
    if (c.con[0]) polyCon(q, c.copP, cop[0][k], cop[1][k], TAG_COP);
    if (c.con[1]) polyCon(q, c.comP, ch[0].p[k] - ch[2].p[k], ch[1].p[k] - ch[3].p[k], TAG_COM);
    if (c.con[3]) {
      double sn = std::sin(c.yaw[0]), cs = std::cos(c.yaw[0]);
      q.con(ch[0].v[k] * sn - ch[1].v[k] * cs, 0, 0, TAG_TILT);
      q.con(ch[2].v[k] * sn - ch[3].v[k] * cs, 0, 0, TAG_TILT);
    }
  }
  return q;
}

S3 swing(const S3& s, double goal, double Trem, double f) {
  // three pieces of length h with constant jerks j1..j3 reaching (goal,0,0)
  const double h = Trem / 3;
  auto run = [&](double j1, double j2, double j3) { return integrate(integrate(integrate(s, j1, h), j2, h), j3, h); };
  S3 z = run(0, 0, 0);
  Eigen::Matrix3d A; Eigen::Vector3d b(goal - z[0], -z[1], -z[2]);
  for (int i = 0; i < 3; ++i) {
    S3 e = run(i == 0, i == 1, i == 2);
    for (int r = 0; r < 3; ++r) A(r, i) = e[r] - z[r];
  }
  // 3x3 solve by Cramer (closed form, no library)
  auto det = [](const Eigen::Matrix3d& m) {
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
  };
  // analytic columns avoid the cancellation of e - z
  {
    double h2 = h * h, h3 = h2 * h;
    double tau[3] = {2 * h, h, 0};   // time left after the piece
    for (int i = 0; i < 3; ++i) {
      double p = h3 / 6, v = h2 / 2, a = h, t = tau[i];
      A(0, i) = p + v * t + a * t * t / 2; A(1, i) = v + a * t; A(2, i) = a;
    }
  }
  double D = det(A); double j[3];
  for (int i = 0; i < 3; ++i) { Eigen::Matrix3d M = A; M.col(i) = b; j[i] = det(M) / D; }
  S3 c = s; double left = f;
  for (int i = 0; i < 3 && left > 0; ++i) {
    double t = (i == 2) ? left : std::min(left, h);
    c = integrate(c, j[i], t); left -= t;
  }
  return c;
}

double impliedGoal(const S3& s, const S3& nx, double Trem, double f) {
  // affine in the goal: use the best conditioned component
  S3 z = swing(s, s[0], Trem, f), o = swing(s, s[0] + 1, Trem, f);
  int best = 0; double bw = -1;
  const double sc[3] = {1, Trem, Trem * Trem};
  for (int i = 0; i < 3; ++i) { double w = std::abs((o[i] - z[i]) * sc[i]); if (w > bw) { bw = w; best = i; } }
  return s[0] + (nx[best] - z[best]) / (o[best] - z[best]);
}

static bool ambiguous(const Poly& p) {
  for (size_t i = 0; i < p.size(); ++i) {
    const P2 &u = p[i], &w = p[(i + 1) % p.size()], &z = p[(i + 2) % p.size()];
    double dx = w.x - u.x, dy = w.y - u.y, ex = z.x - w.x, ey = z.y - w.y;
    if (std::hypot(dx, dy) < 1e-3) return true;
    if (std::abs(dx) > 1e-9 && std::abs(dx) < 5e-4) return true;
    if (std::abs(dy) > 1e-9 && std::abs(dy) < 5e-4) return true;
    if (std::abs(dx * ey - dy * ex) < 5e-3 * std::hypot(dx, dy) * std::hypot(ex, ey)) return true;
  }
  return false;
}
HumModel humModel(const HumCfg& c, const Fsm& fs, const VD& pub, double f, const P2* prevGoal) {
  (void)f;
  HumModel m; m.N = c.N; m.M = fs.M; m.S = fs.toSample(c.T);
  const int N = c.N, M = fs.M, n = 2 * N + 2 * M;
  m.q = Qp(n); m.copMap = gi::Mat::Zero(2 * N, n);
  // the plan in terms of the centre of pressure diverges by this factor over the preview: beyond it,
  // no solver in double precision can be expected to find the optimum (condition above 1e11)
  if (std::exp(std::sqrt(9.81 / c.h) * N * c.T) > 1e4) m.exactCons = false;
  S3 cx{{pub[0], pub[1], pub[2]}}, cy{{pub[3], pub[4], pub[5]}};
  P2 foot[2] = {{pub[9], pub[12]}, {pub[18], pub[21]}};
  Chain X = chain(n, 0, N, cx, m.S, c.T), Y = chain(n, N, N, cy, m.S, c.T);
  const bool ds = fs.type == Fsm::DS;
  P2 sup = foot[0];
  if (fs.type == Fsm::RIGHT) sup = foot[1];
  else if (ds && !c.move) sup = P2{(foot[0].x + foot[1].x) / 2, (foot[0].y + foot[1].y) / 2};
  // frame of sample i
  auto stepOf = [&](int ph) -> int {   // -1: the support frame
    if (ds) { if (!c.move || ph <= 1) return -1; return ph - 2; }
    if (ph == 0) return -1;
    return c.move ? ph - 1 : 0;
  };
  auto stepVar = [&](int i, int ax) { return Aff::var(n, 2 * N + ax * M + i); };
  std::vector<double> w(N, 1.0);
  w[0] = m.S / c.T; w[N - 1] = 1.05 - m.S / c.T;
  if (N == 1) w[0] = 1.05 - m.S / c.T;
  for (int i = 0; i < N; ++i) {
    m.q.lsq(c.wv * w[i], X.v[i] + (-c.vref[0].at(i)));
    m.q.lsq(c.wv * w[i], Y.v[i] + (-c.vref[1].at(i)));
    m.q.lsq(c.wj * w[i], Aff::var(n, i));
    m.q.lsq(c.wj * w[i], Aff::var(n, N + i));
    int ph = fs.phaseOf[i], st = stepOf(ph);
    Aff fx = st < 0 ? Aff::cst(n, sup.x) : stepVar(st, 0), fy = st < 0 ? Aff::cst(n, sup.y) : stepVar(st, 1);
    Aff zx = X.p[i] - X.a[i] * (c.h / 9.81) - fx, zy = Y.p[i] - Y.a[i] * (c.h / 9.81) - fy;
    m.q.lsq(c.wc, zx); m.q.lsq(c.wc, zy);
    m.copMap.row(i) = zx.a.transpose(); m.copMap.row(N + i) = zy.a.transpose();
    if (c.conCop) {
      int type = fs.phases[ph].type;
      if (type == Fsm::DS) {
        P2 l = foot[0], r = foot[1], tr = l;
        bool known = true;
        if (!ds && !c.move) {
          if (!prevGoal) known = false;
          else if (fs.type == Fsm::LEFT) { r = *prevGoal; tr = r; } else { l = *prevGoal; tr = l; }
          m.dsPrev = true;
        } else if (ds && !c.move) tr = P2{(l.x + r.x) / 2, (l.y + r.y) / 2};
        if (!known) m.exactCons = false;
        else {
          Poly p;
          for (auto& v : c.cop[0]) p.push_back({v.x + l.x - tr.x, v.y + l.y - tr.y});
          for (auto& v : c.cop[1]) p.push_back({v.x + r.x - tr.x, v.y + r.y - tr.y});
          p = hullOf(p);
          if (p.size() >= 3) { if (ambiguous(p)) m.ambiguousHull = true; polyCon(m.q, p, zx, zy, TAG_DSHULL); }
        }
      } else if (c.cop[type == Fsm::LEFT ? 0 : 1].size() >= 3) { if (ambiguous(c.cop[type == Fsm::LEFT ? 0 : 1])) { m.exactCons = false; m.ambiguousPoly = true; } polyCon(m.q, c.cop[type == Fsm::LEFT ? 0 : 1], zx, zy, TAG_COP); }
    }
  }
  if (c.conFeet) for (int i = 0; i < M; ++i) {
    int ph = (ds && c.move) ? i + 1 : i;
    const Poly& p = c.kin[fs.phases[ph].type == Fsm::LEFT ? 0 : 1];
    if (p.size() < 3) continue;
    if (ambiguous(p)) { m.exactCons = false; m.ambiguousPoly = true; }
    Aff rx = stepVar(i, 0) - (i == 0 ? Aff::cst(n, sup.x) : stepVar(i - 1, 0));
    Aff ry = stepVar(i, 1) - (i == 0 ? Aff::cst(n, sup.y) : stepVar(i - 1, 1));
    polyCon(m.q, p, rx, ry, TAG_KIN);
  }
  return m;
}

} // namespace sim
