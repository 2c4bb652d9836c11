// Executable reference models: what each controller's tick has to be, written from
// first principles as recurrences over the preview (no shared code with /repo).
#pragma once
#include "cfg.hpp"
#include "gi.hpp"

namespace sim {

struct Aff {               // affine function of the decision variables
  gi::Vec a; double b = 0;
  Aff() {}
  explicit Aff(int n) : a(gi::Vec::Zero(n)), b(0) {}
  static Aff var(int n, int i) { Aff r(n); r.a(i) = 1; return r; }
  static Aff cst(int n, double c) { Aff r(n); r.b = c; return r; }
  Aff operator+(const Aff& o) const { Aff r(*this); r.a += o.a; r.b += o.b; return r; }
  Aff operator-(const Aff& o) const { Aff r(*this); r.a -= o.a; r.b -= o.b; return r; }
  Aff operator*(double k) const { Aff r(*this); r.a *= k; r.b *= k; return r; }
  Aff operator+(double k) const { Aff r(*this); r.b += k; return r; }
  double at(const gi::Vec& x) const { return a.dot(x) + b; }
};

struct Con { Aff e; double lo, hi; int tag; };  // lo <= e <= hi, natural units

struct Qp {
  int n = 0;
  gi::Mat H; gi::Vec g; double c0 = 0;
  std::vector<Con> cons;
  explicit Qp(int n_ = 0) : n(n_), H(gi::Mat::Zero(n_, n_)), g(gi::Vec::Zero(n_)) {}
  void lsq(double w, const Aff& e) { if (w == 0) return; H.noalias() += w * e.a * e.a.transpose(); g += w * e.b * e.a; c0 += 0.5 * w * e.b * e.b; }
  void con(const Aff& e, double lo, double hi, int tag = 0) { cons.push_back({e, lo, hi, tag}); }
  double cost(const gi::Vec& x) const { return 0.5 * x.dot(H * x) + g.dot(x) + c0; }
};

enum { TAG_POS = 1, TAG_VEL, TAG_ACC, TAG_JERK, TAG_COP, TAG_COM, TAG_TILT, TAG_KIN, TAG_FIX, TAG_DSHULL };

// relax > 0: every constraint relaxed by relax*(1+|bound|) ; relax < 0: inequalities tightened by -relax.
gi::Result solveQp(const Qp& q, double relax, bool useCost, double scale = 1.0);
inline bool feasible(const Qp& q, double relax, double scale = 1.0) { return solveQp(q, relax, false, scale).status == gi::SOLVED; }

struct Chain { std::vector<Aff> p, v, a; };  // samples 1..N
Chain chain(int n, int off, int N, const S3& s, double S, double T);

void polyCon(Qp& q, const Poly& p, const Aff& x, const Aff& y, int tag);

S3 integrate(const S3& s, double j, double f);

// --- models; the state vectors are the published ones
Qp trajQp(const TrajCfg& c, const S3& s);
struct ZebModel { Qp q; };
Qp zebQp(const ZebCfg& c, const VD& pub);

struct HumModel {
  Qp q;                 // variables: jx[N] jy[N] sx[M] sy[M]
  int N = 0, M = 0; double S = 0;
  gi::Mat copMap;          // centre of pressure (x then y) relative to the support, per variable
  bool exactCons = true;  // every constraint of the tick is represented exactly
  bool ambiguousHull = false;
  bool ambiguousPoly = false; // a polygon edge the library rounds to an axis by design
  bool dsPrev = false;    // a constraint needed the previously previewed footstep
};
// prevGoal: footstep previewed at the last tick, if known
HumModel humModel(const HumCfg& c, const Fsm& f, const VD& pub, double tickF, const P2* prevGoal);

// 3-piece constant-jerk interpolation from s to (goal,0,0) in Trem, evaluated after f
S3 swing(const S3& s, double goal, double Trem, double f);
// goal such that swing() reproduces the acceleration
double impliedGoal(const S3& s, const S3& next, double Trem, double f);

} // namespace sim
