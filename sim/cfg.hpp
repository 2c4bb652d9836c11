// Plain-data mirror of what the user of each controller has configured.
// Filled from the same operations that are applied to the real object; it is the
// only input (with the published state) of the reference models.
#pragma once
#include "core.hpp"
#include <array>

namespace sim {

typedef std::array<double, 3> S3;
typedef std::vector<double> VD;
struct P2 { double x, y; };
typedef std::vector<P2> Poly;

// parametric reference: value of sample k of one axis
struct PR {
  double a = 0, b = 0, c = 0; int k0 = 0;
  double at(int k) const { return a + b * k + (k >= k0 ? c : 0); }
};
inline PR pr(const VD& v, size_t o) { PR r; r.a = v[o]; r.b = v[o + 1]; r.c = v[o + 2]; r.k0 = static_cast<int>(v[o + 3]); return r; }
inline VD expand(const PR& r, int N) { VD o(N); for (int k = 0; k < N; ++k) o[k] = r.at(k); return o; }
inline VD expand2(const PR& x, const PR& y, int N) { VD o = expand(x, N), p = expand(y, N); o.insert(o.end(), p.begin(), p.end()); return o; }

inline Poly polyFrom(const VD& v) { Poly p; for (size_t i = 0; i + 1 < v.size(); i += 2) p.push_back({v[i], v[i + 1]}); return p; }
// reference convex hull (Andrew monotone chain), counter-clockwise
Poly hullOf(Poly p);

struct TrajCfg {
  int N = 1; double T = 1;
  double wv = 0, wp = 0, wj = 0; bool con = false;
  double V = 1, A = 1, J = 1;
  PR vref, pref;
};

struct ZebCfg {
  int N = 1; double T = 1;
  double w[7] = {0, 0, 0, 0, 0, 0, 0};  // vel, pos, cop, com, jerk, tilt, tiltVel
  bool con[4] = {false, false, false, false};  // cop, com, baseMotion, tiltMotion
  double g[3] = {0, 0, 9.81};
  Poly copP, comP;
  double hb = 1, hB = 0, m = 1, M = 0;
  PR vref[2], pref[2];
  VD copRef, comRef;      // 2N values, local frame, as they result from the last setter
  VD cwArgs, copArgs, comArgs; // last setter arguments (for re-setting after a change of N)
  int copMode = 0, comMode = 0; // 0 none 1 local 2 world
  double V = 1, A = 1, J = 1;
  S3 roll{{0,0,0}}, pitch{{0,0,0}}, yaw{{0,0,0}};
  double tX = 0, tY = 0;
};

struct HumCfg {
  int N = 1; double T = 1, SP = 2, DS = 2;
  Poly kin[2], cop[2];   // 0 left, 1 right
  double hmax[2] = {0, 0};
  double h = 1;
  PR vref[2];
  double wv = 0, wj = 0, wc = 0;
  bool conCop = false, conFeet = false;
  bool move = false;
};

// phase machine of the reference model
struct Fsm {
  enum Type { DS = 0, LEFT = 1, RIGHT = 2 };
  struct Ph { int type; double dur; };
  int type = DS; double dur = 2, tNext = 2;
  bool haveNext = false; Ph next{DS, 2};
  std::vector<Ph> phases;      // phases overlapping the preview of the current tick
  std::vector<int> phaseOf;    // phase index of every preview sample
  int M = 0;                   // previewed footsteps
  bool standing() const { return type == DS; }
  bool atBoundary() const { return tNext < 1e-4; }
  double toSample(double T) const { double s = tNext; while (s > T + 1e-4) s -= T; return s; }
  Ph follow(int t, const HumCfg& c) const {
    if (t == DS) return c.move ? Ph{LEFT, c.SP} : Ph{DS, c.DS};
    if (!c.move) return Ph{DS, c.DS};
    return Ph{t == LEFT ? RIGHT : LEFT, c.SP};
  }
  // start of a tick
  bool begin(const HumCfg& c) {
    bool popped = false;
    if (atBoundary()) { type = next.type; dur = next.dur; tNext = dur; popped = true; }
    phases.clear(); phases.push_back({type, dur}); M = 0;
    phaseOf.assign(c.N, 0);
    int left = static_cast<int>(std::ceil((tNext - 1e-4) / c.T)); // preview instants still in phase 0 (incl. now)
    for (int n = 0; n <= c.N; ++n) {
      if (left == 0) {
        Ph nx = follow(phases.back().type, c);
        if (phases.back().type != DS) ++M;
        phases.push_back(nx);
        left = static_cast<int>(std::lround(nx.dur / c.T));
      }
      if (n > 0) phaseOf[n - 1] = static_cast<int>(phases.size()) - 1;
      --left;
    }
    haveNext = phases.size() > 1;
    if (haveNext) next = phases[1];
    return popped;
  }
  void end(double f) { tNext -= f; }
  bool flying(const HumCfg& c) const { return type != DS && tNext < dur - c.T + 1e-4; }
};

} // namespace sim
