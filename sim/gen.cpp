#include "gen.hpp"
#include "cfg.hpp"
#include "faults.hpp"
#include <algorithm>
#include <map>

namespace sim {
namespace {
typedef std::vector<double> V;

struct G {
  Rng r; char kind; std::string prop; Trace t;
  // swarm switches of this run
  double pFault = 0, pCfg = 0.1, pPush = 0.05, pPartial = 0.5;
  std::vector<int> faultKinds;
  bool con = true; bool flt = false; bool tiltOk = false; bool safe = false;
  int N = 1; double T = 0.1;
  double zV = 1, zA = 1, zJ = 1, hb = 0.8; double tV = 1, tA = 1, tJ = 1; double baseT = 0;
  double SP = 0, DS = 0, feetY = 0.1;
  bool moving = false; int sinceMove = 0;
  V zw;
  explicit G(uint64_t s) : r(s), kind('T') {}
  double pRel = 0; std::map<std::string, std::vector<V>> past;
  void op(const std::string& n, V a) {
    if (pRel > 0) {
      std::vector<V>& p = past[n];
      if (!p.empty() && r.p(pRel)) a = related(n, p, a);
      p.push_back(a);
    }
    t.ops.push_back(Op(n, a));
  }
  // a value which shares something with the one set before: what a cache keyed on too little confuses
  V related(const std::string& n, const std::vector<V>& past_, const V& drawn) {
    static const std::vector<std::string> polys = {"copP", "comP", "copH", "comH", "kinL", "kinR", "copL", "copR"}, refs = {"vref", "pref", "copref", "comref", "cwref"}, scal = {"V", "A", "J", "hb", "hB", "m", "M", "h", "hL", "hR", "tX", "tY"};
    auto in = [&](const std::vector<std::string>& l) { return std::find(l.begin(), l.end(), n) != l.end(); };
    const V& o = past_.back(); V v = o;
    const bool poly = in(polys), ref = in(refs), sc = in(scal);
    if (!poly && !ref && !sc && n != "g" && n != "W") return drawn;
    const int k = r.i(0, 5);
    if (k == 0) return o;
    if (k == 1 && past_.size() > 1) return past_[past_.size() - 2];
    if (n == "g") {
      if (k <= 3) { double c = r.uni(-0.15, 0.15), x = v[0], z = v[2]; v[0] = std::cos(c) * x - std::sin(c) * z; v[2] = std::sin(c) * x + std::cos(c) * z; v = q(v, 9); if (std::abs(v[0]) > 2.5 || v[2] < 7) return drawn; return v; }
      if (k == 4) { std::swap(v[0], v[1]); return v; }
      v[r.i(0, 1)] *= -1; return v;
    }
    if (n == "W") { size_t i = r.u64() % v.size(); if (kind == 'Z' && i >= 5) return drawn; if (r.p(0.3)) v[i] = drawn[i]; else v[i] = rnd(v[i] * r.uni(0.4, 2.5), 7); return v; }
    if (sc) { v[0] = rnd(v[0] * r.uni(0.9, 1.1), 6); return v; }
    if (poly) {
      const int m = static_cast<int>(v.size() / 2);
      if (k == 2 || k == 3) { double x = r.sym(0.015), y = r.sym(0.015); if (k == 3) (r.p(0.5) ? x : y) = 0; for (int i = 0; i < m; ++i) { v[2 * i] = rnd(v[2 * i] + x, 6); v[2 * i + 1] = rnd(v[2 * i + 1] + y, 6); } return v; }
      if (k == 4) { double f = r.uni(0.85, 1.1), cx = 0, cy = 0; for (int i = 0; i < m; ++i) { cx += v[2 * i] / m; cy += v[2 * i + 1] / m; } for (int i = 0; i < m; ++i) { v[2 * i] = rnd(cx + f * (v[2 * i] - cx), 6); v[2 * i + 1] = rnd(cy + f * (v[2 * i + 1] - cy), 6); } return v; }
      int sh = r.i(0, m - 1); bool rev = r.p(0.5);
      for (int i = 0; i < m; ++i) { int j = (rev ? m - i : i) + sh; v[2 * i] = o[2 * (j % m)]; v[2 * i + 1] = o[2 * (j % m) + 1]; }
      return v;
    }
    // references: groups of four (value, slope, step, sample of the step)
    const size_t gsel = r.u64() % (v.size() / 4), b = 4 * gsel;
    if (k == 2) { v[b + 1] = rnd(r.sym(0.05)); return v; }                        // same first sample
    if (k == 3) { v[b + 2] = rnd(r.sym(0.2)); v[b + 3] = r.i(0, N); return v; }   // same start of the preview
    if (k == 4 && v.size() >= 8) { size_t c = 4 * (gsel ^ 1); for (int i = 0; i < 4; ++i) std::swap(v[b + i], v[c + i]); return v; }
    v[b] = rnd(v[b] + r.sym(0.02)); return v;
  }
  V q(V v, int d = 4) { for (auto& x : v) x = rnd(x, d); return v; }
  double u(double a, double b) { return rnd(r.uni(a, b)); }
  double lu(double a, double b) { return rnd(r.logu(a, b)); }

  // ---- polygons
  V rotRect(double cx, double cy, double hx, double hy, double ang) {
    V v; const double c = std::cos(ang), s = std::sin(ang);
    const int sx[4] = {1, -1, -1, 1}, sy[4] = {1, 1, -1, -1};
    for (int i = 0; i < 4; ++i) { v.push_back(rnd(cx + c * hx * sx[i] - s * hy * sy[i], 6)); v.push_back(rnd(cy + s * hx * sx[i] + c * hy * sy[i], 6)); }
    return v;
  }
  V ring(double cx, double cy, double hx, double hy, int n) {
    V v; double o = r.uni(0, 6.28);
    for (int i = 0; i < n; ++i) { double a = o + 6.283185307 * (i + r.uni(-0.25, 0.25)) / n; v.push_back(rnd(cx + hx * std::cos(a), 6)); v.push_back(rnd(cy + hy * std::sin(a), 6)); }
    return v;
  }
  // points which are no vertices: users give contact points, not hulls
  V extra(V v) {
    if (!r.p(0.15) || !ext) return v;
    const int m = static_cast<int>(v.size() / 2); double cx = 0, cy = 0; V out = v;
    for (int i = 0; i < m; ++i) { cx += v[2 * i] / m; cy += v[2 * i + 1] / m; }
    for (int c = r.i(1, 4); c--;) {
      const int k = prop == "C15" ? 2 * r.i(0, 1) : r.i(0, 2), i = r.i(0, m - 1), j = (i + 1) % m; double x = v[2 * i], y = v[2 * i + 1];
      if (k) { const double f = k == 1 ? 0 : r.uni(0.02, 1), g = k == 1 ? 3e-4 : f, h = r.uni(0.2, 0.8); if (k == 1) { x += h * (v[2 * j] - x); y += h * (v[2 * j + 1] - y); } x += g * (cx - x); y += g * (cy - y); }
      const size_t at = 2 * (r.u64() % (out.size() / 2 + 1)); const double a[2] = {rnd(x, 6), rnd(y, 6)};
      out.insert(out.begin() + at, a, a + 2);
    }
    return out;
  }
  // one corner cut off, by a little
  V cut(V v) {
    const int m = static_cast<int>(v.size() / 2), i = r.i(0, m - 1), p = (i + m - 1) % m, n = (i + 1) % m;
    const double x = v[2 * i], y = v[2 * i + 1], d = r.uni(0.006, 0.03);
    auto to = [&](int j, double& ox, double& oy) { double l = std::hypot(v[2 * j] - x, v[2 * j + 1] - y), f = std::min(0.4, d / l); ox = rnd(x + f * (v[2 * j] - x), 6); oy = rnd(y + f * (v[2 * j + 1] - y), 6); };
    double a[4]; to(p, a[0], a[1]); to(n, a[2], a[3]);
    v[2 * i] = a[0]; v[2 * i + 1] = a[1]; v.insert(v.begin() + 2 * i + 2, a + 2, a + 4);
    return v;
  }
  V poly(double cx, double cy, double hx, double hy, bool axisOk) {
    V v = poly0(cx, cy, hx, hy, axisOk);
    while (v.size() >= 6 && ext && r.p(0.15)) v = cut(v);
    return extra(v);
  }
  V poly0(double cx, double cy, double hx, double hy, bool axisOk) {
    if (r.p(0.06)) return ring(cx, cy, hx * 1.3, hy * 1.3, r.i(8, 13));
    int k = r.i(0, 5);
    if (k <= 1 && axisOk) return rotRect(cx, cy, hx, hy, 0);
    if (k <= 3) return rotRect(cx, cy, hx, hy, r.uni(0.08, 0.5) * (r.p(0.5) ? 1 : -1));
    return ring(cx, cy, hx * 1.3, hy * 1.3, r.i(3, 7));
  }
  V prArgs(double mag, double slope) {
    V v{rnd(r.sym(mag)), 0, 0, 0};
    if (r.p(0.3)) v[1] = rnd(r.sym(slope));
    if (r.p(0.3)) { v[2] = rnd(r.sym(mag)); v[3] = r.i(0, N); }
    return v;
  }
  V cat(V a, const V& b) { a.insert(a.end(), b.begin(), b.end()); return a; }

  // a limit: seldom none at all, or one which stops everything
  double lim(double v) { return !ext || !r.p(0.05) ? v : r.p(0.5) ? rnd(v * 1000, 3) : r.p(0.5) ? 0.0 : rnd(v * r.logu(1e-3, 0.1), 7); }
  // ---- trajectory
  V tState() {
    double v = r.sym(tV) * 0.8, a = r.sym(tA) * 0.5;
    if (r.p(0.5)) a *= 0.2;
    return q({r.sym(3), v, a});
  }
  V tW() {
    V w{0, 0, 0}; int k = r.i(0, 3);
    if (k == 0 || k == 3) w[0] = lu(0.1, 10);
    if (k == 1 || k == 3) w[1] = lu(0.1, 10);
    if (k == 2) { w[0] = lu(0.01, 1); w[1] = lu(1, 20); }
    w[2] = lu(1e-5, 1e-1);
    if (ext && r.p(0.15)) w[r.i(0, 1)] = rnd(r.logu(1e-5, 1e-2), 8);
    return w;
  }
  void tOne(const std::string& n) {
    // the longer the preview in seconds, the worse the problem is conditioned
    if (n == "N") { N = ext && r.p(0.03) ? r.i(25, 60) : r.i(1, r.p(0.3) ? 24 : 10); if (N > 24 && N * T > 6) N = 24; op("N", {double(N)}); }
    else if (n == "T") { T = lu(0.03, N > 24 ? 6.0 / N : 0.4); op("T", {T}); }
    else if (n == "W") op("W", tW());
    else if (n == "C") op("C", {con && !r.p(0.1) ? 1.0 : 0.0});
    else if (n == "V") { tV = lu(0.1, 3); op("V", {lim(tV)}); }
    else if (n == "A") { tA = lu(0.1, 5); op("A", {lim(tA)}); }
    else if (n == "J") { tJ = lu(0.3, 30); op("J", {lim(tJ)}); }
    else if (n == "vref") op("vref", prArgs(1.5 * tV, 0.1));
    else if (n == "pref") op("pref", prArgs(3, 0.2));
    else if (n == "state") op("state", tState());
  }
  // ---- wheeled base
  V zW() {
    V w(7, 0);
    if (r.p(0.6)) w[0] = lu(0.05, 10);
    if (r.p(0.5)) w[1] = lu(0.05, 10);
    if (w[0] == 0 && w[1] == 0) w[1] = 1;
    if (r.p(0.6)) w[2] = lu(0.05, 10);
    if (r.p(0.5)) w[3] = lu(0.05, 10);
    w[4] = lu(1e-4, 1e-2);
    if (ext && r.p(0.1)) w[r.i(0, 3)] = rnd(r.logu(1e-5, 1e-2), 8);
    if (tiltOk && r.p(0.5)) w[5] = lu(0.01, 3);
    if (tiltOk && r.p(0.4)) w[6] = lu(0.01, 3);
    return w;
  }
  void zOne(const std::string& n) {
    if (n == "N") { N = r.i(1, 6); op("N", {double(N)}); }
    else if (n == "T") { T = lu(0.04, 0.2); op("T", {T}); }
    else if (n == "W") op("W", zW());
    else if (n == "C") op("C", {double(con && r.p(0.6)), double(con && r.p(0.6)), double(con && r.p(0.6)), double(con && r.p(0.25))});
    else if (n == "g") op("g", q({r.p(0.5) ? 0 : r.sym(1.5), r.p(0.5) ? 0 : r.sym(1.5), r.p(0.6) ? 9.81 : r.uni(8, 11)}));
    else if (n == "copP" || n == "copH") op(n, poly(r.sym(0.03), r.sym(0.03), r.uni(0.08, 0.3), r.uni(0.08, 0.3), true));
    else if (n == "comP" || n == "comH") op(n, poly(r.sym(0.03), r.sym(0.03), r.uni(0.08, 0.3), r.uni(0.08, 0.3), true));
    else if (n == "hb") op("hb", {hb = u(0.5, 1.2)});
    else if (n == "hB") op("hB", {u(0, 0.2)});
    else if (n == "m") op("m", {u(5, 60)});
    else if (n == "M") { if (r.p(0.2)) return; op("M", {r.p(0.1) ? u(ext ? 0.05 : 0.2, 1) : u(5, 60)}); }
    else if (n == "vref") op("vref", cat(prArgs(1.2 * zV, 0.05), prArgs(1.2 * zV, 0.05)));
    else if (n == "pref") op("pref", cat(prArgs(1.5, 0.1), prArgs(1.5, 0.1)));
    else if (n == "copref") op("copref", cat(prArgs(0.05, 0.005), prArgs(0.05, 0.005)));
    else if (n == "comref") op("comref", cat(prArgs(0.05, 0.005), prArgs(0.05, 0.005)));
    else if (n == "cwref") { V v; for (int k = 0; k < 4; ++k) { double m = (k % 2) ? 0.5 : 0.3; v = cat(v, prArgs(m, 0.02)); v = cat(v, prArgs(m, 0.02)); } op("cwref", v); }
    else if (n == "V") { zV = lu(0.2, 2); op("V", {lim(zV)}); }
    else if (n == "A") { zA = lu(0.3, 5); op("A", {lim(zA)}); }
    else if (n == "J") { zJ = lu(3, 60); op("J", {lim(zJ)}); }
    else if (n == "push") {
      double bx = r.sym(1), by = r.sym(1);
      V vx{rnd(bx), rnd(r.sym(zV) * 0.5), rnd(r.sym(zA) * 0.3)}, vy{rnd(by), rnd(r.sym(zV) * 0.5), rnd(r.sym(zA) * 0.3)};
      if (safe) { vx[1] *= 0.3; vy[1] *= 0.3; vx[2] *= 0.3; vy[2] *= 0.3; }
      op("sX", q(vx)); op("sY", q(vy));
      double k = r.p(0.7) ? 0.3 : 1.5;
      op("cX", q({bx + r.sym(0.04) * k, vx[1] + r.sym(0.1) * k, r.sym(0.2) * k}));
      op("cY", q({by + r.sym(0.04) * k, vy[1] + r.sym(0.1) * k, r.sym(0.2) * k}));
    }
    else if (n == "push1") {
      // sensor feedback: one measured state only
      int k = r.i(0, 6);
      static const char* nm[] = {"sX", "sY", "cX", "cY", "sR", "sP", "sYaw"};
      if (k < 4) op(nm[k], q({r.sym(1), r.sym(0.3), r.sym(0.3)}));
      else op(nm[k], q({r.sym(k == 6 ? 3.1 : 0.1), r.sym(0.1), 0}));
    }
    else if (n == "sR") op("sR", q({r.sym(0.1), r.sym(0.1), r.sym(0.1)}));
    else if (n == "sP") op("sP", q({r.sym(0.1), r.sym(0.1), r.sym(0.1)}));
    else if (n == "sYaw") op("sYaw", q({r.sym(3.1), r.sym(0.1), 0}));
    else if (n == "tX") op("tX", {u(-0.2, 0.2)});
    else if (n == "tY") op("tY", {u(-0.2, 0.2)});
  }
  // ---- humanoid
  V hW() { const double k = ext && r.p(0.08) ? lu(1e-3, 30) : 1; return {k * lu(0.1, 5), k * lu(1e-4, 1e-2), k * lu(0.01, 2)}; }
  void hOne(const std::string& n) {
    if (n == "W") op("W", hW());
    else if (n == "C") op("C", {double(con && r.p(manyL || manyR ? 0.4 : 0.85)), double(con && r.p(manyL || manyR ? 0.95 : 0.85))});
    else if (n == "N") { N = r.i(minN(), minN() + 3); op("N", {double(N)}); }
    else if (n == "T") { setT(); op("T", {T}); op("SP", {SP}); op("DS", {DS}); if (N < minN()) { N = minN(); op("N", {double(N)}); } }
    else if (n == "SP") { SP = r.i(2, 6) * T; op("SP", {SP}); if (N < minN()) { N = minN() + r.i(0, 1); op("N", {double(N)}); } }
    else if (n == "DS") { DS = r.i(1, 6) * T; op("DS", {DS}); }
    else if (n == "kinL") op("kinL", kinPoly(-1));
    else if (n == "kinR") op("kinR", kinPoly(+1));
    else if (n == "copL" || n == "copR") op(n, footPoly(n == "copL" ? 1 : -1));
    else if (n == "vref") op("vref", cat(prArgs(0.25, 0.01), prArgs(0.1, 0.01)));
    else if (n == "h") op("h", {u(0.35, 1.1)});
    else if (n == "hL" || n == "hR") op(n, {u(0.02, 0.12)});
    else if (n == "move") { moving = !moving; sinceMove = 0; op("move", {double(moving)}); }
    else if (n == "lf" || n == "rf") {
      double sg = n == "lf" ? 1 : -1;
      op(n, q({r.sym(0.05), 0, 0, sg * feetY + r.sym(0.02), 0, 0, 0, 0, 0}));
    }
    else if (n == "push") { op("cX", q({r.sym(0.05), r.sym(0.15), r.sym(0.3)})); op("cY", q({r.sym(0.05), r.sym(0.15), r.sym(0.3)})); }
    else if (n == "foot") op("foot", q({double(r.i(0, 1)), r.sym(0.02), r.sym(0.02), r.p(0.5) ? r.sym(0.1) : 0.0, r.p(0.5) ? r.sym(0.1) : 0.0}));
    else if (n == "yaw") op("yaw", q({0.4, -0.2, 0.2, -0.4, 3, 10}));
    else if (n == "angv") op("angv", q({r.sym(0.3)}));
  }
  bool fine = false, ext = true; double pFoot = 0, pSp = 0;   // foot feedback and step period changes while walking
  int manyL = 0, manyR = 0, copMany = 0;
  int minN() { return static_cast<int>(std::lround(SP / T)); }
  V kinPoly(double sg) { return extra(kinPoly0(sg)); }
  V footPoly(double sg) { V v = footPoly0(sg); if (ext && r.p(0.1)) v = cut(v); return extra(v); }
  V kinPoly0(double sg) {
    double cx = r.uni(0, 0.06), cy = sg * (2 * feetY + r.uni(-0.02, 0.03));
    double hx = r.uni(0.08, 0.3), hy = r.uni(0.03, 0.08);
    if (manyL || manyR) { // very different numbers of edges on both sides
      const int k = sg > 0 ? manyR : manyL;
      if (k || r.p(0.5)) return ring(cx, cy, hx * 1.2, hy * 1.2, k ? k : 3);
    }
    if (r.p(0.25)) {   // axis-aligned; in some, one edge goes through the origin (no step backwards)
      if (ext && r.p(0.25)) cx = hx = rnd(hx, 3);
      return rotRect(cx, cy, hx, hy, 0);
    }
    if (r.p(0.6)) return rotRect(cx, cy, hx, hy, r.uni(0.05, 0.35) * (r.p(0.5) ? 1 : -1));
    return ring(cx, cy, hx * 1.2, hy * 1.2, r.i(3, 6));
  }
  V footPoly0(double sg) {
    double hx = r.uni(0.05, 0.12), hy = r.uni(0.025, 0.05);
    if (copMany && r.p(0.5)) return ring(0, 0, hx * 1.2, hy * 1.3, (sg > 0) == (copMany > 0) ? std::abs(copMany) : 3);
    if (r.p(0.4)) {
      if (ext && r.p(0.08)) { hx = rnd(hx, 3); return rotRect(r.p(0.5) ? hx : -hx, 0, hx, hy, 0); }   // heel or toe below the ankle
      if (ext && r.p(0.08)) { hy = rnd(hy, 3); return rotRect(r.sym(0.02), r.p(0.5) ? hy : -hy, hx, hy, 0); }
      return rotRect(r.sym(0.02), 0, hx, hy, 0);
    }
    if (r.p(0.6)) return rotRect(r.sym(0.02), r.sym(0.01), hx, hy, r.uni(0.05, 0.4) * (r.p(0.5) ? 1 : -1));
    return ring(0, 0, hx * 1.2, hy * 1.3, r.i(3, 6));
  }
  void setT() {
    T = lu(0.06, 0.2);
    SP = r.i(2, 6) * T; DS = r.i(1, 6) * T;
  }

  std::vector<std::string> cfgOps() {
    if (kind == 'T') return {"N", "T", "W", "C", "V", "A", "J", "vref", "pref"};
    if (kind == 'Z') return {"N", "T", "W", "C", "g", "copP", "comP", "copH", "comH", "hb", "hB", "m", "M", "vref", "pref", "copref", "comref", "cwref", "V", "A", "J", "sR", "sP", "sYaw", "tX", "tY"};
    return {"W", "C", "vref", "h", "hL", "hR", "kinL", "kinR", "copL", "copR", "yaw", "angv"};
  }
  void one(const std::string& n) {
    if (kind == 'T') tOne(n); else if (kind == 'Z') zOne(n); else hOne(n);
  }
  // in a part of the runs the user leaves some settings at the library's defaults
  void omit(std::vector<std::string>& o, const std::vector<std::string>& may) {
    if (!r.p(0.3)) return;
    const double pd = r.p(0.3) ? 0.9 : 0.35;
    std::vector<std::string> k;
    for (auto& n : o) {
      if (std::find(may.begin(), may.end(), n) != may.end() && r.p(pd)) { if (n == "T") { T = 1; tiltOk = false; } continue; }
      k.push_back(n);
    }
    o = k;
  }
  void setup() {
    if (kind == 'T') {
      std::vector<std::string> o = cfgOps(); r.shuffle(o); omit(o, {"N", "T", "V", "A", "J", "C", "vref", "pref"}); for (auto& n : o) one(n);
      tOne("state");
    } else if (kind == 'Z') {
      // values first, order shuffled
      std::vector<std::string> o = {"N", "T", "W", "C", "g", r.p(0.5) ? "copP" : "copH", r.p(0.5) ? "comP" : "comH", "hb", "hB", "m", "M", "vref", "pref", "V", "A", "J", "sR", "sP", "sYaw", "tX", "tY"};
      r.shuffle(o); omit(o, {"N", "T", "C", "g", "hb", "hB", "m", "M", "vref", "pref", "V", "A", "J", "sR", "sP", "sYaw", "tX", "tY"}); for (auto& n : o) one(n);
      zOne("push");
      int k = r.i(0, 3);
      if (k == 1 || k == 3) zOne("copref");
      if (k == 2 || k == 3) zOne("comref");
      if (r.p(0.25)) zOne("cwref");
    } else {
      setT(); N = minN() + r.i(0, 3); feetY = u(0.07, 0.13);
      if (r.p(0.06)) { SP = 2 * T; N = r.i(4, 7); }    // many previewed steps
      if (r.p(0.04)) N = std::max(minN(), std::min(minN() + r.i(4, 7), static_cast<int>(1.7 / T)));   // long preview
      if (ext && r.p(0.004)) { T = 0.1; SP = 0.1 * r.i(4, 8); DS = 0.1 * r.i(2, 6); N = 16; }
      fine = r.p(0.1);
      if (r.p(0.3)) pFoot = 0.5;
      if (r.p(0.15)) pSp = r.uni(0.03, 0.2);
      if (N <= 8 && r.p(0.15)) (r.p(0.5) ? manyL : manyR) = r.i(6, 10);
      if ((manyL || manyR) && r.p(0.4)) { SP = 2 * T; N = r.i(4, 7); }   // as many step constraints as there can be
      if (N <= 8 && r.p(0.08)) copMany = r.i(5, 8) * (r.p(0.5) ? 1 : -1);
      std::vector<std::string> o = {"kinL", "kinR", "copL", "copR", "h", "hL", "hR", "W", "vref", "lf", "rf"};
      if (r.p(0.5)) o.push_back("yaw");
      op("T", {T}); op("N", {double(N)});
      r.shuffle(o);
      omit(o, {"h", "hL", "hR", "vref"});
      bool spFirst = r.p(0.5);
      if (spFirst) { op("SP", {SP}); op("DS", {DS}); }
      for (auto& n : o) hOne(n);
      if (!spFirst) { op("DS", {DS}); op("SP", {SP}); }
      op("cX", q({r.sym(0.01), r.sym(0.02), 0})); op("cY", q({r.sym(0.02), r.sym(0.02), 0}));
      hOne("C");
      if (r.p(0.3)) op("move", {1.0}), moving = true;
    }
  }
  void tick(bool allowFault = true) {
    int fk = 0, fp = 0;
    if (allowFault && !faultKinds.empty() && r.p(pFault)) { fk = r.pick(faultKinds); fp = r.p(0.3) ? 0 : r.i(0, 12); }
    if (kind == 'H') { op("hk", {double(r.p(pPartial) ? (fine && r.p(0.5) ? r.i(5, 10) : r.i(2, 4)) : 1), double(fk), double(fp)}); ++sinceMove; return; }
    // feedback period: fixed per run most of the time, jittered otherwise
    double f = baseT;
    if (r.p(pPartial)) f = rnd(T * r.uni(0.1, 1.0), 4); else if (f <= 0) f = T;
    if (r.p(0.03)) f = rnd(T * r.uni(1, r.p(0.2) ? 4 : 1.6), 4);
    op("tick", {f, double(fk), double(fp)});
  }
  void stream(int n, bool allowFault = true, bool allowCfg = true, bool allowPush = true) {
    std::vector<std::string> o = cfgOps();
    std::vector<std::string> sub;              // swarm: only some setters in this run
    for (auto& x : o) if (r.p(0.5)) sub.push_back(x);
    int burst = 0;
    for (int i = 0; i < n; ++i) {
      if (allowCfg && !sub.empty() && r.p(pCfg)) { int c = r.i(1, 2); while (c--) one(r.pick(sub)); }
      if (allowPush && r.p(pPush)) {
        if (kind == 'T') tOne("state"); else if (kind == 'Z') zOne(r.p(0.6) ? "push" : "push1"); else hOne(r.p(pFoot) ? "foot" : "push");
      }
      if (kind == 'H' && allowCfg && moving && r.p(pSp)) { double sp = r.i(2, std::max(2, std::min(7, N))) * T; op("SP", {sp}); SP = sp; if (ext && r.p(0.3)) { DS = r.i(1, 6) * T; op("DS", {DS}); } }
      if (kind == 'H' && allowCfg) {
        double pm = moving ? (sinceMove > 12 ? 0.08 : 0.02) : (sinceMove > 3 ? 0.3 : 0.1);
        if (r.p(pm)) hOne("move");
        if (!moving && sinceMove > 6 && r.p(0.2)) { static const std::vector<std::string> st = {"N", "T", "SP", "DS", "lf", "rf"}; hOne(r.pick(st)); }
      }
      double keep = pFault;
      if (burst > 0) { pFault = 0.9; --burst; } else if (allowFault && pFault > 0 && r.p(0.03)) burst = r.p(0.04) ? r.i(20, 60) : r.i(2, 6);
      tick(allowFault);
      pFault = keep;
    }
  }
};

} // namespace

Trace generate(const std::string& prop, uint64_t seed, bool thorough) {
  G g(seed ^ hashStr(prop)); Rng& r = g.r; g.prop = prop;
  g.t.prop = prop; g.t.seed = seed;
  const int L = thorough ? 90 : 45;
  std::string kinds = "TZH";
  if (prop == "C01" || prop == "C03") kinds = "T";
  if (prop == "C04" || prop == "C05") kinds = "Z";
  if (prop == "C06" || prop == "C07" || prop == "C08" || prop == "C09") kinds = "H";
  if (prop == "C02" || prop == "C11" || prop == "C14") kinds = "TZZHH";
  if (prop == "C10") kinds = "TZZZHH";
  if (prop == "C18") kinds = "TZH";
  g.kind = kinds[r.u64() % kinds.size()];
  g.t.kind = std::string(1, g.kind);
  bool flt = false;
  if (prop == "C02" || prop == "C06" || prop == "C12" || prop == "C14" || prop == "C11") flt = r.p(0.25);
  if (prop == "C01" || prop == "C04" || prop == "C08" || prop == "C07") flt = r.p(0.1);
  g.flt = flt; g.t.par["float"] = flt;
  g.con = !r.p(0.25); g.tiltOk = r.p(0.5) && !flt; g.safe = r.p(0.5);
  g.ext = r.p(0.75) && !flt && prop != "C18";   // unusual scales and shapes; single precision is not meant for them
  // fault-free and fault-injecting runs are separate populations
  bool faulty = r.p(0.6);
  if (prop == "C12") faulty = r.p(0.85);
  if (prop == "C13" || prop == "C17") faulty = r.p(0.8);
  if (prop == "C18" || prop == "C10") faulty = false;
  if (prop == "C15") faulty = r.p(0.3);
  if (prop == "C16") faulty = r.p(0.5);
  if (faulty) {
    for (int k = 1; k < simfault::NKINDS; ++k) if (r.p(0.6)) g.faultKinds.push_back(k);
    if (g.faultKinds.empty()) g.faultKinds.push_back(r.i(1, 4));
    if (prop == "C15" || prop == "C10") g.faultKinds = {simfault::NO_ITERATE};
    g.pFault = r.p(0.5) ? 0.08 : 0.25;
  }
  g.pCfg = r.p(0.3) ? 0.0 : r.uni(0.03, 0.25);
  g.pPush = r.p(0.5) ? 0.0 : r.uni(0.02, 0.12);
  g.pPartial = r.p(0.4) ? 0.0 : r.p(0.5) ? 1.0 : 0.4;
  int n = r.i(L / 3, L);
  if (g.kind == 'H') n = n * 3 / 2;
  const bool epic = r.p(0.012);               // a long history
  if (epic) n = r.i(250, 450);
  if (prop == "C01" || prop == "C04" || prop == "C08") g.con = true;
  g.t.par["faulty"] = faulty;
  g.pRel = r.p(0.35) ? 0.0 : r.uni(0.1, 0.7);

  if (prop == "C10" || prop == "C17") {
    if (g.kind == 'H') {
      g.setup();
      if (prop == "C10") {
        // history of settings and standing ticks
        g.pCfg = 0.4;
        g.stream(r.i(0, 8));
        g.op("move", {0}); g.moving = false;
      } else g.stream(r.i(5, n / 2));
      if (r.p(0.8)) { g.op("move", {0}); g.moving = false; }
      // tick until standing on a sampling instant with nothing but double support ahead; the marker waits for it
      for (int i = 0; i < 30; ++i) { g.op("syncif", {double(r.u64() % 1000000)}); g.op("hk", {1, 0, 0}); }
      g.op("move", {1}); g.moving = true; g.sinceMove = 0;
      double keep = g.pFault; g.pFault = 0; g.stream(r.i(12, 30), false, true, true); g.pFault = keep;
    } else {
      g.setup();
      if (prop == "C10") g.pCfg = r.uni(0.3, 1.0);
      g.stream(epic ? n : r.i(0, prop == "C10" ? 14 : n));
      if (prop == "C10") { auto o = g.cfgOps(); int c = r.i(1, 8); while (c--) g.one(r.pick(o)); }
      g.op("sync", {double(r.u64() % 1000000)});
      int m = r.i(1, 2);
      while (m--) { g.stream(r.i(2, 8), false, r.p(0.5), r.p(0.5)); if (m) g.op("sync", {double(r.u64() % 1000000)}); }
    }
    return g.t;
  }
  if (prop == "C11") {
    g.setup(); g.stream(epic ? n : std::min(n, 30));
    // a second, unrelated controller interleaved
    G b(r.u64()); const bool sister = b.r.p(0.5); b.prop = prop;
    b.kind = sister ? g.kind : std::string("TZH")[b.r.i(0, 2)]; b.con = true; b.faultKinds = {1, 2, 3, 4}; b.pFault = 0.2; b.pCfg = 0.3; b.pPush = 0.1;
    b.pRel = 0.3; b.setup();
    if (sister) {                            // the same robot but for a few settings, driven alike
      const std::vector<std::string> cfg = b.cfgOps(); const double pOther = b.r.p(0.5) ? 0.1 : 0.3;
      b.t.ops.clear(); b.T = g.T; b.N = g.N;
      static const char* pairs[][2] = {{"m", "M"}, {"hb", "hB"}, {"copP", "comP"}, {"copL", "copR"}, {"hL", "hR"}, {"tX", "tY"}};
      const char* const* ex = b.r.p(0.4) ? pairs[b.kind == 'H' ? b.r.i(3, 4) : b.r.p(0.4) ? 0 : std::vector<int>{1, 2, 5}[b.r.i(0, 2)]] : nullptr;   // two values exchanged
      for (auto& o : g.t.ops) {
        if (ex && (o.n == ex[0] || o.n == ex[1])) { b.t.ops.push_back(Op(o.n == ex[0] ? ex[1] : ex[0], o.a)); continue; }
        if (std::find(cfg.begin(), cfg.end(), o.n) == cfg.end()) { b.t.ops.push_back(o); continue; }
        if (b.r.p(pOther)) b.one(o.n); else b.t.ops.push_back(o);
      }
    } else b.stream(b.r.i(5, 25));
    g.t.par["kindB"] = b.kind; g.t.par["floatB"] = sister && b.r.p(0.9) ? double(flt) : double(b.r.p(0.3));
    std::vector<Op> out; size_t i = 0, j = 0;
    while (i < g.t.ops.size() || j < b.t.ops.size()) {
      if (j >= b.t.ops.size() || (i < g.t.ops.size() && r.p(0.55))) out.push_back(g.t.ops[i++]);
      else { Op o = b.t.ops[j++]; o.n = "b:" + o.n; out.push_back(o); }
      if (r.p(0.03)) out.push_back(Op("dirty", {double(r.i(0, 255))}));
    }
    g.t.ops = out;
    return g.t;
  }
  if (prop == "C13") {
    g.setup();
    int m = r.i(1, 3);
    while (m--) {
      double keep = g.pFault; g.stream(r.i(1, n / 3 + 1)); g.pFault = keep;
      if (!g.faultKinds.empty() && r.p(0.6)) {
        // a long unbroken burst, with whatever else happens meanwhile
        std::vector<int> all = g.faultKinds; if (r.p(0.5)) g.faultKinds = {r.pick(all)};
        double kc = g.pCfg, kp = g.pPush; if (r.p(0.5)) g.pCfg = 0; if (r.p(0.3)) g.pPush = 0.5;
        g.pFault = 1; g.stream(r.p(0.03) ? r.i(40, 150) : r.i(3, 12)); g.pFault = keep; g.pCfg = kc; g.pPush = kp; g.faultKinds = all;
        if (g.kind == 'T' && r.p(0.7)) g.tOne("state");
        if (g.kind == 'Z' && r.p(0.5)) g.zOne("push");
      }
      g.op("calm", {1});
      g.stream(r.i(3, 6), false, false, false);
      g.op("calm", {0});
    }
    return g.t;
  }
  if (prop == "C15") {
    int tr = r.i(0, g.kind == 'T' ? 1 : 3);
    g.t.par["sym"] = tr;   // 0 translate 1 mirror y 2 swap axes 3 mirror x
    g.t.par["dx"] = rnd(r.sym(5), 3); g.t.par["dy"] = rnd(r.sym(5), 3);
    g.setup(); g.stream(std::min(n, 40));
    return g.t;
  }
  if (prop == "C16") {
    g.pRel = 0;
    // calm convergence phase after an eventful prefix
    g.setup(); double keep = g.pFault; g.stream(r.i(0, 10)); g.pFault = keep;
    int N = g.N; (void)N;
    if (g.kind == 'T') {
      bool pos = r.p(0.6);
      g.T = g.lu(0.05, 0.2); g.N = r.i(8, 16); g.op("N", {double(g.N)}); g.op("T", {g.T});
      g.op("W", {pos ? 0.0 : 1.0, pos ? 1.0 : 0.0, g.lu(1e-5, 1e-3)});
      bool lim = r.p(0.5); g.t.par["lim"] = lim; g.op("C", {double(lim)});
      if (lim) { g.op("V", {g.u(0.8, 3)}); g.op("A", {g.u(0.8, 4)}); g.op("J", {g.u(4, 40)}); }
      g.op("pref", {g.u(-2, 2), 0, 0, 0}); g.op("vref", {g.u(-1, 1), 0, 0, 0});
      if (r.p(0.3)) { const V& rf = g.t.ops[g.t.ops.size() - (pos ? 2 : 1)].a; double d = r.logu(1e-3, 0.05) * (r.p(0.5) ? 1 : -1);
        g.op("state", g.q({pos ? rf[0] + d : 0, pos ? 0 : rf[0] + d, 0}, 5)); }
      else g.op("state", g.q({r.sym(2), r.sym(lim ? 0.3 : 0.5), r.sym(lim ? 0.2 : 0.5)}));
      g.t.par["pos"] = pos;
    } else if (g.kind == 'Z') {
      bool pos = r.p(0.6);
      g.T = g.lu(0.08, 0.2); g.N = r.i(5, 8); g.op("N", {double(g.N)}); g.op("T", {g.T});
      g.op("g", {0, 0, 9.81});
      g.op("W", {pos ? 0.0 : 1.0, pos ? 1.0 : 0.0, g.lu(0.1, 1), r.p(0.5) ? g.lu(0.05, 1) : 0, g.lu(1e-5, 1e-3), 0, 0}); g.op("C", {0, 0, 0, 0});
      bool lim = r.p(0.5); g.t.par["lim"] = lim;
      if (lim) {
        g.op("C", {double(r.p(0.7)), double(r.p(0.7)), double(r.p(0.7)), 0});
        g.op("V", {g.u(0.8, 2)}); g.op("A", {g.u(0.8, 4)}); g.op("J", {g.u(8, 60)});
        for (const char* nm : {"copP", "comP"}) g.op(nm, g.poly(r.sym(0.02), r.sym(0.02), r.uni(0.12, 0.3), r.uni(0.12, 0.3), true));
      }
      g.op("copref", {0, 0, 0, 0, 0, 0, 0, 0}); g.op("comref", {0, 0, 0, 0, 0, 0, 0, 0});
      g.op("pref", {g.u(-2, 2), 0, 0, 0, g.u(-2, 2), 0, 0, 0}); g.op("vref", {g.u(-1, 1), 0, 0, 0, g.u(-1, 1), 0, 0, 0});
      double b = g.u(-1, 1), c = g.u(-1, 1);
      if (pos && r.p(0.3)) { const V& rf = g.t.ops[g.t.ops.size() - 2].a; b = rnd(rf[0] + r.sym(0.03), 5); c = rnd(rf[4] + r.sym(0.03), 5); }
      g.op("sX", {b, 0, 0}); g.op("cX", {b, 0, 0}); g.op("sY", {c, 0, 0}); g.op("cY", {c, 0, 0});
      g.t.par["pos"] = pos;
    } else {
      // a fresh standing robot with a generous gait
      G h(r.u64()); h.kind = 'H'; h.t = g.t; h.t.ops.clear();
      h.T = 0.1; h.SP = 0.1 * r.i(6, 9); h.DS = 0.1 * r.i(2, 6); h.N = std::max<int>(h.minN(), std::lround(h.SP / 0.1)) + r.i(4, 8); h.feetY = h.u(0.07, 0.1);
      h.op("T", {h.T}); h.op("N", {double(h.N)}); h.op("SP", {h.SP}); h.op("DS", {h.DS});
      h.op("kinL", h.rotRect(0, -2 * h.feetY, 0.25, 0.06, 0.02)); h.op("kinR", h.rotRect(0, 2 * h.feetY, 0.25, 0.06, -0.02));
      h.op("copL", h.rotRect(0, 0, 0.1, 0.05, 0)); h.op("copR", h.rotRect(0, 0, 0.1, 0.05, 0));
      h.op("h", {h.u(0.6, 0.9)}); h.op("hL", {0.05}); h.op("hR", {0.05});
      h.op("W", {h.lu(0.5, 2), h.lu(1e-3, 1e-2), h.lu(0.02, 0.2)});
      h.op("lf", {0, 0, 0, h.feetY, 0, 0, 0, 0, 0}); h.op("rf", {0, 0, 0, -h.feetY, 0, 0, 0, 0, 0});
      h.op("cX", {0, 0, 0}); h.op("cY", {0, 0, 0}); h.op("C", {1, 1});
      h.op("vref", {h.u(-0.1, 0.15), 0, 0, 0, h.u(-0.03, 0.03), 0, 0, 0}); h.op("move", {1});
      h.faultKinds = g.faultKinds; h.pFault = faulty ? 0.04 : 0; h.pPartial = r.p(0.5) ? 0 : 0.5;
      h.stream(r.i(10, 40), faulty, false, false);
      g.t = h.t; g.pPartial = h.pPartial; g.T = h.T;
    }
    g.op("calm", {1});
    if (g.kind == 'H' && r.p(0.4)) {
      // walk, then stop and stand
      g.t.par["stand"] = 1;
      int w = r.i(0, 60); for (int i = 0; i < w; ++i) g.op("hk", {g.pPartial > 0 && r.p(0.3) ? 2.0 : 1.0, 0, 0});
      g.op("vref", {0, 0, 0, 0, 0, 0, 0, 0}); g.op("move", {0});
    }
    int m = g.kind == 'H' ? 140 : 70; bool pp = g.pPartial > 0; (void)pp;
    double f = g.kind == 'H' ? 0 : rnd(g.T * (r.p(0.5) ? 1.0 : r.uni(0.4, 1.0)), 4);
    for (int i = 0; i < m; ++i) {
      if (g.kind == 'H') g.op("hk", {g.pPartial > 0 && r.p(0.3) ? 2.0 : 1.0, 0, 0});
      else g.op("tick", {f, 0, 0});
    }
    return g.t;
  }
  if (prop == "C18") { g.con = r.p(0.7); g.setup(); g.stream(std::min(n, 30)); return g.t; }
  g.setup();
  if (prop == "C12" && g.kind == 'H' && r.p(0.1)) {   // a solver that never delivers anything
    g.faultKinds = {simfault::NO_ITERATE}; g.pFault = 1;
    if (r.p(0.7)) { g.op("move", {1}); g.moving = true; }
    g.stream(r.i(8, 30)); g.pFault = 0.1;
  }
  g.stream(n);
  return g.t;
}

} // namespace sim
