// Simulator core: PRNG, operations, traces, hashing, statistics.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <cstring>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim {

inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { splitmix(s); }
  uint64_t u64() { return splitmix(s); }
  double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  double sym(double a) { return uni(-a, a); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  int i(int a, int b) { return a + static_cast<int>(u64() % static_cast<uint64_t>(b - a + 1)); }
  bool p(double q) { return u01() < q; }
  template <class V> typename V::value_type pick(const V& v) { return v[u64() % v.size()]; }
  template <class V> void shuffle(V& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[u64() % k]); }
};
// values with few significant digits: readable traces, exactly representable in text
inline double rnd(double x, int digits = 4) {
  char b[64]; std::snprintf(b, sizeof b, "%.*g", digits, x); return std::atof(b);
}

struct Op {
  std::string n; std::vector<double> a;
  Op() {}
  Op(const std::string& n_, std::vector<double> a_) : n(n_), a(std::move(a_)) {}
  std::string str() const {
    std::string s = n; char b[64];
    for (double x : a) { std::snprintf(b, sizeof b, " %.17g", x); s += b; }
    return s;
  }
};

struct Trace {
  std::string prop, kind;   // property id, controller kind (T,Z,H)
  uint64_t seed = 0;
  std::map<std::string, double> par;   // twin parameters etc.
  std::vector<Op> ops;
  double get(const std::string& k, double d = 0) const { auto it = par.find(k); return it == par.end() ? d : it->second; }
  std::string str() const {
    std::ostringstream o; char b[64];
    o << "property " << prop << "\nkind " << kind << "\nseed " << seed << "\n";
    for (auto& kv : par) { std::snprintf(b, sizeof b, "%.17g", kv.second); o << "par " << kv.first << " " << b << "\n"; }
    for (auto& op : ops) o << "op " << op.str() << "\n";
    o << "end\n";
    return o.str();
  }
  static Trace parse(std::istream& in) {
    Trace t; std::string line;
    while (std::getline(in, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream l(line); std::string w; l >> w;
      if (w == "property") l >> t.prop;
      else if (w == "kind") l >> t.kind;
      else if (w == "seed") l >> t.seed;
      else if (w == "par") { std::string k, v; l >> k >> v; t.par[k] = std::strtod(v.c_str(), nullptr); }
      else if (w == "op") { Op o; l >> o.n; std::string v; while (l >> v) o.a.push_back(std::strtod(v.c_str(), nullptr)); t.ops.push_back(o); }
      else if (w == "end") break;
    }
    return t;
  }
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void byte(unsigned char c) { h ^= c; h *= 1099511628211ull; }
  void add(const void* p, size_t n) { const unsigned char* c = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) byte(c[i]); }
  void d(double x) { if (x == 0) x = 0; add(&x, sizeof x); }
  void i(int64_t x) { add(&x, sizeof x); }
};

struct Violation {
  std::string cls;  // violation class, stable under minimisation
  std::string msg;
};
struct HarnessError : std::runtime_error { using std::runtime_error::runtime_error; };

// per-run statistics
struct Stats {
  std::map<std::string, double> c;
  void add(const std::string& k, double v = 1) { c[k] += v; }
  void mx(const std::string& k, double v) { auto& r = c["max." + k]; if (v > r) r = v; }
};

inline bool allFinite(const std::vector<double>& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }

} // namespace sim
