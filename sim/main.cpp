// sim batch PROP VERIF_SEED TIER START STRIDE COUNT DEADLINE_S   -> results on stdout
// sim gen PROP RUNSEED TIER [float..]                            -> trace on stdout
// sim replay FILE                                                -> executes in a child process
// sim minimise FILE OUT BUDGET_S
#include "gen.hpp"
#include "run.hpp"
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>

using namespace sim;

static const int RUN_LIMIT_S = 30;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }   // never visible to a run

static uint64_t runSeed(uint64_t vs, uint64_t i) { uint64_t s = vs * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull + 7; return splitmix(s) >> 1; }

static void quiet() { int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static std::string oneLine(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t') c = ' '; return s; }

struct Res { bool crashed = false; int sig = 0; bool violated = false; bool error = false; std::string cls, msg; uint64_t hash = 0; };

static std::string readAll(int fd) { std::string s; char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }

// a replay file: one run, preceded by the runs executed before it in the same process when the outcome depends on them
struct Script { std::vector<Trace> t; bool leak = false; };
static Script parseScript(const std::string& path) {
  std::ifstream f(path); if (!f) throw HarnessError("cannot read " + path);
  Script s; std::string line, cur;
  while (std::getline(f, line)) {
    if (line == "mode leak") { s.leak = true; continue; }
    if (!line.empty() && line[0] == '#') continue;
    cur += line + "\n";
    if (line == "end") { std::istringstream in(cur); s.t.push_back(Trace::parse(in)); cur.clear(); }
  }
  if (s.t.empty()) throw HarnessError("empty replay file");
  return s;
}
static std::string scriptStr(const Script& s) { std::string o; if (s.leak) o += "mode leak\n"; for (auto& t : s.t) o += t.str(); return o; }

// one run in a child: the code under test may abort, crash or hang
static Res isolated(const std::vector<Trace>& ts, bool keepErr = false) {
  int p[2]; if (pipe(p)) throw HarnessError("pipe");
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]); if (!keepErr) quiet();
    for (size_t k = 0; k + 1 < ts.size(); ++k) { alarm(RUN_LIMIT_S); try { execute(ts[k]); } catch (std::exception&) {} }
    const Trace& t = ts.back(); alarm(RUN_LIMIT_S);
    std::string s;
    try { RunOut o = execute(t); char b[64]; std::snprintf(b, sizeof b, "%d %016llx\n", o.violated ? 1 : 0, (unsigned long long)o.hash); s = b + o.v.cls + "\n" + oneLine(o.v.msg) + "\n"; }
    catch (HarnessError& x) { s = std::string("2 0\nharness\n") + oneLine(x.what()) + "\n"; }
    catch (std::exception& x) { s = std::string("1 e0\nexception\n") + oneLine(x.what()) + "\n"; }
    if (write(p[1], s.data(), s.size()) < 0) _exit(9);
    _exit(0);
  }
  close(p[1]); std::string s = readAll(p[0]); close(p[0]);
  int st = 0; waitpid(c, &st, 0);
  Res r;
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
    r.crashed = r.violated = true; r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
    r.cls = r.sig == SIGALRM ? "hang" : "crash"; r.msg = r.sig == SIGALRM ? "a tick or setter did not return" : "process died, signal/status " + std::to_string(r.sig);
    r.hash = 0xdead0000ull + r.sig;
    return r;
  }
  std::istringstream in(s); int v; std::string hx; in >> v >> hx; r.hash = std::strtoull(hx.c_str(), nullptr, 16); std::string l; std::getline(in, l);
  std::getline(in, r.cls); std::getline(in, r.msg); r.violated = v == 1; r.error = v == 2;
  return r;
}

// mode leak: the last run, alone and after the others, must give the same history
static Res judge(const Script& s, bool keepErr = false) {
  Res r = isolated(s.t, keepErr);
  if (!s.leak || r.error) return r;
  Res a = isolated({s.t.back()}, keepErr);
  if (a.error) return a;
  Res o; o.hash = r.hash ^ (a.hash * 3);
  if (r.hash != a.hash || r.violated != a.violated) {
    char b[200]; std::snprintf(b, sizeof b, "the same calls on new controllers give another history (%016llx) when %zu other runs used the library in the process before than alone (%016llx)", (unsigned long long)r.hash, s.t.size() - 1, (unsigned long long)a.hash);
    o.violated = true; o.cls = "state-leak"; o.msg = b;
  }
  return o;
}

static int batch(int argc, char** argv) {
  if (argc < 9) return 9;
  std::string prop = argv[2]; uint64_t vs = std::strtoull(argv[3], nullptr, 10); bool thorough = std::string(argv[4]) == "thorough";
  uint64_t start = std::strtoull(argv[5], nullptr, 10), stride = std::strtoull(argv[6], nullptr, 10), count = std::strtoull(argv[7], nullptr, 10);
  double deadline = now() + std::atof(argv[8]);
  uint64_t i = 0; int bad = 0; const uint64_t CH = 25;
  while (i < count && now() < deadline) {
    int p[2]; if (pipe(p)) return 9;
    fflush(stdout);
    uint64_t hi = std::min(count, i + CH);
    printf("G %llu\n", (unsigned long long)i); fflush(stdout);
    pid_t c = fork();
    if (c == 0) {
      close(p[0]); quiet();
      FILE* f = fdopen(p[1], "w"); Stats agg; std::set<uint64_t> states;
      for (uint64_t k = i; k < hi; ++k) {
        uint64_t rs = runSeed(vs, start + k * stride);
        fprintf(f, "S %llu\n", (unsigned long long)k); fflush(f); alarm(RUN_LIMIT_S);
        try {
          Trace t = generate(prop, rs, thorough);
          RunOut o = execute(t);
          fprintf(f, "R %llu %llu %016llx %016llx %d %d %s\t%s\n", (unsigned long long)k, (unsigned long long)rs, (unsigned long long)o.hash, (unsigned long long)o.sig, o.nontrivial, o.violated, o.v.cls.c_str(), oneLine(o.v.msg).c_str());
          for (auto& kv : o.st.c) { if (kv.first.compare(0, 4, "max.") == 0) { auto& r = agg.c[kv.first]; r = std::max(r, kv.second); } else agg.c[kv.first] += kv.second; }
          agg.c["kind." + t.kind] += 1; if (t.get("float")) agg.c["float_runs"] += 1; if (t.get("faulty")) agg.c["fault_injecting_runs"] += 1; else agg.c["fault_free_runs"] += 1;
          states.insert(o.states.begin(), o.states.end());
        } catch (HarnessError& x) { fprintf(f, "E %llu %llu %s\n", (unsigned long long)k, (unsigned long long)rs, oneLine(x.what()).c_str()); }
        catch (std::exception& x) { fprintf(f, "R %llu %llu %016llx %016llx 1 1 exception\t%s\n", (unsigned long long)k, (unsigned long long)rs, 0xe0ull, 0ull, oneLine(x.what()).c_str()); }
        fflush(f);
      }
      alarm(0);
      for (auto& kv : agg.c) fprintf(f, "C %s %.17g\n", kv.first.c_str(), kv.second);
      for (auto x : states) fprintf(f, "T %016llx\n", (unsigned long long)x);
      fclose(f); _exit(0);
    }
    close(p[1]); std::string s = readAll(p[0]); close(p[0]);
    int st = 0; waitpid(c, &st, 0);
    fwrite(s.data(), 1, s.size(), stdout);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
      size_t q = s.rfind("S "); while (q != std::string::npos && q > 0 && s[q - 1] != '\n') q = s.rfind("S ", q - 1);
      uint64_t k = q == std::string::npos ? i : std::strtoull(s.c_str() + q + 2, nullptr, 10);
      int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st);
      printf("R %llu %llu %016llx %016llx 1 1 %s\tprocess died or hung, signal/status %d\n", (unsigned long long)k, (unsigned long long)runSeed(vs, start + k * stride), 0xdead0000ull + sg, 0ull, sg == SIGALRM ? "hang" : "crash", sg);
      i = k + 1; ++bad;
      if (bad >= 20) break;
    } else i = hi;
  }
  printf("D %llu\n", (unsigned long long)i);
  return 0;
}

static int minimise(const std::string& in, const std::string& out, double budget) {
  Script s = parseScript(in);
  Res r0 = judge(s); if (!r0.violated) { printf("not reproducible\n"); return 3; }
  double end = now() + budget; int evals = 0;
  auto same = [&](const Script& c) { ++evals; Res r = judge(c); return r.violated && r.cls == r0.cls; };
  // which of the runs before it matter
  for (size_t chunk = std::max<size_t>(1, (s.t.size() - 1) / 2); s.t.size() > 1 && now() < end;) {
    bool any = false;
    for (size_t i = s.t.size() - 1; i > 0 && now() < end;) {
      size_t lo = i > chunk ? i - chunk : 0;
      Script c = s; c.t.erase(c.t.begin() + lo, c.t.begin() + i);
      if (same(c)) { s = c; any = true; }
      i = lo;
    }
    if (chunk == 1 && !any) break;
    if (!any || chunk > s.t.size()) chunk = std::max<size_t>(1, chunk / 2);
  }
  // drop operations, of the last run first
  for (size_t k = s.t.size(); k-- > 0 && now() < end;) {
    size_t chunk = std::max<size_t>(1, s.t[k].ops.size() / 2);
    while (now() < end) {
      bool any = false;
      for (size_t i = s.t[k].ops.size(); i > 0 && now() < end;) {
        size_t lo = i > chunk ? i - chunk : 0;
        Script c = s; auto& ops = c.t[k].ops; ops.erase(ops.begin() + lo, ops.begin() + i);
        if (same(c)) { s = c; any = true; }
        i = lo;
      }
      if (chunk == 1 && !any) break;
      if (!any || chunk > s.t[k].ops.size()) chunk = std::max<size_t>(1, chunk / 2);
    }
  }
  // simplify arguments of the last run: drop faults, zero and round values
  Trace& t = s.t.back();
  for (size_t i = 0; i < t.ops.size() && now() < end; ++i) {
    for (size_t j = 0; j < t.ops[i].a.size() && now() < end; ++j) {
      double v = t.ops[i].a[j];
      for (double w : {0.0, 1.0, rnd(v, 1), rnd(v, 2)}) {
        if (w == v || std::abs(w) > std::abs(v) + 1) continue;
        if (t.ops[i].n == "N" || t.ops[i].n == "T" || t.ops[i].n == "SP" || t.ops[i].n == "DS") continue;
        if ((t.ops[i].n == "tick" || t.ops[i].n == "hk") && j == 0 && w < v) continue;
        if ((t.ops[i].n == "tick" || t.ops[i].n == "hk") && j > 0 && w != 0) continue;   // a fault is dropped or kept as it is
        Script c = s; c.t.back().ops[i].a[j] = w;
        if (same(c)) { t.ops[i].a[j] = w; break; }
      }
    }
  }
  Res r = judge(s);
  size_t n = 0; for (auto& x : s.t) n += x.ops.size();
  std::ofstream o(out); o << "# violation " << r.cls << ": " << r.msg << "\n# hash " << std::hex << r.hash << std::dec << "\n# replay: python3 /verif/check.py --replay <this file>\n" << scriptStr(s);
  printf("minimised to %zu runs and %zu ops in %d evaluations\n", s.t.size(), n, evals);
  return 0;
}

int main(int argc, char** argv) {
  std::string m = argc > 1 ? argv[1] : "";
  rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  try {
    if (m == "batch") return batch(argc, argv);
    if (m == "gen") { std::cout << generate(argv[2], std::strtoull(argv[3], nullptr, 10), std::string(argv[4]) == "thorough").str(); return 0; }
    if (m == "replay" || m == "replayv") {
      Res r = judge(parseScript(argv[2]), m == "replayv");
      if (r.error) { printf("ERROR %s\n", r.msg.c_str()); return 3; }
      if (r.violated) { printf("VIOLATED %016llx %s\t%s\n", (unsigned long long)r.hash, r.cls.c_str(), r.msg.c_str()); return 1; }
      printf("OK %016llx\n", (unsigned long long)r.hash); return 0;
    }
    if (m == "direct") { std::ifstream f(argv[2]); Trace t = Trace::parse(f); RunOut o = execute(t); printf("%d %s %s\n", o.violated, o.v.cls.c_str(), o.v.msg.c_str()); for (auto& kv : o.st.c) printf("%s %g\n", kv.first.c_str(), kv.second); return 0; }
    if (m == "minimise") return minimise(argv[2], argv[3], std::atof(argv[4]));
  } catch (std::exception& x) { fprintf(stderr, "%s\n", x.what()); return 9; }
  return 9;
}
