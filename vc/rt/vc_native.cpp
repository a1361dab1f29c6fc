// Native runtime of the contract language: replays a counterexample of the verifier on the real code, and searches
// around it.  usage: BIN UNIT VALUES.txt TRIES SEED   (VALUES: lines "name kind value"; value "?" = not determined)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>
#include <random>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>

struct In { std::string name, kind, val; };
static std::vector<In> g_in;
static size_t g_pos = 0;
static std::mt19937_64 g_rng;
static int g_mode = 0; // 0: model values; 1: mostly random
static std::string g_log;

static bool tame() { static bool t = getenv("VC_TAME") != nullptr; return t; }
static double rnd_real() {
  static const double pool[] = {0, 1, -1, 2, -2, 3, -3, 0.5, -0.5, 1.5, 4, 5, -5, 7, 0.25, 10, -10, 0.1};
  if (tame()) return pool[g_rng() % 15];     // dyadic values only: arithmetic is exact or nearly so
  unsigned k = g_rng() % 10;
  if (k < 6) return pool[g_rng() % (sizeof(pool) / sizeof(double))];
  std::uniform_real_distribution<double> u(-5, 5);
  if (k < 9) return u(g_rng);
  std::uniform_real_distribution<double> e(-6, 6);
  return (g_rng() & 1 ? 1 : -1) * std::pow(10.0, e(g_rng));
}
static const In* next(const char* name) {
  if (g_pos < g_in.size()) { const In* i = &g_in[g_pos++]; return i; }
  return nullptr;
}
extern "C" {
  double vc_real(const char* name) {
    const In* i = next(name);
    double v;
    if (i && i->kind == "real" && i->val != "?" && (g_mode == 0 || g_rng() % 4)) v = std::strtod(i->val.c_str(), 0);
    else v = rnd_real();
    if (tame() && v != 0 && (std::fabs(v) < 0.01 || std::fabs(v) > 1e4)) v = rnd_real();
    char b[128]; snprintf(b, sizeof b, "%s=%.17g ", name, v); g_log += b;
    return v;
  }
  static int64_t integer(const char* name, int64_t lo, int64_t hi) {
    const In* i = next(name);
    int64_t v;
    if (i && i->kind != "real" && i->val != "?" && (g_mode == 0 || g_rng() % 2)) v = std::strtoll(i->val.c_str(), 0, 10);
    else if ((uint64_t)(hi - lo) > 1000 && g_rng() % 2) { v = (int64_t)(g_rng() % 21) - 10; if (v < lo || v > hi) v = lo + (int64_t)(g_rng() % 20); }
    else { uint64_t n = (uint64_t)hi - (uint64_t)lo; v = n == UINT64_MAX ? (int64_t)g_rng() : (int64_t)((uint64_t)lo + g_rng() % (n + 1)); }
    if (v < lo || v > hi) v = lo;
    char b[128]; snprintf(b, sizeof b, "%s=%lld ", name, (long long)v); g_log += b;
    return v;
  }
  int64_t vc_int(const char* name, int64_t lo, int64_t hi) { return integer(name, lo, hi); }
  int64_t vc_choose(const char* name, int64_t lo, int64_t hi) { return integer(name, lo, hi); }
  int64_t vc_native_random(int64_t lo, int64_t hi) { return lo + (int64_t)(g_rng() % (uint64_t)(hi - lo + 1)); }
  void vc_assume(bool b) { if (!b) _exit(3); }
  static void fail(const char* label, const char* what) {
    printf("REPLAY-FAIL %s %s\n  inputs: %s\n", label, what, g_log.c_str()); fflush(stdout); _exit(1);
  }
  void vc_assert(bool b, const char* label) { if (!b) fail(label, "assertion false"); }
  void vc_assert_eq(double a, double b, const char* label) {
    if (std::isinf(a) && a == b) return;
    double s = 1 + std::fmax(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= 1e-6 * s)) { char t[100]; snprintf(t, sizeof t, "%.17g != %.17g", a, b); fail(label, t); }
  }
  void vc_reach(const char*) {}
  bool vc_symbolic() { return false; }
  double vc_uf(const char* n, double x) { double h = 0; for (; *n; ++n) h = h * 1.3 + *n; return std::sin(h + x * 1.7) * 3; }
  double vc_uf2(const char* n, double x, double y) { double h = 0; for (; *n; ++n) h = h * 1.3 + *n; return std::sin(h + x * 1.7 + y * 0.9) * 3; }
  void vc_contract(void*, void*) {}
  void vc_uncontract(void*) {}
  void vc_call_real(void*) {}
  bool vc_identical(double a, double b) { return a == b || std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
  void vc_loop(void*, void*) {}
  void vc_invariants(const char*) {}
  void vc_term(const double*) {}
  void vc_freeze() {}
  void vc_unfreeze() {}
  void vc_freeze_range(const void*) {}
  void vc_print(const char* s, int64_t v) { printf("%s%lld\n", s, (long long)v); }
  void vc_prints(const char* s) { printf("%s\n", s); }
}
int main(int argc, char** argv) {
  const char* unit = argv[1];
  auto f = (void (*)())dlsym(RTLD_DEFAULT, unit);
  if (!f) { fprintf(stderr, "no unit %s\n", unit); return 2; }
  if (FILE* fp = fopen(argv[2], "r")) {
    char n[256], k[32], v[256];
    while (fscanf(fp, "%255s %31s %255s", n, k, v) == 3) g_in.push_back(In{n, k, v});
    fclose(fp);
  }
  int tries = atoi(argv[3]);
  uint64_t seed = strtoull(argv[4], 0, 10);
  for (int t = 0; t < tries; ++t) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(10);
      g_rng.seed(seed * 1000003 + t); g_mode = t == 0 ? 0 : (t % 3 == 1 ? 1 : 2);
      if (g_mode == 2) g_in.clear();
      try { f(); } catch (std::exception& e) { printf("REPLAY-FAIL uncaught-exception %s\n  inputs: %s\n", e.what(), g_log.c_str()); fflush(stdout); _exit(1); }
      catch (...) { printf("REPLAY-FAIL uncaught-exception\n  inputs: %s\n", g_log.c_str()); fflush(stdout); _exit(1); }
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { printf("REPLAY attempt %d seed %llu\n", t, (unsigned long long)seed); return 1; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("REPLAY-FAIL does-not-terminate (10 s)\n");
    else printf("REPLAY-FAIL crash status=%d (memory error, undefined behaviour or abort)\n", st);
    printf("REPLAY attempt %d seed %llu\n", t, (unsigned long long)seed);
    return 1;
  }
  return 0;
}
