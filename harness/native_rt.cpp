// Native implementation of the harness interface: replays one assignment.
//   replay ENTRY MODEL      MODEL: lines "name value" and "param:name value"
// exit 0: every check holds   1: a check fails   3: the point is outside the assumptions
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>

#include "sx.h"

static std::map<std::string, double> model;
static std::map<std::string, int> useCount;
static int failures = 0;
static double gscale = 0;
static bool expectThrow = false;
static int quiet = 0;

static std::string uniq(const char *n) {
  int k = useCount[n]++;
  return k ? std::string(n) + "#" + std::to_string(k) : n;
}
static double dflt(const std::string &n, double lo, double hi) {
  static const char *seed = getenv("SX_RANDOM"); // another point for the values the model leaves open
  unsigned h = 2166136261u;
  if (seed) for (const char *c = seed; *c; c++) h = (h ^ (unsigned char)*c) * 16777619u;
  for (char c : n) h = (h ^ (unsigned char)c) * 16777619u;
  double u = (h % 10007) / 10007.;
  if (!(lo > -1e300)) lo = -2;
  if (!(hi < 1e300)) hi = 2;
  return lo + (hi - lo) * u;
}
static void fail(const char *msg, double a, double b) {
  // in a search only a clear difference counts, and a point where something is not a number is not one the property speaks about
  if (getenv("SX_RANDOM")) {
    if (std::isnan(a) || std::isnan(b)) { printf("NOT A NUMBER\n"); fflush(stdout); _exit(3); }
    if (std::fabs(a - b) <= 1e-5 * (std::fabs(a) + std::fabs(b)) + 1e-6) return;
  }
  failures++;
  if (quiet++ < 20) printf("FAIL %s: %.17g vs %.17g\n", msg, a, b);
  fflush(stdout);
}
extern "C" {
double __sx_real(const char *name, double lo, double hi) {
  std::string n = uniq(name);
  auto it = model.find(n);
  double v = it == model.end() ? dflt(n, lo, hi) : it->second;
  if (v < lo) v = lo;
  if (v > hi) v = hi;
  return v;
}
int __sx_int(const char *name, int lo, int hi) {
  std::string n = uniq(name);
  if (lo == hi) return lo;
  auto it = model.find(n);
  return it == model.end() ? (getenv("SX_RANDOM") ? (int)std::floor(dflt(n, lo, hi + 0.999)) : lo) : (int)it->second;
}
bool __sx_bool(const char *name) {
  std::string n = uniq(name);
  auto it = model.find(n);
  return it == model.end() ? getenv("SX_RANDOM") && dflt(n, 0, 1) > 0.5 : it->second != 0;
}
int __sx_fork(int v) { return v; }
void __sx_assume(bool c) {
  if (!c) {
    printf("OUTSIDE ASSUMPTIONS\n");
    fflush(stdout);
    _exit(failures ? 1 : 3);
  }
}
void __sx_check(bool c, const char *msg) {
  if (!c) fail(msg, 0, 1);
}
void __sx_check_eq(double a, double b, const char *msg) {
  if (a == b) return;
  if (!(std::fabs(a - b) <= 1e-7 * (std::fabs(a) + std::fabs(b)) + 1e-10 + 1e-9 * gscale)) fail(msg, a, b);
}
void __sx_same(double a, double b, const char *msg) {
  if (!(a == b)) fail(msg, a, b);
}
void __sx_check_tol(double a, double b, double tol, const char *msg) {
  if (!(std::fabs(a - b) <= tol * (1 + 1e-9) + 1e-12 * (std::fabs(a) + std::fabs(b)))) fail(msg, a, b);
}
double __sx_uf(const char *name, int n, const double *args, int comp) {
  double v = 1;
  for (const char *c = name; *c; c++) v += *c * 0.37;
  v += comp * 1.7;
  double r = std::sin(v);
  for (int i = 0; i < n; i++) r += std::sin((i + 1) * 0.7 + v) * args[i] + 0.05 * std::cos(v + i) * args[i] * args[(i + 1) % n];
  return r;
}
double __sx_deriv(double, double) { return NAN; }
int __sx_native() { return 1; }
int __sx_param(const char *name) {
  auto it = model.find(std::string("param:") + name);
  if (it == model.end()) { printf("missing parameter %s\n", name); _exit(4); }
  return (int)it->second;
}
void __sx_expect_throw() { expectThrow = true; }
void __sx_note(const char *) {}
void __sx_printreal(const char *m, double v) { printf("%s = %.17g\n", m, v); }
bool __sx_issym(double) { return false; }
bool __sx_depends(double, double) { return false; }
void __sx_scale(double s) { gscale = s; }
__attribute__((weak)) int omp_get_num_threads() { return (int)model["param:threads"]; }
__attribute__((weak)) int omp_get_thread_num() { return (int)model["param:thread"]; }
}
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::ifstream f(argv[2]);
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l);
    std::string n, v;
    if (s >> n >> v) model[n] = strtod(v.c_str(), nullptr);
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 4; }
  try {
    fn();
  } catch (...) {
    if (!expectThrow) fail("uncaught exception", 0, 1);
  }
  printf(failures ? "VIOLATED\n" : "HOLDS\n");
  fflush(stdout);
  _exit(failures ? 1 : 0);
}
