#pragma once
#include "sx.h"
#include "src/etc/globals.h"
#include "src/etc/types.h"
#include "src/system/objects.h"
#include <cmath>
#include <cstdio>
#include <string>

inline double real(const char *n, double lo, double hi) { return __sx_real(n, lo, hi); }
inline void nm(char *buf, const char *base, int i) {
  int k = 0;
  while (base[k]) { buf[k] = base[k]; k++; }
  buf[k++] = '0' + (i / 1000) % 10;
  buf[k++] = '0' + (i / 100) % 10;
  buf[k++] = '0' + (i / 10) % 10;
  buf[k++] = '0' + i % 10;
  buf[k] = 0;
}
inline double real(const char *base, int i, double lo, double hi) {
  char b[48];
  nm(b, base, i);
  return __sx_real(b, lo, hi);
}
// fills n doubles with fresh symbolic reals
inline void reals(double *p, int n, const char *base, double lo, double hi) {
  for (int i = 0; i < n; i++) p[i] = real(base, i, lo, hi);
}
inline void msgi(char *buf, const char *m, int i) { nm(buf, m, i); }
inline void eq(double a, double b, const char *m) { __sx_check_eq(a, b, m); }
inline void eqn(const double *a, const double *b, int n, const char *m) {
  for (int i = 0; i < n; i++) __sx_check_eq(a[i], b[i], m);
}

// The derivative of f at the symbolic input x is `expected`. Symbolically: of
// the expression f produces. Natively (replay): Richardson central difference.
template <class F> inline double derivative(F f, double x) {
  if (!__sx_native()) return __sx_deriv(f(x), x);
  double h = 2e-3 * std::max(std::fabs(x), 0.05);
  double d1 = (f(x + h) - f(x - h)) / (2 * h);
  h /= 2;
  double d2 = (f(x + h) - f(x - h)) / (2 * h);
  return (4 * d2 - d1) / 3;
}
template <class F> inline void check_deriv(F f, double x, double expected, const char *m) {
  double d = derivative(f, x);
  if (!__sx_native()) { __sx_check_eq(d, expected, m); return; }
  double fx = f(x);
  __sx_check_tol(d, expected, 1e-5 * (std::fabs(d) + std::fabs(expected)) + 1e-8 * (1 + std::fabs(fx)), m);
}

// Material parameters: every constant of the chosen equation of state is an
// arbitrary real in the stated box.
inline void symPar(Params &MP, int eos, const char *tag = "") {
  char b[40];
  auto R = [&](const char *n, double lo, double hi) {
    int k = 0, j = 0;
    while (n[j]) b[k++] = n[j++];
    for (j = 0; tag[j]; j++) b[k++] = tag[j];
    b[k] = 0;
    return __sx_real(b, lo, hi);
  };
  MP.EOS = eos;
  MP.ρ0 = R("rho0", 0.5, 3);
  MP.Tref = R("Tref", 0, 3);
  MP.cv = R("cv", 0.5, 3);
  MP.pINF = R("pINF", 0, 3);
  MP.Γ0 = R("Gam0", 0.1, 3);
  MP.c02 = R("c02", 0.1, 3);
  MP.s = R("s", 1, 1.4);
  MP.α = R("alpha", 1, 3);
  MP.β = R("beta", 0.5, 3);
  MP.γ = R("gamma", 1.1, 3);
  MP.A = R("A", 0.1, 3);
  MP.B = R("B", 0.1, 3);
  MP.R1 = R("R1", 1.1, 3);
  MP.R2 = R("R2", 1.1, 3);
  MP.b02 = R("b02", 0.1, 3);
  MP.μ = R("mu", 0.1, 3);
  MP.τ0 = R("tau0", 0.1, 3);
  MP.σY = R("sigY", 0.1, 3);
  MP.n = R("n", 0.5, 4);
  MP.bf2 = R("bf2", 0.1, 3);
  MP.bs2 = R("bs2", 0.1, 3);
  MP.τf = R("tauf", 0.1, 3);
  MP.τs = R("taus", 0.1, 3);
  MP.cα2 = R("calpha2", 0.1, 3);
  MP.κ = R("kappa", 0.1, 3);
}
inline void symParFull(Par &MP, int eos, const char *tag = "") {
  symPar(MP, eos, tag);
  MP.SOLID = false;
  MP.POWER_LAW = false;
  MP.MULTI = false;
  MP.BINGHAM = false;
  MP.REACTION = -1;
  MP.T0 = __sx_real("T0", 0.1, 3);
  for (int i = 0; i < 3; i++) MP.δp(i) = real("dp", i, -3, 3);
  MP.MP2 = MP;
  MP.Qc = __sx_real("Qc", 0.1, 3);
  double *r[] = {&MP.Kc, &MP.Ti, &MP.Bc, &MP.Ea, &MP.Rc, &MP.I, &MP.G1, &MP.G2, &MP.a, &MP.b, &MP.c, &MP.d, &MP.e, &MP.g, &MP.x, &MP.y, &MP.z};
  for (int i = 0; i < 17; i++) *r[i] = real("react", i, 0.1, 3);
  MP.φI = __sx_real("phiI", 0, 1);
  MP.φG1 = __sx_real("phiG1", 0, 1);
  MP.φG2 = __sx_real("phiG2", 0, 1);
}
// An arbitrary conserved state (density bounded away from zero)
inline VecV symState(const char *base, double b = 3) {
  VecV Q;
  for (int i = 0; i < V; i++) Q(i) = real(base, i, i == 0 ? 0.2 : -b, b);
  return Q;
}
