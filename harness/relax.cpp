// Relaxation in the split solver: distortion, heat flux, reactions.
#include "common.h"
#include "src/solvers/split/numeric.h"
#include "src/solvers/split/ode.h"
#include "src/solvers/split/rk.h"
#include "src/system/energy/eos.h"
#include "src/system/equations.h"
#include "src/system/functions/vectors.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/relaxation/numerical.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include <functional>

double nondimensionalized_time(double ρ, double detA3, double m0, double u0, double dt, Par &MP);

static void kind(Par &MP, int k) {
  MP.SOLID = k == 1 || k == 2;
  MP.POWER_LAW = k == 2 || k == 4;
  MP.BINGHAM = k == 3;
  if (!MP.POWER_LAW) MP.n = 1;
}
extern "C" {
static int bodyCalls;
void stub_distortion(VecVr Q, double dt, Par &MP) { Q(5) += dt * MP.ρ0; bodyCalls++; }
void stub_thermal(VecVr Q, double dt, Par &MP) { Q(14) += dt * MP.κ; bodyCalls += 10; }
void h_body() {
  Par MP;
  symParFull(MP, 0);
  VecV Q = symState("q"), Q0 = Q;
  double dt = real("dt", 0, 2);
  bodyCalls = 0;
  ode_stepper_analytic(Q, dt, MP);
  __sx_check(bodyCalls == (VISCOUS ? 1 : 0) + (THERMAL ? 10 : 0), "distortion and heat flux are relaxed when they are part of the system");
  for (int i = 0; i < V; i++) {
    double x = Q0(i);
    if (i >= 2 && i < 5) x += MP.δp(i - 2) * dt;
    if (VISCOUS && i == 5) x += dt * MP.ρ0;
    if (THERMAL && i == 14) x += dt * MP.κ;
    eq(Q(i), x, "the body force accelerates, nothing else changes");
  }
}
// principal stretches: L (x, y, 1 / (x y)) with x and the scale L arbitrary
static double lam, st[3];
static void stretches(VecV &Q, int perm, bool unit = false) {
  double den = __sx_param("WEAK") ? __sx_param("WEAK") : 16;
  auto fixed = [&](const char *n, int k) { return real(n, k / den, k / den); };
  double y = fixed("y", __sx_param("Y"));
  lam = unit ? 1.25 : real("scale", 0.5, 1.5);
  st[0] = __sx_param("X") ? fixed("x", __sx_param("X")) : real("x", 0.6, 1.8);
  st[1] = y;
  st[2] = 1 / (st[0] * y);
  for (int k = 0; k < 9; k++) Q(5 + k) = 0;
  for (int k = 0; k < 3; k++) Q(5 + 3 * k + k) = lam * st[(k + perm) % 3];
}
// a non-dimensional time, zero when the step is; two of the exponentials of its multiples may take any values
static double tauv, e6, e9;
static bool freeExp;
double stub_tau(double, double, double, double, double dt, Par &) { return dt == 0 ? 0 : tauv; }
double stub_exp(double x) {
  if (freeExp && x == -6 * tauv) return e6;
  if (freeExp && x == -9 * tauv) return e9;
  return std::exp(x);
}
void h_invariants() {
  Par MP;
  symParFull(MP, 0);
  VecV Q = symState("q"), Q0;
  int perm = __sx_param("PERM"), zero = __sx_param("ZERO"), neg = __sx_param("NEG");
  stretches(Q, perm, true);
  Q0 = Q;
  double m0 = 0, u0 = 0;
  for (int k = 0; k < 3; k++) m0 += st[k] * st[k] / 3;
  for (int k = 0; k < 3; k++) u0 += (st[k] * st[k] - m0) * (st[k] * st[k] - m0);
  double dt = zero ? 0 : real("dt", 0.05, 0.3);
  double a = 3 * m0 - u0 / 3 - 3, b = 2 * m0 - u0 / 3 - 2, m = m0, u = u0;
  tauv = real("tau", 0.01, 0.3);
  freeExp = !zero && !__sx_native();
  double w = __sx_param("WEAK") ? 4. / __sx_param("WEAK") : 1; // size of the strain
  if (freeExp) { // the mean and the spread reached can be anything
    __sx_assume(a > 0.01 * w * w || a < -0.01 * w * w);
    __sx_assume(b > 0.01 * (w < 1 ? 0.1 * w * w * w : 1) || b < -0.01 * (w < 1 ? 0.1 * w * w * w : 1));
    m = real("m", 1, 1 + w * w);
    u = real("u", 0.01 * w * w, 4 * w * w);
    e6 = (9 * (m - 1) - u) / (3 * a);
    e9 = (6 * (m - 1) - u) / (3 * b);
  } else if (!zero) {
    m = 1 + a * std::exp(-6 * tauv) - b * std::exp(-9 * tauv);
    u = 6 * a * std::exp(-6 * tauv) - 9 * b * std::exp(-9 * tauv);
  }
  bool anySign = __sx_native() && !zero; // natively the mean and spread are those of the step
  double D = -2 * m * m * m + m * u + 2, disc = 6 * u * u * u - 81 * D * D;
  __sx_assume(u > 0.001 * w * w);
  __sx_check(std::sqrt(6 * u) > 0, "spread");
  __sx_assume((D < -0.0001 * w * w * w && (neg || anySign)) || (D > 0.0001 * w * w * w && (!neg || anySign)));
  __sx_assume(disc > 0.0001 * w * w * w * w * w * w);
  double θ = std::atan2(std::sqrt(disc), 9 * D), r1 = std::sqrt(6 * u) / 3 * std::cos(θ / 3) + m; // the largest root of the cubic below
  double rest = 3 * m - r1;
  __sx_assume(r1 * rest * rest - 4 > 0.0001 * w * w); // distinct principal stretches
  double r2 = (std::sqrt((r1 * rest * rest - 4) / r1) + rest) / 2, r3 = 1 / (r1 * r2);
  __sx_assume(r1 > r2);
  __sx_assume(r2 > r3);
  analyticSolver_distortion(Q, dt, MP);
  double x[3];
  for (int k = 0; k < 3; k++) x[k] = Q(5 + 4 * k) * Q(5 + 4 * k) / (lam * lam);
  int hi = (__sx_param("HI") - perm + 3) % 3, lo = (__sx_param("LO") - perm + 3) % 3; // the order of the stretches does not change
  __sx_assume(Q0(5 + 4 * hi) > Q0(5 + 4 * (3 - hi - lo)));
  __sx_assume(Q0(5 + 4 * (3 - hi - lo)) > Q0(5 + 4 * lo));
  double xa = x[hi], xb = x[3 - hi - lo];
  eq(x[0] * x[1] * x[2], 1, "relaxation preserves the volume");
  // the squared stretches are the roots of X^3 - 3 m X^2 + (6 m^2 - u) / 2 X - 1: volume 1, mean m, spread u
  eq(xa * (xa * (xa - 3 * m) + (6 * m * m - u) / 2), 1, "the largest squared stretch decays as the linearised equations say");
  eq(xa * xb * (3 * m - xa - xb), 1, "the mean and spread of the squared stretches decay as the linearised equations say");
  for (int i = 0; i < V; i++)
    if (i < 5 || i >= 14 || (i - 5) % 4) eq(Q(i), Q0(i), "the principal directions and everything else stay");
}
// isotropic distortion is left alone
void h_isotropic() {
  Par MP;
  symParFull(MP, 0);
  VecV Q = symState("q"), Q0;
  double a = real("a", 0.3, 2), dt = real("dt", 0, 2);
  for (int k = 0; k < 9; k++) Q(5 + k) = k % 4 ? 0 : a;
  Q0 = Q;
  analyticSolver_distortion(Q, dt, MP);
  eqn(Q.data(), Q0.data(), V, "an unstrained distortion does not change");
}
// the rate of the non-dimensional time is the relaxation rate of the equations
void h_rate() {
  Par MP;
  symParFull(MP, 0);
  kind(MP, __sx_param("KIND"));
  VecV Q = symState("q");
  stretches(Q, 0);
  double det = lam * lam * lam, ρ = det * MP.ρ0;
  Q(0) = ρ;
  double m0 = 0, u0 = 0;
  for (int k = 0; k < 3; k++) m0 += st[k] * st[k] / 3;
  for (int k = 0; k < 3; k++) u0 += (st[k] * st[k] - m0) * (st[k] * st[k] - m0);
  __sx_assume(u0 > 0.001);
  double w[3], fro = 0, mis = 0; // the stress is not zero
  for (int k = 0; k < 3; k++) { w[k] = st[k] * st[k] * (st[k] * st[k] - m0); fro += w[k] * w[k]; }
  for (int k = 0; k < 3; k++) mis += (w[k] - w[(k + 1) % 3]) * (w[k] - w[(k + 1) % 3]);
  if (MP.POWER_LAW) __sx_assume((MP.SOLID ? mis : fro) > 0.001);
  double dt = real("dt", 0, 0.5);
  double rate = 2. / 3 * theta1inv(Q, MP) * c_s2(ρ, MP) * lam * lam;
  eq(nondimensionalized_time(ρ, lam, m0, u0, 0, MP), 0, "no time passes in a step of length zero");
  auto tau = [&](double t) { return nondimensionalized_time(ρ, lam, m0, u0, t, MP); };
  double t = tau(dt);
  if (!MP.POWER_LAW) {
    eq(t, rate * dt, "relaxation proceeds at the rate of the equations");
    return;
  }
  // power laws: dτ/dt = rate exp(-k τ / 2) for a constant k, and the rate of the equations initially
  double d = derivative(tau, dt);
  // τ = 2/K log(1 + rate K dt / 2)  <=>  dτ/dt (1 + rate K dt / 2) = rate with the same K at every dt
  double dt2 = real("dtb", 0.1, 0.5);
  double d2 = derivative(tau, dt2);
  double tol = __sx_native() ? 1e-5 : 0;
  double lhs = (rate / d - 1) * dt2, rhs = (rate / d2 - 1) * dt;
  if (__sx_native()) __sx_check_tol(lhs, rhs, tol * (std::fabs(lhs) + std::fabs(rhs)) + tol, "relaxation proceeds at the rate of the equations");
  else eq(lhs, rhs, "relaxation proceeds at the rate of the equations");
}
// thermal impulse
void h_thermal() {
  Par MP;
  symParFull(MP, 0);
  MP.pINF = 0;
  MP.Tref = 0;
  VecV Q;
  for (int i = 0; i < V; i++) Q(i) = i >= 5 && i < 14 ? ((i - 5) % 4 ? 0 : 1) : real("q", i, i == 0 ? 0.2 : i == 1 ? 1 : -1, i == 1 ? 6 : 2);
  Q(1) = Q(0) * real("e", 6, 20);
  double dt = real("dt", 0.01, 0.5);
  VecV Q0 = Q;
  auto run = [&](double t) { VecV R = Q0; analyticSolver_thermal(R, t, MP); return R; };
  VecV R = run(dt);
  VecV S = VecV::Zero();
  VecV R1 = R;
  source(S, R1, MP);
  for (int i = 0; i < 3; i++) {
    auto f = [&](double t) { return run(t)(14 + i); };
    check_deriv(f, dt, S(14 + i), "the heat flux decays as the equations say");
  }
  VecV Z = run(0);
  for (int i = 0; i < V; i++) {
    if (i < 14 || i >= 17) eq(R(i), Q0(i), "heat relaxation changes nothing but the thermal impulse");
    eq(Z(i), Q0(i), "a step of length zero changes nothing");
  }
}
// ---- reactions
static double kRate;
static int nanCalls, rateCalls;
double stub_rate(VecVr Q, Par &MP) {
  rateCalls++;
  if (rateCalls <= nanCalls) return NAN;
  return kRate * Q(mV) / Q(0);
}
void h_reaction() {
  Par MP;
  symParFull(MP, 0);
  MP.REACTION = __sx_param("REACT");
  VecV Q = symState("q"), Q0;
  int fail = __sx_param("FAIL");
  nanCalls = fail < 0 ? 1000000 : fail;
  rateCalls = 0;
  kRate = real("k", 0, 8);
  double dt = real("dt", 0.1, 1);
  Q0 = Q;
  ode_stepper_numerical(Q, dt, MP);
  int n = RK_STEPS;
  if (fail) { // the steps are halved while the result is not a number
    int seen = 0;
    while (true) {
      seen += 4 * n;
      if (seen - 4 * n >= fail) break;
      n *= 2;
    }
  }
  double z = kRate * dt / n, g = 1 - z + z * z / 2 - z * z * z / 6 + z * z * z * z / 24, f = 1;
  for (int i = 0; i < n; i++) f *= g;
  for (int i = 0; i < V; i++) {
    double x = Q0(i);
    if (i == mV && MP.REACTION > -1 && Q0(mV) > 0) {
      x *= f;
      if (x < 0) x = 0;
    }
    eq(Q(i), x, "the reactant burns with fourth-order accuracy and never becomes negative");
  }
}
// classical fourth-order Runge-Kutta for an arbitrary rate
void h_rk() {
  double y0 = real("y", -2, 2), T = real("T", 0.1, 1);
  int n = __sx_param("STEPS");
  std::function<double(double)> f = [](double y) { return __sx_uf("F", 1, &y, 0); };
  double r = runge_kutta_launcher(f, T, y0, n), y = y0, h = T / n;
  for (int i = 0; i < n; i++) {
    double k1 = f(y), k2 = f(y + h / 2 * k1), k3 = f(y + h / 2 * k2), k4 = f(y + h * k3);
    y += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
  }
  eq(r, y, "classical Runge-Kutta");
}
// ---- all cells
void stub_an(VecVr Q, double dt, Par &MP) { Q(0) += dt * Q(1) * MP.ρ0; }
void stub_nu(VecVr Q, double dt, Par &MP) { Q(1) *= 1 + dt * Q(0) * MP.γ; }
void h_cells() {
  Par MP;
  symParFull(MP, 0);
  int n = __sx_param("CELLS");
  Vec u(n * V);
  reals(u.data(), n * V, "u", -2, 2);
  Vec u0 = u;
  double dt = real("dt", 0, 1);
  ode_launcher(u, dt, MP);
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) {
      double x = u0(i * V + v), r = u0(i * V) + dt * u0(i * V + 1) * MP.ρ0;
      if (v == 0) x = r;
      if (v == 1) x = u0(i * V + 1) * (1 + dt * r * MP.γ);
      eq(u(i * V + v), x, "every cell is relaxed once, first distortion and heat flux, then reactions");
    }
}
// ---- implicit integration of a stiff equation
static double sx0, sc, sdt;
static int solves;
Vec stub_solve(VecFunc F, Vecr x, double, double, double, double) {
  solves++;
  Vec y(N);
  for (int i = 0; i < N; i++) y(i) = sx0 + sc * sdt * NODES(i);
  Vec r = F(y);
  for (int i = 0; i < N; i++) {
    eq(x(i), sx0, "the iteration starts from the initial value");
    __sx_check_tol(r(i), 0, 1e-9, "the exact solution solves the discrete equations");
  }
  return y;
}
void h_stiff() {
  sx0 = real("x", -2, 2);
  sc = real("c", -2, 2);
  sdt = real("dt", 0.1, 1);
  solves = 0;
  // a rate that is constant along the solution
  std::function<double(double)> f = [](double) { return sc; };
  double r = stiff_ode_solve(sx0, sdt, f);
  __sx_check(solves == 1, "one solve");
  __sx_check_tol(r, sx0 + sc * sdt, 1e-9, "the value at the end of the step is returned");
}
}
