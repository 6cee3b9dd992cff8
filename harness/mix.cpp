// Mixtures: two phases at one pressure and temperature.
#include "common.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/energy/multi.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include <functional>

static VecV Q;
static Par MP;
static double lam, sol[3];
static void setup() {
  symParFull(MP, __sx_param("EOS"));
  symPar(MP.MP2, __sx_param("EOS2"), "second");
  MP.MULTI = true;
  MP.REACTION = __sx_param("REACT") ? 1 : -1;
  Q = symState("q", 2);
  int pure = __sx_param("PURE");
  lam = pure == 1 ? 1 : pure == 2 ? 0 : real("lambda", 0.05, 0.95);
  Q(mV) = pure == 1 ? Q(0) : lam * Q(0);
}
// below its limiting compression
static void valid(double ρ, Params &P) { if (P.EOS == SHOCK_MG) __sx_assume(P.s * (ρ - P.ρ0) < 0.95 * ρ); }
extern "C" {
static int asked;
Vec stub_root(VecFunc F, Vecr x, double, double, double, double) {
  if (asked++) {
    Vec r(2);
    r(0) = sol[0], r(1) = sol[1];
    return r;
  }
  double ρ = Q(0), e = internal_energy(Q, MP);
  double p1 = pressure_mg(ρ, e, MP), p2 = pressure_mg(ρ, e, MP.MP2);
  double p0 = lam * p1 + (1 - lam) * p2;
  eq(x(0), p0 < 0 ? 0 : p0, "the search starts from the average pressure, or zero");
  eq(x(1), ρ, "the search starts from the density of the mixture");
  Vec r(2);
  r(0) = sol[0] = real("p", 0.1, 3);
  r(1) = sol[1] = real("rho1", 0.2, 4);
  double v2 = (1 / ρ - lam / sol[1]) / (1 - lam);
  __sx_assume(v2 > 0.2 && v2 < 5);
  sol[2] = 1 / v2;
  valid(sol[1], MP);
  valid(sol[2], MP.MP2);
  Vec f = F(r);
  double e1 = E_1(sol[1], sol[0], MP), e2 = E_1(sol[2], sol[0], MP.MP2);
  eq(f(0), e - lam * e1 - (1 - lam) * e2, "solutions share the internal energy of the mixture");
  eq(f(1), temperature_mg(sol[1], sol[0], MP) - temperature_mg(sol[2], sol[0], MP.MP2), "solutions have one temperature");
  return r;
}
void h_mix() {
  setup();
  valid(Q(0), MP);
  valid(Q(0), MP.MP2);
  asked = 0;
  Vec3 s = solve_multi(Q, MP);
  if (__sx_param("PURE")) {
    Params &P = __sx_param("PURE") == 1 ? (Params &)MP : MP.MP2;
    double p = pressure_mg(Q(0), internal_energy(Q, MP), P);
    eq(s(0), p < 0 ? 0 : p, "a pure phase has its own pressure");
    eq(s(1), Q(0), "a pure phase has the density of the mixture");
    eq(s(2), Q(0), "a pure phase has the density of the mixture (absent phase)");
    __sx_check(asked == 0, "a pure phase is not solved for");
    eq(pressure(Q, MP), s(0), "the pressure is that of the phases");
    return;
  }
  for (int k = 0; k < 3; k++) eq(s(k), sol[k], "pressure and densities are the solution");
  eq(lam / s(1) + (1 - lam) / s(2), 1 / Q(0), "volumes of the phases add up");
  __sx_check(asked == 1, "mixtures are solved for once");
  eq(pressure(Q, MP), s(0), "the pressure is that of the phases");
}
Vec3 stub_phases(VecVr, Par &) { return Vec3(sol[0], sol[1], sol[2]); }
void h_mixderiv() {
  setup();
  double ρ = Q(0);
  sol[0] = real("p", 0.1, 3);
  if (__sx_param("PURE")) sol[1] = sol[2] = ρ;
  else {
    sol[1] = real("rho1", 0.2, 4);
    double v2 = (1 / ρ - lam / sol[1]) / (1 - lam);
    __sx_assume(v2 > 0.2 && v2 < 5);
    sol[2] = 1 / v2;
  }
  valid(sol[1], MP);
  valid(sol[2], MP.MP2);
  double p = sol[0], e[2], ep[2], T[2], Tp[2], er[2], Tr[2];
  for (int k = 0; k < 2; k++) {
    Params &P = k ? MP.MP2 : (Params &)MP;
    er[k] = dedρ(sol[k + 1], p, P);
    ep[k] = dedp(sol[k + 1], P);
    Tr[k] = dTdρ(sol[k + 1], p, P);
    Tp[k] = dTdp(sol[k + 1], P);
  }
  double a1 = lam / (sol[1] * sol[1]), a2 = (1 - lam) / (sol[2] * sol[2]);
  double det = a1 * Tr[1] + a2 * Tr[0];
  __sx_assume(det > 0.01 || det < -0.01);
  // a1 dρ1 + a2 dρ2 = 1/ρ², Tr1 dρ1 = Tr2 dρ2
  double r1 = Tr[1] / (ρ * ρ), r2 = Tr[0] / (ρ * ρ);
  Mat3_3Map A = get_A(Q);
  double shear = dC_0dρ(ρ, MP) / 4 * devGsq(A);
  eq((dEdρ(Q, MP) - shear) * det, lam * er[0] * r1 + (1 - lam) * er[1] * r2, "energy over density at fixed pressure: the phases keep one temperature and their volumes add up");
  // a1 dρ1 + a2 dρ2 = 0, Tr1 dρ1 + Tp1 = Tr2 dρ2 + Tp2
  double s1 = a2 * (Tp[1] - Tp[0]), s2 = -a1 * (Tp[1] - Tp[0]);
  eq(dEdp(Q, MP) * det, lam * (ep[0] * det + er[0] * s1) + (1 - lam) * (ep[1] * det + er[1] * s2), "energy over pressure at fixed density: the phases keep one temperature and their volumes add up");
}
}
