// Equations of state: round trips, reference curves, derivatives.
#include "common.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include "src/system/waves/speeds.h"

static Par par() {
  Par MP;
  symParFull(MP, __sx_param("EOS"));
  return MP;
}
// shock Mie-Grueneisen is only meaningful below its limiting compression
static double density(Par &MP) {
  double ρ = real("rho", 0.3, 4);
  if (MP.EOS == SHOCK_MG) __sx_assume(MP.s * (ρ - MP.ρ0) < 0.95 * ρ);
  return ρ;
}
extern "C" {
void h_roundtrip() {
  Par MP = par();
  double ρ = density(MP), e = real("e", -3, 5), p = real("p", -3, 5);
  double p1 = pressure_mg(ρ, e, MP);
  eq(E_1(ρ, p1, MP), e, "energy of the pressure of (density, energy) is the energy");
  double e1 = E_1(ρ, p, MP);
  eq(pressure_mg(ρ, e1, MP), p, "pressure of the energy of (density, pressure) is the pressure");
}
void h_refcurve() {
  Par MP = par();
  double ρ = density(MP);
  double pr = p_ref(ρ, MP), er = e_ref(ρ, MP);
  eq(pressure_mg(ρ, er, MP), pr, "the reference energy has the reference pressure");
  eq(E_1(ρ, pr, MP), er, "the reference pressure has the reference energy");
}
// pressure rises with energy at rate rho * Gamma > 0; temperature at rate 1/cv
void h_rates() {
  Par MP = par();
  double ρ = density(MP), e = real("e", -3, 5);
  check_deriv([&](double x) { return pressure_mg(ρ, x, MP); }, e, ρ * Γ_MG(ρ, MP), "dp/de = rho Gamma");
  __sx_check(Γ_MG(ρ, MP) > 0, "the Grueneisen coefficient is positive");
  check_deriv([&](double x) { return temperature_mg(ρ, pressure_mg(ρ, x, MP), MP); }, e, 1 / MP.cv, "dT/de = 1/cv");
}
void h_refderiv() {
  Par MP = par();
  double ρ = density(MP);
  check_deriv([&](double x) { return p_ref(x, MP); }, ρ, dp_ref(ρ, MP), "derivative of the reference pressure");
  check_deriv([&](double x) { return e_ref(x, MP); }, ρ, de_ref(ρ, MP), "derivative of the reference energy");
  check_deriv([&](double x) { return Γ_MG(x, MP); }, ρ, dΓ_MG(ρ, MP), "derivative of the Grueneisen coefficient");
}
void h_ederiv() {
  Par MP = par();
  double ρ = density(MP), p = real("p", -3, 5);
  check_deriv([&](double x) { return E_1(x, p, MP); }, ρ, dedρ(ρ, p, MP), "de/drho at fixed pressure");
  check_deriv([&](double x) { return E_1(ρ, x, MP); }, p, dedp(ρ, MP), "de/dp at fixed density");
}
void h_tderiv() {
  Par MP = par();
  double ρ = density(MP), p = real("p", -3, 5);
  check_deriv([&](double x) { return temperature_mg(x, p, MP); }, ρ, dTdρ(ρ, p, MP), "dT/drho at fixed pressure");
  check_deriv([&](double x) { return temperature_mg(ρ, x, MP); }, p, dTdp(ρ, MP), "dT/dp at fixed density");
  check_deriv([&](double x) { return φ(x, MP); }, ρ, φ(ρ, MP) * Γ_MG(ρ, MP) / ρ, "dphi/drho = phi Gamma / rho");
}
// the two branches of the shock curve meet at the reference density, and the
// others pass through their known points
void h_refpoint() {
  Par MP = par();
  double ρ0 = MP.ρ0;
  if (MP.EOS == SHOCK_MG || MP.EOS == GODUNOV_ROMENSKI) {
    eq(p_ref(ρ0, MP), 0, "no reference pressure at the reference density");
    eq(e_ref(ρ0, MP), 0, "no reference energy at the reference density");
    eq(dp_ref(ρ0, MP), MP.c02, "the bulk sound speed is the slope at the reference density");
    eq(de_ref(ρ0, MP), 0, "the reference energy is stationary at the reference density");
  }
  if (MP.EOS == SHOCK_MG) {
    double δ = real("delta", 1e-7, 1e-6);
    __sx_check_tol(p_ref(ρ0 + δ, MP), p_ref(ρ0, MP), 1e-5, "the reference pressure is continuous");
    __sx_check_tol(e_ref(ρ0 + δ, MP), e_ref(ρ0, MP), 1e-5, "the reference energy is continuous");
    __sx_check_tol(dp_ref(ρ0 + δ, MP), MP.c02, 1e-3, "the slope of the reference pressure is continuous");
    __sx_check_tol(de_ref(ρ0 + δ, MP), 0, 1e-3, "the slope of the reference energy is continuous");
  }
  eq(φ(ρ0, MP), 1, "the integrating factor is one at the reference density");
  eq(temperature_mg(ρ0, p_ref(ρ0, MP), MP), MP.Tref, "the reference state has the reference temperature");
}
void h_unknown() {
  // every other code is rejected, whichever quantity is asked for
  Par MP = par();
  MP.EOS = __sx_fork(__sx_int("code", -3, 9));
  __sx_assume(MP.EOS < 0 || MP.EOS > 4);
  double ρ = real("rho", 0.3, 4), p = real("p", 0, 3);
  int k = __sx_fork(__sx_int("which", 0, 9));
  bool threw = false;
  try {
    switch (k) {
    case 0: pressure_mg(ρ, p, MP); break;
    case 1: E_1(ρ, p, MP); break;
    case 2: temperature_mg(ρ, p, MP); break;
    case 3: dedρ(ρ, p, MP); break;
    case 4: dedp(ρ, MP); break;
    case 5: dTdρ(ρ, p, MP); break;
    case 6: dTdp(ρ, MP); break;
    case 7: p_ref(ρ, MP); break;
    case 8: e_ref(ρ, MP); break;
    case 9: dΓ_MG(ρ, MP); break;
    }
  } catch (...) {
    threw = true;
  }
  __sx_check(threw, "an unknown equation of state is rejected");
}
// ---- the shear-wave coefficients and the energy derivatives of the full state
void h_shear() {
  Par MP = par();
  double ρ = density(MP);
  check_deriv([&](double x) { return c_s2(x, MP); }, ρ, dc_s2dρ(ρ, MP), "derivative of the squared shear wave speed");
  check_deriv([&](double x) { return C_0(x, MP); }, ρ, dC_0dρ(ρ, MP), "derivative of the distortion energy coefficient");
  __sx_check(c_s2(ρ, MP) > 0, "the squared shear wave speed is positive");
  eq(c_s2(MP.ρ0, MP), MP.b02, "the shear wave speed at the reference density");
}
static VecV stateP(Par &MP, double ρ, double p, const double *v, Mat3_3 A) {
  VecV Q = VecV::Zero();
  Q(0) = ρ;
  Q(1) = ρ * (E_1(ρ, p, MP) + E_2A(ρ, A, MP) + (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / 2);
  for (int i = 0; i < 3; i++) Q(2 + i) = ρ * v[i];
  for (int i = 0; i < 9; i++) Q(5 + i) = A(i / 3, i % 3);
  return Q;
}
void h_Ederiv() {
  Par MP = par();
  double ρ = density(MP), p = real("p", -1, 5), v[3];
  reals(v, 3, "v", -2, 2);
  Mat3_3 A;
  reals(A.data(), 9, "A", -2, 2);
  VecV Q = stateP(MP, ρ, p, v, A);
  eq(pressure(Q, MP), p, "pressure of the assembled state");
  check_deriv([&](double x) { return E_1(x, p, MP) + E_2A(x, A, MP); }, ρ, dEdρ(Q, MP), "dE/drho at fixed p and A");
  check_deriv([&](double x) { return E_1(ρ, x, MP) + E_2A(ρ, A, MP); }, p, dEdp(Q, MP), "dE/dp at fixed rho and A");
  Mat3_3 D = dEdA(Q, MP), Ds = dEdA_s(Q, MP);
  for (int i = 0; i < 9; i++) {
    double a = A.data()[i];
    auto F = [&](double x) {
      Mat3_3 B = A;
      B.data()[i] = x;
      return E_2A(ρ, B, MP);
    };
    check_deriv(F, a, D.data()[i], "dE/dA at fixed rho and p");
    auto G = [&](double x) {
      Mat3_3 B = A;
      B.data()[i] = x;
      return c_s2(ρ, MP) / 4 * devGsq(B);
    };
    check_deriv(G, a, Ds.data()[i], "dE/dA at fixed entropy");
  }
}
void h_c0() {
  Par MP = par();
  double ρ = density(MP), p = real("p", -1, 5), v[3] = {0, 0, 0};
  Mat3_3 A;
  reals(A.data(), 9, "A", -1.5, 1.5);
  VecV Q = stateP(MP, ρ, p, v, A);
  double dEρ = derivative([&](double x) { return E_1(x, p, MP) + E_2A(x, A, MP); }, ρ);
  double dEp = derivative([&](double x) { return E_1(ρ, x, MP) + E_2A(ρ, A, MP); }, p);
  double c2 = (p / (ρ * ρ) - dEρ) / dEp; // dp/drho at fixed entropy
  __sx_assume(c2 > 1e-2);
  double c = c_0(Q, MP);
  if (__sx_native()) __sx_check_tol(c * c, c2, 1e-4 * (1 + c2), "c0^2 is the isentropic dp/drho");
  else eq(c * c, c2, "c0^2 is the isentropic dp/drho");
  __sx_check(c >= 0, "the sound speed is not negative");
}
// classical closed form for the stiffened gas
void h_c0_sg() {
  Par MP = par();
  MP.EOS = STIFFENED_GAS;
  double ρ = real("rho", 0.3, 4), p = real("p", 0.1, 5), v[3] = {0, 0, 0};
  VecV Q = stateP(MP, ρ, p, v, Mat3_3::Identity() * real("iso", 0.3, 2));
  double c = c_0(Q, MP);
  eq(c * c, MP.γ * (p + MP.pINF) / ρ, "c0^2 = gamma (p + pinf) / rho for the stiffened gas");
}
void h_ch() {
  Par MP = par();
  double ρ = density(MP), T = real("T", 0.1, 5);
  double c = c_h(ρ, T, MP);
  eq(c * c, MP.cα2 * T / (MP.cv * ρ * ρ), "square of the heat wave speed");
}
}
