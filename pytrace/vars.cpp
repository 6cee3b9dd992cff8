// The Python reference implementation (the py_ functions above, traced from it) against the compiled solver.
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/equations.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include "src/system/waves/speeds.h"

double nondimensionalized_time(double ρ, double detA3, double m0, double u0, double dt, Par &MP);
static Par MP;
static double in[40], out[200];
static double ρ, p;
static Mat3_3 A;
static Vec3 J, v;
static double lam;
static int eos_;
static const int X = V - LSET; // entries of the state without level sets
// a state with the quantities Python is given
static VecV stateOf(bool conserved) {
  VecV P;
  for (int i = 0; i < V; i++) P(i) = 0;
  P(0) = ρ, P(1) = p;
  for (int i = 0; i < 3; i++) P(2 + i) = v(i);
  for (int i = 0; i < 9; i++) P(5 + i) = A(i / 3, i % 3);
  if (THERMAL) for (int i = 0; i < 3; i++) P(14 + i) = J(i);
  if (MULTI) P(mV) = lam;
  if (!conserved) return P;
  VecV Q = P;
  double E = THERMAL ? (MULTI ? total_energy(ρ, p, A, J, v, lam, MP) : total_energy(ρ, p, A, J, v, MP)) : (MULTI ? total_energy(ρ, p, A, v, lam, MP) : total_energy(ρ, p, A, v, MP));
  Q(1) = ρ * E;
  for (int i = 0; i < 3; i++) Q(2 + i) = ρ * v(i);
  if (THERMAL) for (int i = 0; i < 3; i++) Q(14 + i) = ρ * J(i);
  if (MULTI) Q(mV) = ρ * lam;
  return Q;
}
static void setup() {
  eos_ = __sx_param("EOS");
  symParFull(MP, eos_);
  MP.REACTION = MULTI ? 0 : -1;
  ρ = real("rho", 0.3, 4), p = real("p", 0.1, 5), lam = real("lambda", 0.05, 0.95);
  if (eos_ == SHOCK_MG) __sx_assume(MP.s * (ρ - MP.ρ0) < 0.95 * ρ);
  for (int i = 0; i < 9; i++) A(i / 3, i % 3) = real("A", i, -2, 2);
  for (int i = 0; i < 3; i++) J(i) = real("J", i, -2, 2), v(i) = real("v", i, -2, 2);
  for (int i = 0; i < 200; i++) out[i] = -12345;
}
// the arguments, in the order of the traced function
static void put(const char *k, double a = 0, double b = 0) {
  int n = 0;
  for (; *k; k++) {
    if (*k == 'r') in[n++] = ρ;
    if (*k == 'p') in[n++] = p;
    if (*k == 'a') in[n++] = a;
    if (*k == 'b') in[n++] = b;
    if (*k == 'l') in[n++] = lam;
    if (*k == 'A') for (int i = 0; i < 9; i++) in[n++] = A(i / 3, i % 3);
    if (*k == 'J') for (int i = 0; i < 3; i++) in[n++] = J(i);
    if (*k == 'v') for (int i = 0; i < 3; i++) in[n++] = v(i);
  }
}
static int at;
static void is(double x, const char *m) { eq(out[at++], x, m); }
extern "C" {
void h_mg() {
  setup();
  put("rp");
  py_mg(eos_, in, MP, out);
  is(Γ_MG(ρ, MP), "Grueneisen coefficient");
  is(p_ref(ρ, MP), "reference pressure");
  is(e_ref(ρ, MP), "reference energy");
  is(E_1(ρ, p, MP), "internal energy");
  is(pressure_mg(ρ, p, MP), "pressure");
  is(temperature_mg(ρ, p, MP), "temperature");
  is(φ(ρ, MP), "integrating factor");
}
void h_dmg() {
  setup();
  put("rp");
  py_dmg(eos_, in, MP, out);
  is(dΓ_MG(ρ, MP), "derivative of the Grueneisen coefficient");
  is(dp_ref(ρ, MP), "derivative of the reference pressure");
  is(de_ref(ρ, MP), "derivative of the reference energy");
  is(dedρ(ρ, p, MP), "derivative of the internal energy by density");
  is(dedp(ρ, MP), "derivative of the internal energy by pressure");
  is(dTdρ(ρ, p, MP), "derivative of the temperature by density");
  is(dTdp(ρ, MP), "derivative of the temperature by pressure");
}
void h_pyshear() {
  setup();
  put("r");
  py_shear(eos_, in, MP, out);
  is(c_s2(ρ, MP), "shear speed squared");
  is(dc_s2dρ(ρ, MP), "derivative of the shear speed squared");
  is(C_0(ρ, MP), "coefficient of the shear energy");
  is(dC_0dρ(ρ, MP), "derivative of the coefficient of the shear energy");
}
void h_energy() {
  setup();
  put("rpAJlv");
  py_energy(0, in, MP, out);
  int k = (THERMAL ? 1 : 0) + (MULTI ? 2 : 0);
  eq(out[k] * ρ, stateOf(true)(1), "total energy");
}
// the vector of conserved variables: what the compiled solver reads back is what was put in
void h_cvec() {
  setup();
  put("rpAJlv");
  py_cvec(0, in, MP, out);
  int k = (THERMAL ? 1 : 0) + (MULTI ? 2 : 0), off = 0, len[] = {14, 17, 15, 18};
  for (int i = 0; i < k; i++) off += len[i];
  VecV Q;
  for (int i = 0; i < V; i++) Q(i) = i < X ? out[off + i] : 0;
  __sx_check(len[k] == X, "the vector has the entries of the state");
  eq(pressure(Q, MP), p, "the compiled solver finds the pressure that was given");
  VecV R = stateOf(true);
  for (int i = 0; i < X; i++) eq(Q(i), R(i), "conserved variables are those of the quantities given");
}
void h_pypressure() {
  setup();
  VecV Q = stateOf(true);
  Q(1) = ρ * p; // an arbitrary energy
  put("rpAJlv");
  py_pressure(0, in, MP, out);
  int k = (THERMAL ? 1 : 0) + (MULTI ? 2 : 0);
  eq(out[k], pressure(Q, MP), "pressure of a state");
}
void h_stress() {
  setup();
  VecV Q = stateOf(true);
  put("rpA");
  py_stress(0, in, MP, out);
  Mat3_3 s = sigma(Q, MP);
  for (int k = 0; k < 9; k++) is(s(k / 3, k % 3), "viscous stress");
  for (int k = 0; k < 9; k++) is(dsigmadρ(Q, MP, k / 3)(k % 3), "derivative of the viscous stress by density");
  for (int k = 0; k < 9; k++) is(Sigma(Q, MP, k / 3)(k % 3), "total stress");
}
void h_dstress() {
  setup();
  VecV Q = stateOf(true);
  put("rA");
  py_dstress(0, in, MP, out);
  Mat3_3 G = A.transpose() * A, D = AdevG(A);
  double c = c_s2(ρ, MP);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      for (int m = 0; m < 3; m++)
        for (int n = 0; n < 3; n++) is(dsigmadA(ρ, c, A, G, D, i, j, m, n), "derivative of the viscous stress by the distortion");
  for (int d = 0; d < 3; d++) {
    Mat3_3 x = dsigmadA(Q, MP, d);
    for (int k = 0; k < 9; k++) is(x(k / 3, k % 3), "derivative of a stress vector by its column of the distortion");
  }
}
void h_deriv() {
  setup();
  VecV Q = stateOf(true);
  put("rpAJ");
  py_deriv(0, in, MP, out);
  is(dEdρ(Q, MP), "derivative of the energy by density");
  is(dEdp(Q, MP), "derivative of the energy by pressure");
  Mat3_3 a = dEdA(Q, MP), b = dEdA_s(Q, MP);
  for (int k = 0; k < 9; k++) is(a(k / 3, k % 3), "derivative of the energy by the distortion");
  for (int k = 0; k < 9; k++) is(b(k / 3, k % 3), "derivative of the energy by the distortion at fixed entropy");
  if (THERMAL) {
    Vec3 h = dEdJ(Q, MP);
    for (int k = 0; k < 3; k++) is(h(k), "derivative of the energy by the thermal impulse");
  }
}
void h_heat() {
  setup();
  VecV Q = stateOf(true);
  double T = temperature(Q, MP);
  __sx_assume(T > 0.05);
  put("aJr", T);
  py_heat(0, in, MP, out);
  Vec3 q = heat_flux(T, J, MP);
  for (int k = 0; k < 3; k++) is(q(k), "heat flux");
  is(theta2inv(Q, MP), "relaxation rate of the thermal impulse");
  is(c_h(ρ, T, MP), "speed of heat waves");
}
void h_c0() {
  setup();
  VecV Q = stateOf(true);
  put("rpA");
  double s = (p / (ρ * ρ) - dEdρ(Q, MP)) / dEdp(Q, MP);
  __sx_assume(s > 0.01);
  py_c0(0, in, MP, out);
  is(c_0(Q, MP), "speed of sound");
}
void h_theta1() {
  setup();
  int k = __sx_param("KIND");
  MP.SOLID = k == 1 || k == 2;
  MP.POWER_LAW = k == 2 || k == 4;
  MP.BINGHAM = false;
  if (!MP.POWER_LAW) MP.n = 1;
  for (int i = 0; i < 9; i++) if (i % 4 == 0) A(i / 3, i % 3) = real("B", i, 0.5, 2); else A(i / 3, i % 3) = real("B", i, -0.1, 0.1);
  VecV Q = stateOf(true);
  put("rA");
  py_theta1(k, in, MP, out);
  is(theta1inv(Q, MP), "relaxation rate of the distortion");
}
static double temp;
double stub_temperature(VecVr, Par &) { return temp; }
double stub_pressure(VecVr, Par &) { return temp; }
void h_react() {
  setup();
  VecV Q = stateOf(true);
  temp = real("T", 0.1, 3);
  put("rla", temp);
  py_react(0, in, MP, out);
  MP.REACTION = 0;
  is(reaction_rate(Q, MP), "reaction rate (ignition temperature)");
  MP.REACTION = 1;
  is(reaction_rate(Q, MP), "reaction rate (Arrhenius)");
}
void h_ignite() {
  setup();
  VecV Q = stateOf(true);
  temp = real("press", 0.1, 3);
  __sx_assume(ρ > 1.1 * MP.ρ0 * (1 + MP.a)); // compressed beyond the ignition limit
  put("rla", temp);
  py_ignite(0, in, MP, out);
  MP.REACTION = 2;
  is(reaction_rate(Q, MP), "reaction rate (ignition and growth)");
}
void h_force() {
  setup();
  put("r");
  py_force(0, in, MP, out);
  Vec3 f;
  f_body(f, MP);
  for (int k = 0; k < 3; k++) is(f(k), "body force");
}
// the pace of relaxing the distortion
void h_pace() {
  setup();
  int k = __sx_param("KIND");
  MP.SOLID = k == 1 || k == 2;
  MP.POWER_LAW = k == 2 || k == 4;
  double d = real("d", 0.5, 2), m0 = real("m0", 1, 3), u0 = real("u0", 0.01, 4), dt = real("dt", 0.01, 1);
  double x[] = {ρ, d, m0, u0, dt};
  for (int i = 0; i < 5; i++) in[i] = x[i];
  if (MP.POWER_LAW) {
    double a = 9 * m0 - u0 - 9, b = 6 * m0 - u0 - 6, q = MP.SOLID ? 1 : 0;
    double c = 108 * a - 324 * b + (q ? 108 : 180) * a * a - (q ? 396 : 612) * a * b + (q ? 297 : 459) * b * b - 24 * (a * a * b - 2 * a * b * b + b * b * b) - 4 * (a - b) * (a - b) * (a - b) * (a - b);
    if (__sx_param("STILL")) __sx_assume(c < -0.001);
    else __sx_assume(c > 0.001);
  }
  py_time(k, in, MP, out);
  is(nondimensionalized_time(ρ, d, m0, u0, dt, MP), "pace of relaxation");
}
void h_pythermal() {
  setup();
  if (!THERMAL) return;
  double e = real("e", 6, 20), dt = real("dt", 0.01, 0.5);
  VecV Q = stateOf(true);
  Q(1) = ρ * e;
  put("raAJvb", e, dt);
  double c = e - E_2A(ρ, A, MP) - E_3(v);
  __sx_assume(c > 0.1);
  py_thermal(0, in, MP, out);
  analyticSolver_thermal(Q, dt, MP);
  for (int i = 0; i < 3; i++) is(Q(14 + i) / ρ, "relaxed thermal impulse");
}
// the fields of a state
void h_fields() {
  setup();
  VecV Q = stateOf(true);
  Q(1) = ρ * p; // an arbitrary energy
  double P = pressure(Q, MP), T = temperature(Q, MP);
  __sx_assume(T > 0.05);
  in[0] = T, in[1] = P;
  for (int i = 0; i < X; i++) in[2 + i] = Q(i);
  int k = (THERMAL ? 1 : 0) + (MULTI ? 2 : 0);
  if (k == 0) py_state_0(in, MP, out);
  if (k == 1) py_state_1(in, MP, out);
  if (k == 2) py_state_2(in, MP, out);
  if (k == 3) py_state_3(in, MP, out);
  auto mat = [&](const Mat3_3 &m, const char *t) { for (int i = 0; i < 9; i++) is(m(i / 3, i % 3), t); };
  is(ρ, "density of a state");
  is(p, "energy of a state");
  for (int i = 0; i < 3; i++) is(v(i), "velocity of a state");
  mat(A, "distortion of a state");
  is(P, "pressure of a state");
  is(T, "temperature of a state");
  mat(sigma(Q, MP), "viscous stress of a state");
  for (int i = 0; i < 9; i++) is(dsigmadρ(Q, MP, i / 3)(i % 3), "derivative of the stress of a state by density");
  for (int i = 0; i < 9; i++) is(Sigma(Q, MP, i / 3)(i % 3), "total stress of a state");
  is(dEdρ(Q, MP), "derivative of the energy of a state by density");
  is(dEdp(Q, MP), "derivative of the energy of a state by pressure");
  mat(dEdA(Q, MP), "derivative of the energy of a state by distortion");
  mat(dEdA_s(Q, MP), "derivative of the energy of a state by distortion at fixed entropy");
  is(dTdρ(ρ, P, MP), "derivative of the temperature of a state by density");
  is(dTdp(ρ, MP), "derivative of the temperature of a state by pressure");
  Vec3 f;
  f_body(f, MP);
  for (int i = 0; i < 3; i++) is(f(i), "body force on a state");
  Mat3_3 G = A.transpose() * A;
  mat(G, "metric of a state");
  if (THERMAL) {
    for (int i = 0; i < 3; i++) is(J(i), "thermal impulse of a state");
    Vec3 q = heat_flux(T, J, MP), h = dEdJ(Q, MP);
    for (int i = 0; i < 3; i++) is(q(i), "heat flux of a state");
    for (int i = 0; i < 3; i++) is(h(i), "derivative of the energy of a state by thermal impulse");
    is(theta2inv(Q, MP), "relaxation rate of the thermal impulse of a state");
  } else
    at += 10;
  if (MULTI) is(lam, "concentration of a state");
}
void h_rates() {
  setup();
  VecV Q = stateOf(true);
  temp = real("TP", 0.1, 3);
  in[0] = in[1] = temp;
  for (int i = 0; i < 18; i++) in[2 + i] = i < X ? Q(i) : 0;
  int k = __sx_param("KIND");
  MP.REACTION = k;
  if (k == 2) __sx_assume(ρ > 1.1 * MP.ρ0 * (1 + MP.a));
  for (int i = X - 1; i < 18; i++) in[2 + i] = i == 17 || i == X - 1 ? Q(mV) : 0;
  if (k == 0) py_rate_0(in, MP, out);
  if (k == 1) py_rate_1(in, MP, out);
  if (k == 2) py_rate_2(in, MP, out);
  is(reaction_rate(Q, MP), "reaction rate of a state");
}
void h_index() {
  VecV Q;
  for (int i = 0; i < V; i++) Q(i) = real("q", i, -2, 2);
  for (int i = 0; i < 14; i++) in[i] = 0;
  for (int i = 0; i < LSET; i++) in[14 + i] = Q(V - LSET + i);
  for (int i = 0; i < 200; i++) out[i] = -12345;
  if (LSET == 0) py_index_1(in, MP, out);
  if (LSET == 1) py_index_2(in, MP, out);
  if (LSET == 2) py_index_3(in, MP, out);
  __sx_check(out[0] == get_material_index(Q), "material of a cell");
}
}
