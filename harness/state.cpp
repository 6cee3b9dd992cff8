// Conserved/primitive conversions, invariances of the state functions, stress.
#include "common.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"

static Par par() {
  Par MP;
  symParFull(MP, __sx_param("EOS"));
  if (__sx_param("REACT")) MP.REACTION = 1;
  return MP;
}
static double density(Par &MP, double ρ) {
  if (MP.EOS == SHOCK_MG) __sx_assume(MP.s * (ρ - MP.ρ0) < 0.95 * ρ);
  return ρ;
}
// the energy of a primitive state, from its definition
static double energy(const VecV &P, Par &MP) {
  double ρ = P(0), E = E_1(ρ, P(1), MP);
  E += (P(2) * P(2) + P(3) * P(3) + P(4) * P(4)) / 2;
  double g[3][3], t = 0, s = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      g[i][j] = 0;
      for (int k = 0; k < 3; k++) g[i][j] += P(5 + 3 * k + i) * P(5 + 3 * k + j);
    }
  t = (g[0][0] + g[1][1] + g[2][2]) / 3;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = g[i][j] - (i == j ? t : 0);
      s += x * x;
    }
  E += C_0(ρ, MP) / 4 * s;
  if (THERMAL) E += MP.cα2 * (P(14) * P(14) + P(15) * P(15) + P(16) * P(16)) / 2;
  if (MULTI) E += MP.Qc * (P(mV) - 1);
  return E;
}
static VecV prim(Par &MP) {
  VecV P = symState("P", 2);
  density(MP, P(0));
  return P;
}
extern "C" {
// primitive -> conserved is the definition, and conserved -> primitive undoes it
void h_convert() {
  Par MP = par();
  VecV P = prim(MP), Q = P;
  Cvec(Q, MP);
  eq(Q(0), P(0), "the density is unchanged");
  eq(Q(1), P(0) * energy(P, MP), "energy density of a primitive state");
  for (int i = 0; i < 3; i++) eq(Q(2 + i), P(0) * P(2 + i), "momentum is density times velocity");
  for (int i = 0; i < 9; i++) eq(Q(5 + i), P(5 + i), "the distortion is unchanged");
  if (THERMAL)
    for (int i = 14; i < 17; i++) eq(Q(i), P(0) * P(i), "thermal impulse density");
  if (MULTI) eq(Q(mV), P(0) * P(mV), "density of the concentration");
  for (int i = V - LSET; i < V; i++) eq(Q(i), P(i), "level sets are unchanged");
  VecV R = Q;
  Pvec(R, MP);
  eqn(R.data(), P.data(), V, "primitive variables of the conserved variables");
}
void h_convert2() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  density(MP, Q(0));
  VecV P = Q;
  Pvec(P, MP);
  eq(P(1), pressure(Q, MP), "the second primitive variable is the pressure");
  Cvec(P, MP);
  eqn(P.data(), Q.data(), V, "conserved variables of the primitive variables");
}
// the ordering used by the Riemann solver
void h_reorder() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  density(MP, Q(0));
  VecV P = Q;
  Pvec(P, MP);
  VecV R = Cvec_to_Pvec(Q, MP);
  eq(R(0), P(0), "reordered density");
  eq(R(1), P(1), "reordered pressure");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) eq(R(2 + 3 * j + i), P(5 + 3 * i + j), "reordered distortion, column by column");
  for (int i = 0; i < 3; i++) eq(R(11 + i), P(2 + i), "reordered velocity");
  for (int i = 14; i < V; i++) eq(R(i), P(i), "reordered remaining variables");
  VecV Q2 = Pvec_to_Cvec(R, MP);
  eqn(Q2.data(), Q.data(), V, "the reordered conversion is undone");
}
// pressure, temperature and stress do not see a uniform motion
void h_galilean() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  density(MP, Q(0));
  double w[3];
  reals(w, 3, "w", -2, 2);
  VecV B = Q;
  for (int i = 0; i < 3; i++) {
    B(2 + i) += Q(0) * w[i];
    B(1) += Q(2 + i) * w[i] + Q(0) * w[i] * w[i] / 2;
  }
  eq(pressure(B, MP), pressure(Q, MP), "the pressure of a boosted state");
  eq(internal_energy(B, MP), internal_energy(Q, MP), "the internal energy of a boosted state");
  if (!MP.MULTI) eq(temperature(B, MP), temperature(Q, MP), "the temperature of a boosted state");
}
// components of the energy
void h_energy() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  double ρ = density(MP, Q(0));
  Mat3_3 A = get_A(Q);
  Vec3 v = get_ρv(Q) / ρ;
  double e = Q(1) / ρ - E_2A(ρ, A, MP) - E_3(v);
  if (THERMAL) {
    Vec3 J = get_ρJ(Q) / ρ;
    e -= E_2J(J, MP);
    Vec3 H = dEdJ(Q, MP);
    for (int i = 0; i < 3; i++) eq(H(i), MP.cα2 * J(i), "dE/dJ");
    eq(E_2J(J, MP), MP.cα2 / 2 * (J(0) * J(0) + J(1) * J(1) + J(2) * J(2)), "thermal energy");
    Vec3 q = heat_flux(2, J, MP);
    for (int i = 0; i < 3; i++) eq(q(i), MP.cα2 * 2 * J(i), "heat flux");
  }
  if (MP.REACTION > -1) e -= MP.Qc * (Q(mV) / ρ - 1);
  eq(internal_energy(Q, MP), e, "internal energy is what the other energies leave");
  eq(pressure(Q, MP), pressure_mg(ρ, e, MP), "the pressure comes from the internal energy");
  eq(temperature(Q, MP), temperature_mg(ρ, pressure(Q, MP), MP), "the temperature comes from density and pressure");
  __sx_check(E_3(v) >= 0, "kinetic energy is not negative");
}
// -------------------------------------------------------------- stress
void h_stress() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  double ρ = Q(0);
  Mat3_3 S = sigma(Q, MP), A = get_A(Q);
  double cs2 = c_s2(ρ, MP);
  double G[3][3], t = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      G[i][j] = 0;
      for (int k = 0; k < 3; k++) G[i][j] += A(k, i) * A(k, j);
    }
  t = (G[0][0] + G[1][1] + G[2][2]) / 3;
  double p = pressure(Q, MP);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      eq(S(i, j), S(j, i), "the stress is symmetric");
      double x = 0;
      for (int k = 0; k < 3; k++) x += G[i][k] * (G[k][j] - (k == j ? t : 0));
      eq(S(i, j), -ρ * cs2 * x, "the stress is -rho cs^2 G dev G");
      Vec3 c = sigma(Q, MP, j);
      eq(c(i), S(i, j), "the stress column is a column of the stress");
      Vec3 Σ = Sigma(Q, MP, j);
      eq(Σ(i), (i == j ? p : 0) - S(i, j), "total stress is pressure minus stress");
    }
}
void h_stress_zero() {
  // a rotated, uniformly compressed material carries no shear stress
  Par MP = par();
  VecV Q = symState("Q", 2);
  double a = real("a", 0.2, 2), c = real("c", -1, 1), s = real("s", -1, 1);
  (void)s;
  double t = c, C = (1 - t * t) / (1 + t * t), D = 2 * t / (1 + t * t);
  int k = __sx_param("AX");
  Mat3_3 R = Mat3_3::Zero();
  int i = (k + 1) % 3, j = (k + 2) % 3;
  R(k, k) = a;
  R(i, i) = a * C;
  R(j, j) = a * C;
  R(i, j) = -a * D;
  R(j, i) = a * D;
  for (int m = 0; m < 9; m++) Q(5 + m) = R(m / 3, m % 3);
  Mat3_3 S = sigma(Q, MP);
  for (int m = 0; m < 9; m++) eq(S(m / 3, m % 3), 0, "no shear stress in a rotated, uniformly compressed material");
  eq(devGsq(R), 0, "no distortion energy in a rotated, uniformly compressed material");
  eq(sigma_norm(S), 0, "no equivalent stress");
}
// plane rotation by an arbitrary angle about one axis, applied on either side of A
static Mat3_3 planeRotation(int k) {
  double t = real("t", -3, 3), C = (1 - t * t) / (1 + t * t), D = 2 * t / (1 + t * t);
  Mat3_3 R = Mat3_3::Zero();
  int i = (k + 1) % 3, j = (k + 2) % 3;
  R(k, k) = 1;
  R(i, i) = C;
  R(j, j) = C;
  R(i, j) = -D;
  R(j, i) = D;
  return R;
}
void h_frame_left() {
  // the reference orientation of the material is irrelevant
  Par MP = par();
  VecV Q = symState("Q", 2);
  Mat3_3 R = planeRotation(__sx_param("AX")), A = get_A(Q);
  VecV B = Q;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = 0;
      for (int k = 0; k < 3; k++) x += R(i, k) * A(k, j);
      B(5 + 3 * i + j) = x;
    }
  Mat3_3 S = sigma(Q, MP), T = sigma(B, MP);
  for (int i = 0; i < 9; i++) eq(T(i / 3, i % 3), S(i / 3, i % 3), "stress of a re-oriented reference configuration");
  eq(devGsq(get_A(B)), devGsq(get_A(Q)), "distortion energy of a re-oriented reference configuration");
}
void h_frame_right() {
  // rotating the material rotates its stress
  Par MP = par();
  VecV Q = symState("Q", 2);
  Mat3_3 R = planeRotation(__sx_param("AX")), A = get_A(Q);
  VecV B = Q;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = 0;
      for (int k = 0; k < 3; k++) x += A(i, k) * R(j, k);
      B(5 + 3 * i + j) = x;
    }
  Mat3_3 S = sigma(Q, MP), T = sigma(B, MP);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = 0;
      for (int k = 0; k < 3; k++)
        for (int l = 0; l < 3; l++) x += R(i, k) * S(k, l) * R(j, l);
      eq(T(i, j), x, "stress of a rotated material");
    }
  eq(devGsq(get_A(B)), devGsq(get_A(Q)), "distortion energy of a rotated material");
}
void h_dstress() {
  Par MP = par();
  VecV Q = symState("Q", 2);
  double ρ = Q(0);
  Mat3_3 A = get_A(Q), G = A.transpose() * A, ADG = AdevG(A);
  double cs2 = c_s2(ρ, MP);
  for (int d = 0; d < 3; d++) {
    Vec3 dr = dsigmadρ(Q, MP, d);
    Mat3_3 dA = dsigmadA(Q, MP, d);
    for (int i = 0; i < 3; i++) {
      auto F = [&](double x) {
        VecV B = Q;
        B(0) = x;
        return sigma(B, MP, d)(i);
      };
      check_deriv(F, ρ, dr(i), "derivative of the stress with respect to density");
      for (int j = 0; j < 3; j++) {
        auto K = [&](double x) {
          VecV B = Q;
          B(5 + 3 * j + d) = x;
          return sigma(B, MP, d)(i);
        };
        check_deriv(K, Q(5 + 3 * j + d), dA(i, j), "derivative of the stress column with respect to the matching distortion column");
        for (int n = 0; n < 3; n++) {
          auto L = [&](double x) {
            VecV B = Q;
            B(5 + 3 * j + n) = x;
            return sigma(B, MP, d)(i);
          };
          check_deriv(L, Q(5 + 3 * j + n), dsigmadA(ρ, cs2, A, G, ADG, d, i, j, n), "derivative of the stress with respect to the distortion");
        }
      }
    }
  }
}
void h_signorm() {
  Mat3_3 S;
  double a = real("a", -3, 3), b = real("b", -3, 3), c = real("c", -3, 3), d = real("d", -3, 3), e = real("e", -3, 3), f = real("f", -3, 3);
  S << a, d, f, d, b, e, f, e, c;
  double n = sigma_norm(S), t = (a + b + c) / 3;
  double j2 = ((a - t) * (a - t) + (b - t) * (b - t) + (c - t) * (c - t)) / 2 + d * d + e * e + f * f;
  eq(n * n, 3 * j2, "the equivalent stress is the von Mises stress");
  __sx_check(n >= 0, "the equivalent stress is not negative");
}
void h_adevg() {
  Mat3_3 A;
  reals(A.data(), 9, "A", -3, 3);
  Mat3_3 X = AdevG(A);
  double s2 = 0, t = 0, G[3][3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      G[i][j] = 0;
      for (int k = 0; k < 3; k++) G[i][j] += A(k, i) * A(k, j);
    }
  t = (G[0][0] + G[1][1] + G[2][2]) / 3;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = 0;
      for (int k = 0; k < 3; k++) x += A(i, k) * (G[k][j] - (k == j ? t : 0));
      eq(X(i, j), x, "A dev(A^T A)");
      double y = G[i][j] - (i == j ? t : 0);
      s2 += y * y;
    }
  eq(devGsq(A), s2, "|dev(A^T A)|^2");
}
void h_lset() {
  // the material of a cell is the number of level sets that are not negative
  VecV Q = symState("Q", 3);
  int k = get_material_index(Q), n = 0;
  for (int i = V - LSET; i < V; i++)
    if (Q(i) >= 0) n++;
  __sx_check(k == n, "the material index counts the level sets that are not negative");
  Vec3Map m = get_ρv(Q);
  Mat3_3Map A = get_A(Q);
  for (int i = 0; i < 3; i++) eq(m(i), Q(2 + i), "momentum components");
  for (int i = 0; i < 9; i++) eq(A(i / 3, i % 3), Q(5 + i), "distortion components");
}
}
