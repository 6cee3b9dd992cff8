// Fluxes, non-conservative products, system matrices, wave speeds, sources.
#include "common.h"
#include "src/system/eig.h"
#include "src/system/energy/derivatives.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/equations.h"
#include "src/system/functions/matrices.h"
#include "src/system/functions/vectors.h"
#include "src/system/jacobians.h"
#include "src/system/multi/eigenvecs.h"
#include "src/system/variables/sources.h"
#include "src/system/variables/state.h"
#include "src/system/waves/shear.h"
#include "src/system/waves/speeds.h"

extern "C" {
// stands in for sigma(Q, MP): an arbitrary symmetric tensor
static double Ssym[6];
static bool haveS = false, haveT = false, haveP = false;
static double Tsym, Psym;
double stub_temperature(VecVr, Par &) {
  if (!haveT) Tsym = real("T", 0.05, 3);
  haveT = true;
  return Tsym;
}
double stub_pressure(VecVr, Par &) {
  if (!haveP) Psym = real("p", -1, 3);
  haveP = true;
  return Psym;
}
Mat3_3 stub_sigma(VecVr, Par &) {
  if (!haveS) reals(Ssym, 6, "S", -3, 3);
  haveS = true;
  Mat3_3 S;
  S << Ssym[0], Ssym[1], Ssym[2], Ssym[1], Ssym[3], Ssym[4], Ssym[2], Ssym[4], Ssym[5];
  return S;
}
}
static Par par() {
  Par MP;
  symParFull(MP, __sx_param("EOS"));
  if (MULTI) MP.REACTION = 1;
  return MP;
}
static VecV state(Par &MP) {
  VecV Q = symState("Q", 2);
  if (MP.EOS == SHOCK_MG) __sx_assume(MP.s * (Q(0) - MP.ρ0) < 0.95 * Q(0));
  return Q;
}
extern "C" {
// ------------------------------------------------------------------ flux
void h_flux() {
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP), F0 = symState("F", 3), F = F0;
  flux(F, Q, d, MP);
  F -= F0;
  double ρ = Q(0), p = pressure(Q, MP), v[3] = {Q(2) / ρ, Q(3) / ρ, Q(4) / ρ};
  Mat3_3 A = get_A(Q), S = sigma(Q, MP);
  eq(F(0), ρ * v[d], "mass is carried by the velocity");
  double work = v[d] * (Q(1) + p);
  for (int i = 0; i < 3; i++) work -= S(i, d) * v[i];
  if (THERMAL) work += MP.cα2 * temperature(Q, MP) * Q(14 + d) / ρ;
  eq(F(1), work, "energy flux: transport, work of the total stress, heat");
  for (int i = 0; i < 3; i++) eq(F(2 + i), ρ * v[i] * v[d] + (i == d ? p : 0) - S(i, d), "momentum flux: transport and total stress");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double x = 0;
      if (j == d)
        for (int k = 0; k < 3; k++) x += A(i, k) * v[k];
      eq(F(5 + 3 * i + j), x, "distortion flux");
    }
  if (THERMAL)
    for (int i = 0; i < 3; i++) eq(F(14 + i), Q(14 + i) * v[d] + (i == d ? temperature(Q, MP) : 0), "thermal impulse flux");
  if (MULTI) eq(F(mV), Q(mV) * v[d], "the concentration is carried by the velocity, and its flux is added like the others");
  for (int i = V - LSET; i < V; i++) eq(F(i), 0, "level sets have no conservative flux");
}
// The product of the non-conservative matrix with a gradient.
static void refB(const VecV &Q, const VecV &x, int d, double *r) {
  for (int i = 0; i < V; i++) r[i] = 0;
  double v[3] = {Q(2) / Q(0), Q(3) / Q(0), Q(4) / Q(0)};
  for (int i = 0; i < 3; i++)
    for (int k = 0; k < 3; k++) {
      r[5 + 3 * i + k] = v[d] * x(5 + 3 * i + k);
      if (k == d)
        for (int j = 0; j < 3; j++) r[5 + 3 * i + k] -= v[j] * x(5 + 3 * i + j);
    }
  for (int i = V - LSET; i < V; i++) r[i] = v[d] * x(i);
}
void h_B() {
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP), x = symState("x", 3), r = symState("junk", 3);
  x(0) = real("x0", -3, 3);
  double ref[V];
  refB(Q, x, d, ref);
  Bdot(r, Q, x, d, MP);
  eqn(r.data(), ref, V, "non-conservative product: the distortion and level sets are advected");
  MatV_V B = MatV_V::Zero();
  block(B, Q, d);
  for (int i = 0; i < V; i++) {
    double s = 0;
    for (int j = 0; j < V; j++) s += B(i, j) * x(j);
    eq(s, ref[i], "the matrix form agrees with the product");
  }
}
// The system matrix is the derivative of the flux plus the non-conservative matrix.
void h_jacobian() {
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP);
  MatV_V M = system_matrix(Q, d, MP), B = MatV_V::Zero();
  VecV e = VecV::Zero(), bx;
  for (int j = 0; j < V; j++) {
    double ej[V];
    VecV u = VecV::Zero();
    u(j) = 1;
    refB(Q, u, d, ej);
    for (int i = 0; i < V; i++) {
      auto F = [&](double x) {
        VecV q = Q, f = VecV::Zero();
        q(j) = x;
        flux(f, q, d, MP);
        return f(i);
      };
      double dF = derivative(F, Q(j));
      if (__sx_native()) {
        double s = std::fabs(dF) + std::fabs(ej[i]) + std::fabs(M(i, j));
        __sx_check_tol(M(i, j), dF + ej[i], 1e-5 * s + 1e-6, "system matrix = flux Jacobian + non-conservative matrix");
      } else
        eq(M(i, j), dF + ej[i], "system matrix = flux Jacobian + non-conservative matrix");
    }
  }
}
void h_dPdQ() {
  Par MP = par();
  VecV Q = state(MP);
  MatV_V D = dPdQ(Q, MP);
  for (int i = 0; i < V; i++)
    for (int j = 0; j < V; j++) {
      auto F = [&](double x) {
        VecV q = Q;
        q(j) = x;
        Pvec(q, MP);
        return q(i);
      };
      check_deriv(F, Q(j), D(i, j), "Jacobian of the primitive variables");
    }
}
// Permuting the axes cyclically, or mirroring one, permutes the flux.
static VecV permuted(const VecV &Q) {
  VecV P = Q;
  for (int i = 0; i < 3; i++) {
    P(2 + (i + 1) % 3) = Q(2 + i);
    if (THERMAL) P(14 + (i + 1) % 3) = Q(14 + i);
    for (int j = 0; j < 3; j++) P(5 + 3 * ((i + 1) % 3) + (j + 1) % 3) = Q(5 + 3 * i + j);
  }
  return P;
}
static VecV mirrored(const VecV &Q, int d) {
  VecV P = Q;
  P(2 + d) = -Q(2 + d);
  if (THERMAL) P(14 + d) = -Q(14 + d);
  for (int j = 0; j < 3; j++)
    if (j != d) {
      P(5 + 3 * d + j) = -Q(5 + 3 * d + j);
      P(5 + 3 * j + d) = -Q(5 + 3 * j + d);
    }
  return P;
}
void h_axes() {
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP), x = symState("x", 3), F = VecV::Zero(), G = VecV::Zero(), b, c;
  VecV PQ = permuted(Q), Px = permuted(x);
  flux(F, Q, d, MP);
  flux(G, PQ, (d + 1) % 3, MP);
  VecV PF = permuted(F);
  eqn(G.data(), PF.data(), V, "the flux along another axis is the flux of the permuted state");
  Bdot(b, Q, x, d, MP);
  Bdot(c, PQ, Px, (d + 1) % 3, MP);
  VecV Pb = permuted(b);
  eqn(c.data(), Pb.data(), V, "the non-conservative product along another axis");
  for (int m = 0; m < 3; m++) {
    VecV R = mirrored(Q, m), y = mirrored(x, m), H = VecV::Zero(), e;
    flux(H, R, d, MP);
    VecV MF = mirrored(F, m);
    if (m == d) MF = -MF;
    eqn(H.data(), MF.data(), V, "the flux of a mirrored state is mirrored");
    Bdot(e, R, y, d, MP);
    VecV Mb = mirrored(b, m);
    if (m == d) Mb = -Mb;
    eqn(e.data(), Mb.data(), V, "the non-conservative product of a mirrored state is mirrored");
  }
  eq(pressure(PQ, MP), pressure(Q, MP), "the pressure does not depend on the axes");
  VecV S, T;
  Par MQ = MP;
  for (int i = 0; i < 3; i++) MQ.δp((i + 1) % 3) = MP.δp(i);
  source(S, Q, MP);
  source(T, PQ, MQ);
  VecV PS = permuted(S);
  eqn(T.data(), PS.data(), V, "the source of a permuted state is permuted");
}
// ------------------------------------------------------------- wave speeds
// In primitive variables the waves along axis d couple the velocity (and heat)
// to the rest: the square of the coupling on the velocity block is the tensor
// whose eigenvalues are the squared wave speeds.
void h_acoustic() {
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP);
  double v = Q(2 + d) / Q(0);
  MatV_V DP = dPdQ(Q, MP), DF = dFdP(Q, d, MP), B = MatV_V::Zero();
  for (int j = 0; j < V; j++) {
    VecV u = VecV::Zero();
    u(j) = 1;
    double ej[V];
    refB(Q, u, d, ej);
    for (int i = 0; i < V; i++) B(i, j) = ej[i];
  }
  MatV_V M = DP * (DF + B); // matrix of the quasi-linear form in primitive variables
  for (int i = 0; i < V; i++) M(i, i) -= v;
  int ix[4] = {2, 3, 4, 14 + d}, n = THERMAL ? 4 : 3;
  Mat X = thermo_acoustic_tensor(Q, d, MP);
  __sx_check(X.rows() == n && X.cols() == n, "size of the acoustic tensor");
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double s = 0;
      for (int k = 0; k < V; k++) s += M(ix[i], k) * M(k, ix[j]);
      eq(X(i, j), s, "the acoustic tensor is the square of the coupling of the velocities");
    }
}
void h_speed() {
  // unstrained material: longitudinal and shear waves in closed form
  Par MP = par();
  int d = __sx_param("D");
  VecV Q = state(MP);
  double a = real("a", 0.3, 2), ρ = Q(0);
  for (int i = 0; i < 9; i++) Q(5 + i) = i % 4 == 0 ? a : 0;
  __sx_assume(pressure(Q, MP) + MP.pINF > 0.1); // hyperbolic
  double c0 = c_0(Q, MP), cs2 = c_s2(ρ, MP);
  double shear = cs2 * a * a * a * a;
  double lo = c0 * c0 + 4. / 3 * shear;
  double s = max_abs_eigs(Q, d, MP), v = Q(2 + d) / ρ;
  double c = s - (v > 0 ? v : -v);
  __sx_check(c >= 0, "the fastest wave outruns the material");
  eq(c * c, lo, "the fastest wave of an unstrained material is the longitudinal one");
}
// --------------------------------------------------------------- sources
void h_source() {
  Par MP = par();
  int K = __sx_param("KIND");
  MP.SOLID = K == 1 || K == 2;
  MP.POWER_LAW = K == 2 || K == 4;
  MP.BINGHAM = K == 3;
  VecV Q = state(MP), S = symState("junk", 3);
  source(S, Q, MP);
  eq(S(0), 0, "no source of mass");
  eq(S(1), 0, "no source of energy");
  for (int i = 0; i < 3; i++) eq(S(2 + i), MP.δp(i), "the body force acts on the momentum");
  for (int i = V - LSET; i < V; i++) eq(S(i), 0, "no source for the level sets");
  Mat3_3 E = dEdA_s(Q, MP);
  Mat3_3 A = get_A(Q);
  double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
  __sx_assume(det > 1e-3);
  double θ = theta1inv(Q, MP), vol = 0, diss = 0, sq = 0;
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
      double cof = A(i1, j1) * A(i2, j2) - A(i1, j2) * A(i2, j1);
      vol += cof * S(5 + 3 * i + j);
      diss += E(i, j) * S(5 + 3 * i + j);
      sq += E(i, j) * E(i, j);
      eq(S(5 + 3 * i + j), -E(i, j) * θ, "distortion relaxes along the gradient of the energy");
    }
  eq(vol, 0, "relaxation preserves the volume");
  eq(diss, -θ * sq, "relaxation lowers the elastic energy at the stated rate");
  if (THERMAL) {
    double T = temperature(Q, MP);
    for (int i = 0; i < 3; i++) eq(S(14 + i), -MP.cα2 * Q(14 + i) * T / (MP.κ * Q(0)), "heat relaxation");
  }
}
void h_theta() {
  Par MP = par();
  int K = __sx_param("KIND");
  MP.SOLID = K == 1 || K == 2;
  MP.POWER_LAW = K == 2 || K == 4;
  MP.BINGHAM = K == 3;
  VecV Q = state(MP);
  Mat3_3 A = get_A(Q);
  double det = A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0));
  __sx_assume(det > 1e-3);
  double θ = theta1inv(Q, MP);
  double a53 = pow(det, 5. / 3), cs2 = c_s2(Q(0), MP);
  Mat3_3 S = sigma(Q, MP);
  double s2 = 0;
  for (int i = 0; i < 9; i++) s2 += S(i / 3, i % 3) * S(i / 3, i % 3);
  switch (K) {
  case 0: // Newtonian fluid
    eq(θ, a53 * MP.ρ0 / (2 * pow(MP.μ, 1 / MP.n)), "relaxation rate of a viscous fluid");
    __sx_check(θ > 0, "a viscous fluid relaxes");
    break;
  case 1: eq(θ, 0, "an elastic solid does not relax"); break;
  case 2: { // elastoplastic solid
    double sn = sigma_norm(S);
    if (sn > 1e8) sn = 1e8;
    __sx_assume(sn > 1e-6);
    eq(θ, 3 * a53 / (cs2 * MP.τ0) * pow(sn / MP.σY, MP.n), "relaxation rate of an elastoplastic solid");
    break;
  }
  case 3: { // Bingham fluid
    double f2 = s2 / 2 - MP.σY * MP.σY, sn = sqrt(s2 / 2); // both forms of the condition are given
    if (__sx_param("YIELD")) {
      __sx_assume(f2 > 0 && sn > MP.σY * (1 + 1e-9));
      eq(θ, a53 * MP.ρ0 / (2 * MP.μ) * (1 - MP.σY / sqrt(s2 / 2)), "relaxation rate of a Bingham fluid beyond its yield stress");
    } else {
      __sx_assume(f2 < 0 && sn < MP.σY * (1 - 1e-9));
      eq(θ, 0, "a Bingham fluid below its yield stress does not flow");
    }
    break;
  }
  case 4: { // power-law fluid
    double sn = sqrt(s2 / 2);
    __sx_assume(sn > 1e-6);
    eq(θ, a53 * MP.ρ0 / (2 * pow(MP.μ, 1 / MP.n)) * pow(sn, (1 - MP.n) / MP.n), "relaxation rate of a power-law fluid");
    break;
  }
  }
  if (THERMAL) eq(theta2inv(Q, MP), temperature(Q, MP) / (MP.κ * Q(0)), "relaxation rate of the thermal impulse");
}
// the second component is consumed by the reaction, never produced
void h_react() {
  Par MP = par();
  int R = __sx_param("R");
  MP.REACTION = R;
  VecV Q = state(MP), S = symState("junk", 3), Z;
  Q(mV) = real("rhoLambda", -2, 2);
  double ρ = Q(0), λ = Q(mV) / ρ;
  source(S, Q, MP);
  for (int i = 0; i < 5; i++) eq(S(i), i < 2 ? 0 : MP.δp(i - 2), "a reaction changes neither mass, momentum nor total energy");
  if (R == 0) {
    double T = temperature(Q, MP);
    double ref = T > MP.Ti && λ > 0 ? -MP.Kc * ρ * λ : 0;
    eq(S(mV), ref, "discrete ignition: a constant rate above the ignition temperature");
  }
  if (R == 1) {
    double T = temperature(Q, MP);
    __sx_assume(T > 0.01);
    double ref = λ > 0 ? -MP.Bc * exp(-MP.Ea / (MP.Rc * T)) * ρ * λ : 0;
    eq(S(mV), ref, "Arrhenius rate");
  }
  if (R == 2) { // no ignition term: its base may be negative
    MP.φI = 0;
    double l = real("l", 0, 0.999);
    Q(0) = 1; // enters only as a factor and in the pressure
    Q(mV) = l;
    source(S, Q, MP);
    double φ = 1 - l, p = pressure(Q, MP), r = 0, pp = p > 0 ? p : 0;
    if (__sx_param("POS")) { __sx_check(S(mV) <= 0, "the reactant is never produced"); return; }
    __sx_assume(p > 0.01 && l > 0.001 && φ > 0.001);
    if (φ < MP.φG1) r += MP.G1 * pow(l, MP.c) * pow(φ, MP.d) * pow(pp, MP.y);
    if (φ > MP.φG2) r += MP.G2 * pow(l, MP.e) * pow(φ, MP.g) * pow(pp, MP.z);
    eq(S(mV), -r, "growth rate");
  }
}
}
