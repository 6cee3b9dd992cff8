// Star states at material interfaces.
#include "common.h"
#include "src/system/energy/eos.h"
#include "src/system/energy/mg.h"
#include "src/system/functions/vectors.h"
#include "src/system/multi/conditions.h"
#include "src/system/multi/eigenvecs.h"
#include "src/system/multi/riemann.h"
#include "src/system/multi/rotations.h"
#include "src/system/relaxation/analytic.h"
#include "src/system/variables/state.h"

static Vec unit(int dim, int flip) { // every unit vector, apart from the antipode of one axis
  Vec n(dim);
  double t = real("t", -3, 3);
  if (dim == 1) n << (flip ? -1 : 1);
  if (dim == 2) {
    n << (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t);
    if (flip) n = -n;
  }
  if (dim == 3) {
    double s = real("s", -3, 3), d = 1 + t * t + s * s;
    n << 2 * t / d, 2 * s / d, (d - 2) / d;
    if (flip) n = -n;
  }
  return n;
}
static double mag(double x) { return x < 0 ? -x : x; }
static int steps, relaxL, relaxR, converge;
static double jumpTo;
static bool toNaN;
static Par *thePL;
extern "C" {
void h_rotation() {
  int dim = __sx_param("DIM"), flip = __sx_param("FLIP");
  Vec n = unit(dim, flip);
  Mat3_3 R = rotation_matrix(n);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) eq(R.row(i).dot(R.row(j)), i == j, "the axes at an interface are orthonormal");
  for (int i = 0; i < 3; i++) eq(R(0, i), i < dim ? n(i) : 0, "the first axis is the normal");
  eq(R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0)), 1,
     "the axes at an interface are right-handed");
}
void h_rotate() {
  VecV Q = symState("q"), Q0 = Q;
  Mat3_3 R;
  reals(R.data(), 9, "R", -2, 2);
  rotate_tensors(Q, R);
  int J = THERMAL ? 14 : -10;
  for (int v = 0; v < V; v++) {
    double want = Q0(v);
    if (v >= 2 && v < 5) want = R(v - 2, 0) * Q0(2) + R(v - 2, 1) * Q0(3) + R(v - 2, 2) * Q0(4);
    if (v >= J && v < J + 3) want = R(v - J, 0) * Q0(J) + R(v - J, 1) * Q0(J + 1) + R(v - J, 2) * Q0(J + 2);
    if (v >= 5 && v < 14) {
      int i = (v - 5) / 3, j = (v - 5) % 3;
      want = 0;
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++) want += R(i, a) * Q0(5 + 3 * a + b) * R(j, b);
    }
    eq(Q(v), want, "vectors and the distortion turn with the axes, scalars do not");
  }
}
// the directions in which a state can change, by traction and heat: any matrix
static double dir[2][V][4];
MatV_V stub_constraints(VecVr Q, double sgn, Par &MP) {
  MatV_V R;
  for (int i = 0; i < V; i++)
    for (int j = 0; j < V; j++) R(i, j) = j < n1 ? dir[sgn > 0][i][j] : 0.25;
  return R;
}
static void directions(bool dominant) { // dominant: a jump of the traction changes mainly the velocity along it
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < V; i++)
      for (int j = 0; j < n1; j++) {
        bool diag = dominant && i == 11 + j, off = dominant && i >= 11 && i < 14 && !diag;
        dir[k][i][j] = real(k ? "RL" : "RR", i * n1 + j, diag && k ? 1 : off ? -0.2 : -2, diag && !k ? -1 : off ? 0.2 : 2);
      }
}
static void sides(Par &ML, Par &MR, VecV &QL, VecV &QR) {
  symParFull(ML, 0, "L");
  symParFull(MR, 0, "R");
  ML.ρ0 = 1;
  MR.ρ0 = 2;
  QL = symState("ql", 1);
  QR = symState("qr", 1);
}
// reordered primitive variables, as far as this step is concerned; back again they are left as they are
VecV stub_toP(VecV Q, Par &MP) {
  VecV P = Q;
  for (int i = 0; i < 3; i++) P(11 + i) = Q(2 + i) / Q(0);
  if (THERMAL)
    for (int i = 0; i < 3; i++) P(14 + i) = Q(14 + i) / Q(0);
  return P;
}
VecV stub_toC(VecV P, Par &MP) { return P; }
Vec3 stub_Sigma(VecVr Q, Par &MP, int d) {
  Vec3 s;
  double x[1] = {MP.ρ0};
  for (int i = 0; i < 3; i++) s(i) = __sx_uf("SIGMA", 1, x, i);
  return s;
}
double stub_temperature(VecVr Q, Par &MP) {
  double x[1] = {MP.ρ0};
  return __sx_uf("TEMP", 1, x, 0);
}
void h_step() {
  int vac = __sx_param("VAC"), stick = __sx_param("STICK");
  Par ML, MR;
  VecV QL, QR;
  sides(ML, MR, QL, QR);
  directions(stick);
  if (vac) MR.EOS = -1;
  MatV_V RL = stub_constraints(QL, 1, ML), RR = stub_constraints(QR, -1, MR);
  VecV P0 = stub_toP(QL, ML), R0 = stub_toP(QR, MR);
  Vec xL(n1), xR(n1);
  xL.head<3>() = stub_Sigma(QL, ML, 0);
  xR.head<3>() = stub_Sigma(QR, MR, 0);
  if (THERMAL) {
    xL(3) = stub_temperature(QL, ML);
    xR(3) = stub_temperature(QR, MR);
  }
  if (vac && THERMAL) __sx_assume(RL(14, 3) > 0.1);
  if (!vac) { // the impedances differ
    double d = RL(11, 0) - RR(11, 0), D = d;
    __sx_assume(d > 0.1 || d < -0.1);
    if (THERMAL) D = d * (RL(14, 3) - RR(14, 3)) - (RL(11, 3) - RR(11, 3)) * (RL(14, 0) - RR(14, 0));
    if (stick) {
      Mat3_3 Y = RL.block<3, 3>(11, 0) - RR.block<3, 3>(11, 0);
      D = Y(0, 0) * (Y(1, 1) * Y(2, 2) - Y(1, 2) * Y(2, 1)) - Y(0, 1) * (Y(1, 0) * Y(2, 2) - Y(1, 2) * Y(2, 0)) + Y(0, 2) * (Y(1, 0) * Y(2, 1) - Y(1, 1) * Y(2, 0));
    }
    __sx_assume(D > 0.1 || D < -0.1);
  }
  star_stepper(QL, QR, ML, MR);
  Vec cL(n1), cR(n1);
  if (vac) {
    cL = -xL;
    if (THERMAL) {
      cL(3) = (QL(14) - P0(14));
      for (int j = 0; j < 3; j++) cL(3) -= RL(14, j) * cL(j);
      cL(3) /= RL(14, 3);
      eq(QL(14), 0, "no heat flows into vacuum");
    }
    for (int v = 0; v < V; v++) {
      double want = P0(v);
      for (int j = 0; j < n1; j++) want += RL(v, j) * cL(j);
      eq(QL(v), want, "the traction on a free surface is released");
      eq(QR(v), 0, "vacuum has no state");
    }
    return;
  }
  for (int i = 0; i < (stick ? 3 : 1); i++) eq(QL(11 + i), QR(11 + i), stick ? "materials that stick move together" : "materials that slip keep in contact along the normal");
  if (THERMAL) eq(QL(14), QR(14), "the heat flux is continuous");
  // one traction (and temperature) is reached on both sides
  __sx_assume(RL(0, 0) > 0.1);
  auto step = [&](const Vec &x) {
    for (int v = 0; v < V; v++) {
      double l = P0(v), r = R0(v);
      for (int j = 0; j < n1; j++) {
        l += RL(v, j) * (x(j) - xL(j));
        r += RR(v, j) * (x(j) - xR(j));
      }
      eq(QL(v), l, "both sides reach the same traction");
      eq(QR(v), r, "both sides reach the same traction");
    }
  };
  Vec x = Vec::Zero(n1);
  if (!THERMAL && !stick) { // frictionless: a normal traction only
    double num = R0(11) - P0(11);
    for (int j = 0; j < 3; j++) num += RL(11, j) * xL(j) - RR(11, j) * xR(j);
    x(0) = num / (RL(11, 0) - RR(11, 0));
    step(x);
  }
}
// ---- the iteration: the traction is the energy here, and the K-th step reaches the star state
Vec3 stub_traction(VecVr Q, Par &MP, int d) {
  Vec3 s;
  s << Q(1), Q(1) / 2, Q(1) / 4;
  return s;
}
void stub_relax(VecVr Q, double dt, Par &MP) {
  (&MP == thePL ? relaxL : relaxR)++;
  eq(dt, jumpTo, "both states are relaxed for half the time step");
}
void stub_stepper(VecVr QL, VecVr QR, Par &MPL, Par &MPR) {
  if (++steps != converge) return;
  bool vac = MPR.EOS == -1;
  QL(0) = 2;
  QL(1) = vac ? 0 : 0.5;
  QL(2) = 0.5;
  QL(3) = toNaN ? NAN : 0.75;
  if (vac) return;
  QR(0) = 1;
  QR(1) = 0.5;
  QR(2) = 0.25;
}
void h_loop() {
  int K = __sx_param("K"), vac = __sx_param("VAC"), dim = __sx_param("DIM");
  toNaN = __sx_param("NAN");
  Par ML, MR;
  VecV QL, QR;
  sides(ML, MR, QL, QR);
  if (vac) MR.EOS = -1;
  thePL = &ML;
  Vec n = dim == 1 ? unit(1, 0) : Vec(2);
  if (dim == 2) n << 0.6, -0.8;
  double dt = real("dt", 0.1, 1);
  jumpTo = dt / 2;
  converge = K;
  steps = relaxL = relaxR = 0;
  // how far from the star state the initial states are
  Mat3_3 R = rotation_matrix(n);
  double scale = (vac ? ML.ρ0 * ML.b02 : std::min(ML.ρ0, MR.ρ0) * std::min(ML.b02, MR.b02)), tol = 1e-8; // STAR_TOL
  double js = mag(QL(1) - (vac ? 0 : QR(1))), vL = 0, vR = 0;
  for (int i = 0; i < 3; i++) {
    vL += R(0, i) * QL(2 + i) / QL(0);
    vR += R(0, i) * QR(2 + i) / QR(0);
  }
  if (K == 0) {
    QR(0) = QL(0);
    for (int i = 2; i < 5; i++) QR(i) = QL(i);
    vR = vL;
    if (vac) __sx_assume(js < 0.9 * tol * scale);
    else QR(1) = QL(1);
  } else if (__sx_param("VEL")) {
    QR(1) = QL(1);
    __sx_assume(mag(vL - vR) > 2e-8);
  } else __sx_assume(js > 1.1 * tol * scale);
  VecV L0 = QL;
  VecV q = left_star_state(QL, QR, ML, MR, dt, n);
  int want = K < 10 ? K : 10;
  __sx_check(steps == want, "steps are taken until the star state is reached, ten at most");
  __sx_check(relaxL == steps && relaxR == (vac ? 0 : steps), "each step relaxes either material once");
  VecV w = L0;
  if (!(toNaN && K <= 10) && K <= 10 && K) {
    rotate_tensors(w, R);
    w(0) = 2;
    w(1) = vac ? 0 : 0.5;
    w(2) = 0.5;
    w(3) = 0.75;
    Mat3_3 T = R.transpose();
    rotate_tensors(w, T);
  }
  for (int v = 0; v < V; v++) eq(q(v), w(v), toNaN ? "if no star state is found the state is kept" : "the star state is given in the axes of the grid");
}
// ---- what a change of the traction does to an unstrained state
void h_impedance() {
  int vary = __sx_param("VARY");
  double sgn = __sx_param("LEFT") ? 1 : -1;
  auto val = [&](int bit, const char *n, double lo, double hi, double fix) { return vary >> bit & 1 ? real(n, lo, hi) : fix; };
  Par MP;
  MP.EOS = 0;
  MP.SOLID = MP.POWER_LAW = MP.MULTI = MP.BINGHAM = false;
  MP.REACTION = -1;
  MP.Tref = MP.α = MP.β = MP.A = MP.B = MP.s = 0;
  MP.R1 = MP.R2 = MP.c02 = MP.T0 = 1;
  MP.ρ0 = val(0, "rho0", 0.5, 2, 1.25);
  MP.γ = val(1, "gamma", 1.2, 3, 1.5);
  MP.pINF = val(2, "pINF", 0, 2, 0.5);
  MP.Γ0 = MP.γ - 1;
  MP.cv = 1.5;
  MP.b02 = val(3, "b02", 0.1, 1, 0.5);
  MP.τ0 = MP.μ = MP.κ = MP.cα2 = 1;
  MP.δp.setZero();
  double a = val(4, "a", 0.8, 1.2, 1), ρ = MP.ρ0 * a * a * a, p = val(5, "p", 1, 3, 2);
  VecV Q = VecV::Zero();
  double v[3];
  Q(0) = ρ;
  double ke = 0;
  for (int i = 0; i < 3; i++) {
    v[i] = val(6, i == 0 ? "vx" : i == 1 ? "vy" : "vz", -1, 1, 0.25 * (i + 1));
    Q(2 + i) = ρ * v[i];
    ke += v[i] * v[i] / 2;
    Q(5 + 4 * i) = a;
  }
  Q(1) = ρ * ke + (p + MP.γ * MP.pINF) / (MP.γ - 1);
  for (int l = 0; l < LSET; l++) Q(V - LSET + l) = -1;
  MatV_V R = riemann_constraints(Q, sgn, MP);
  double c02 = MP.γ * (p + MP.pINF) / ρ, cs2 = MP.b02, cl2 = c02 + 4 * cs2 * a * a * a * a / 3, cl = std::sqrt(cl2), ct = std::sqrt(cs2) * a * a;
  const char *m = "a change of traction changes the state as the acoustic impedances say";
  for (int j = 0; j < 3; j++) {
    double c2 = j ? ct * ct : cl2, c = j ? ct : cl;
    eq(R(0, j) * c2, j ? 0 : 1, m);
    eq(R(1, j) * c2, j ? 0 : c02, m);
    for (int i = 0; i < 3; i++) {
      eq(R(2 + i, j) * ρ * c2, i == j ? a : 0, m);
      eq(R(11 + i, j) * ρ * c, i == j ? -sgn : 0, m);
    }
    for (int k = 5; k < 11; k++) eq(R(k, j), 0, m);
  }
}
}
