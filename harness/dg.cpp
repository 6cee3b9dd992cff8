// The space-time DG predictor and the half-step of the split solver.
#include "common.h"
#include "src/scipy/newton_krylov.h"
#include "src/solvers/dg/dg.h"
#include "src/solvers/dg/dg1.h"
#include "src/solvers/dg/dg2.h"
#include "src/solvers/dg/dg_matrices.h"
#include "src/solvers/dg/initial_guess.h"
#include "src/solvers/poly/evaluations.h"
#include "src/solvers/split/homogeneous.h"
#include "src/system/equations.h"

static const double TOL = 1e-9;
static VecV uf(const char *name, const double *a, int n) {
  VecV r;
  for (int i = 0; i < V; i++) r(i) = __sx_uf(name, n, a, i);
  return r;
}
static VecV ufF(const VecV &q, int d) {
  double x[V + 1];
  for (int i = 0; i < V; i++) x[i] = q(i);
  x[V] = d;
  return uf("FLX", x, V + 1);
}
static VecV ufB(const VecV &q, const VecV &g, int d) {
  double x[2 * V + 1];
  for (int i = 0; i < V; i++) { x[i] = q(i); x[V + i] = g(i); }
  x[2 * V] = d;
  return uf("BDT", x, 2 * V + 1);
}
static VecV ufS(const VecV &q) { return uf("SRC", q.data(), V); }

// linear physics: advection with speed LA (in the flux) plus LB (in the product), constant sources LS, decay LK
static double LA[2], LB[2], LK;
static VecV LS;
static int solves, wcells;
static Vec (*solution)(int cell);

extern "C" {
void stub_flux(VecVr r, VecVr q, int d, Par &) { r += ufF(VecV(q), d); }
void stub_bdot(VecVr r, VecVr q, VecVr x, int d, Par &) { r = ufB(VecV(q), VecV(x), d); }
void stub_source(VecVr r, VecVr q, Par &) { r = ufS(VecV(q)); }
void lin_flux(VecVr r, VecVr q, int d, Par &) { r += LA[d] * q; }
void lin_bdot(VecVr r, VecVr, VecVr x, int d, Par &) { r = LB[d] * x; }
void lin_source(VecVr r, VecVr q, Par &) { r = LS - LK * q; }
Vec stub_solve(VecFunc F, Vecr x, double, double, double, double) {
  int cell = (int)(x(V - 1) + 0.5);
  solves++;
  Vec y = solution(cell);
  Vec r = F(y);
  __sx_check(r.size() == y.size(), "the residual has one entry per unknown");
  for (int i = 0; i < r.size(); i++) __sx_check_tol(r(i), 0, TOL, "the exact solution of linear advection with a constant source solves the predictor's equations");
  return y;
}
// ------------------------------------------------------------ the discrete operator
void h_matrices() {
  double c[N];
  reals(c, N, "c", -1, 1);
  auto p = [&](double x) { double r = 0; for (int i = N - 1; i >= 0; i--) r = r * x + c[i]; return r; };
  auto dp = [&](double x) { double r = 0; for (int i = N - 1; i >= 1; i--) r = r * x + c[i] * i; return r; };
  for (int i = 0; i < N; i++) {
    double s = 0, e = 0, m = -ENDVALS(0, i) * p(0);
    for (int k = 0; k < N; k++) {
      s += DG_DER(i, k) * p(NODES(k));
      e += DG_END(i, k) * p(NODES(k));
      m += DG_MAT(i, k) * p(NODES(k));
    }
    __sx_check_tol(s, WGHTS(i) * dp(NODES(i)), TOL, "derivative matrix: the basis function against the derivative");
    __sx_check_tol(e, ENDVALS(1, i) * p(1), TOL, "end matrix: product of the values at one");
    __sx_check_tol(m, WGHTS(i) * dp(NODES(i)), TOL, "time matrix: integration by parts with the initial value");
  }
  // the factorised operators of the fixed-point iteration, in one and two dimensions
  Vec x(N * N), b = Vec::Zero(N * N);
  reals(x.data(), N * N, "x", -1, 1);
  for (int t = 0; t < N; t++)
    for (int k = 0; k < N; k++)
      for (int i = 0; i < N; i++) b(t * N + i) += DG_MAT(t, k) * WGHTS(i) * x(k * N + i);
  Vec y = DG_U1.solve(b);
  for (int i = 0; i < N * N; i++) __sx_check_tol(y(i), x(i), TOL, "factorised 1D operator");
  Vec z(N * N * N), c2 = Vec::Zero(N * N * N);
  reals(z.data(), N * N * N, "z", -1, 1);
  for (int t = 0; t < N; t++)
    for (int k = 0; k < N; k++)
      for (int i = 0; i < N * N; i++) c2(t * N * N + i) += DG_MAT(t, k) * WGHTS(i / N) * WGHTS(i % N) * z(k * N * N + i);
  Vec w = DG_U2.solve(c2);
  for (int i = 0; i < N * N * N; i++) __sx_check_tol(w(i), z(i), TOL, "factorised 2D operator");
}
void h_kron() {
  Mat a(2, 3), b(2, 2), c(1, 2);
  reals(a.data(), 6, "a", -2, 2);
  reals(b.data(), 4, "b", -2, 2);
  reals(c.data(), 2, "c", -2, 2);
  std::vector<Mat> v = {a, b}, w = {a, b, c};
  Mat k = kron(v), l = kron(w);
  __sx_check(k.rows() == 4 && k.cols() == 6 && l.rows() == 4 && l.cols() == 12, "shape of a Kronecker product");
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 6; j++) {
      eq(k(i, j), a(i / 2, j / 2) * b(i % 2, j % 2), "Kronecker product");
      for (int m = 0; m < 2; m++) eq(l(i, 2 * j + m), a(i / 2, j / 2) * b(i % 2, j % 2) * c(0, m), "Kronecker product of three");
    }
}
void h_rhs1() {
  Par MP;
  MatN2_V q, W, r;
  reals(q.data(), N * N * V, "q", -2, 2);
  reals(W.data(), N * N * V, "w", -2, 2);
  double dt = real("dt", 0.1, 1), dx = real("dx", 0.1, 2);
  r = rhs1(q, W, dt, dx, MP);
  Vec qv = Eigen::Map<Vec>(q.data(), N * N * V);
  Vec o = obj1(qv, W, dt, dx, MP);
  for (int t = 0; t < N; t++)
    for (int i = 0; i < N; i++) {
      VecV e = VecV::Zero(), dq = VecV::Zero(), u = VecV::Zero();
      for (int k = 0; k < N; k++) {
        dq += DERVALS(i, k) / dx * q.row(t * N + k).transpose();
        e -= DERVALS(i, k) / dx * ufF(q.row(t * N + k).transpose(), 0);
        u += DG_MAT(t, k) * WGHTS(i) * q.row(k * N + i).transpose();
      }
      e += ufS(q.row(t * N + i).transpose()) - ufB(q.row(t * N + i).transpose(), dq, 0);
      for (int v = 0; v < V; v++) {
        double x = W(t * N + i, v) + dt * WGHTS(t) * WGHTS(i) * e(v);
        eq(r(t * N + i, v), x, "1D: initial value plus the weighted sources minus flux derivative and product");
        eq(o((t * N + i) * V + v), x - u(v), "1D: residual of the weak form");
      }
    }
}
void h_rhs2() {
  Par MP;
  MatN3_V q, W, r;
  int obj = __sx_param("OBJ");
  reals(q.data(), N * N * N * V, "q", -2, 2);
  reals(W.data(), N * N * N * V, "w", -2, 2);
  double dt = real("dt", 0.1, 1), dx = real("dx", 0.1, 2), dy = real("dy", 0.1, 2);
  if (obj) {
    Vec qv = Eigen::Map<Vec>(q.data(), N * N * N * V);
    Vec o = obj2(qv, W, dt, dx, dy, MP);
    r = Eigen::Map<MatN3_V>(o.data());
  } else
    r = rhs2(q, W, dt, dx, dy, MP);
  auto id = [](int t, int i, int j) { return (t * N + i) * N + j; };
  for (int t = 0; t < N; t++)
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        VecV e = VecV::Zero(), dqx = VecV::Zero(), dqy = VecV::Zero(), u = VecV::Zero();
        for (int k = 0; k < N; k++) {
          VecV qx = q.row(id(t, k, j)).transpose(), qy = q.row(id(t, i, k)).transpose(), qt = q.row(id(k, i, j)).transpose();
          dqx += DERVALS(i, k) / dx * qx;
          dqy += DERVALS(j, k) / dy * qy;
          e -= DERVALS(i, k) / dx * ufF(qx, 0) + DERVALS(j, k) / dy * ufF(qy, 1);
          u += DG_MAT(t, k) * WGHTS(i) * WGHTS(j) * qt;
        }
        VecV q0 = q.row(id(t, i, j)).transpose();
        e += ufS(q0) - ufB(q0, dqx, 0) - ufB(q0, dqy, 1);
        for (int v = 0; v < V; v++)
          eq(r(id(t, i, j), v), W(id(t, i, j), v) + dt * WGHTS(t) * WGHTS(i) * WGHTS(j) * e(v) - (obj ? u(v) : 0), obj ? "2D: residual of the weak form" : "2D: initial value plus the weighted sources minus flux derivatives and products");
      }
}
// ------------------------------------------------------------ the predictor as a whole
// exact solution of cell c: linear data advected, plus source
static double C[4][3][V], dtx[2], DT;
static int DIM;
static double exact(int cell, double t, double x, double y, int v) {
  double r = C[cell][0][v] + C[cell][1][v] * (x - (LA[0] + LB[0]) * t * dtx[0]) + DT * t * LS(v);
  if (DIM == 2) r += C[cell][2][v] * (y - (LA[1] + LB[1]) * t * dtx[1]);
  return r;
}
static Vec exactCell(int cell) {
  int n = DIM == 2 ? N * N : N;
  Vec r(N * n * V);
  for (int t = 0; t < N; t++)
    for (int s = 0; s < n; s++)
      for (int v = 0; v < V; v++) r((t * n + s) * V + v) = exact(cell, NODES(t), NODES(DIM == 2 ? s / N : s), DIM == 2 ? NODES(s % N) : 0, v);
  return r;
}
void h_predict() {
  Par MP;
  int stiff = __sx_param("STIFF"), pat = __sx_param("MASK"), ig = __sx_param("IG"), conc = !stiff;
  DIM = __sx_param("DIM");
  int n = DIM == 2 ? N * N : N, nc = 3, col = 7;
  LS.setZero();
  LK = 0;
  for (int d = 0; d < DIM; d++) {
    LA[d] = conc ? 0.5 - d : real("la", d, -1, 1);
    LB[d] = conc ? 0.25 : real("lb", d, -1, 1);
  }
  for (int v = 0; v < V - 1; v++)
    if (!conc) LS(v) = real("ls", v, -1, 1);
  if (conc) LS(col) = 0.5;
  for (int c = 0; c < nc; c++)
    for (int k = 0; k < 3; k++)
      for (int v = 0; v < V; v++) C[c][k][v] = v == V - 1 ? (k ? 0 : c) : !conc ? real("c", (c * 3 + k) * V + v, -1, 1) : v == col && c == 1 ? (k == 1 ? real("c", k, -1, 1) : 0.25 * k + 1) : 0;
  Vec dX(DIM);
  double dt = DT = conc ? 0.25 : real("dt", 0.1, 1);
  for (int d = 0; d < DIM; d++) {
    dX(d) = conc ? 1 - 0.5 * d : real("dx", d, 0.1, 2);
    dtx[d] = dt / dX(d);
  }
  Vec w(nc * n * V), q = Vec::Constant(nc * N * n * V, 77);
  for (int c = 0; c < nc; c++)
    for (int s = 0; s < n; s++)
      for (int v = 0; v < V; v++) w((c * n + s) * V + v) = exact(c, 0, NODES(DIM == 2 ? s / N : s), DIM == 2 ? NODES(s % N) : 0, v);
  Vec w0 = w;
  bVec mask(nc);
  int live = 0;
  for (int c = 0; c < nc; c++) live += mask(c) = (pat >> c) & 1;
  solution = exactCell;
  solves = 0;
  predictor(q, w, dt, dX, stiff, ig, MP, mask);
  if (stiff) __sx_check(solves == live, "one solution per live cell");
  for (int c = 0; c < nc; c++) {
    Vec e = exactCell(c);
    for (int k = 0; k < N * n; k++)
      for (int v = 0; v < V; v++) {
        double x = q((c * N * n + k) * V + v);
        if (!mask(c)) eq(x, 77, "masked cells are left alone");
        else if (stiff) eq(x, e(k * V + v), "the solution of the predictor's equations is stored in its cell");
        else __sx_check_tol(x, e(k * V + v), 2e-4, "the predictor solves linear advection with a constant source");
      }
  }
  eqn(w.data(), w0.data(), w.size(), "the reconstruction is not modified");
}
// the iteration diverges (decay rate far above 1/dt): the result must still be that of the predictor's equations, not whatever was in memory
static Vec decayed(int) {
  int n = DIM == 2 ? N * N : N;
  // dq/dt = -k q in the weak form: (DG_MAT + k dt W) q_t = ENDVALS(0,:) q0, same at every point
  MatN_N A = DG_MAT;
  for (int t = 0; t < N; t++) A(t, t) += LK * DT * WGHTS(t);
  VecN y = A.inverse() * ENDVALS.row(0).transpose();
  Vec r(N * n * V);
  for (int t = 0; t < N; t++)
    for (int s = 0; s < n; s++)
      for (int v = 0; v < V; v++) r((t * n + s) * V + v) = C[0][0][v] * y(t);
  return r;
}
void h_diverge() {
  Par MP;
  DIM = __sx_param("DIM");
  int n = DIM == 2 ? N * N : N;
  LA[0] = LA[1] = LB[0] = LB[1] = 0;
  LS.setZero();
  LK = __sx_param("RATE");
  DT = 1;
  Vec dX = Vec::Ones(DIM), w(n * V), q = Vec::Constant(N * n * V, 77);
  for (int v = 0; v < V; v++) C[0][0][v] = 0;
  C[0][0][7] = real("c", 1, 2);
  for (int s = 0; s < n; s++)
    for (int v = 0; v < V; v++) w(s * V + v) = C[0][0][v];
  bVec mask = bVec::Ones(1);
  solution = decayed;
  predictor(q, w, DT, dX, false, false, MP, mask);
  Vec e = decayed(0);
  for (int i = 0; i < q.size(); i++) __sx_check_tol(q(i), e(i), 1e-3, "the predictor solves linear decay");
}
// the initial guesses repeat the initial data at every time node
void h_guess() {
  Par MP;
  int dim = __sx_param("DIM"), st = __sx_param("STIFF"), n = dim == 2 ? N * N : N;
  Mat w(n, V), q = Mat::Zero(N * n, V);
  reals(w.data(), n * V, "w", -2, 2);
  if (st) stiff_initial_guess(q, w, n, 0.5, MP);
  else if (dim == 1) standard_initial_guess1(q, w);
  else standard_initial_guess2(q, w);
  for (int t = 0; t < N; t++)
    for (int s = 0; s < n; s++)
      for (int v = 0; v < V; v++) eq(q(t * n + s, v), w(s, v), "the initial guess is the initial state at every time");
}
// ------------------------------------------------------------ half step of the homogeneous system
void h_midstep() {
  Par MP;
  int dim = __sx_param("DIM"), pat = __sx_param("MASK"), n = dim == 2 ? N * N : N, nc = 2;
  Vec w(nc * n * V), dX(dim);
  reals(w.data(), w.size(), "w", -2, 2);
  double dt = real("dt", 0.1, 1);
  for (int d = 0; d < dim; d++) dX(d) = real("dx", d, 0.1, 2);
  Vec w0 = w;
  bVec mask(nc);
  for (int c = 0; c < nc; c++) mask(c) = (pat >> c) & 1;
  midstepper(w, dt, dX, MP, mask);
  for (int c = 0; c < nc; c++)
    for (int s = 0; s < n; s++) {
      auto at = [&](int k) { return VecV(w0.segment<V>((c * n + k) * V)); };
      VecV r = VecV::Zero();
      for (int d = 0; d < dim; d++) {
        VecV g = VecV::Zero();
        int a = dim == 2 ? (d ? s % N : s / N) : s;
        for (int k = 0; k < N; k++) {
          int o = dim == 2 ? (d ? s / N * N + k : k * N + s % N) : k;
          g += DERVALS(a, k) * at(o);
          r += DERVALS(a, k) / dX(d) * ufF(at(o), d);
        }
        r += ufB(at(s), g, d) / dX(d);
      }
      for (int v = 0; v < V; v++)
        eq(w((c * n + s) * V + v), w0((c * n + s) * V + v) - (mask(c) ? dt / 2 * r(v) : 0), mask(c) ? "half a time step of the homogeneous equations" : "masked cells are left alone");
    }
}
}
