// Numerical fluxes and the finite-volume update.
#include "common.h"
#include "src/solvers/fv/fluxes.h"
#include "src/solvers/fv/fv.h"
#include "src/system/eig.h"
#include "src/system/energy/mg.h"
#include "src/system/equations.h"
#include "src/system/jacobians.h"
#include "src/solvers/poly/evaluations.h"

static VecV uf2(const char *name, const VecV &a, const VecV &b, int d) {
  double x[2 * V + 1];
  for (int i = 0; i < V; i++) { x[i] = a(i); x[V + i] = b(i); }
  x[2 * V] = d;
  VecV r;
  for (int i = 0; i < V; i++) r(i) = __sx_uf(name, 2 * V + 1, x, i);
  return r;
}
static VecV uf1(const char *name, const VecV &a) {
  VecV r;
  for (int i = 0; i < V; i++) r(i) = __sx_uf(name, V, a.data(), i);
  return r;
}
static const char *FN[3] = {"RUS", "ROE", "OSH"};
extern "C" {
VecV stub_rus(VecVr a, VecVr b, int d, Par &) { return uf2(FN[0], VecV(a), VecV(b), d); }
VecV stub_roe(VecVr a, VecVr b, int d, Par &) { return uf2(FN[1], VecV(a), VecV(b), d); }
VecV stub_osh(VecVr a, VecVr b, int d, Par &) { return uf2(FN[2], VecV(a), VecV(b), d); }
VecV stub_bint(VecVr a, VecVr b, int d, Par &) { return uf2("BINT", VecV(a), VecV(b), d); }
void stub_bdot(VecVr r, VecVr q, VecVr x, int d, Par &) { r = uf2("BDOT", VecV(q), VecV(x), d); }
void stub_source(VecVr r, VecVr q, Par &) { r = uf1("SRC", VecV(q)); }
double stub_speed(VecVr q, int d, Par &) {
  double x[V + 1];
  for (int i = 0; i < V; i++) x[i] = q(i);
  x[V] = d;
  double s = __sx_uf("SPEED", V + 1, x, 0);
  __sx_assume(s > 0);
  return s;
}
// ------------------------------------------------------------ one time step of the finite-volume update
static VecV at(const double *rec, int n, const double *w) {
  VecV r = VecV::Zero();
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) r(v) += w[i] * rec[i * V + v];
  return r;
}
void h_update1() {
  int nx = __sx_param("NX"), time = __sx_param("TIME"), src = __sx_param("SRC"), F = __sx_param("FLUX"), pat = __sx_param("MASK");
  int nt = time ? N : 1;
  Par MP;
  Vec rec((nx + 2) * nt * N * V), u(nx * V), u0, dX(1);
  reals(rec.data(), rec.size(), "r", 0.5, 2);
  reals(u.data(), u.size(), "u", -2, 2);
  u0 = u;
  iVec nX(1);
  nX(0) = nx;
  double dt = real("dt", 0.1, 1), dx = dX(0) = real("dx", 0.1, 2);
  bVec mask(nx + 2);
  for (int i = 0; i < nx + 2; i++) mask(i) = (pat >> i) & 1;
  fv_launcher(u, rec, nX, dt, dX, src, time, F, MP, mask);
  for (int t = 0; t < nt; t++) {
    double wt = time ? dt * WGHTS(t) : dt;
    for (int i = 0; i <= nx; i++) {
      if (!mask(i) || !mask(i + 1)) continue;
      double e0[N], e1[N];
      for (int k = 0; k < N; k++) { e0[k] = ENDVALS(0, k); e1[k] = ENDVALS(1, k); }
      VecV l = at(&rec((i * nt + t) * N * V), N, e1), r = at(&rec(((i + 1) * nt + t) * N * V), N, e0);
      VecV f = uf2(FN[F], l, r, 0), b = uf2("BINT", l, r, 0);
      for (int v = 0; v < V; v++) {
        if (i > 0) u0((i - 1) * V + v) -= wt / (2 * dx) * (b(v) + f(v));
        if (i < nx) u0(i * V + v) -= wt / (2 * dx) * (b(v) - f(v));
      }
    }
    for (int i = 0; i < nx; i++) {
      if (!mask(i + 1)) continue;
      for (int s = 0; s < N; s++) {
        double *q = &rec(((i + 1) * nt + t) * N * V), dv[N], one = 1;
        VecV qs = at(q + s * V, 1, &one);
        for (int k = 0; k < N; k++) dv[k] = DERVALS(s, k);
        VecV dq = at(q, N, dv), b = uf2("BDOT", qs, dq, 0), S = VecV::Zero();
        if (src) S = uf1("SRC", qs);
        for (int v = 0; v < V; v++) u0(i * V + v) += wt * WGHTS(s) * (S(v) - b(v) / dx);
      }
    }
  }
  eqn(u.data(), u0.data(), nx * V, "the update is the quadrature of face fluxes, face jumps, interior products and sources");
}
void h_update2() {
  int nx = __sx_param("NX"), ny = __sx_param("NY"), time = __sx_param("TIME"), src = __sx_param("SRC"), F = __sx_param("FLUX"), pat = __sx_param("MASK");
  int nt = time ? N : 1, NN = N * N;
  Par MP;
  Vec rec((nx + 2) * (ny + 2) * nt * NN * V), u(nx * ny * V), u0, dX(2);
  reals(rec.data(), rec.size(), "r", 0.5, 2);
  reals(u.data(), u.size(), "u", -2, 2);
  u0 = u;
  iVec nX(2);
  nX(0) = nx;
  nX(1) = ny;
  double dt = real("dt", 0.1, 1), h[2];
  for (int d = 0; d < 2; d++) dX(d) = h[d] = real("dx", d, 0.1, 2);
  bVec mask((nx + 2) * (ny + 2));
  for (int i = 0; i < mask.size(); i++) mask(i) = i != pat; // one masked cell, or none
  fv_launcher(u, rec, nX, dt, dX, src, time, F, MP, mask);
  auto cell = [&](int i, int j, int t) { return &rec(((i * (ny + 2) + j) * nt + t) * NN * V); };
  auto m = [&](int i, int j) { return mask(i * (ny + 2) + j); };
  auto edge = [&](const double *q, int d, int e, int s) {
    VecV r = VecV::Zero();
    for (int k = 0; k < N; k++) {
      int n = d == 0 ? k * N + s : s * N + k;
      for (int v = 0; v < V; v++) r(v) += ENDVALS(e, k) * q[n * V + v];
    }
    return r;
  };
  for (int t = 0; t < nt; t++) {
    double wt = time ? dt * WGHTS(t) : dt;
    for (int d = 0; d < 2; d++)
      for (int i = 0; i <= nx; i++)
        for (int j = 0; j <= ny; j++) {
          if (d == 0 ? j == 0 : i == 0) continue; // faces between ghost cells
          int i2 = i + (d == 0), j2 = j + (d == 1);
          if (!m(i, j) || !m(i2, j2)) continue;
          for (int s = 0; s < N; s++) {
            VecV l = edge(cell(i, j, t), d, 1, s), r = edge(cell(i2, j2, t), d, 0, s);
            VecV f = uf2(FN[F], l, r, d), b = uf2("BINT", l, r, d);
            double k = wt * WGHTS(s) / (2 * h[d]);
            bool in = d == 0 ? i > 0 : j > 0, out = d == 0 ? i < nx : j < ny;
            for (int v = 0; v < V; v++) {
              if (in) u0(((i - 1) * ny + j - 1) * V + v) -= k * (b(v) + f(v));
              if (out) u0(((i2 - 1) * ny + j2 - 1) * V + v) -= k * (b(v) - f(v));
            }
          }
        }
    for (int i = 1; i <= nx; i++)
      for (int j = 1; j <= ny; j++) {
        if (!m(i, j)) continue;
        const double *q = cell(i, j, t);
        for (int a = 0; a < N; a++)
          for (int b = 0; b < N; b++) {
            VecV qs, dq[2] = {VecV::Zero(), VecV::Zero()}, S = VecV::Zero();
            for (int v = 0; v < V; v++) {
              qs(v) = q[(a * N + b) * V + v];
              for (int k = 0; k < N; k++) {
                dq[0](v) += DERVALS(a, k) * q[(k * N + b) * V + v];
                dq[1](v) += DERVALS(b, k) * q[(a * N + k) * V + v];
              }
            }
            if (src) S = uf1("SRC", qs);
            for (int d = 0; d < 2; d++) S -= uf2("BDOT", qs, dq[d], d) / h[d];
            for (int v = 0; v < V; v++) u0(((i - 1) * ny + j - 1) * V + v) += wt * WGHTS(a) * WGHTS(b) * S(v);
          }
      }
  }
  eqn(u.data(), u0.data(), nx * ny * V, "the 2D update is the quadrature of face fluxes, face jumps, interior products and sources");
}
// what leaves a cell enters its neighbour: the total changes only through the ends
void h_conserve() {
  int nx = __sx_param("NX"), F = __sx_param("FLUX");
  Par MP;
  Vec rec((nx + 2) * N * V), u(nx * V), u0, dX(1);
  reals(rec.data(), rec.size(), "r", 0.5, 2);
  reals(u.data(), u.size(), "u", -2, 2);
  u0 = u;
  iVec nX(1);
  nX(0) = nx;
  double dt = real("dt", 0.1, 1);
  dX(0) = real("dx", 0.1, 2);
  bVec mask = bVec::Ones(nx + 2);
  fv_launcher(u, rec, nX, dt, dX, false, false, F, MP, mask);
  double e0[N], e1[N];
  for (int k = 0; k < N; k++) { e0[k] = ENDVALS(0, k); e1[k] = ENDVALS(1, k); }
  VecV fl = uf2(FN[F], at(&rec(0), N, e1), at(&rec(N * V), N, e0), 0);
  VecV fr = uf2(FN[F], at(&rec(nx * N * V), N, e1), at(&rec((nx + 1) * N * V), N, e0), 0);
  for (int v = 0; v < 5; v++) { // the products of the non-conservative matrix vanish here
    double s = 0;
    for (int i = 0; i < nx; i++) s += u(i * V + v) - u0(i * V + v);
    eq(s * 2 * dX(0) / dt, fl(v) - fr(v), "the total changes by the fluxes through the ends only");
  }
}
VecV stub_bint0(VecVr a, VecVr b, int d, Par &) {
  VecV r = uf2("BINT", VecV(a), VecV(b), d);
  r.head<5>().setZero();
  return r;
}
void stub_bdot0(VecVr r, VecVr q, VecVr x, int d, Par &) {
  r = uf2("BDOT", VecV(q), VecV(x), d);
  r.head<5>().setZero();
}
// ------------------------------------------------------------ numerical fluxes
static Par par() {
  Par MP;
  symParFull(MP, __sx_param("EOS"));
  if (MULTI) MP.REACTION = 1;
  return MP;
}
static VecV st(const char *n, Par &MP) {
  VecV Q = symState(n, 2);
  if (MP.EOS == SHOCK_MG) __sx_assume(MP.s * (Q(0) - MP.ρ0) < 0.95 * Q(0));
  return Q;
}
void h_rusanov() {
  Par MP = par();
  int d = __sx_param("D");
  VecV L = st("L", MP), R = st("R", MP), F = VecV::Zero(), C = VecV::Zero();
  VecV f = D_RUS(L, R, d, MP), g = D_RUS(L, L, d, MP);
  flux(F, L, d, MP);
  C = F;
  flux(F, R, d, MP);
  double a = stub_speed(L, d, MP), b = stub_speed(R, d, MP);
  double s = a > b ? a : b;
  for (int v = 0; v < V; v++) eq(f(v), F(v) + s * (L(v) - R(v)), "Rusanov: sum of the fluxes plus the largest speed times the jump");
  for (int v = 0; v < V; v++) eq(g(v), 2 * C(v), "Rusanov: equal states give twice the physical flux");
}
void h_bint() {
  Par MP = par();
  int d = __sx_param("D");
  VecV L = st("L", MP), R = st("R", MP), X = R - L, q, t, s = VecV::Zero();
  VecV b = Bint(L, R, d, MP), c = Bint(R, L, d, MP), z = Bint(L, L, d, MP);
  for (int i = 0; i < N; i++) {
    q = L + NODES(i) * X;
    Bdot(t, q, X, d, MP);
    for (int v = 0; v < V; v++) s(v) += WGHTS(i) * t(v);
  }
  for (int v = 0; v < V; v++) {
    eq(b(v), s(v), "the jump term integrates the product along the straight path");
    eq(c(v), -b(v), "the jump term changes sign with the direction of the jump");
    eq(z(v), 0, "no jump, no jump term");
  }
}
// a uniform state stays as it is
void h_uniform() {
  Par MP = par();
  int dim = __sx_param("DIM"), time = __sx_param("TIME");
  VecV Q = st("Q", MP);
  int nt = time ? N : 1, nx = 2, ny = dim == 2 ? 2 : 1;
  int cells = (nx + 2) * (dim == 2 ? ny + 2 : 1) * nt * (dim == 2 ? N * N : N);
  Vec rec(cells * V), u(nx * ny * V), dX(dim);
  for (int i = 0; i < cells; i++) rec.segment<V>(i * V) = Q;
  for (int i = 0; i < nx * ny; i++) u.segment<V>(i * V) = Q;
  iVec nX(dim);
  for (int d = 0; d < dim; d++) {
    nX(d) = d ? ny : nx;
    dX(d) = real("dx", d, 0.1, 2);
  }
  bVec mask = bVec::Ones((nx + 2) * (dim == 2 ? ny + 2 : 1));
  fv_launcher(u, rec, nX, real("dt", 0.1, 1), dX, false, time, RUSANOV, MP, mask);
  for (int i = 0; i < nx * ny; i++)
    for (int v = 0; v < V; v++) eq(u(i * V + v), Q(v), "a uniform state is preserved");
}
// Roe and Osher: the system matrix is replaced by a known one, a function of the position on the straight path between the states. The last
// variable (a level set) tells the position: it is 0 on the left and 1 on the right. The other variables are arbitrary.
static int kind = 0;
static VecV SL, SR;
static double lam(double x, int i) { return (i % 5) - 2 + 0.125 * i + (i == 3 ? 0.5 : 0) + x * ((i % 3) - 1.25); }
static double off(double x, int i) { return 1 + (i % 4) + 3 * x; }
MatV_V stub_matrix(VecVr q, int, Par &) {
  double x = q(V - 1);
  for (int v = 0; v < V - 1; v++) eq(q(v), SL(v) + x * (SR(v) - SL(v)), "the system matrix is evaluated on the straight path between the states");
  MatV_V M = MatV_V::Zero();
  if (kind == 0)
    for (int i = 0; i < V; i++) M(i, i) = lam(x, i);
  else // pairs of coupled variables: [[0,b],[1,0]] has eigenvalues +-sqrt(b) and absolute value sqrt(b) I
    for (int i = 0; i + 1 < V; i += 2) { M(i, i + 1) = off(x, i); M(i + 1, i) = 1; }
  return M;
}
static void upwind(int which) {
  Par MP = par();
  int d = __sx_param("D");
  kind = __sx_param("KIND");
  SL = st("L", MP);
  SR = st("R", MP);
  SL(V - 1) = 0;
  SR(V - 1) = 1;
  VecV f = which ? D_OSH(SL, SR, d, MP) : D_ROE(SL, SR, d, MP);
  VecV F = VecV::Zero();
  flux(F, SL, d, MP);
  flux(F, SR, d, MP);
  for (int i = 0; i < V; i++) {
    double a = 0, s = 0;
    for (int k = 0; k < N; k++) {
      double l = kind == 0 ? std::fabs(lam(NODES(k), i)) : std::sqrt(off(NODES(k), i - i % 2));
      double m = kind == 0 ? lam(NODES(k), i) : off(NODES(k), i - i % 2);
      a += WGHTS(k) * l;
      s += WGHTS(k) * m;
    }
    if (!which) a = kind == 0 ? std::fabs(s) : std::sqrt(s);
    __sx_check_tol(f(i) - F(i), a * (SL(i) - SR(i)), 1e-9, which ? "Osher: sum of the fluxes plus the averaged absolute matrix times the jump"
                                                               : "Roe: sum of the fluxes plus the absolute averaged matrix times the jump");
  }
}
void h_roe() { upwind(0); }
void h_osher() { upwind(1); }
}
