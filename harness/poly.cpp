// Quadrature, polynomials, nodal basis, WENO reconstruction.
#include "common.h"
#include "src/scipy/legendre.h"
#include "src/scipy/poly.h"
#include "src/solvers/dg/dg_matrices.h"
#include "src/solvers/poly/basis.h"
#include "src/solvers/poly/evaluations.h"
#include "src/solvers/weno/weno.h"
#include "src/solvers/weno/weno_matrices.h"
#include "src/system/functions/matrices.h"

static const double TOL = 1e-9;
static double ev(const double *c, int n, double x) {
  double r = 0;
  for (int i = n - 1; i >= 0; i--) r = r * x + c[i];
  return r;
}
static double integral(const double *c, int n, double a, double b) {
  double r = 0, pa = a, pb = b;
  for (int i = 0; i < n; i++) {
    r += c[i] * (pb - pa) / (i + 1);
    pa *= a;
    pb *= b;
  }
  return r;
}
static void der(const double *c, int n, double *d) {
  for (int i = 0; i + 1 < n; i++) d[i] = c[i + 1] * (i + 1);
}
extern "C" {
// n-point Gauss-Legendre quadrature integrates every polynomial of degree 2n-1
void h_gauss() {
  int n = __sx_param("DEG");
  std::vector<Vec> g = leggauss(n);
  double c[16];
  reals(c, 2 * n, "c", -1, 1);
  double s = 0;
  for (int i = 0; i < n; i++) s += g[1](i) * ev(c, 2 * n, g[0](i));
  __sx_check_tol(s, integral(c, 2 * n, -1, 1), TOL, "Gauss quadrature is exact up to degree 2n-1");
  for (int i = 0; i < n; i++) {
    __sx_check(g[1](i) > 0, "quadrature weights are positive");
    __sx_check(-1 < g[0](i) && g[0](i) < 1 && (i == 0 || g[0](i - 1) < g[0](i)), "quadrature nodes lie inside the interval, in order");
  }
}
// the nodes and weights on [0,1]
void h_scaled() {
  VecN x = scaled_nodes(), w = scaled_weights();
  double c[2 * N];
  reals(c, 2 * N, "c", -1, 1);
  double s = 0, t = 0;
  for (int i = 0; i < N; i++) {
    s += w(i) * ev(c, 2 * N, x(i));
    t += WGHTS(i) * ev(c, 2 * N, NODES(i));
  }
  __sx_check_tol(s, integral(c, 2 * N, 0, 1), TOL, "scaled quadrature is exact on the unit interval");
  __sx_check_tol(t, s, TOL, "the solver uses these nodes and weights");
}
void h_polynomial() {
  int n = __sx_param("LEN"), m = 3;
  double a[8], b[8], d[8];
  a[0] = real("a", -2, 2);
  for (int i = 1; i < n; i++) a[i] = a[i - 1] + real("d", i, -2, 2);
  reals(b, m, "b", -2, 2);
  double x = real("x", -2, 2);
  Vec pa(n), pb(m);
  for (int i = 0; i < n; i++) pa(i) = a[i];
  for (int i = 0; i < m; i++) pb(i) = b[i];
  poly p(pa), q(pb);
  eq(p.eval(x), ev(a, n, x), "value of a polynomial");
  poly i = p.intt();
  eq(i.eval(x) - i.eval(0), integral(a, n, 0, x), "antiderivative of a polynomial");
  eq(i.eval(0), 0, "the antiderivative vanishes at zero");
  eq((p * q).eval(x), ev(a, n, x) * ev(b, m, x), "product of polynomials");
  double k = real("k", 0.5, 3);
  eq((p / k).eval(x), ev(a, n, x) / k, "a polynomial over a number");
  double *src = a;
  double tmp[8];
  for (int j = 0; j < n; j++) d[j] = a[j];
  for (int o = 1; o < n; o++) {
    der(d, n - o + 1, tmp);
    for (int j = 0; j < n - o; j++) d[j] = tmp[j];
    eq(p.diff(o).eval(x), ev(d, n - o, x), "derivative of a polynomial");
  }
  (void)src;
  eq(p.diff(0).eval(x), ev(a, n, x), "zeroth derivative");
}
// Lagrange polynomials on arbitrary distinct nodes
void h_lagrange() {
  int n = __sx_param("LEN");
  Vec x(n);
  for (int i = 0; i < n; i++) {
    x(i) = real("x", i, 0, 1);
    for (int j = 0; j < i; j++) __sx_assume(x(i) - x(j) > 0.05);
  }
  for (int i = 0; i < n; i++) {
    poly p = lagrange(x, i);
    __sx_check(p.coef.size() == n, "degree of a Lagrange polynomial");
    for (int j = 0; j < n; j++) eq(p.eval(x(j)), i == j ? 1 : 0, "a Lagrange polynomial is one at its node and zero at the others");
  }
}
// the nodal basis on the quadrature nodes: end values and derivatives of any interpolated polynomial
void h_basis() {
  double c[N], d[N + 1];
  reals(c, N, "c", -1, 1);
  der(c, N, d);
  std::vector<poly> psi = basis_polys();
  double x = real("x", -1, 2), s = 0, e0 = 0, e1 = 0;
  __sx_check(psi.size() == N, "number of basis polynomials");
  for (int i = 0; i < N; i++) {
    double u = ev(c, N, NODES(i));
    s += u * psi[i].eval(x);
    e0 += ENDVALS(0, i) * u;
    e1 += ENDVALS(1, i) * u;
  }
  __sx_check_tol(s, ev(c, N, x), TOL, "the basis reproduces polynomials");
  __sx_check_tol(e0, ev(c, N, 0), TOL, "left end value of the interpolant");
  __sx_check_tol(e1, ev(c, N, 1), TOL, "right end value of the interpolant");
  for (int i = 0; i < N; i++) {
    double dd = 0;
    for (int j = 0; j < N; j++) dd += DERVALS(i, j) * ev(c, N, NODES(j));
    __sx_check_tol(dd, ev(d, N - 1, NODES(i)), TOL, "derivative of the interpolant at the nodes");
  }
}
// the helper functions on arbitrary polynomials
void h_basis_helpers() {
  std::vector<poly> b(N);
  double c[N][3], d[3];
  for (int i = 0; i < N; i++) {
    Vec v(3);
    for (int j = 0; j < 3; j++) v(j) = c[i][j] = real("c", 10 * i + j, -1, 1);
    b[i] = poly(v);
  }
  VecN x;
  for (int i = 0; i < N; i++) x(i) = real("x", i, 0, 1);
  Mat2_N e = end_values(b);
  MatN_N D = derivative_values(b, x);
  for (int j = 0; j < N; j++) {
    eq(e(0, j), ev(c[j], 3, 0), "end_values: left");
    eq(e(1, j), ev(c[j], 3, 1), "end_values: right");
    der(c[j], 3, d);
    for (int i = 0; i < N; i++) eq(D(i, j), ev(d, 2, x(i)), "derivative_values");
  }
}
// derivatives and end values of tensor-product polynomials
void h_eval2d() {
  double c[N][N];
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) c[i][j] = real("c", 10 * i + j, -1, 1);
  auto val = [&](double x, double y, int dx, int dy) {
    double r = 0;
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        double a = 1, b = 1;
        for (int k = 0; k < i - dx; k++) a *= x;
        for (int k = 0; k < j - dy; k++) b *= y;
        if (dx) a = i ? a * i : 0;
        if (dy) b = j ? b * j : 0;
        r += c[i][j] * a * b;
      }
    return r;
  };
  int col = __sx_param("COL");
  MatN2_V q, r0, r1;
  MatN_V e;
  for (int s = 0; s < N * N; s++)
    for (int v = 0; v < V; v++) q(s, v) = v == col ? val(NODES(s / N), NODES(s % N), 0, 0) : v;
  derivs2d(r0, q, 0);
  derivs2d(r1, q, 1);
  for (int s = 0; s < N * N; s++)
    for (int v = 0; v < V; v++) {
      __sx_check_tol(r0(s, v), v == col ? val(NODES(s / N), NODES(s % N), 1, 0) : 0, TOL, "x derivative at the nodes");
      __sx_check_tol(r1(s, v), v == col ? val(NODES(s / N), NODES(s % N), 0, 1) : 0, TOL, "y derivative at the nodes");
    }
  for (int d = 0; d < 2; d++)
    for (int k = 0; k < 2; k++) {
      endpts2d(e, q, d, k);
      for (int s = 0; s < N; s++)
        for (int v = 0; v < V; v++)
          __sx_check_tol(e(s, v), v == col ? (d == 0 ? val(k, NODES(s), 0, 0) : val(NODES(s), k, 0, 0)) : v, TOL, "values on an edge of the cell");
    }
}
// ------------------------------------------------------------------ WENO
// Cell averages of a polynomial determine it on each stencil, and the
// smoothness of a polynomial is the sum of the squared L2 norms of its derivatives.
void h_weno_matrices() {
  double c[N], avg[2 * N - 1], u[N];
  reals(c, N, "c", -1, 1);
  for (int k = 0; k < 2 * N - 1; k++) avg[k] = integral(c, N, k - (N - 1), k - (N - 1) + 1);
  for (int i = 0; i < N; i++) u[i] = ev(c, N, NODES(i));
  auto chk = [&](const Mat &M, int off, const char *m) {
    for (int i = 0; i < N; i++) {
      double s = 0;
      for (int j = 0; j < N; j++) s += M(i, j) * avg[off + j];
      __sx_check_tol(s, u[i], 1e-8, m);
    }
  };
  if (N <= 4) {
    chk(mLinv, 0, "left stencil");
    chk(mRinv, N - 1, "right stencil");
    if (N > 2) chk(mCLinv, FN2, "left central stencil");
    if (N > 2 && N % 2 == 0) chk(mCRinv, CN2, "right central stencil");
  }
  double oi = 0, s = 0, d[N + 1], t[N + 1], sq[2 * N];
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) s += u[i] * SIG(i, j) * u[j];
  for (int i = 0; i < N; i++) d[i] = c[i];
  for (int a = 1; a < N; a++) {
    der(d, N - a + 1, t);
    for (int i = 0; i < N - a; i++) d[i] = t[i];
    for (int i = 0; i < 2 * N; i++) sq[i] = 0;
    for (int i = 0; i < N - a; i++)
      for (int j = 0; j < N - a; j++) sq[i + j] += d[i] * d[j];
    oi += integral(sq, 2 * N - 1, 0, 1);
  }
  __sx_check_tol(s, oi, 1e-7, "smoothness of a polynomial");
}
static Vec launch1(const double *avg, int nx, int col, Par &MP) {
  // nx real cells: averages of nx + 2N cells
  Vec ub(V * (nx + 2 * N)), wh(V * N * (nx + 2));
  for (int i = 0; i < nx + 2 * N; i++)
    for (int v = 0; v < V; v++) ub(i * V + v) = v == col ? avg[i] : v * 0.5;
  for (int i = 0; i < wh.size(); i++) wh(i) = 7;
  iVec nX(1);
  nX(0) = nx;
  weno_launcher(wh, ub, nX, MP);
  return wh;
}
// polynomials of degree N-1 are reproduced, variables are independent
void h_weno_exact() {
  Par MP;
  int col = __sx_param("COL"), nx = 2;
  double c[N], avg[2 + 2 * N];
  reals(c, N, "c", -1, 1);
  for (int i = 0; i < nx + 2 * N; i++) avg[i] = integral(c, N, i - N, i - N + 1);
  Vec wh = launch1(avg, nx, col, MP);
  for (int i = 0; i < nx + 2; i++)
    for (int s = 0; s < N; s++)
      for (int v = 0; v < V; v++)
        __sx_check_tol(wh((i * N + s) * V + v), v == col ? ev(c, N, i - 1 + NODES(s)) : v * 0.5, 1e-7, "WENO reproduces polynomials");
}
// N = 2: the reconstruction in closed form for arbitrary cell averages
static double slopes(double l, double c, double r) {
  double a = c - l, b = r - c, wa = a * a + EPS, wb = b * b + EPS;
  wa = wa * wa; wa = wa * wa; wa = wa * wa;
  wb = wb * wb; wb = wb * wb; wb = wb * wb;
  return (a / wa + b / wb) / (1 / wa + 1 / wb);
}
void h_weno_closed() {
  Par MP;
  int col = __sx_param("COL"), nx = 1;
  double avg[1 + 2 * N];
  avg[0] = real("a", -2, 2);
  for (int i = 1; i < nx + 2 * N; i++) avg[i] = avg[i - 1] + real("d", i, -2, 2);
  Vec wh = launch1(avg, nx, col, MP);
  for (int i = 0; i < nx + 2; i++) {
    double sl = slopes(avg[i], avg[i + 1], avg[i + 2]), mean = 0;
    for (int s = 0; s < N; s++) {
      double w = wh((i * N + s) * V + col);
      mean += WGHTS(s) * w;
      eq(w, avg[i + 1] + (NODES(s) - 0.5) * sl, "WENO reconstruction: smoothness-weighted mean of the one-sided slopes");
    }
    eq(mean, avg[i + 1], "the reconstruction keeps the cell average");
  }
}
// 2D. Data: averages of c0 + c1 x + c2 y + c3 x y (all weights then agree)
static Vec launch2(const double *avg, int nx, int ny, int col, Par &MP) {
  int n = (nx + 2 * N) * (ny + 2 * N);
  Vec ub(V * n), wh(V * N * N * (nx + 2) * (ny + 2));
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) ub(i * V + v) = v == col ? avg[i] : v * 0.5;
  for (int i = 0; i < wh.size(); i++) wh(i) = 7;
  iVec nX(2);
  nX(0) = nx;
  nX(1) = ny;
  weno_launcher(wh, ub, nX, MP);
  return wh;
}
void h_weno2_exact() {
  Par MP;
  int col = __sx_param("COL"), nx = __sx_param("NX"), ny = __sx_param("NY");
  double c[4], avg[200];
  reals(c, 4, "c", -1, 1);
  for (int i = 0; i < nx + 2 * N; i++)
    for (int j = 0; j < ny + 2 * N; j++) {
      double x = i - N + 0.5, y = j - N + 0.5;
      avg[i * (ny + 2 * N) + j] = c[0] + c[1] * x + c[2] * y + c[3] * x * y;
    }
  Vec wh = launch2(avg, nx, ny, col, MP);
  for (int i = 0; i < nx + 2; i++)
    for (int j = 0; j < ny + 2; j++)
      for (int a = 0; a < N; a++)
        for (int b = 0; b < N; b++)
          for (int v = 0; v < V; v++) {
            double x = i - 1 + NODES(a), y = j - 1 + NODES(b);
            __sx_check_tol(wh(((i * (ny + 2) + j) * N * N + a * N + b) * V + v), v == col ? c[0] + c[1] * x + c[2] * y + c[3] * x * y : v * 0.5, 1e-7,
                           "2D WENO reproduces bilinear data");
          }
}
// data that vary along one axis only: the 1D reconstruction along it
void h_weno2_axis() {
  Par MP;
  int col = __sx_param("COL"), ax = __sx_param("AX"), nx = 3, ny = 3, n = 3 + 2 * N;
  double a[8], avg[200];
  a[0] = real("a", -2, 2);
  for (int i = 1; i < n; i++) a[i] = a[i - 1] + real("d", i, -2, 2);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) avg[i * n + j] = a[ax ? j : i];
  Vec wh = launch2(avg, nx, ny, col, MP);
  int i = 2, j = 2; // the middle cell: all stencils are used
  double sl = slopes(a[i], a[i + 1], a[i + 2]);
  for (int p = 0; p < N; p++)
    for (int q = 0; q < N; q++)
      eq(wh(((i * (ny + 2) + j) * N * N + p * N + q) * V + col), a[i + 1] + (NODES(ax ? q : p) - 0.5) * sl, "2D WENO of one-dimensional data is the 1D reconstruction");
}
// values in the corners of the ghost frame do not reach the real cells
void h_weno2_corners() {
  Par MP;
  int nx = __sx_param("NX"), ny = __sx_param("NY"), mx = nx + 2 * N, my = ny + 2 * N;
  double avg[200], ref[200];
  for (int i = 0; i < mx; i++)
    for (int j = 0; j < my; j++) {
      bool cx = i < N || i >= mx - N, cy = j < N || j >= my - N;
      ref[i * my + j] = avg[i * my + j] = 1 + 0.25 * i - 0.5 * j;
      if (cx && cy) avg[i * my + j] = real("a", i * my + j, -2, 2);
    }
  Vec wh = launch2(avg, nx, ny, 0, MP), w0 = launch2(ref, nx, ny, 0, MP);
  for (int i = 1; i <= nx; i++)
    for (int j = 1; j <= ny; j++)
      for (int s = 0; s < N * N; s++) {
        int k = ((i * (ny + 2) + j) * N * N + s) * V;
        eq(wh(k), w0(k), "the reconstruction of a real cell does not use the corners of the ghost frame");
      }
}
}
