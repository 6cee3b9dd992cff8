// The nonlinear solver of the implicit steps and the linear solver inside it.
#include "common.h"
#include "src/scipy/lgmres.h"
#include "src/scipy/newton_krylov.h"
#include <functional>
#include <vector>

void _nonlin_line_search(VecFunc func, Vecr x, Vecr Fx, Vecr dx);

extern "C" {
static int solves, maxSeen;
static double steps[32], rhsSeen[32], tolSeen[32];
static double scaleX = 1;
Vec stub_lgmres(VecFunc matvec, VecFunc psolve, Vecr b, Vec x, std::vector<Vec> &outer, const double tol, const int maxiter, const int inner, const int outer_k) {
  for (int i = 0; i < x.size(); i++) eq(x(i), 0, "the linear solver starts from no step");
  rhsSeen[solves] = b(0);
  tolSeen[solves] = tol;
  Vec r(1);
  r(0) = -steps[solves++];
  return r;
}

// F is known at the points in the order they are asked for. Every residual is smaller than the last, so that full steps are taken.
void h_newton() {
  int n = __sx_param("N"), tols = __sx_param("TOLS");
  solves = 0;
  double f[32], x0 = real("x", -2, 2), ftol = 0.01, frtol = INF, xtol = INF, xrtol = INF;
  for (int i = 0; i < 12; i++) {
    f[i] = i ? f[i - 1] / (2 + i % 3) : 1;
    steps[i] = i ? steps[i - 1] * (3 + i % 2) / 10. : 1;
  }
  if (n < 6) { // arbitrary residuals and steps until one solves the problem
    for (int i = 1; i < 12; i++) f[i] = 0;
    for (int i = 1; i <= n; i++) {
      f[i] = real("f", i, 0.002, 0.9) * f[i - 1];
      steps[i - 1] = real("dx", i, 0.01, 1);
    }
  }
  if (tols & 1) ftol = real("ftol", 0.001, 0.5);
  if (tols & 2) frtol = real("frtol", 0.001, 0.5);
  if (tols & 4) xtol = real("xtol", 0.001, 1);
  if (tols & 8) xrtol = real("xrtol", 0.001, 1);
  double xs[32];
  int calls = 0;
  auto F = [&](Vecr x) {
    xs[calls] = x(0);
    Vec r(1);
    r(0) = f[calls];
    calls++;
    return r;
  };
  Vec x(1);
  x(0) = x0;
  Vec res = nonlin_solve(F, x, ftol, frtol, xtol, xrtol);
  // what it should have done
  double at = x0;
  int k = 0;
  for (; k < 6; k++) {
    bool done = false;
    if (k > 0) {
      done = f[k] == 0;
      if (done) break;
      done = f[k] <= ftol && (frtol == INF || f[k] <= frtol * f[0]);
      if (done) done = xtol == INF || steps[k - 1] <= xtol;
      if (done) done = xrtol == INF || steps[k - 1] <= xrtol * std::fabs(at);
    }
    if (done) break;
    at += steps[k];
  }
  __sx_check(solves <= 6, "at most three iterations for every unknown and three more");
  __sx_check(solves == k, "the iteration stops when the residual and the step are below their tolerances, and only then");
  eq(res(0), at, "the steps are the linear solutions, added up");
  __sx_check(calls == k + 1, "the residual is evaluated once for every full step");
  at = x0;
  for (int i = 0; i < k; i++) {
    eq(xs[i], at, "the residual is evaluated where the iteration stands");
    eq(rhsSeen[i], f[i], "every linear problem has the residual on its right");
    double norm = i ? f[i] : f[0];
    __sx_check(tolSeen[i] <= norm && tolSeen[i] < 1 && tolSeen[i] > 0, "linear problems are solved to a part of the residual");
    at += steps[i];
  }
}

// K trials are rejected, the next residual is arbitrary
void h_search() {
  int K = __sx_param("K"), all = __sx_param("ALL");
  double x0 = real("x", -2, 2), d = real("d", 0.1, 2), f0 = real("f", 0.5, 2);
  double f[40], at[40];
  int calls = 0;
  for (int i = 0; i < 40; i++) f[i] = (all ? real("bad", i, 1.0, 3) : 1 + (i * 5 % 7) / 4.) * f0;
  if (K >= 0) f[K] = real("good", 0.01, 3);
  if (__sx_param("AFTER")) f[K + 1] = f0 / 1000;
  auto F = [&](Vecr x) {
    at[calls] = x(0);
    Vec r(1);
    r(0) = f[calls];
    calls++;
    return r;
  };
  Vec x(1), Fx(1), dx(1);
  x(0) = x0;
  Fx(0) = f0;
  dx(0) = d;
  _nonlin_line_search(F, x, Fx, dx);
  __sx_check(calls > 0 && calls < 40, "the search ends");
  int last = calls - 1;
  eq(x(0), at[last], "the iterate ends where the residual was last evaluated");
  eq(Fx(0), f[last], "the residual belongs to the iterate");
  eq(dx(0), d, "the search direction is not changed");
  eq(at[0], x0 + d, "the full step is tried first");
  double s = (at[last] - x0) / d;
  auto good = [&](int i) { double si = (at[i] - x0) / d; if (i == 0) si = 1; return f[i] * f[i] <= (1 - 1e-4 * si) * f0 * f0; };
  if (!good(last)) {
    eq(s, 1, "a step without enough decrease is taken only in full, when the search has failed");
    double al = f0 * f0 / (2 * f[0] * f[0]);
    int n = 2;
    for (; al > 0.01; al /= 2) n++;
    __sx_check(last == n, "the search fails only below a hundredth of the step");
  }
  if (last > 0) eq((at[1] - x0) / d, f0 * f0 / (2 * f[0] * f[0]), "the second trial is where the parabola through the values and the slope is lowest");
  for (int i = 0; i < last; i++) __sx_check(!good(i), "the first step with enough decrease is taken");
}

// the Jacobian of an affine function
void h_matvec() {
  int D = __sx_param("DIM"), zero = __sx_param("ZERO"), upd = __sx_param("UPDATE");
  Mat A(D, D);
  Vec c(D), x(D), v(D), f(D);
  reals(A.data(), D * D, "A", 0.1, 2);
  reals(c.data(), D, "c", 0.1, 2);
  reals(x.data(), D, "x", 0.1, 2);
  reals(v.data(), D, "v", -2, 2);
  if (!zero) { double n = 0; for (int i = 0; i < D; i++) n += v(i) * v(i); __sx_assume(n > 0.01); }
  Vec at(D);
  if (zero) for (int i = 0; i < D; i++) v(i) = 0;
  auto F = [&](Vecr y) {
    Vec r(D);
    at = y;
    for (int i = 0; i < D; i++) {
      r(i) = c(i);
      for (int j = 0; j < D; j++) r(i) += A(i, j) * y(j);
    }
    return r;
  };
  f = F(x);
  KrylovJacobian J(x, f, F);
  if (upd) {
    for (int i = 0; i < D; i++) x(i) = real("xx", i, 0.1, 2);
    f = F(x);
    J.update(x, f);
  }
  Vec r = J.matvec(v);
  double mx = 1, mf = 1, d2 = 0;
  for (int i = 0; i < D; i++) {
    mx = std::max(mx, x(i));
    mf = std::max(mf, f(i));
    d2 += (at(i) - x(i)) * (at(i) - x(i));
  }
  double h2 = 2.220446049250313e-16 * mx * mx / (mf * mf);
  __sx_check_tol(d2 * 1e16, zero ? 0 : h2 * 1e16, 1e-3 * h2 * 1e16, "differences are over the square root of the rounding error, in units of the iterate over the residual");
  for (int i = 0; i < D; i++) {
    double s = 0;
    for (int j = 0; j < D; j++) s += A(i, j) * v(j);
    __sx_scale(1e8);
    eq(r(i), s, "products with the Jacobian are directional derivatives of the residual");
  }
  Vec p = J.psolve(v);
  for (int i = 0; i < D; i++) eq(p(i), v(i), "there is no preconditioner");
}

// A x = b from an arbitrary start, with a residual of any size along given directions
void h_lgmres() {
  int D = __sx_param("DIM"), dir = __sx_param("DIR"), outer = __sx_param("OUTER");
  Mat A(D, D);
  for (int i = 0; i < D; i++)
    for (int j = 0; j < D; j++) A(i, j) = i == j ? 3 + i : ((i * 5 + j * 3) % 7 - 3) / 4.;
  Vec x(D), b(D), start(D);
  double t = dir < 0 ? 0 : real("t", 0.1, 3);
  int pre = __sx_param("PRE");
  reals(x.data(), D, "x", -2, 2);
  start = x;
  for (int i = 0; i < D; i++) b(i) = t * ((dir * (i + 2) + i) % 5 - 2.5);
  for (int i = 0; i < D; i++)
    for (int j = 0; j < D; j++) b(i) += A(i, j) * x(j);
  int calls = 0;
  auto mv = [&](Vecr y) {
    calls++;
    Vec r(D);
    for (int i = 0; i < D; i++) {
      r(i) = 0;
      for (int j = 0; j < D; j++) r(i) += A(i, j) * y(j);
    }
    return r;
  };
  auto ps = [&](Vecr y) {
    Vec r(D);
    for (int i = 0; i < D; i++) r(i) = (pre ? 1 / (2. + i) : 1) * y(i);
    return r;
  };
  std::vector<Vec> ov;
  for (int k = 0; k < outer; k++) {
    Vec o = Vec::Zero(D);
    o(k % D) = 1;
    ov.push_back(o);
  }
  int keep = __sx_param("KEEP");
  Vec res = lgmres(mv, ps, b, start, ov, 1e-11, 1, 30, keep);
  for (int i = 0; i < D; i++) {
    double s = 0;
    for (int j = 0; j < D; j++) s += A(i, j) * res(j);
    __sx_check_tol(s, b(i), 1e-9, "the linear problem is solved");
  }
  if (dir < 0) {
    for (int i = 0; i < D; i++) eq(res(i), start(i), "a solved problem is left alone");
    __sx_check((int)ov.size() == outer && calls == 1, "a solved problem costs one product");
    return;
  }
  int want = outer + 1 < keep ? outer + 1 : keep;
  __sx_check((int)ov.size() == want, "the latest corrections are kept for the next problem");
  if (want) {
    double n = 0;
    for (int i = 0; i < D; i++) n += (res(i) - x(i)) * (res(i) - x(i));
    for (int i = 0; i < D; i++) __sx_check_tol(ov.back()(i) * ov.back()(i) * n, (res(i) - x(i)) * (res(i) - x(i)), 1e-9, "corrections are kept normalised");
  }
}

// the wrapper hands the matrices over
static Mat *Ap, *Mp;
static Vec *xp, *bp;
Vec stub_wrapped(VecFunc matvec, VecFunc psolve, Vecr b, Vec x, std::vector<Vec> &outer, const double tol, const int maxiter, const int inner, const int outer_k) {
  int D = b.size();
  Vec v(D);
  reals(v.data(), D, "v", -2, 2);
  Vec av = matvec(v), mv = psolve(v);
  for (int i = 0; i < D; i++) {
    double s = 0, m = 0;
    for (int j = 0; j < D; j++) {
      s += (*Ap)(i, j) * v(j);
      m += (Mp->rows() ? (*Mp)(i, j) : i == j) * v(j);
    }
    eq(av(i), s, "products are with the matrix given");
    eq(mv(i), m, "the preconditioner is the one given, or none");
    eq(b(i), (*bp)(i), "the right hand side is the one given");
    eq(x(i), xp->size() ? (*xp)(i) : 0, "the start is the one given, or zero");
  }
  __sx_check(tol == 0.5 && maxiter == 3 && inner == 4 && outer_k == 5 && outer.size() == 2, "options are passed on");
  solves++;
  return v;
}
void h_wrapper() {
  int D = 2, m = __sx_param("PRE"), st = __sx_param("START");
  Mat A(D, D), M(m ? D : 0, m ? D : 0);
  Vec b(D), x(st ? D : 0);
  reals(A.data(), D * D, "A", -2, 2);
  if (m) reals(M.data(), D * D, "M", -2, 2);
  reals(b.data(), D, "b", -2, 2);
  if (st) reals(x.data(), D, "x", -2, 2);
  Ap = &A, Mp = &M, xp = &x, bp = &b;
  solves = 0;
  std::vector<Vec> ov(2);
  Vec r = lgmres_wrapper(A, b, x, M, 0.5, 3, 4, 5, ov);
  __sx_check(solves == 1 && r.size() == D, "one problem is solved");
}
}
