// The time loop: step size, assembly of the solution, clean-up of the distortion.
#include "common.h"
#include "src/multi/fill.h"
#include "src/solvers/iterator.h"
#include "src/solvers/steppers.h"
#include "src/solvers/utils.h"
#include "src/system/energy/eos.h"
#include "src/system/functions/vectors.h"
#include "src/system/variables/state.h"

void limit_concentration(Vecr u);

static std::vector<Par> mats(int n, int vac) {
  std::vector<Par> r(n);
  for (int i = 0; i < n; i++) {
    char t[2] = {(char)('a' + i), 0};
    symPar(r[i], 0, t);
    if (i == vac) r[i].EOS = -1;
    r[i].SOLID = r[i].POWER_LAW = r[i].MULTI = r[i].BINGHAM = false;
    r[i].REACTION = -1;
  }
  return r;
}
extern "C" {
double stub_speed(VecVr q, int d, Par &MP) {
  double x[V + 2];
  for (int i = 0; i < V; i++) x[i] = q(i);
  x[V] = d;
  x[V + 1] = MP.ρ0;
  double s = __sx_uf("SPEED", V + 2, x, 0);
  __sx_assume(s > 0.01);
  return s;
}
void h_timestep() {
  int nm_ = __sx_param("NMAT"), dim = __sx_param("DIM"), count = __sx_param("COUNT"), vac = __sx_param("VAC"), nc = __sx_param("CELLS");
  std::vector<Par> MPs = mats(nm_, vac);
  std::vector<Vec> g(nm_);
  std::vector<bVec> m(nm_);
  bool any = false;
  for (int k = 0; k < nm_; k++) {
    g[k].resize(nc * V);
    m[k].resize(nc);
    for (int i = 0; i < nc; i++) {
      for (int v = 0; v < V; v++) g[k](i * V + v) = real("q", (k * nc + i) * V + v, 0.5, 2);
      char b[16];
      nm(b, "m", k * nc + i);
      m[k](i) = __sx_bool(b);
      if (k != vac) any |= m[k](i);
    }
  }
  __sx_assume(any);
  Vec dX(dim);
  for (int d = 0; d < dim; d++) dX(d) = real("dx", d, 0.1, 2);
  aVec aX = dX.array();
  double CFL = real("CFL", 0.1, 1), t = real("t", 0, 1), tf = t + real("left", 0.01, 5);
  double dt = timestep(g, m, aX, CFL, t, tf, count, MPs, nm_);
  double k0 = count <= 5 ? 0.2 : 1;
  bool tight = dt == tf - t;
  __sx_check(dt > 0, "the step is positive");
  __sx_check(dt <= tf - t, "the step does not pass the end of the run");
  for (int k = 0; k < nm_; k++)
    for (int i = 0; i < nc; i++)
      if (k != vac && m[k](i)) {
        double s = 0;
        for (int d = 0; d < dim; d++) s += stub_speed(g[k].segment<V>(i * V), d, MPs[k]) / dX(d);
        __sx_check(dt * s <= k0 * CFL, "the step respects the stability limit of every live cell");
        tight |= dt * s == k0 * CFL;
      }
  __sx_check(tight, "the step is the largest allowed");
}
void h_make_u() {
  int nm_ = __sx_param("NMAT"), vac = __sx_param("VAC");
  std::vector<Par> MPs = mats(nm_, vac);
  std::vector<Vec> g(nm_);
  std::vector<bVec> m(nm_);
  int nc = 2;
  Vec u(nc * V);
  reals(u.data(), nc * V, "u", -2, 2);
  for (int k = 0; k < nm_; k++) {
    char b[16];
    nm(b, "g", k);
    b[5] = 0;
    g[k].resize(nc * V);
    m[k].resize(nc);
    for (int i = 0; i < nc * V; i++) g[k](i) = real("g", k * 100 + i, -2, 2);
    for (int i = 0; i < nc; i++) {
      char c[16];
      nm(c, "m", k * nc + i);
      m[k](i) = i == 0 ? __sx_bool(c) : (k + 1) % 2;
    }
    for (int l = 0; l < LSET; l++) if (nm_ <= LSET && l >= nm_ - 1) g[k](V - LSET + l) = g[k](2 * V - LSET + l) = u(V - LSET + l) = u(2 * V - LSET + l) = -1; // unused level sets
  }
  Vec u0 = u;
  make_u(u, g, m, MPs);
  for (int i = 0; i < nc; i++) {
    int cnt = 0, idx = 0;
    double ls[LSET];
    for (int l = 0; l < LSET; l++) ls[l] = 0;
    for (int k = 0; k < nm_; k++)
      if (m[k](i)) {
        cnt++;
        for (int l = 0; l < LSET; l++) ls[l] += g[k](i * V + V - LSET + l);
      }
    for (int l = 0; l < LSET; l++) {
      ls[l] = cnt ? ls[l] / cnt : u0(i * V + V - LSET + l);
      eq(u(i * V + V - LSET + l), ls[l], "level sets are the mean over the materials computed here, or kept");
      if (ls[l] >= 0) idx++;
    }
    for (int v = 0; v < V - LSET; v++)
      eq(u(i * V + v), idx == vac ? 0 : g[idx](i * V + v), "the state is that of the material the level sets point at, zero in vacuum");
  }
}
void h_limit() {
  int nc = 2;
  Vec u(nc * V);
  for (int i = 0; i < nc * V; i++) u(i) = real("u", i, i % V == 0 ? 0.1 : -3, 3);
  Vec u0 = u;
  limit_concentration(u);
  for (int i = 0; i < nc; i++)
    for (int v = 0; v < V; v++) {
      double x = u0(i * V + v), r = u0(i * V);
      if (MULTI && v == mV) x = x < 0 ? 0 : x > r ? r : x;
      eq(u(i * V + v), x, "the concentration is clamped between zero and one, everything else is kept");
    }
}
// ---- distortion
static Vec cells(int nc, int vac) {
  Vec u(nc * V);
  for (int i = 0; i < nc * V; i++) u(i) = real("u", i, i % V == 0 ? 0.2 : -2, 2);
  for (int i = 0; i < nc; i++) // cell i belongs to material i % 3
    for (int l = 0; l < LSET; l++) u(i * V + V - LSET + l) = l < i % 3 ? 0.5 : -0.5;
  if (vac >= 0) u(vac * V) = 0;
  return u;
}
static double det(const double *a) { return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]); }
void h_renorm() {
  std::vector<Par> MPs = mats(3, 1);
  Vec u = cells(3, 1), u0;
  for (int i = 0; i < 3; i++) __sx_assume(det(&u(i * V + 5)) > 0.01);
  u0 = u;
  renorm_distortion(u, MPs);
  for (int i = 0; i < 3; i++) {
    bool vac = i == 1;
    double *a = &u(i * V + 5), *b = &u0(i * V + 5);
    if (!vac) eq(det(a) * MPs[i].ρ0, u0(i * V), "afterwards the volume of the distortion matches the density");
    for (int v = 0; v < V; v++) {
      if (v < 5 || v >= 14 || vac) eq(u(i * V + v), u0(i * V + v), "nothing else changes, vacuum is left alone");
      else eq(a[v - 5] * b[0], a[0] * b[v - 5], "the distortion is only scaled");
    }
  }
}
void h_reset() {
  std::vector<Par> MPs = mats(3, 1);
  Vec u = cells(3, 1), u0 = u;
  reset_distortion(u, MPs);
  for (int i = 0; i < 3; i++) {
    bool vac = i == 1;
    if (vac) {
      for (int v = 0; v < V; v++) eq(u(i * V + v), u0(i * V + v), "vacuum is left alone");
      continue;
    }
    Par &MP = MPs[i];
    double *a = &u(i * V + 5);
    VecV q = u.segment<V>(i * V), p = u0.segment<V>(i * V);
    eq(det(a) * MP.ρ0, u(i * V), "afterwards the volume of the distortion matches the density");
    for (int k = 0; k < 9; k++) eq(a[k], k % 4 ? 0 : a[0], "afterwards the distortion carries no shear");
    eq(pressure(q, MP), pressure(p, MP), "pressure does not change");
    for (int v = 0; v < V; v++)
      if (v != 1 && (v < 5 || v >= 14)) eq(q(v), p(v), "mass, momentum and level sets do not change");
  }
}
// the distortion is a diagonal matrix
static void diagonal(Vec &u, int i, double *s, int perm) {
  for (int k = 0; k < 9; k++) u(i * V + 5 + k) = 0;
  for (int k = 0; k < 3; k++) {
    s[k] = real("s", i * 3 + k, 0.3, 2);
    u(i * V + 5 + 3 * k + (k + perm) % 3) = s[k];
  }
}
void h_rotate() {
  std::vector<Par> MPs = mats(3, 1);
  Vec u = cells(1, -1), u0;
  double s[3];
  diagonal(u, 0, s, __sx_param("PERM"));
  u0 = u;
  rotate_distortion(u, MPs);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double a = 0, b = 0;
      for (int k = 0; k < 3; k++) {
        a += u(5 + 3 * k + i) * u(5 + 3 * k + j);
        b += u0(5 + 3 * k + i) * u0(5 + 3 * k + j);
      }
      eq(a, b, "rotating the reference configuration keeps the metric of the distortion");
    }
  for (int v = 0; v < V; v++)
    if (v < 5 || v >= 14) eq(u(v), u0(v), "nothing but the distortion changes");
}
void h_contorted() {
  int perm = __sx_param("PERM"), at = __sx_param("AT");
  Vec u = cells(2, -1);
  double s[3], tol = real("tol", 0.01, 0.5);
  for (int k = 0; k < 9; k++) u((1 - at) * V + 5 + k) = k % 4 ? 0 : 0.75; // uniformly compressed
  for (int k = 0; k < 9; k++) u(at * V + 5 + k) = 0;
  for (int k = 0; k < 3; k++) s[k] = real("s", k, 0.3, 2);
  __sx_assume(s[0] > s[1]);
  __sx_assume(s[1] > s[2]);
  for (int k = 0; k < 3; k++) u(at * V + 5 + 3 * k + k) = s[(k + perm) % 3];
  bool c = contorted(u, tol);
  double d = std::cbrt(s[0] * s[1] * s[2]), m = (s[0] * s[0] / (d * d) + s[1] * s[1] / (d * d) + s[2] * s[2] / (d * d)) / 3 - 1;
  __sx_check(c == (m > tol), "a grid is contorted if the mean squared stretch of a cell exceeds one by the tolerance");
}
// ---- the loop
static double T, tnow, steps[40];
static int nstep, nmat, sub, nanAt, nx, splitWanted;
__attribute__((noinline, optnone)) static double part() { return T / sub; }
void stub_fill(std::vector<Vec> &g, std::vector<bVec> &m, Vecr u, iVecr, Vecr, double, std::vector<Par> &) {
  for (int k = 0; k < nmat; k++) {
    g[k] = u;
    for (int i = 0; i < nx; i++) m[k](i) = i % nmat == k;
  }
}
double stub_timestep(std::vector<Vec> &, std::vector<bVec> &, aVecr, double, double t, double tf, int count, std::vector<Par> &, int) {
  __sx_check(count == nstep, "steps are counted");
  eq(t, tnow, "time advances by the steps taken");
  eq(tf, T, "the final time is passed on");
  double dt = sub ? part() : steps[nstep];
  if (sub == 0 && tf - t < dt) dt = tf - t;
  nstep++;
  tnow += dt;
  return dt;
}
static void step(Vecr u, Vecr ub, Par &MP, bVec mask, double dt) {
  for (int i = 0; i < nx; i++) {
    for (int v = 0; v < V; v++) eq(ub((i + N) * V + v), u(i * V + v), "the extended grid holds the material's solution");
    u(i * V) += dt * (i + 1);
    u(i * V + 1) += MP.ρ0 * dt;
    if (nanAt == nstep) u(i * V + 2) = NAN;
  }
  bool e = true;
  for (int i = 0; i < nx; i++) {
    bool w = false;
    for (int k = i - 1; k <= i + 1; k++) w |= k >= 0 && k < nx && k % nmat == (int)MP.γ;
    e &= mask(i + 1) == w;
  }
  __sx_check(e, "each material is stepped with its own extended mask");
}
void stub_split(Vecr u, Vecr ub, iVecr, double dt, Vecr, bool, int, Par &MP, bVecr mask) {
  __sx_check(splitWanted == 1, "the chosen solver is used");
  step(u, ub, MP, mask, dt);
}
void stub_ader(Vecr u, Vecr ub, iVecr, double dt, Vecr, bool, int, Par &MP, bVecr mask) {
  __sx_check(splitWanted == 0, "the chosen solver is used");
  step(u, ub, MP, mask, dt);
}
void stub_renorm(Vecr u, std::vector<Par> &) { for (int i = 0; i < nx; i++) u(i * V + 5) += 0.5; }
void stub_reset(Vecr u, std::vector<Par> &) { for (int i = 0; i < nx; i++) u(i * V + 5) += 64; }
bool stub_contorted(Vecr, double tol) {
  __sx_check(tol == 0.2, "the tolerance is passed on");
  return nstep == 2;
}
void h_run() {
  nx = 3;
  nmat = __sx_param("NMAT");
  sub = __sx_param("SUB");
  nanAt = __sx_param("NAN");
  splitWanted = __sx_param("SPLIT");
  nstep = 0;
  tnow = 0;
  T = sub ? 1 : real("tf", 0.5, 2);
  for (int i = 0; i < 5; i++) steps[i] = sub ? 0 : real("dt", i, 0.25, 0.75) * T;
  std::vector<Par> MPs(nmat);
  for (int k = 0; k < nmat; k++) { MPs[k].EOS = 0; MPs[k].ρ0 = k + 1; MPs[k].γ = k; MPs[k].REACTION = -1; }
  Vec u(nx * V);
  for (int i = 0; i < nx * V; i++) u(i) = 0.5 + 0.25 * (i % V);
  u(0) = sub ? 1 : real("u", 0.5, 1);
  for (int i = 0; i < nx; i++)
    for (int l = 0; l < LSET; l++) u(i * V + V - LSET + l) = l < i % nmat ? 1 : -1;
  Vec u0 = u;
  iVec nX(1), bt(2);
  nX(0) = nx;
  bt << 0, 0;
  aVec dX(1);
  dX(0) = 1;
  std::vector<Vec> r = iterator(u, T, nX, dX, 0.5, bt, splitWanted, true, false, 0, MPs, 0.2);
  __sx_check(r.size() >= 100, "a hundred snapshots");
  // the state after n steps
  auto at = [&](int n, int i, int v) {
    double t = 0;
    for (int k = 0; k < n; k++) { double d = sub ? part() : steps[k]; t = !sub && T - t < d ? T : t + d; }
    double x = u0(i * V + v);
    if (v == 0) x += t * (i + 1);
    if (v == 1) x += (i % nmat + 1) * t;
    if (v == 5) x += 0.5 * n + (n >= 2 ? 64 : 0);
    return x;
  };
  auto same = [&](int slot, int n, const char *m) {
    __sx_check(r[slot].size() == nx * V, m);
    if (r[slot].size() != nx * V) return;
    for (int i = 0; i < nx; i++)
      for (int v = 0; v < V; v++)
        if (v != 2 || n != nanAt) __sx_check_tol(r[slot](i * V + v), at(n, i, v), 1e-9, m);
  };
  if (nanAt) {
    __sx_check(nstep == nanAt, "the run stops when a value is not a number");
    int k = 0;
    while (k < 100 && r[k].size() > 0) k++;
    __sx_check(k >= 2, "the last good state and the bad one are returned");
    bool bad = false;
    for (int i = 0; i < nx; i++) bad |= std::isnan(r[k - 1](i * V + 2));
    __sx_check(bad, "the bad state is returned last");
    same(k - 2, nanAt - 1, "the last good state is returned before the bad one");
    return;
  }
  eq(tnow, T, "the run ends at the final time");
  __sx_check(r[99].size() == nx * V, "the final state is returned");
  same(99, nstep, "the last snapshot is the final state");
  // snapshot k is the state after the first step that reaches (k + 1) / 100 of the run and is not yet taken
  double t = 0;
  int k = 0;
  for (int n = 1; n <= nstep; n++) {
    double d = sub ? part() : steps[n - 1];
    t = !sub && T - t < d ? T : t + d;
    if (k < 99 && t >= (k + 1) / 100. * T) same(k++, n, "a snapshot is the state when its time was reached");
  }
  for (; k < 99; k++) __sx_check(r[k].size() == 0, "no snapshots but those");
}
}
