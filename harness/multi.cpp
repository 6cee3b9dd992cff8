// Several materials: level sets, interface cells, ghost cells, star states.
#include "common.h"
#include "skfmm/heap.h"
#include "src/multi/fill.h"
#include "src/multi/functions.h"
#include "src/multi/pfmm.h"
#include "src/system/functions/vectors.h"
#include <vector>

static std::vector<Par> mats(int n, int vac) {
  std::vector<Par> r(n);
  for (int i = 0; i < n; i++) {
    char t[2] = {(char)('a' + i), 0};
    symPar(r[i], 0, t);
    if (i == vac) r[i].EOS = -1;
    r[i].SOLID = r[i].POWER_LAW = r[i].MULTI = r[i].BINGHAM = false;
    r[i].REACTION = -1;
  }
  return r;
}
static int digit(int x, int k) { // k-th base 3 digit
  while (k--) x /= 3;
  return x % 3;
}
static double mag(double x) { return x < 0 ? -x : x; }
// a level set with the signs given by the base 3 digits of a number (0: zero, 1: positive, 2: negative)
static Vec level(int n, int signs, double lo, double hi) {
  Vec φ(n);
  for (int i = 0; i < n; i++) {
    int d = digit(signs, i);
    φ(i) = d == 0 ? 0 : d == 1 ? real("phi", i, lo, hi) : -real("phi", i, lo, hi);
  }
  return φ;
}
static double bordering(const Vec &φ, int i, int j, double h) { return h * mag(φ(i)) / (mag(φ(i)) + mag(φ(j))); }
extern "C" {
// ---- signed distances
void h_dist1() {
  int n = __sx_param("NX"), signs = __sx_param("SIGNS");
  Vec φ = level(n, signs, 0.1, 2), φ0 = φ;
  aVec dX(1);
  dX(0) = real("dx", 0.1, 2);
  double h = dX(0);
  iVec nX(1);
  nX << n;
  Vec d = distance(φ, dX, nX);
  __sx_check(d.size() == n, "one distance per cell");
  std::vector<double> near(n, 1e6);
  for (int i = 0; i < n; i++) {
    if (digit(signs, i) == 0) near[i] = 0;
    for (int j = i - 1; j <= i + 1; j += 2)
      if (j >= 0 && j < n && digit(signs, i) + digit(signs, j) == 3 && digit(signs, i) * digit(signs, j) == 2) {
        double x = bordering(φ0, i, j, h);
        if (x < near[i]) near[i] = x;
      }
  }
  for (int i = 0; i < n; i++) {
    eq(φ(i), φ0(i), "the level set itself is left alone");
    double best = near[i];
    if (best > 1e5)
      for (int j = 0; j < n; j++)
        if (near[j] < 1e5) {
          double x = near[j] + h * (i < j ? j - i : i - j);
          if (x < best) best = x;
        }
    eq(d(i), digit(signs, i) == 2 ? -best : best, "the signed distance to the nearest interface");
  }
}
void h_dist2() {
  int nx = __sx_param("NX"), ny = __sx_param("NY"), signs = __sx_param("SIGNS"), vary = __sx_param("VARY"), n = nx * ny;
  Vec φ(n);
  for (int i = 0; i < n; i++) {
    int s = digit(signs, i);
    double m = vary >> i & 1 ? real("phi", i, 0.2, 2) : 1 + 0.125 * (i % 5);
    φ(i) = s == 0 ? 0 : s == 1 ? m : -m;
  }
  aVec dX(2);
  double h = 0.5;
  dX << h, h;
  iVec nX(2);
  nX << nx, ny;
  Vec φ0 = φ;
  Vec d = distance(φ, dX, nX);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      int c = i * ny + j, s = digit(signs, c);
      int nb[4] = {i > 0 ? c - ny : -1, i < nx - 1 ? c + ny : -1, j > 0 ? c - 1 : -1, j < ny - 1 ? c + 1 : -1};
      if (s == 0) { eq(d(c), 0, "the interface stays where it is"); continue; }
      double v = s == 2 ? -d(c) : d(c);
      __sx_check(v > 0, "distances keep the sign of the level set");
      double best = 1e6, ax[2] = {1e6, 1e6};
      for (int k = 0; k < 4; k++)
        if (nb[k] >= 0) {
          if (digit(signs, nb[k]) + s == 3 && digit(signs, nb[k]) * s == 2) {
            double x = bordering(φ0, c, nb[k], h);
            if (x < best) best = x;
          } else if (mag(d(nb[k])) < ax[k / 2]) ax[k / 2] = mag(d(nb[k]));
        }
      if (best < 1e5) eq(v, best, "beside an interface, the distance to it along the nearest axis");
      else if (ax[0] < v && ax[1] < v) eq((v - ax[0]) * (v - ax[0]) + (v - ax[1]) * (v - ax[1]), h * h, "the distance grows at unit rate away from the interface");
      else eq(v, (ax[0] < ax[1] ? ax[0] : ax[1]) + h, "the distance grows at unit rate along an axis");
    }
}
void h_dist_none() {
  int dim = __sx_param("DIM"), s = __sx_param("SIGN"), n = dim == 1 ? 3 : 6;
  Vec φ(n), φ0;
  for (int i = 0; i < n; i++) φ(i) = (s ? 1 : -1) * real("phi", i, 0.1, 2);
  φ0 = φ;
  aVec dX(dim);
  iVec nX(dim);
  for (int k = 0; k < dim; k++) dX(k) = real("dx", k, 0.1, 2);
  if (dim == 1) nX << 3; else nX << 2, 3;
  Vec d = distance(φ, dX, nX);
  for (int i = 0; i < n; i++) __sx_check(s ? d(i) > 0 : d(i) < 0, "without an interface every cell stays on its side");
}
void h_heap() {
  int n = __sx_param("N"), changed = __sx_param("SET");
  std::vector<double> v(n);
  std::vector<int> id(n);
  heap h(n, false);
  for (int i = 0; i < n; i++) {
    v[i] = real("v", i, -2, 2);
    id[i] = h.push(10 + i, v[i]);
  }
  if (changed >= 0) {
    v[changed] = real("new", -2, 2);
    h.set(id[changed], v[changed]);
  }
  std::vector<bool> seen(n, false);
  double last = -10;
  for (int i = 0; i < n; i++) {
    __sx_check(!h.empty(), "as many values come out as went in");
    double peek = h.peek(), x;
    int a;
    h.pop(&a, &x);
    a = __sx_fork(a);
    __sx_check(a >= 10 && a < 10 + n && !seen[a - 10], "each cell comes out once");
    if (a < 10 || a >= 10 + n) return;
    seen[a - 10] = true;
    eq(x, v[a - 10], "with its own distance");
    eq(peek, x, "the top is what comes out next");
    __sx_check(x >= last, "nearest first");
    last = x;
  }
  __sx_check(h.empty(), "nothing is left");
}
void h_renorm() {
  int n = 2;
  Mat u(n, V);
  for (int i = 0; i < n; i++)
    for (int v = 0; v < V; v++) u(i, v) = real("u", i * V + v, 0.2, 2);
  for (int l = 0; l < LSET; l++) u(0, V - LSET + l) *= -1;
  Mat u0 = u;
  aVec dX(1);
  dX(0) = real("dx", 0.1, 2);
  iVec nX(1);
  nX << n;
  renormalize_levelsets(u, dX, nX);
  for (int v = 0; v < V; v++)
    if (v < V - LSET)
      for (int i = 0; i < n; i++) eq(u(i, v), u0(i, v), "only the level sets change");
    else {
      eq(u(0, v) - u0(0, v) * dX(0) / (u0(1, v) - u0(0, v)), 0, "each level set becomes the distance to its interface");
      eq(u(1, v) - u0(1, v) * dX(0) / (u0(1, v) - u0(0, v)), 0, "each level set becomes the distance to its interface");
    }
}
// ---- which material is where
Vec stub_distance(Vecr φ, aVecr dX, iVecr nX) { return φ; }
void h_indicator() {
  int nmat = __sx_param("NMAT"), n = 2;
  Mat u(n, V);
  for (int i = 0; i < n; i++) {
    for (int v = 0; v < V; v++) u(i, v) = real("u", i * V + v, -2, 2);
    for (int l = 0; l < LSET; l++) {
      double &x = u(i, V - LSET + l);
      if (l >= nmat - 1) x = -1; // unused
      __sx_assume(x > 0.001 || x < -0.001);
      if (l) __sx_assume(x < 0 || u(i, V - LSET + l - 1) > 0); // each boundary lies beyond the one before
    }
  }
  aVec dX(1);
  dX << 1;
  iVec nX(1);
  nX << n;
  Vec φ(n);
  for (int mat = 0; mat < nmat; mat++) {
    material_indicator(φ, u, mat, nmat, dX, nX);
    for (int i = 0; i < n; i++) {
      VecV q = u.row(i);
      int idx = __sx_fork(get_material_index(q));
      __sx_check((φ(i) < 0) == (idx == mat), "a material's indicator is negative exactly in its cells");
      int want = 0;
      for (int l = 0; l < LSET; l++) want += u(i, V - LSET + l) > 0;
      __sx_check(idx == want, "the material is the number of level sets exceeded");
    }
  }
}
void h_interface() {
  int dim = __sx_param("DIM"), nx = __sx_param("NX"), ny = dim == 2 ? __sx_param("NY") : 1, n = nx * ny;
  Vec φ(n);
  std::vector<int> in(n);
  for (int i = 0; i < n; i++) {
    char b[16];
    nm(b, "in", i);
    double m = real("phi", i, 0.01, 2);
    in[i] = __sx_bool(b);
    φ(i) = in[i] ? -m : m;
  }
  iVec nX(dim), mask(n);
  nX(0) = nx;
  if (dim == 2) nX(1) = ny;
  mask.setConstant(7);
  find_interface_cells(mask, φ, nX);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      int c = i * ny + j, same = 0, other = 0;
      int nb[4] = {i > 0 ? c - ny : -1, i < nx - 1 ? c + ny : -1, j > 0 ? c - 1 : -1, j < ny - 1 ? c + 1 : -1};
      auto alone = [&](int a, int b) { // an inner cell of a two-dimensional grid without inner neighbours
        if (dim == 1) return false;
        int k = a * ny + b;
        return !((a > 0 && in[k - ny]) || (a < nx - 1 && in[k + ny]) || (b > 0 && in[k - 1]) || (b < ny - 1 && in[k + 1]));
      };
      for (int k = 0; k < 4; k++)
        if (nb[k] >= 0) {
          if (in[nb[k]] == in[c]) same++;
          else if (in[c] || !alone(nb[k] / ny, nb[k] % ny)) other++;
        }
      int want = in[c] && alone(i, j) ? -2 : !other ? 0 : in[c] ? -1 : 1;
      __sx_check(mask(c) == want, "cells on either side of the interface are found, isolated ones told apart");
    }
}
void h_gradient() {
  int dim = __sx_param("DIM"), nx = __sx_param("NX"), ny = dim == 2 ? __sx_param("NY") : 1, n = nx * ny;
  Vec φ(n);
  reals(φ.data(), n, "phi", -2, 2);
  aVec dX(dim);
  iVec nX(dim);
  for (int k = 0; k < dim; k++) dX(k) = real("dx", k, 0.1, 2);
  nX(0) = nx;
  if (dim == 2) nX(1) = ny;
  Mat g(n, dim);
  finite_difference(g, φ, dX, nX);
  auto mid = [](int i, int m) { return i < 1 ? 1 : i > m - 2 ? m - 2 : i; };
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      int c = i * ny + j, a = mid(i, nx);
      eq(g(c, 0) * 2 * dX(0), φ((a + 1) * ny + j) - φ((a - 1) * ny + j), "the slope along the first axis is a central difference, copied at the edges");
      if (dim == 2) {
        int b = mid(j, ny);
        eq(g(c, 1) * 2 * dX(1), φ(i * ny + b + 1) - φ(i * ny + b - 1), "the slope along the second axis is a central difference, copied at the edges");
      }
    }
}
void h_normal() {
  int dim = __sx_param("DIM");
  Vec g(dim);
  reals(g.data(), dim, "g", -2, 2);
  __sx_assume(g.squaredNorm() > 0.01);
  Vec n = normal(g);
  eq(n.squaredNorm(), 1, "normals have unit length");
  double dot = 0;
  for (int i = 0; i < dim; i++) dot += n(i) * g(i);
  __sx_check(dot > 0, "normals point up the slope");
  if (dim == 2) eq(n(0) * g(1), n(1) * g(0), "normals are parallel to the slope");
}
}
// ---- ghost cells
static VecV star(const VecV &L, const VecV &R, double idL, double idR, double dt, const Vec &n) {
  double x[2 * V + 5];
  for (int i = 0; i < V; i++) { x[i] = L(i); x[V + i] = R(i); }
  x[2 * V] = idL;
  x[2 * V + 1] = idR;
  x[2 * V + 2] = dt;
  x[2 * V + 3] = n(0);
  x[2 * V + 4] = n.size() > 1 ? n(1) : 0;
  VecV r;
  for (int i = 0; i < V; i++) r(i) = __sx_uf("STAR", 2 * V + 5, x, i);
  return r;
}
static int strayL, strayR;
extern "C" {
VecV stub_star(VecV L, VecV R, Par &MPL, Par &MPR, double dt, Vec n) {
  int l = L(V - LSET) > 0, r = R(V - LSET) > 0;
  if (l != int(MPL.ρ0) - 1) strayL++;
  if (r != int(MPR.ρ0) - 1 || l == r) strayR++;
  return star(L, R, MPL.ρ0, MPR.ρ0, dt, n);
}
// two materials on either side of a plane across axis AX of a DIM-dimensional grid; the other way round if REV
void h_ghost_plane() {
  int dim = __sx_param("DIM"), ax = __sx_param("AX"), k = __sx_param("AT"), rev = __sx_param("REV");
  int nx = __sx_param("NX"), ny = dim == 2 ? __sx_param("NY") : 1, n = nx * ny, len = ax ? ny : nx;
  aVec dX(dim);
  double h = real("dx", 0.1, 2), dt = real("dt", 0.1, 1), s = real("s", 0.01, 0.99);
  __sx_assume(s < 0.499 || s > 0.501);
  bool upper = s > 0.5;
  iVec nX(dim);
  nX(0) = nx;
  dX(0) = h;
  if (dim == 2) { nX(1) = ny; dX(1) = h; }
  int vac = __sx_param("VAC");
  std::vector<Par> MPs = mats(3, vac);
  for (int m = 0; m < 3; m++) MPs[m].ρ0 = m + 1;
  Vec u(n * V), u0;
  for (int c = 0; c < n; c++) {
    int i = ax ? c % ny : c / ny;
    for (int v = 0; v < V - LSET; v++) u(c * V + v) = v == 0 || v == 7 ? real("u", c * V + v, 0.5, 2) : 0.25 * v;
    u(c * V + V - LSET) = (rev ? -1 : 1) * h * (i - k - s);
    for (int l = 1; l < LSET; l++) u(c * V + V - LSET + l) = -1;
  }
  u0 = u;
  std::vector<Vec> grids(2);
  std::vector<bVec> masks(2);
  for (auto &m : masks) m = bVec(n);
  strayL = strayR = 0;
  fill_ghost_cells(grids, masks, u, nX, dX, dt, MPs);
  for (int i = 0; i < n * V; i++) eq(u(i), u0(i), "the assembled solution is left alone");
  __sx_check(strayL == 0, "the inner state is of the material being extended");
  __sx_check(strayR == 0, "the outer state is of the other material");
  for (int m = 0; m < 2; m++) {
    if (m == vac) {
      for (int c = 0; c < n; c++) __sx_check(!masks[m](c), "nothing is computed in vacuum");
      continue;
    }
    bool low = m == rev; // the material fills the low end
    int in = low ? k : k + 1, ghost = low ? k + 1 : k, out = low ? (upper ? k + 2 : k + 1) : (upper ? k : k - 1);
    if (out < 0) out = 0;
    if (out > len - 1) out = len - 1;
    Vec nn = Vec::Zero(dim);
    nn(ax) = low ? 1 : -1;
    for (int c = 0; c < n; c++) {
      int i = ax ? c % ny : c / ny;
      auto at = [&](int j) { return VecV(u0.segment<V>((ax ? c - i + j : (j * ny + c % ny)) * V)); };
      bool inside = low ? i <= k : i > k;
      VecV want = inside ? at(i) : star(at(in), at(out), m + 1, 2 - m, dt, nn);
      __sx_check(masks[m](c) == (inside || i == ghost), "the cells of a material and the first ones beyond its interface are computed");
      for (int v = 0; v < V; v++)
        eq(grids[m](c * V + v), v < V - LSET ? want(v) : u0(c * V + v), inside ? "a material keeps its own cells" : v < V - LSET ? "beyond the interface the star state continues" : "level sets are kept");
    }
  }
}
// a layer of W cells of the second material within the first
void h_ghost_layer() {
  int nx = __sx_param("NX"), k = __sx_param("AT"), w = __sx_param("W");
  double h = 0.5, dt = real("dt", 0.1, 1), a = real("a", 0.01, 0.99), b = __sx_param("B") / 16.;
  __sx_assume(a < 0.499 || a > 0.501);
  if (w % 2) __sx_assume(a + b > 1.01 || a + b < 0.99); // a slope in the middle
  aVec dX(1);
  dX << h;
  iVec nX(1);
  nX << nx;
  std::vector<Par> MPs = mats(3, -1);
  for (int m = 0; m < 3; m++) MPs[m].ρ0 = m + 1;
  Vec u(nx * V), u0;
  for (int c = 0; c < nx; c++) {
    for (int v = 0; v < V - LSET; v++) u(c * V + v) = v == 0 || v == 7 ? real("u", c * V + v, 0.5, 2) : 0.25 * v;
    u(c * V + V - LSET) = h * (2 * (c - k) <= w + 1 ? c - k - a : k + w + b - c); // the distance to the closer interface
    for (int l = 1; l < LSET; l++) u(c * V + V - LSET + l) = -1;
  }
  u0 = u;
  std::vector<Vec> grids(2);
  std::vector<bVec> masks(2);
  for (auto &m : masks) m = bVec(nx);
  fill_ghost_cells(grids, masks, u, nX, dX, dt, MPs);
  auto at = [&](int j) { return VecV(u0.segment<V>(j * V)); };
  Vec up(1), down(1);
  up << 1;
  down << -1;
  int oa = a > 0.5 ? k + 2 : k + 1, ob = b > 0.5 ? k + w : k + w - 1;
  VecV sa = star(at(k), at(oa), 1, 2, dt, up), sb = star(at(k + w + 1), at(ob), 1, 2, dt, down);
  for (int c = 0; c < nx; c++) {
    bool inside = c <= k || c > k + w;
    __sx_check(masks[0](c) == (inside || c == k + 1 || c == k + w), "the cells of a material and the first ones beyond its interface are computed");
    for (int v = 0; v < V - LSET; v++) {
      if (inside) eq(grids[0](c * V + v), u0(c * V + v), "a material keeps its own cells");
      if (c == k + 1) eq(grids[0](c * V + v), sa(v), "a ghost state comes from the states on either side of its own interface");
      if (c == k + w) eq(grids[0](c * V + v), sb(v), "a ghost state comes from the states on either side of its own interface");
    }
  }
}
// a curved interface (KIND 0: plane at 45 degrees, 1: disc, 2: outside of a disc) on a square grid; lengths in eighths of a cell
VecV stub_mark(VecV L, VecV R, Par &MPL, Par &MPR, double dt, Vec n) {
  int l = L(V - LSET) > 0, r = R(V - LSET) > 0;
  if (l != int(MPL.ρ0) - 1) strayL++;
  if (r != int(MPR.ρ0) - 1) strayR++;
  double in = -n(0) * L(1) - n(1) * L(2), out = -n(0) * R(1) - n(1) * R(2); // components 1 and 2 hold the position
  __sx_check(in >= out, "the inner state lies on the material's side of the outer one");
  VecV q = L;
  q(0) = 100;
  q(3) = L(3);
  return q;
}
void h_ghost_curved() {
  int kind = __sx_param("KIND"), nx = __sx_param("NX"), ny = __sx_param("NY"), n = nx * ny;
  double cx = __sx_param("CX") / 8., cy = __sx_param("CY") / 8., R = __sx_param("R") / 8. + real("r", -0.06, 0.06), h = 0.5;
  aVec dX(2);
  dX << h, h;
  iVec nX(2);
  nX << nx, ny;
  std::vector<Par> MPs = mats(3, -1);
  for (int m = 0; m < 3; m++) MPs[m].ρ0 = m + 1;
  Vec u(n * V), u0;
  std::vector<int> in(n);
  for (int c = 0; c < n; c++) {
    double x = c / ny + 0.5, y = c % ny + 0.5;
    for (int v = 0; v < V - LSET; v++) u(c * V + v) = v == 7 ? real("u", c * V + v, 0.5, 2) : 0.25 * v;
    u(c * V + 1) = x;
    u(c * V + 2) = y;
    double d = kind == 0 ? (x - cx + y - cy) * std::sqrt(0.5) - R : std::sqrt((x - cx) * (x - cx) + (y - cy) * (y - cy)) - R;
    __sx_assume(d > 0.005 || d < -0.005);
    u(c * V + V - LSET) = (kind == 2 ? -1 : 1) * h * d;
    in[c] = u(c * V + V - LSET) < 0;
    for (int l = 1; l < LSET; l++) u(c * V + V - LSET + l) = -1;
  }
  u0 = u;
  std::vector<Vec> grids(2);
  std::vector<bVec> masks(2);
  for (auto &m : masks) m = bVec(n);
  strayL = strayR = 0;
  fill_ghost_cells(grids, masks, u, nX, dX, 0.1, MPs);
  __sx_check(strayL == 0, "the inner state is of the material being extended");
  __sx_check(strayR == 0, "the outer state is of the material it belongs to");
  for (int m = 0; m < 2; m++)
    for (int i = 0; i < nx; i++)
      for (int j = 0; j < ny; j++) {
        int c = i * ny + j;
        auto mine = [&](int a, int b) { return a >= 0 && b >= 0 && a < nx && b < ny && in[a * ny + b] == (m == 0); };
        auto crowd = [&](int a, int b) { return mine(a, b) && (mine(a - 1, b) || mine(a + 1, b) || mine(a, b - 1) || mine(a, b + 1)); }; // not alone
        bool any = false;
        for (int a = 0; a < n; a++) any |= crowd(a / ny, a % ny);
        bool inside = mine(i, j), beside = crowd(i - 1, j) || crowd(i + 1, j) || crowd(i, j - 1) || crowd(i, j + 1);
        __sx_check(masks[m](c) == (inside ? crowd(i, j) : beside), "the cells of a material and the first ones beyond its interface are computed");
        if (inside && crowd(i, j))
          for (int v = 0; v < V; v++) eq(grids[m](c * V + v), u0(c * V + v), "a material keeps its own cells");
        if (!inside && any) eq(grids[m](c * V), 100, "beyond the interface the star state continues");
        for (int l = 0; l < LSET; l++) eq(grids[m](c * V + V - LSET + l), u0(c * V + V - LSET + l), "level sets are kept");
      }
}
// three materials one after another
void h_ghost_three() {
  int nx = __sx_param("NX"), k = __sx_param("AT"), w = __sx_param("W");
  double h = 0.5, dt = real("dt", 0.1, 1), a = real("a", 0.01, 0.99), b = __sx_param("B") / 16.;
  __sx_assume(a < 0.499 || a > 0.501);
  if (w % 2) __sx_assume(a + b > 1.01 || a + b < 0.99); // a slope in the middle
  aVec dX(1);
  dX << h;
  iVec nX(1);
  nX << nx;
  std::vector<Par> MPs = mats(3, -1);
  for (int m = 0; m < 3; m++) MPs[m].ρ0 = m + 1;
  Vec u(nx * V), u0;
  for (int c = 0; c < nx; c++) {
    for (int v = 0; v < V - LSET; v++) u(c * V + v) = v == 0 || v == 7 ? real("u", c * V + v, 0.5, 2) : 0.25 * v;
    u(c * V + V - LSET) = h * (c - k - a);
    u(c * V + V - LSET + 1) = h * (c - k - w - b);
  }
  u0 = u;
  std::vector<Vec> grids(3);
  std::vector<bVec> masks(3);
  for (auto &m : masks) m = bVec(nx);
  fill_ghost_cells(grids, masks, u, nX, dX, dt, MPs);
  auto at = [&](int j) { return VecV(u0.segment<V>(j * V)); };
  Vec up(1), down(1);
  up << 1;
  down << -1;
  bool A = a > 0.5, B = b > 0.5;
  int e = k + w; // the last cell of the middle material
  for (int c = 0; c < nx; c++)
    for (int m = 0; m < 3; m++) {
      bool inside = m == (c <= k ? 0 : c <= e ? 1 : 2);
      bool ghost = m == 0 ? c == k + 1 : m == 2 ? c == e : c == k || c == e + 1;
      __sx_check(masks[m](c) == (inside || ghost), "the cells of a material and the first ones beyond its interface are computed");
      VecV want = inside ? at(c) : m == 0 ? star(at(k), at(A ? k + 2 : k + 1), 1, 2, dt, up) : m == 2 ? star(at(e + 1), at(B ? e : e - 1), 3, 2, dt, down)
                  : c <= k ? star(at(k + 1), at(A ? k : k - 1), 2, 1, dt, down) : star(at(e), at(B ? e + 2 : e + 1), 2, 3, dt, up);
      if (inside || ghost)
        for (int v = 0; v < V - LSET; v++) eq(grids[m](c * V + v), want(v), inside ? "a material keeps its own cells" : "a ghost state comes from the states on either side of its own interface");
    }
}
}
