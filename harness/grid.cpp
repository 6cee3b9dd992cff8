// Ghost cells, masks, thread chunks.
#include "common.h"
#include "src/etc/grid.h"
#include "src/solvers/dg/dg.h"
#include "src/solvers/steppers.h"
#include "src/system/equations.h"

static const int TR = 0, PE = 1, SL = 2, ST = 3, MO = 4, SY = 5;
// what a boundary condition does to the state of the mirrored cell
static VecV wall(VecV q, int type, int d) {
  double m2 = q(2), rho = q(0);
  if (type == SL || type == SY) q(2 + d) = -q(2 + d);
  if (type == ST || type == MO) for (int k = 0; k < 3; k++) q(2 + k) = -q(2 + k);
  if (type == MO) { // the wall moves at unit speed along x: the velocity is mirrored about it, internal energy stays
    double u = m2 / rho, w = 2 - u;
    q(2) = rho * w;
    q(1) += rho * (w * w - u * u) / 2;
  }
  if (type == SY)
    for (int k = 0; k < 3; k++)
      if (k != d) {
        q(5 + 3 * d + k) = -q(5 + 3 * d + k);
        q(5 + 3 * k + d) = -q(5 + 3 * k + d);
      }
  return q;
}
// cell i of a line of n cells with getter g
template <class G> static VecV ghost(G g, int i, int n, int lo, int hi, int d) {
  if (i >= 0 && i < n) return g(i);
  int type = i < 0 ? lo : hi;
  if (type == TR) return g(i < 0 ? 0 : n - 1);
  if (type == PE) return g(i < 0 ? i + n : i - n);
  // Walls: the mirror image. The code stores the image of the k-th cell from the wall in a fixed ghost cell.
  return wall(g(i < 0 ? -1 - i : 2 * n - 1 - i), type, d);
}
extern "C" {
void h_bc1() {
  int n = __sx_param("NX");
  Vec u(n * V), ub(V * (n + 2 * N));
  for (int i = 0; i < n * V; i++) u(i) = real("u", i, i % V == 0 ? 0.2 : -2, 2);
  Vec u0 = u;
  iVec nX(1), bt(2);
  nX(0) = n;
  bt << __sx_param("LO"), __sx_param("HI");
  boundaries(u, ub, nX, bt);
  auto g = [&](int i) { return VecV(u0.segment<V>(i * V)); };
  for (int i = -N; i < n + N; i++) {
    VecV e = ghost(g, i, n, bt(0), bt(1), 0);
    for (int v = 0; v < V; v++)
      eq(ub((i + N) * V + v), e(v), i >= 0 && i < n ? "the interior is copied" : "ghost cells follow the boundary condition");
  }
  eqn(u.data(), u0.data(), n * V, "the solution is not modified");
}
void h_bc2() {
  int nx = __sx_param("NX"), ny = __sx_param("NY"), my = ny + 2 * N;
  Vec u(nx * ny * V), ub((nx + 2 * N) * my * V);
  for (int i = 0; i < nx * ny * V; i++) u(i) = real("u", i, i % V == 0 ? 0.2 : -2, 2);
  Vec u0 = u;
  iVec nX(2), bt(4);
  nX << nx, ny;
  int p = __sx_param("BC");
  bt << p % 10, p / 10 % 10, p / 100 % 10, p / 1000;
  boundaries(u, ub, nX, bt);
  for (int i = -N; i < nx + N; i++)
    for (int j = -N; j < ny + N; j++) {
      auto gy = [&](int b) {
        auto gx = [&](int a) { return VecV(u0.segment<V>((a * ny + b) * V)); };
        return ghost(gx, i, nx, bt(0), bt(1), 0);
      };
      VecV e = ghost(gy, j, ny, bt(2), bt(3), 1);
      bool in = i >= 0 && i < nx && j >= 0 && j < ny;
      for (int v = 0; v < V; v++) eq(ub(((i + N) * my + j + N) * V + v), e(v), in ? "the interior is copied" : "ghost cells follow the boundary conditions");
    }
  eqn(u.data(), u0.data(), u.size(), "the solution is not modified");
}
// with DESTRESS: what a wall reflects carries no shear
void h_extdim() {
  int nd = __sx_param("DIM");
  iVec nX(nd);
  int a = nX(0) = __sx_int("nx", 1, 1000), b = 1, e = __sx_int("ext", 0, 5);
  if (nd == 2) b = nX(1) = __sx_int("ny", 1, 1000);
  int r = extended_dimensions(nX, e);
  __sx_check(r == (a + 2 * e) * (nd == 2 ? b + 2 * e : 1), "number of cells of the extended grid");
}
// a cell takes part if it or a face neighbour is wanted; so does the ghost cell next to a wanted border cell
void h_mask1() {
  int n = __sx_param("NX");
  bVec m(n), mb(n + 2);
  for (int i = 0; i < n; i++) { char b[16]; nm(b, "m", i); m(i) = __sx_bool(b); }
  iVec nX(1);
  nX(0) = n;
  bVec m0 = m;
  extend_mask(m, mb, nX);
  for (int i = 0; i < n; i++) {
    bool e = m0(i) | (i > 0 ? m0(i - 1) : false) | (i < n - 1 ? m0(i + 1) : false);
    __sx_check(mb(i + 1) == e, "a cell takes part if it or a neighbour is wanted");
  }
  for (int k = 0; k < 2; k++) {
    bool g = mb(k ? n + 1 : 0), b = mb(k ? n : 1), w = m0(k ? n - 1 : 0);
    __sx_check(!w | g, "the ghost cell beside a wanted cell takes part");
    __sx_check(!g | b, "a ghost cell takes part only with its neighbour");
  }
}
void h_mask2() {
  int nx = __sx_param("NX"), ny = __sx_param("NY"), my = ny + 2;
  bVec m(nx * ny), mb((nx + 2) * my);
  for (int i = 0; i < nx * ny; i++) { char b[16]; nm(b, "m", i); m(i) = __sx_bool(b); }
  iVec nX(2);
  nX << nx, ny;
  bVec m0 = m;
  extend_mask(m, mb, nX);
  auto w = [&](int i, int j) { return i < 0 || j < 0 || i >= nx || j >= ny ? false : (bool)m0(i * ny + j); };
  auto t = [&](int i, int j) { return (bool)mb((i + 1) * my + j + 1); };
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      bool e = w(i, j) | w(i - 1, j) | w(i + 1, j) | w(i, j - 1) | w(i, j + 1);
      __sx_check(t(i, j) == e, "a cell takes part if it or a face neighbour is wanted");
      int gi = i == 0 ? -1 : i == nx - 1 ? nx : i, gj = j == 0 ? -1 : j == ny - 1 ? ny : j;
      if (gi != i) {
        __sx_check(!w(i, j) | t(gi, j), "the ghost cell beside a wanted cell takes part");
        __sx_check(!t(gi, j) | t(i, j), "a ghost cell takes part only with its neighbour");
      }
      if (gj != j) {
        __sx_check(!w(i, j) | t(i, gj), "the ghost cell beside a wanted cell takes part");
        __sx_check(!t(i, gj) | t(i, j), "a ghost cell takes part only with its neighbour");
      }
    }
  __sx_check(!t(-1, -1) & !t(-1, ny) & !t(nx, -1) & !t(nx, ny), "corner cells never take part");
}
// ------------------------------------------------------------ thread chunks
static int nthreads = 1, thread = 0;
int omp_get_num_threads() { return nthreads; }
int omp_get_thread_num() { return thread; }
static VecV ufq(const char *name, const double *a, int n) {
  VecV r;
  for (int v = 0; v < V; v++) r(v) = __sx_uf(name, n, a, v);
  return r;
}
static VecV uf2(const char *name, const VecV &a, const VecV &b, int d) {
  double x[2 * V + 1];
  for (int i = 0; i < V; i++) { x[i] = a(i); x[V + i] = b(i); }
  x[2 * V] = d;
  return ufq(name, x, 2 * V + 1);
}
VecV stub_num(VecVr a, VecVr b, int d, Par &) { return uf2("NUM", VecV(a), VecV(b), d); }
VecV stub_bint(VecVr a, VecVr b, int d, Par &) { return uf2("BINT", VecV(a), VecV(b), d); }
void stub_bdot(VecVr r, VecVr q, VecVr x, int d, Par &) { r = uf2("BDOT", VecV(q), VecV(x), d); }
void stub_flux(VecVr r, VecVr q, int d, Par &) { r += uf2("FLX", VecV(q), VecV(q), d); }
void stub_source(VecVr r, VecVr q, Par &) { r = ufq("SRC", VecV(q).data(), V); }
void stub_ode(VecVr q, double dt, Par &) {
  double x[V + 1];
  for (int i = 0; i < V; i++) x[i] = q(i);
  x[V] = dt;
  q = ufq("ODE", x, V + 1);
}
void stub_ode0(VecVr, double, Par &) {}
// a predictor that works cell by cell: any function of the cell's reconstruction
void stub_predictor(Vecr qh, Vecr wh, double dt, Vecr dX, bool, bool, Par &, bVecr mask) {
  int nc = mask.size(), nw = wh.size() / nc, nq = qh.size() / nc;
  for (int c = 0; c < nc; c++)
    if (mask(c))
      for (int k = 0; k < nq / V; k++)
        for (int v = 0; v < V; v++) {
          double x[4] = {wh(c * nw + (k * V) % nw + v), wh(c * nw + v), dt, dX(0)};
          qh(c * nq + k * V + v) = __sx_uf("PRED", 4, x, k * V + v);
        }
}
static void run(Vec &u, const Vec &ub0, iVec nX, double dt, Vec dX, int split, Par &MP, bVec mask, int T, bool back) {
  Vec ub = ub0;
  nthreads = T;
  for (int k = 0; k < T; k++) {
    thread = back ? T - 1 - k : k;
    if (split) split_stepper_para(u, ub, nX, dt, dX, true, 0, MP, mask);
    else ader_stepper_para(u, ub, nX, dt, dX, false, 0, MP, mask);
  }
}
void h_threads1() {
  int n = __sx_param("NX"), T = __sx_param("T"), split = __sx_param("SPLIT"), pat = __sx_param("MASK");
  Par MP;
  Vec u(n * V), ub((n + 2 * N) * V), dX(1);
  // one variable is arbitrary; the others are too, but the same in every cell
  for (int i = 0; i < n + 2 * N; i++)
    for (int v = 0; v < V; v++) ub(i * V + v) = v == 3 ? real("u", i, -2, 2) : 0.25 * v;
  u = ub.segment(N * V, n * V);
  iVec nX(1);
  nX(0) = n;
  double dt = real("dt", 0.1, 1);
  dX(0) = real("dx", 0.1, 2);
  bVec mask(n + 2);
  for (int i = 0; i < n + 2; i++) mask(i) = (pat >> i) & 1;
  Vec a = u, b = u, c = u;
  run(a, ub, nX, dt, dX, split, MP, mask, 1, false);
  run(b, ub, nX, dt, dX, split, MP, mask, T, false);
  run(c, ub, nX, dt, dX, split, MP, mask, T, true);
  eqn(a.data(), b.data(), n * V, "the result does not depend on the number of threads");
  eqn(a.data(), c.data(), n * V, "the result does not depend on the order of the threads");
}
void h_threads2() {
  int nx = __sx_param("NX"), ny = __sx_param("NY"), T = __sx_param("T"), split = __sx_param("SPLIT"), pat = __sx_param("MASK"), my = ny + 2 * N;
  Par MP;
  Vec u(nx * ny * V), ub((nx + 2 * N) * my * V), dX(2);
  for (int i = 0; i < nx + 2 * N; i++)
    for (int j = 0; j < my; j++)
      for (int v = 0; v < V; v++) {
        double x = v == 3 ? 0.5 * i - 0.25 * j + ((i * 5 + j * 3) % 7) * 0.125 : 0.25 * v;
        bool sym = v == 3 && (i >= N && i < nx + N || j >= N && j < ny + N);
        if (sym) x = real("u", i * my + j, -2, 2);
        ub((i * my + j) * V + v) = x;
        if (i >= N && j >= N && i < nx + N && j < ny + N) u(((i - N) * ny + j - N) * V + v) = x;
      }
  iVec nX(2);
  nX << nx, ny;
  double dt = 0.5;
  dX << 0.75, 1.25;
  bVec mask((nx + 2) * (ny + 2));
  for (int i = 0; i < nx + 2; i++)
    for (int j = 0; j < ny + 2; j++) {
      bool cor = (i == 0 || i == nx + 1) && (j == 0 || j == ny + 1);
      mask(i * (ny + 2) + j) = !cor && i * (ny + 2) + j != pat;
    }
  Vec a = u, b = u, c = u;
  run(a, ub, nX, dt, dX, split, MP, mask, 1, false);
  run(b, ub, nX, dt, dX, split, MP, mask, T, false);
  run(c, ub, nX, dt, dX, split, MP, mask, T, true);
  for (int i = 0; i < nx; i++)
    for (int j = 0; j < ny; j++) {
      for (int v = 0; v < V; v++) {
        int k = (i * ny + j) * V + v;
        eq(a(k), b(k), "the result does not depend on the number of threads");
        if (v == 3) eq(b(k), c(k), "the result does not depend on the order of the threads");
      }
    }
}
}
