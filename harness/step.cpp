// One time step: the stages, their order, and what each is given.
#include "common.h"
#include "src/etc/grid.h"
#include "src/solvers/steppers.h"
#include "src/solvers/weno/weno.h"

static int stage, calls[8];
static double dt0, dX0[2];
static int flux0, half, stiff, nd, cells, padded, masks;
static Par *par0;
// arbitrary functions of the first two entries, distinct for every stage
static double g(const char *n, double a, double b) {
  double x[2] = {a, b};
  return __sx_uf(n, 2, x, 0);
}
static void common(double dt, Par &MP) {
  __sx_check(&MP == par0, "every stage has the material of the step");
  (void)dt;
}
extern "C" {
int omp_get_num_threads() { return 1; }
int omp_get_thread_num() { return 0; }
void stub_odes(Vecr u, double dt, Par &MP) {
  common(dt, MP);
  eq(dt, dt0 / 2, "cells are relaxed for half the step, twice");
  bool ghost = u.size() == padded * V;
  __sx_check(ghost || u.size() == cells * V, "every cell is relaxed, and in the padded copy every ghost");
  calls[ghost ? 1 : 0]++;
  u(0) = g("ODE", u(0), dt);
  u(u.size() - 1) = g("ODE", u(u.size() - 1), dt);
}
void stub_weno(Vecr wh, Vecr ub, iVecr nX, int start, int total, Par &MP) {
  common(0, MP);
  calls[2]++;
  __sx_check(start == 0 && total == nX(0), "one thread has all rows");
  int n = extended_dimensions(nX, 1);
  for (int d = 0; d < nd; d++) n *= N;
  __sx_check(wh.size() == n * V && ub.size() == padded * V, "all cells and their first ghosts are reconstructed from the padded copy");
  wh(0) = g("WENO", ub(0), ub(ub.size() - 1));
  wh(wh.size() - 1) = g("WENO", ub(ub.size() - 1), ub(0));
}
static void stepsize(double dt, Vecr dX) {
  eq(dt, dt0, "fluxes and predictions are over the whole step");
  __sx_check(dX.size() == nd, "one spacing for every axis");
  for (int d = 0; d < nd; d++) eq(dX(d), dX0[d], "spacings are those of the grid");
}
void stub_mid(Vecr wh, double dt, Vecr dX, Par &MP, bVecr mask) {
  common(dt, MP);
  stepsize(dt, dX);
  calls[3]++;
  __sx_check(mask.size() == masks, "the mask is that of the step");
  wh(0) = g("MID", wh(0), wh(wh.size() - 1));
}
void stub_pred(Vecr qh, Vecr wh, double dt, Vecr dX, bool STIFF, bool, Par &MP, bVecr mask) {
  common(dt, MP);
  stepsize(dt, dX);
  calls[4]++;
  __sx_check(STIFF == (stiff != 0), "the kind of predictor is the one asked for");
  __sx_check(qh.size() == wh.size() * N && mask.size() == masks, "the prediction has every node at every time");
  qh(0) = g("PRED", wh(0), wh(wh.size() - 1));
  qh(qh.size() - 1) = 1;
}
void stub_fv(Vecr u, Vecr rec, iVecr nX, double dt, Vecr dX, bool SOURCES, bool TIME, int FLUX, Par &MP, bVecr mask) {
  common(dt, MP);
  stepsize(dt, dX);
  calls[5]++;
  bool ader = __sx_param("ADER");
  __sx_check(SOURCES == ader, "sources are integrated once: with the fluxes, or by relaxation");
  __sx_check(TIME == ader, "predictions have times, reconstructions do not");
  __sx_check(FLUX == flux0, "the numerical flux is the one asked for");
  __sx_check(u.size() == cells * V && mask.size() == masks, "every cell is updated");
  u(0) = g("FV", u(0), rec(0));
}
void h_compose() {
  nd = __sx_param("DIM");
  int ader = __sx_param("ADER"), para = __sx_param("PARA");
  half = __sx_param("HALF"), stiff = half, flux0 = __sx_param("FLUX");
  iVec nX(nd);
  nX(0) = 3;
  if (nd == 2) nX(1) = 2;
  cells = nd == 2 ? 6 : 3;
  padded = extended_dimensions(nX, N);
  masks = extended_dimensions(nX, 1);
  Par MP;
  par0 = &MP;
  Vec u(cells * V), ub(padded * V), dX(nd);
  for (int i = 0; i < u.size(); i++) u(i) = i / 8.;
  for (int i = 0; i < ub.size(); i++) ub(i) = i / 16.;
  double a = u(0) = real("u", -2, 2), a1 = u(u.size() - 1) = real("v", -2, 2), b = ub(0) = real("b", -2, 2), b1 = ub(ub.size() - 1) = real("c", -2, 2);
  bVec mask = bVec::Ones(masks);
  dt0 = real("dt", 0.1, 2);
  for (int d = 0; d < nd; d++) dX(d) = dX0[d] = real("dx", d, 0.1, 2);
  for (int i = 0; i < 8; i++) calls[i] = 0;
  if (ader) (para ? ader_stepper_para : ader_stepper)(u, ub, nX, dt0, dX, half, flux0, MP, mask);
  else (para ? split_stepper_para : split_stepper)(u, ub, nX, dt0, dX, half, flux0, MP, mask);
  __sx_check(calls[2] == 1 && calls[5] == 1, "one reconstruction and one update");
  __sx_check(calls[0] == (ader ? 0 : 2) && calls[1] == (ader ? 0 : 1), "relaxation surrounds the update in the split solver and is part of it in the other");
  __sx_check(calls[3] == (!ader && half) && calls[4] == ader, "the half step is taken when asked for; only the other solver predicts");
  if (ader) {
    double w = g("WENO", b, b1), w1 = g("WENO", b1, b);
    eq(u(0), g("FV", a, g("PRED", w, w1)), "reconstruct, predict, update");
    eq(u(u.size() - 1), a1, "cells only change where the stages change them");
  } else {
    double r = g("ODE", b, dt0 / 2), r1 = g("ODE", b1, dt0 / 2), w = g("WENO", r, r1), w1 = g("WENO", r1, r);
    if (half) w = g("MID", w, w1);
    eq(u(0), g("ODE", g("FV", g("ODE", a, dt0 / 2), w), dt0 / 2), "relax for half the step, reconstruct what was relaxed, update, relax for the other half");
    eq(u(u.size() - 1), g("ODE", g("ODE", a1, dt0 / 2), dt0 / 2), "cells only change where the stages change them");
  }
}
}
