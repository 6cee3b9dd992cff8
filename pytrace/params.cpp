#include "src/system/energy/mg.h"
extern "C" void h_params() {
  for (int i = 0; i < 64; i++) in[i] = real("in", i, 0.1, 3);
  for (int i = 0; i < 200; i++) out[i] = -12345;
  params(__sx_param("CASE"));
  expected(__sx_param("CASE"));
  __sx_check(STIFFENED_GAS == 0 && SHOCK_MG == 1 && JWL == 2 && COCHRAN_CHAN == 3 && GODUNOV_ROMENSKI == 4, "both sides number equations of state alike");
}
extern "C" void h_elastic() {
  for (int i = 0; i < 64; i++) in[i] = real("in", i, 0.1, 3);
  py_elastic(in, MP, out);
  for (int i = 0; i < 6; i++) eq(out[i], in[i], "constants of the hyperelastic energy");
  eq(out[6], in[6] * in[6], "shear constant of the hyperelastic energy");
  eq(out[7], in[7] * in[7] - 4 * in[6] * in[6] / 3, "bulk constant of the hyperelastic energy");
}
