// The hyperelastic reference: its stresses, pressure, temperature and entropy are those of its energy.
static Par MP;
static double in[40], out[60];
static void setup() {
  symParFull(MP, 0);
  for (int i = 0; i < 9; i++) in[i] = real("A", i, i % 4 ? -0.3 : 0.7, i % 4 ? 0.3 : 1.4);
  in[9] = real("S", -0.5, 1);
  for (int i = 0; i < 3; i++) in[10 + i] = real("v", i, -2, 2);
  in[13] = real("rho", 0.3, 3);
  for (int i = 0; i < 60; i++) out[i] = -12345;
}
static double A(int i, int j) { return in[3 * i + j]; }
static double det3() { return A(0, 0) * (A(1, 1) * A(2, 2) - A(1, 2) * A(2, 1)) - A(0, 1) * (A(1, 0) * A(2, 2) - A(1, 2) * A(2, 0)) + A(0, 2) * (A(1, 0) * A(2, 1) - A(1, 1) * A(2, 0)); }
extern "C" {
void h_hyper() {
  setup();
  double d = det3(), ρ = in[13];
  __sx_assume(d > 0.1);
  py_hyper(in, MP, out);
  double *dA = out + 1, dS = out[10], *dv = out + 11, *sig = out + 14, p = out[23], T = out[24];
  int only = __sx_param("PART");
  if (only == 0)
    for (int i = 0; i < 3; i++) eq(dv[i], in[10 + i], "energy grows with velocity as kinetic energy does");
  if (only == 0) eq(T, dS, "temperature is the derivative of the energy by entropy");
  // sigma = -rho A^T dE/dA
  if (only == 1)
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        double s = 0;
        for (int k = 0; k < 3; k++) s -= ρ * A(k, i) * dA[3 * k + j];
        eq(sig[3 * i + j], s, "the stress is the derivative of the energy by distortion");
      }
  if (only == 2) { // the rest of the stress is that of shear, with the speed the invariant gives
    double c2 = MP.b02 * std::pow(d * d, MP.β), G[3][3], tr = 0;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        G[i][j] = 0;
        for (int k = 0; k < 3; k++) G[i][j] += A(k, i) * A(k, j);
      }
    for (int i = 0; i < 3; i++) tr += G[i][i];
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        double s = 0;
        for (int k = 0; k < 3; k++) s += G[i][k] * (G[k][j] - (k == j ? tr / 3 : 0));
        eq(sig[3 * i + j] + (i == j ? p : 0), -ρ * c2 * s, "what remains of the stress without the pressure is that of shear");
      }
  }
}
void h_entropy() {
  setup();
  __sx_assume(det3() > 0.1);
  py_entropy(in, MP, out);
  eq(std::exp(out[0] / MP.cv), std::exp(in[9] / MP.cv), "entropy inverts the energy");
}
void h_vector() {
  setup();
  double d = det3();
  __sx_assume(d > 0.1);
  // the inverse of the deformation
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int p = (i + 1) % 3, q = (i + 2) % 3, r = (j + 1) % 3, s = (j + 2) % 3;
      in[14 + 3 * j + i] = (A(p, r) * A(q, s) - A(p, s) * A(q, r)) / d;
    }
  py_vector(in, MP, out);
  double ρ = MP.ρ0 / d;
  eq(out[0], ρ, "density follows from the deformation");
  eq(out[1], ρ * out[14], "the energy is that of the distortion, entropy and velocity");
  for (int i = 0; i < 3; i++) eq(out[2 + i], ρ * in[10 + i], "momentum");
  for (int i = 0; i < 9; i++) eq(out[5 + i], in[14 + i], "the distortion is the inverse of the deformation");
}
}
