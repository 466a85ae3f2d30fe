/* settings of the second component: heat (C22) or salt (C23) */
/* second component: conductivity of the rock (TH) or diffusivity of the salt; 0: isotropic 1: diagonal, varying 2: full */
static int CK, CB, CMODE; static double LT[4];
static void c_at(const double *x, double K[9]) {
  double s = CMODE == TH ? 1.0 : 1e-6, h = 1 + 0.5*x[0] + 0.3*x[1] + 0.8*x[2];
  memset(K, 0, 9*sizeof(double));
  if (CK == 0) K[0] = K[4] = K[8] = 1.3*s;
  else if (CK == 1) { K[0] = s*h; K[4] = 2.5*s/h; K[8] = 0.4*s*(1+h*h); }
  else { double t[9] = {2,.3,.2,.3,1.5,.4,.2,.4,1}; for (int i = 0; i < 9; ++i) K[i] = s*t[i]; }
}
static void f_cd(PetscInt n, PetscReal *x, PetscReal *f) { double K[9]; for (int i = 0; i < n; ++i) { c_at(x+3*i, K); f[3*i] = K[0]; f[3*i+1] = K[4]; f[3*i+2] = K[8]; } }
static void f_ct(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) c_at(x+3*i, f+9*i); }
static double rs_at(const double *x) { return 2500 + 100*x[0] - 50*x[2]; }
static double cs_at(const double *x) { return 900 + 30*x[1] + 10*x[0]; }
static double mw_at(const double *x) { return 58.44; }
static double tb_at(const double *x) {
  if (CB == 2) return LT[3] + LT[0]*x[0] + LT[1]*x[1] + LT[2]*x[2];
  return CMODE == TH ? 40 - 6*x[0] + 3*x[1] + 8*x[2] : 1.0 + 0.2*x[0] - 0.1*x[1] + 0.3*x[2];
}
static void f_rs(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = rs_at(x+3*i); }
static void f_cs(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = cs_at(x+3*i); }
static void f_mw(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = mw_at(x+3*i); }
static void f_tb(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = tb_at(x+3*i); }
static PetscErrorCode more(TDy tdy) {
  PetscErrorCode e;
  if (CMODE == TH) {
    e = CK == 2 ? TDySetTensorThermalConductivityFunction(tdy, f_ct) : TDySetDiagonalThermalConductivityFunction(tdy, f_cd); if (e) return e;
    e = TDySetSoilDensityFunction(tdy, f_rs); if (e) return e;
    e = TDySetSoilSpecificHeatFunction(tdy, f_cs); if (e) return e;
    if (CB) { e = TDySetBoundaryTemperatureFunction(tdy, f_tb); if (e) return e; }
  } else if (CMODE == SALINITY) {
    e = CK == 2 ? TDySetTensorSalineDiffusivityFunction(tdy, f_ct) : TDySetDiagonalSalineDiffusivityFunction(tdy, f_cd); if (e) return e;
    e = TDySetSalineMolecularWeightFunction(tdy, f_mw); if (e) return e;
    if (CB) { e = TDySetBoundarySalineConcentrationFunction(tdy, f_tb); if (e) return e; }
  }
  return 0;
}
