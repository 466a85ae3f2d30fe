/* C03: every combination of a few runtime options and API settings, against a table of what each one names. */
#include "flow.h"
#include <private/tdytiimpl.h>
#include <private/tdyioimpl.h>

enum { M_R, M_RF, M_TH, M_SAL, NM };
static const char *CN[NM] = {"richards","richards-fvtpf","th","salinity"};
enum { POR, KX, KY, KZ, SD, SH, TCX, TCZ, SR, MW, DIFX, DIFZ, GRAV, RHO, MU, ENTH, PBC, VBC, TBC, SBC, FINAL, DTMAX, DTINIT, GROW, RED, METHOD, KSET, PSET, ICSET, ANISO, CKPT, CKINT, OUTINT, BCT, VGM, VGA, RANDOM, NQ };
static const char *QN[NQ] = {"porosity","Kxx","Kyy","Kzz","soil density","soil specific heat","conductivity xx","conductivity zz","residual saturation","molecular weight","diffusivity xx","diffusivity zz","gravity","density law","viscosity law","enthalpy law","boundary pressure","boundary velocity","boundary temperature","boundary concentration","final time","dt max","dt init","growth","reduction","method","permeability dataset","porosity dataset","ic dataset","anisotropic","checkpoint","checkpoint interval","output interval","boundary type","vG m","vG alpha","random"};
#define ABSENT (-1e99)
#define P0 101325.0
static double shash(const char *s) { double h = 0; for (; *s; ++s) h = h*31 + *s; return h; }
/* what a point-wise function gives at (1,2,3) */
static void fn_a(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 0.3 + 0.01*x[3*i] + 0.02*x[3*i+1] + 0.001*x[3*i+2]; }
static void fn_k(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1e-12*(5 + 0*x[0]); }
static void fn_p(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = P0; }
static void fn_q(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 77 + x[3*i+1]; }
static void fn_r(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 55 - x[3*i+2]; }
#define AT_A (0.3 + 0.01 + 0.04 + 0.003)
#define ALLM 15
#define B_R 1
#define B_RF 2
#define B_TH 4
#define B_SAL 8
typedef struct { const char *name, *key, *key2, *val; int modes; int q[3]; double v[3]; int prio; } letter;
/* options (prio 0; a named function goes before a value: prio 1) and API calls (prio 2, key is the call) */
static letter L[] = {
  {"porosity", "-tdy_porosity", 0, "0.35", ALLM, {POR,-1}, {0.35}, 0},
  {"permeability", "-tdy_permability", "-tdy_permeability", "3e-12", ALLM, {KX,KY,KZ}, {3e-12,3e-12,3e-12}, 0},
  {"soil_density", "-tdy_soil_density", 0, "2400", ALLM, {SD,-1}, {2400}, 0},
  {"soil_specific_heat", "-tdy_soil_specific_heat", 0, "850", ALLM, {SH,-1}, {850}, 0},
  {"thermal_conductivity", "-tdy_thermal_conductivity", 0, "1.7", ALLM, {TCX,TCZ,-1}, {1.7,1.7}, 0},
  {"residual_saturation", "-tdy_residual_satuaration", "-tdy_residual_saturation", "0.2", ALLM, {SR,-1}, {0.2}, 0},
  {"vg_m", "-tdy_vangenuchten_param_m", 0, "0.6", ALLM, {VGM,-1}, {0.6}, 0},
  {"vg_alpha", "-tdy_vangenuchten_param_alpha", 0, "2e-4", ALLM, {VGA,-1}, {2e-4}, 0},
  {"gardner_n", "-tdy_gardner_param_n", 0, "0.7", ALLM, {-1}, {0}, 0},
  {"gravity", "-tdy_gravity", 0, "7.5", ALLM, {GRAV,-1}, {7.5}, 0},
  {"gravity0", "-tdy_gravity", 0, "0", ALLM, {GRAV,-1}, {0}, 0},
  {"rho_exp", "-tdy_water_density", 0, "EXPONENTIAL", ALLM, {RHO,-1}, {1}, 0},
  {"rho_bw", "-tdy_water_density", 0, "BATZLE_AND_WANG", ALLM, {RHO,-1}, {2}, 0},
  {"mu_bw", "-tdy_water_viscosity", 0, "BATZLE_AND_WANG", ALLM, {MU,-1}, {1}, 0},
  {"enth", "-tdy_water_enthalpy", 0, "CONSTANT", ALLM, {ENTH,-1}, {0}, 0},
  {"pbc_value", "-tdy_pressure_bc_value", 0, "98765", ALLM, {PBC,-1}, {98765}, 0},
  {"vbc_value", "-tdy_velocity_bc_value", 0, "0.25", ALLM, {VBC,-1}, {0.25}, 0},
  {"tbc_value", "-tdy_temperature_bc_value", 0, "290", ALLM, {TBC,-1}, {290}, 0},
  {"pbc_func", "-tdy_pressure_bc_func", 0, "fq", ALLM, {PBC,-1}, {79}, 1},
  {"vbc_func", "-tdy_velocity_bc_func", 0, "fr", ALLM, {VBC,-1}, {52}, 1},
  {"tbc_func", "-tdy_temperature_bc_func", 0, "fq", ALLM, {TBC,-1}, {79}, 1},
  {"final_time", "-tdy_final_time", 0, "5000", ALLM, {FINAL,-1}, {5000}, 0},
  {"dt_max", "-tdy_dt_max", 0, "300", ALLM, {DTMAX,-1}, {300}, 0},
  {"dt_init", "-tdy_dt_init", 0, "2.5", ALLM, {DTINIT,-1}, {2.5}, 0},
  {"growth", "-tdy_dt_growth_factor", 0, "1.6", ALLM, {GROW,-1}, {1.6}, 0},
  {"reduction", "-tdy_dt_reduction_factor", 0, "0.3", ALLM, {RED,-1}, {0.3}, 0},
  {"method_snes", "-tdy_time_integration_method", 0, "SNES", B_R|B_RF|B_SAL, {METHOD,-1}, {TDySNES}, 0},
  {"method_ts", "-tdy_time_integration_method", 0, "TS", B_R, {METHOD,-1}, {TDyTS}, 0},
  {"perm_dataset", "-permeability_dataset", 0, "Kset", ALLM, {KSET,-1}, {1}, 0},
  {"por_dataset", "-porosity_dataset", 0, "Pset", ALLM, {PSET,-1}, {2}, 0},
  {"ic_dataset", "-ic_dataset", 0, "ICset", ALLM, {ICSET,-1}, {3}, 0},
  {"anisotropic", "-anisotropic_perm", 0, "true", ALLM, {ANISO,-1}, {1}, 0},
  {"checkpoint", "-enable_checkpoint", 0, "true", ALLM, {CKPT,-1}, {1}, 0},
  {"checkpoint_int", "-checkpoint_timestep_interval", 0, "4", ALLM, {CKINT,-1}, {4}, 0},
  {"output_int", "-output_timestep_interval", 0, "3", ALLM, {OUTINT,-1}, {3}, 0},
  {"random", "-tdy_init_with_random_field", 0, "true", ALLM, {RANDOM,-1}, {1}, 0},
  {"mpfao_neumann", "-tdy_mpfao_boundary_condition_type", 0, "NEUMANN_BC", B_R, {BCT,-1}, {1}, 0},
  {"mpfao_seepage", "-tdy_mpfao_boundary_condition_type", 0, "SEEPAGE_BC", B_R, {BCT,-1}, {2}, 0},
  {"mpfao_tpf", "-tdy_mpfao_gmatrix_method", 0, "MPFAO_GMATRIX_TPF", B_R, {-1}, {0}, 0},
  {"fvtpf_dirichlet", "-tdy_fvtpf_boundary_condition_type", 0, "DIRICHLET_BC", B_RF, {BCT,-1}, {0}, 0},
  {"fvtpf_neumann", "-tdy_fvtpf_boundary_condition_type", 0, "NEUMANN_BC", B_RF, {BCT,-1}, {1}, 0},
  {"fvtpf_seepage", "-tdy_fvtpf_boundary_condition_type", 0, "SEEPAGE_BC", B_RF, {BCT,-1}, {2}, 0},
  /* the edges: zeros, negative values, steps out of order, what is off said aloud */
  {"porosity0", "-tdy_porosity", 0, "0", ALLM, {POR,-1}, {0}, 0},
  {"soil_density0", "-tdy_soil_density", 0, "0", ALLM, {SD,-1}, {0}, 0},
  {"soil_specific_heat0", "-tdy_soil_specific_heat", 0, "0", ALLM, {SH,-1}, {0}, 0},
  {"residual_saturation0", "-tdy_residual_satuaration", "-tdy_residual_saturation", "0", ALLM, {SR,-1}, {0}, 0},
  {"pbc_negative", "-tdy_pressure_bc_value", 0, "-4321", ALLM, {PBC,-1}, {-4321}, 0},
  {"pbc_zero", "-tdy_pressure_bc_value", 0, "0", ALLM, {PBC,-1}, {0}, 0},
  {"vbc_zero", "-tdy_velocity_bc_value", 0, "0", ALLM, {VBC,-1}, {0}, 0},
  {"tbc_negative", "-tdy_temperature_bc_value", 0, "-7", ALLM, {TBC,-1}, {-7}, 0},
  {"final_time_short", "-tdy_final_time", 0, "0.125", ALLM, {FINAL,-1}, {0.125}, 0},
  {"dt_max_small", "-tdy_dt_max", 0, "0.5", ALLM, {DTMAX,-1}, {0.5}, 0},
  {"dt_init_large", "-tdy_dt_init", 0, "4e4", ALLM, {DTINIT,-1}, {4e4}, 0},
  {"dt_init_huge", "-tdy_dt_init", 0, "7e20", ALLM, {DTINIT,-1}, {7e20}, 0},
  {"growth_less", "-tdy_dt_growth_factor", 0, "0.75", ALLM, {GROW,-1}, {0.75}, 0},
  {"growth_one", "-tdy_dt_growth_factor", 0, "1", ALLM, {GROW,-1}, {1}, 0},
  {"reduction_more", "-tdy_dt_reduction_factor", 0, "2", ALLM, {RED,-1}, {2}, 0},
  {"anisotropic_off", "-anisotropic_perm", 0, "false", ALLM, {ANISO,-1}, {0}, 0},
  {"checkpoint_off", "-enable_checkpoint", 0, "false", ALLM, {CKPT,-1}, {0}, 0},
  {"checkpoint_int0", "-checkpoint_timestep_interval", 0, "0", ALLM, {CKINT,-1}, {0}, 0},
  {"output_int0", "-output_timestep_interval", 0, "0", ALLM, {OUTINT,-1}, {0}, 0},
  {"random_off", "-tdy_init_with_random_field", 0, "false", ALLM, {RANDOM,-1}, {0}, 0},
  {"api_porosity", "porosity", 0, 0, ALLM, {POR,-1}, {0.45}, 2},
  {"api_porosity_fn", "porosity_fn", 0, 0, ALLM, {POR,-1}, {AT_A}, 2},
  {"api_iso", "iso", 0, 0, ALLM, {KX,KY,KZ}, {4e-12,4e-12,4e-12}, 2},
  {"api_iso_fn", "iso_fn", 0, 0, ALLM, {KX,KY,KZ}, {5e-12,5e-12,5e-12}, 2},
  {"api_diag", "diag", 0, 0, ALLM, {KX,KY,KZ}, {1e-12,2e-12,6e-12}, 2},
  {"api_sr", "sr", 0, 0, ALLM, {SR,-1}, {0.05}, 2},
  {"api_sd", "sd", 0, 0, ALLM, {SD,-1}, {2222}, 2},
  {"api_sh", "sh", 0, 0, ALLM, {SH,-1}, {777}, 2},
  {"api_tc", "tc", 0, 0, ALLM, {TCX,TCZ,-1}, {2.25,2.25}, 2},
  {"api_tcd", "tcd", 0, 0, ALLM, {TCX,TCZ,-1}, {1.25,3.25}, 2},
  {"api_mw", "mw", 0, 0, ALLM, {MW,-1}, {44}, 2},
  {"api_diff", "diff", 0, 0, ALLM, {DIFX,DIFZ,-1}, {3e-9,3e-9}, 2},
  {"api_diffd", "diffd", 0, 0, ALLM, {DIFX,DIFZ,-1}, {3e-9,7e-9}, 2},
  {"api_rho", "rho", 0, 0, ALLM, {RHO,-1}, {1}, 2},
  {"api_mu", "mu", 0, 0, ALLM, {MU,-1}, {1}, 2},
  {"api_rho_const", "rhoc", 0, 0, ALLM, {RHO,-1}, {0}, 2},
  {"api_pbc", "pbc", 0, 0, ALLM, {PBC,-1}, {52}, 2},
  {"api_vbc", "vbc", 0, 0, ALLM, {VBC,-1}, {79}, 2},
  {"api_tbc", "tbc", 0, 0, ALLM, {TBC,-1}, {52}, 2},
  {"api_sbc", "sbc", 0, 0, ALLM, {SBC,-1}, {79}, 2},
};
#define NL ((int)(sizeof L/sizeof L[0]))
static const struct { const char *key, *val; int modes; } BAD[] = {
  {"-tdy_mode","WATER",ALLM}, {"-tdy_discretization","FEM",ALLM}, {"-tdy_water_density","CUBIC",ALLM}, {"-tdy_water_viscosity","EXPONENTIAL",ALLM}, {"-tdy_water_enthalpy","LINEAR",ALLM},
  {"-tdy_pressure_bc_func","nosuch",ALLM}, {"-tdy_velocity_bc_func","nosuch",ALLM}, {"-tdy_temperature_bc_func","nosuch",ALLM}, {"-tdy_time_integration_method","RK4",ALLM}, {"-tdy_time_integration_method","SNE",ALLM}, {"-tdy_time_integration_method","TSX",ALLM},
  {"-tdy_mpfao_boundary_condition_type","ROBIN_BC",B_R|B_TH|B_SAL}, {"-tdy_mpfao_gmatrix_method","MPFAO_GMATRIX_X",B_R|B_TH|B_SAL}, {"-tdy_fvtpf_boundary_condition_type","ROBIN_BC",B_RF},
  {"-tdy_porosity","much",ALLM}, {"-tdy_gravity","1g",ALLM}, {"-tdy_dt_max","soon",ALLM}, {"-checkpoint_timestep_interval","often",ALLM}, {"-enable_checkpoint","perhaps",ALLM},
  {"-init_porosity_file","/nonexistent/file",ALLM}, {"-init_permeability_file","/nonexistent/file",ALLM}, {"-ic_file","/nonexistent/file",ALLM},
};
#define NBAD ((int)(sizeof BAD/sizeof BAD[0]))

static PetscErrorCode api(TDy t, const char *c) {
  double d[3] = {1e-12,2e-12,6e-12}, td[3] = {1.25,2.25,3.25}, dd[3] = {3e-9,5e-9,7e-9};
#define IS(s) (!strcmp(c, s))
  if (IS("porosity")) return TDySetConstantPorosity(t, 0.45);
  if (IS("porosity_fn")) return TDySetPorosityFunction(t, fn_a);
  if (IS("iso")) return TDySetConstantIsotropicPermeability(t, 4e-12);
  if (IS("iso_fn")) return TDySetIsotropicPermeabilityFunction(t, fn_k);
  if (IS("diag")) return TDySetConstantDiagonalPermeability(t, d);
  if (IS("sr")) return TDySetConstantResidualSaturation(t, 0.05);
  if (IS("sd")) return TDySetConstantSoilDensity(t, 2222);
  if (IS("sh")) return TDySetConstantSoilSpecificHeat(t, 777);
  if (IS("tc")) return TDySetConstantIsotropicThermalConductivity(t, 2.25);
  if (IS("tcd")) return TDySetConstantDiagonalThermalConductivity(t, td);
  if (IS("mw")) return TDySetConstantSalineMolecularWeight(t, 44);
  if (IS("diff")) return TDySetConstantIsotropicSalineDiffusivity(t, 3e-9);
  if (IS("diffd")) return TDySetConstantDiagonalSalineDiffusivity(t, dd);
  if (IS("rho")) return TDySetWaterDensityType(t, WATER_DENSITY_EXPONENTIAL);
  if (IS("rhoc")) return TDySetWaterDensityType(t, WATER_DENSITY_CONSTANT);
  if (IS("mu")) return TDySetWaterViscosityType(t, WATER_VISCOSITY_BATZLE_AND_WANG);
  if (IS("pbc")) return TDySetBoundaryPressureFunction(t, fn_r);
  if (IS("vbc")) return TDySetBoundaryVelocityFunction(t, fn_q);
  if (IS("tbc")) return TDySetBoundaryTemperatureFunction(t, fn_r);
  if (IS("sbc")) return TDySelectBoundarySalineConcentrationFunction(t, "fq");
  return 1;
}
static void defaults(int m, double *e) {
  for (int i = 0; i < NQ; ++i) e[i] = ABSENT;
  e[POR] = 0.25; e[KX] = e[KY] = e[KZ] = 1e-12; e[SR] = 0.15; e[VGM] = 0.8; e[VGA] = 1e-4; e[GRAV] = 9.8068; e[RHO] = e[MU] = e[ENTH] = 0;
  if (m == M_TH) { e[SD] = 2650; e[SH] = 1000; e[TCX] = e[TCZ] = 1; }
  if (m == M_SAL) { e[MW] = 58.44; e[DIFX] = e[DIFZ] = 1e-6; }
  e[FINAL] = 0.0001*365.*24.*3600.; e[DTMAX] = 1e20; e[DTINIT] = 1; e[GROW] = 1.25; e[RED] = 0.5; e[METHOD] = m == M_TH ? TDyTS : TDySNES;
  e[KSET] = e[PSET] = e[ICSET] = 0; e[ANISO] = e[CKPT] = 0; e[CKINT] = 1; e[OUTINT] = 0; e[RANDOM] = 0;
  e[BCT] = m == M_RF ? 1 : 0; e[PBC] = P0;   /* the harness gives a boundary pressure unless the case does */
}
static PetscErrorCode column(MPI_Comm comm, void *ctx, DM *dm) {
  PetscInt n[3] = {1,1,2}; PetscReal lo[3] = {0,0,0}, hi[3] = {1,1,2};
  return DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, n, lo, hi, NULL, PETSC_TRUE, dm);
}
static int conflict(const letter *a, const letter *b) { return !strcmp(a->key, b->key) || (a->prio == 2 && b->prio == 2 && a->q[0] == b->q[0]); }
static PetscErrorCode bring_up(int m, letter **ls, int n, int bad, TDy *tp) {
  PetscErrorCode ierr; TDy t; int pbc = 0;
  PetscOptionsClear(NULL);
  set_opt("-dm_coord_space", "0");
  if (m == M_TH) set_opt("-tdy_time_integration_method", "TS");
  for (int i = 0; i < n; ++i) if (ls[i]->prio < 2) { set_opt(ls[i]->key, ls[i]->val); if (ls[i]->key2) set_opt(ls[i]->key2, ls[i]->val); }
  if (bad >= 0) set_opt(BAD[bad].key, BAD[bad].val);
  ierr = TDyCreate(PETSC_COMM_WORLD, &t); if (ierr) return ierr;
  *tp = t;
  ierr = TDySetMode(t, m == M_TH ? TH : m == M_SAL ? SALINITY : RICHARDS); if (ierr) return ierr;
  ierr = TDySetDiscretization(t, m == M_RF ? FV_TPF : MPFA_O); if (ierr) return ierr;
  ierr = TDySetDMConstructor(t, NULL, column); if (ierr) return ierr;
  ierr = TDySetFromOptions(t); if (ierr) return ierr;
  for (int i = 0; i < n; ++i) for (int k = 0; k < 3 && ls[i]->q[k] >= 0; ++k) pbc |= ls[i]->q[k] == PBC;
  if (!pbc) { ierr = TDySetBoundaryPressureFunction(t, fn_p); if (ierr) return ierr; }
  for (int i = 0; i < n; ++i) if (ls[i]->prio == 2) { ierr = api(t, ls[i]->key); if (ierr) return ierr; }
  return TDyDriverInitializeTDy(t);
}
static double eos_rho(int law, double P, double T, double x) {
  EOS e; double r, a, b; memset(&e, 0, sizeof e); e.density_type = (TDyWaterDensityType)law; EOSComputeWaterDensity(&e, P, T, x, &r, &a, &b); return r;
}
static double eos_mu(int law, double P, double T, double x) {
  EOS e; double r, a, b; memset(&e, 0, sizeof e); e.viscosity_type = law; EOSComputeWaterViscosity(&e, P, T, x, &r, &a, &b); return r;
}
static const char *ctx(int m, letter **ls, int n) {
  static char b[512]; snprintf(b, sizeof b, "%s", CN[m]);
  for (int i = 0; i < n; ++i) { strcat(b, " "); strcat(b, ls[i]->name); }
  return b;
}
static int eval(TDy t, int m, const double *P, double *r) {
  PetscScalar *a; PetscInt n; Vec U, R; PetscErrorCode ierr;
  int bs = m == M_TH || m == M_SAL ? 2 : 1;
  TDyCreatePrognosticVector(t, &U); VecDuplicate(U, &R); VecGetLocalSize(U, &n);
  VecGetArray(U, &a);
  for (int i = 0; i < 2; ++i) { a[bs*i] = P[i]; if (bs == 2) a[2*i+1] = m == M_TH ? 298.0 : 0.0; }
  VecRestoreArray(U, &a);
  if (t->ti->time_integration_method == TDyTS) {
    Vec V; VecDuplicate(U, &V); VecSet(V, 0);
    ierr = TSComputeIFunction(t->ti->ts, 0.0, U, V, R, PETSC_FALSE);
    VecDestroy(&V);
  } else {
    ierr = TDySetDtimeForSNESSolver(t, 1000.0);
    if (!ierr) ierr = TDySetPreviousSolutionForSNESSolver(t, U);
    if (!ierr) ierr = TDyPreSolveSNESSolver(t);
    if (!ierr) ierr = SNESComputeFunction(t->ti->snes, U, R);
  }
  if (ierr) { vh_fail("error", "evaluation: %d %s", ierr, vh_errmsg); return 1; }
  VecGetArray(R, &a); for (int i = 0; i < 2; ++i) r[i] = a[bs*i]; VecRestoreArray(R, &a);
  VecDestroy(&U); VecDestroy(&R); vh_trans(1);
  return 0;
}
static void run(int m, letter **ls, int n) {
  TDy t = NULL; double e[NQ], g[NQ], x[3] = {1,2,3}, K[9]; PetscErrorCode ierr; int pr[NQ];
  defaults(m, e); memset(pr, 0, sizeof pr);
  int pbc = 0, rnd = 0;
  for (int p = 0; p < 3; ++p) for (int i = 0; i < n; ++i) if (ls[i]->prio == p) for (int k = 0; k < 3 && ls[i]->q[k] >= 0; ++k) {
    int q = ls[i]->q[k];
    /* the driver only applies these defaults and options in the mode that uses them */
    if (p < 2 && ((m != M_TH && (q == SD || q == SH || q == TCX || q == TCZ)))) continue;
    e[q] = ls[i]->v[k]; pbc |= q == PBC; rnd |= q == RANDOM;
  }
  const char *c = ctx(m, ls, n);
  ierr = bring_up(m, ls, n, -1, &t);
  if (ierr) { vh_fail("refused", "%s: %s", c, vh_errmsg); if (t) TDyDestroy(&t); return; }
  for (int i = 0; i < NQ; ++i) g[i] = ABSENT;
#define OBS(q, has, get) do { if (has) { ierr = get; if (ierr) vh_fail("error", "%s: %s", c, vh_errmsg); } } while (0)
  MaterialProp *mp = t->matprop;
  OBS(POR, MaterialPropHasPorosity(mp), MaterialPropComputePorosity(mp, 1, x, &g[POR]));
  OBS(KX, MaterialPropHasPermeability(mp), (ierr = MaterialPropComputePermeability(mp, 1, x, K), g[KX] = K[0], g[KY] = K[4], g[KZ] = K[8], ierr));
  OBS(TCX, MaterialPropHasThermalConductivity(mp), (ierr = MaterialPropComputeThermalConductivity(mp, 1, x, K), g[TCX] = K[0], g[TCZ] = K[8], ierr));
  OBS(DIFX, MaterialPropHasSalineDiffusivity(mp), (ierr = MaterialPropComputeSalineDiffusivity(mp, 1, x, K), g[DIFX] = K[0], g[DIFZ] = K[8], ierr));
  OBS(SD, MaterialPropHasSoilDensity(mp), MaterialPropComputeSoilDensity(mp, 1, x, &g[SD]));
  OBS(SH, MaterialPropHasSoilSpecificHeat(mp), MaterialPropComputeSoilSpecificHeat(mp, 1, x, &g[SH]));
  OBS(SR, MaterialPropHasResidualSaturation(mp), MaterialPropComputeResidualSaturation(mp, 1, x, &g[SR]));
  OBS(MW, MaterialPropHasSalineMolecularWeight(mp), MaterialPropComputeSalineMolecularWeight(mp, 1, x, &g[MW]));
  Conditions *cd = t->conditions;
  OBS(PBC, ConditionsHasBoundaryPressure(cd), ConditionsComputeBoundaryPressure(cd, 1, x, &g[PBC]));
  OBS(VBC, ConditionsHasBoundaryVelocity(cd), ConditionsComputeBoundaryVelocity(cd, 1, x, &g[VBC]));
  OBS(TBC, ConditionsHasBoundaryTemperature(cd), ConditionsComputeBoundaryTemperature(cd, 1, x, &g[TBC]));
  OBS(SBC, ConditionsHasBoundarySalineConcentration(cd), ConditionsComputeBoundarySalineConcentration(cd, 1, x, &g[SBC]));
  if (ConditionsHasForcing(cd) || ConditionsHasEnergyForcing(cd) || ConditionsHasSalinitySource(cd) || ConditionsHasBoundaryPressureType(cd)) vh_fail("condition", "%s: a condition nobody set is there", c);
  g[RHO] = t->eos.density_type; g[MU] = t->eos.viscosity_type; g[ENTH] = t->eos.enthalpy_type;
  TDyTimeIntegrator ti = t->ti;
  g[FINAL] = ti->final_time; g[DTMAX] = ti->dt_max; g[DTINIT] = ti->dt_init; g[GROW] = ti->dt_growth_factor; g[RED] = ti->dt_reduction_factor; g[METHOD] = ti->time_integration_method;
  if (ti->dt != ti->dt_init) vh_fail("step", "%s: first step %g, initial step %g", c, ti->dt, ti->dt_init);
  TDyIO io = t->io;
  g[KSET] = !strcmp(io->permeability_dataset, "Kset") ? 1 : io->permeability_dataset[0] ? -1 : 0;
  g[PSET] = !strcmp(io->porosity_dataset, "Pset") ? 2 : io->porosity_dataset[0] ? -1 : 0;
  g[ICSET] = !strcmp(io->ic_dataset, "ICset") ? 3 : io->ic_dataset[0] ? -1 : 0;
  if (io->permeability_filename[0] || io->porosity_filename[0] || io->ic_filename[0]) vh_fail("file", "%s: a file nobody named", c);
  g[ANISO] = io->anisotropic_permeability; g[CKPT] = io->enable_checkpoint; g[CKINT] = io->checkpoint_timestep_interval; g[OUTINT] = io->output_timestep_interval;
  { const PetscScalar *a; PetscInt nn; VecGetLocalSize(t->soln, &nn); VecGetArrayRead(t->soln, &a); int same = 1; for (int i = 1; i < nn; ++i) same &= a[i] == a[0]; g[RANDOM] = !same; VecRestoreArrayRead(t->soln, &a); }
  /* the effects: gravity, boundary type and permeability in the residual, the curve in the saturation */
  g[GRAV] = e[GRAV]; g[BCT] = e[BCT]; g[VGM] = e[VGM]; g[VGA] = e[VGA];
  int snes = ti->time_integration_method == TDySNES;
  if ((m == M_R || m == M_RF) && snes && !pbc) {
    double Pg[2] = {P0, P0}, Pu[2] = {P0 + 20000, P0 + 20000}, r[2];
    double rho = eos_rho((int)e[RHO], P0, 25, 0), mu = eos_mu((int)e[MU], P0, 25, 0), G = rho*rho*e[KZ]*e[GRAV]/mu, w0, w1, tol;
    w0 = e[BCT] == 1 ? -G : 0; w1 = e[BCT] == 0 ? 0 : G;
    if (!eval(t, m, Pg, r)) { tol = 1e-6*rho*rho*e[KZ]*10/mu; if (fabs(r[0]-w0) > tol || fabs(r[1]-w1) > tol) vh_fail("gravity", "%s: at rest pressure the residual is %g %g, expected %g %g", c, r[0], r[1], w0, w1); }
    if (e[BCT] != 1 && !eval(t, m, Pu, r)) {
      rho = 0.5*(rho + eos_rho((int)e[RHO], P0+20000, 25, 0));
      double F = (4*e[KX] + 4*e[KY] + 2*e[KZ])*20000*rho/mu;
      for (int i = 0; i < 2; ++i) if (fabs(r[i]-F) > 2e-3*F) vh_fail("outflow", "%s: residual of cell %d is %g, expected %g", c, i, r[i], F);
    }
  }
  double Pb[2] = {P0 - 20000, P0 - 6000}, r[2], s[2], mass[2];
  if (!eval(t, m, Pb, r)) {
    Vec v; const PetscScalar *a;
    VH_CHK(TDyUpdateDiagnostics(t)); VH_CHK(TDyCreateDiagnosticVector(t, &v));
    VH_CHK(TDyGetLiquidSaturation(t, v)); VecGetArrayRead(v, &a); s[0] = a[0]; s[1] = a[1]; VecRestoreArrayRead(v, &a);
    VH_CHK(TDyGetLiquidMass(t, v)); VecGetArrayRead(v, &a); mass[0] = a[0]; mass[1] = a[1]; VecRestoreArrayRead(v, &a);
    VecDestroy(&v);
    for (int i = 0; i < 2; ++i) {
      double S, d1, d2, xc[3] = {0.5,0.5,0.5+i}, ph = e[POR] == AT_A ? 0.3 + 0.005 + 0.01 + 0.001*xc[2] : e[POR];
      ref_vg(e[VGM], e[VGA], e[SR], P0 - Pb[i], &S, &d1, &d2);
      if (!close_rel(s[i], S, 1e-9, 0)) vh_fail("saturation", "%s: saturation of cell %d is %.12g, expected %.12g", c, i, s[i], S);
      if (m == M_R || m == M_RF || e[RHO] < 2) {
        double M = S*ph*eos_rho((int)e[RHO], Pb[i], 25, 0);
        if (!close_rel(mass[i], M, 1e-9, 0)) vh_fail("mass", "%s: liquid mass of cell %d is %.12g, expected %.12g", c, i, mass[i], M);
      }
      vh_outcome(vh_hd(vh_hd(vh_h0(), s[i]), mass[i]));
    }
  }
  uint64_t h = vh_hi(vh_h0(), m);
  for (int q = 0; q < NQ; ++q) {
    if (g[q] != e[q] && fabs(g[q]-e[q]) > 1e-13*fabs(e[q])) vh_fail("value", "%s: %s is %.12g, expected %.12g", c, QN[q], g[q], e[q]);
    h = vh_hd(h, g[q]);
  }
  vh_state(h);
  VH_CHK(TDyDestroy(&t));
}
static void grp_opts(void) {
  int maxn = vh_thorough ? 3 : 2;
  for (int m = 0; m < NM; ++m) {
    if (vh_case("%s nothing set", CN[m])) run(m, NULL, 0);
    for (int a = 0; a < NL; ++a) if (L[a].modes >> m & 1) {
      if (!vh_case("%s %s with others", CN[m], L[a].name)) continue;
      letter *ls[3] = {&L[a]}; run(m, ls, 1);
      for (int b = a+1; b < NL; ++b) if ((L[b].modes >> m & 1) && !conflict(&L[a], &L[b])) {
        ls[1] = &L[b]; run(m, ls, 2);
        if (vh_nfail_case >= 6) break;
        if (maxn == 3) for (int c = b+1; c < NL; ++c) if ((L[c].modes >> m & 1) && !conflict(&L[a], &L[c]) && !conflict(&L[b], &L[c])) {
          ls[2] = &L[c]; run(m, ls, 3);
          if (vh_nfail_case >= 6) break;
        }
      }
    }
    for (int k = 0; k < NBAD; ++k) if (BAD[k].modes >> m & 1) {
      if (!vh_case("%s unknown value %s %s with others", CN[m], BAD[k].key, BAD[k].val)) continue;
      for (int a = -1; a < NL; ++a) {
        if (a >= 0 && (!(L[a].modes >> m & 1) || !strcmp(L[a].key, BAD[k].key))) continue;
        /* a file is only read where no value was set */
        if (a >= 0 && L[a].prio == 2 && ((L[a].q[0] == POR && strstr(BAD[k].key, "porosity_file")) || (L[a].q[0] == KX && strstr(BAD[k].key, "permeability_file")))) continue;
        letter *ls[1] = {a >= 0 ? &L[a] : NULL}; TDy t = NULL;
        PetscErrorCode ierr = bring_up(m, ls, a >= 0, k, &t); vh_trans(1);
        if (!ierr) vh_fail("accepted", "%s: %s %s was accepted", ctx(m, ls, a >= 0), BAD[k].key, BAD[k].val);
        if (t) { PetscErrorCode e2 = TDyDestroy(&t); if (e2) vh_fail("destroy", "%s", vh_errmsg); }
        if (vh_nfail_case >= 6) break;
      }
    }
    if (vh_case("%s two sources of the initial condition", CN[m])) {
      for (int a = 0; a < NL; ++a) if ((L[a].modes >> m & 1) && strcmp(L[a].name, "random_off")) {
        static letter f = {"init_file", "-tdy_init_file", 0, "/nonexistent/file", ALLM, {-1}, {0}, 0}, rd = {"random", "-tdy_init_with_random_field", 0, "true", ALLM, {-1}, {0}, 0};
        letter *ls[3] = {&f, &rd, &L[a]}; TDy t = NULL;
        PetscErrorCode ierr = bring_up(m, ls, 3, -1, &t);
        if (!ierr) vh_fail("accepted", "%s: accepted", ctx(m, ls, 3));
        if (t) TDyDestroy(&t);
      }
    }
  }
}
int main(int argc, char **argv) {
  MPI_Init(NULL, NULL);
  setenv("PETSC_OPTIONS", "-no_signal_handler", 1);
  int c = 1; char *av[2] = {argv[0], NULL};
  vh_parse(argc, argv);
  if (!freopen("/dev/null", "w", stdout)) return 98;
  TDyInit(c, av);
  MPI_Comm_rank(PETSC_COMM_WORLD, &vh_rank);
  PetscPushErrorHandler(vh_errh, NULL);
  TDyRegisterFunction("fq", fn_q); TDyRegisterFunction("fr", fn_r);
  gen_rot();
  if (vh_grp("opts")) grp_opts();
  else { fprintf(stderr, "no such group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  return 0;
}
