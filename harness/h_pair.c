/* C25: two dycores in one process. Every life is the same sequence of steps; all merges of the steps of two lives are
   executed, and everything either of them computes is compared bit by bit with the same life run on its own. */
#include "flow.h"
#include "two.h"
#include <private/tdytiimpl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

enum { L_MPFAO, L_MPFATPF, L_FVTPF, L_TH, L_SALT, L_TRANS, L_TS, L_WY, L_BDM, L_DRIVER, L_DRIVERTS, L_N };
static const char *LN[] = {"mpfao","mpfao-tpf","fvtpf","thermal","saline","transient-variable","mpfao-ts","wy","bdm","driver","driver-fvtpf"};
enum { NSTEP = 7, MAXT = 20000 };
typedef struct { int kind, var, step; prob q; int mode; flow f; Mat K; Vec F; double tr[MAXT]; int at[NSTEP+1], n; int bad; char err[300]; } life;

static void life_init(life *l, int kind, int var) {
  static const int SZ[][3] = {{2,1,1},{1,2,1},{1,1,2},{2,1,1},{1,1,2},{1,2,1},{2,2,1},{2,1,1},{1,2,1},{1,1,2},{2,1,1}};
  memset(l, 0, sizeof *l); l->kind = kind; l->var = var;
  prob *q = &l->q; memcpy(q->n, SZ[kind], sizeof q->n);
  if (var) { q->n[0]++; }
  q->geom = var ? G_STRETCH : G_BOX; q->grav = var ? 0.0 : 9.8068; q->dt = var ? 500 : 3600; q->rho = var ? 0 : 1; q->pb = var ? 2 : 0;
  q->kk = kind == L_FVTPF || kind == L_DRIVERTS || kind == L_MPFATPF ? (var ? K_HISO : K_HDIAG) : var ? K_FULL : K_HDIAG;
  q->bc = kind == L_SALT || kind == L_TH ? (var ? B_NEU : B_DIR) : var ? B_SEEP : B_DIR;
  q->disc = kind == L_MPFATPF ? D_MPFATPF : kind == L_FVTPF || kind == L_DRIVERTS ? D_FVTPF : D_MPFAO;
  q->form = kind == L_TRANS ? 2 : kind == L_TS || kind == L_TH ? 1 : 0;
  l->mode = kind == L_TH ? TH : kind == L_SALT ? SALINITY : RICHARDS;
}
static int stages(void) { return vh_thorough ? NSTEP : NSTEP-1; }   /* quick: the solver is created together with the setup */
static void use(life *l) { CUR = &l->q; CMODE = l->mode; CK = l->var; CB = !l->var; }
static void rec(life *l, double x) { if (l->n < MAXT) l->tr[l->n++] = x; else l->bad = 1; }
static void recv(life *l, Vec v) {
  const PetscScalar *a; PetscInt n; VecGetLocalSize(v, &n); VecGetArrayRead(v, &a);
  rec(l, n); for (PetscInt i = 0; i < n; ++i) rec(l, a[i]);
  VecRestoreArrayRead(v, &a);
}
static void recm(life *l, Mat B) {
  PetscInt m; MatGetSize(B, &m, NULL);
  for (PetscInt i = 0; i < m; ++i) {
    PetscInt nc; const PetscInt *c; const PetscScalar *v; MatGetRow(B, i, &nc, &c, &v);
    for (PetscInt k = 0; k < nc; ++k) { rec(l, c[k]); rec(l, v[k]); }
    MatRestoreRow(B, i, &nc, &c, &v);
  }
}
static void state(life *l, Vec v, int k) {
  PetscScalar *a; PetscInt n; VecGetLocalSize(v, &n); VecGetArray(v, &a);
  int two = l->mode != RICHARDS;
  for (PetscInt i = 0; i < n; ++i)
    a[i] = two && i%2 ? (l->mode == TH ? 20 + 3*i + 11*k : 0.1 + 0.05*i + 0.3*k) : l->kind == L_TRANS ? 60 + 20*i + 35*k : 85000 + 4000*i + 11000*k - 300*l->var;
  VecRestoreArray(v, &a);
}
static const char *OPTS[] = {"-tdy_gravity","-tdy_water_density","-tdy_water_viscosity","-tdy_mpfao_gmatrix_method","-tdy_mpfao_boundary_condition_type","-tdy_fvtpf_boundary_condition_type","-tdy_quadrature","-tdy_dt_init","-tdy_dt_max","-tdy_dt_growth_factor","-tdy_time_integration_method","-ts_type","-snes_rtol","-snes_atol","-snes_stol","-ksp_type","-pc_type","-snes_max_it","-tdy_porosity","-tdy_residual_saturation","-tdy_init_with_random_field","-tdy_final_time"};
static void clear_opts(void) { for (size_t i = 0; i < sizeof OPTS/sizeof *OPTS; ++i) PetscOptionsClearValue(NULL, OPTS[i]); }
#define S(x) do { PetscErrorCode e_ = (x); if (e_) { snprintf(l->err, sizeof l->err, "%s: %s", #x, vh_errmsg); l->bad = 1; return; } } while (0)
static int fe(const life *l) { return l->kind == L_WY || l->kind == L_BDM; }
static int driver(const life *l) { return l->kind == L_DRIVER || l->kind == L_DRIVERTS; }
static int uses_ts(const life *l) { return l->kind == L_TS || l->kind == L_TH || l->kind == L_TRANS; }
static void evaluate(life *l, int k) {
  flow *f = &l->f;
  if (fe(l)) {
    S(MatZeroEntries(l->K)); S(VecSet(l->F, 0));
    if (l->kind == L_WY) S(TDyWYComputeSystem(f->tdy, l->K, l->F)); else S(TDyBDMComputeSystem(f->tdy, l->K, l->F));
    recm(l, l->K); recv(l, l->F);
    return;
  }
  if (driver(l)) { S(TDyTimeIntegratorRunToTime(f->tdy, (k+1)*(l->var ? 4000.0 : 1500.0))); recv(l, f->tdy->soln); rec(l, f->tdy->ti->time); rec(l, f->tdy->ti->dt); rec(l, f->tdy->ti->istep); return; }
  state(l, f->U, k); VecSet(f->R, 7777);
  if (uses_ts(l)) {
    Vec V; Mat J; S(VecDuplicate(f->U, &V)); VecSet(V, 0.01 + 0.02*k); S(DMCreateMatrix(f->dm, &J)); MatSetOption(J, MAT_NEW_NONZERO_LOCATIONS, PETSC_TRUE);
    S(TSComputeIFunction(f->ts, 0.0, f->U, V, f->R, PETSC_FALSE)); recv(l, f->R);
    if (l->kind == L_TS) { S(TSComputeIJacobian(f->ts, 0.0, f->U, V, 0.25, J, J, PETSC_FALSE)); recm(l, J); }
    VecDestroy(&V); MatDestroy(&J);
  } else {
    S(SNESComputeFunction(f->snes, f->U, f->R)); recv(l, f->R);
    Mat A, B; S(SNESGetJacobian(f->snes, &A, &B, NULL, NULL));
    if (l->kind != L_SALT) { S(SNESComputeJacobian(f->snes, f->U, A, B)); recm(l, B); }
  }
}
static void step(life *l) {
  flow *f = &l->f; prob *q = &l->q; char b[64]; int s = l->step++;
  use(l); l->at[s] = l->n;
  if (l->bad) return;
  switch (s) {
  case 0:
    S(TDyCreate(PETSC_COMM_WORLD, &f->tdy)); S(TDySetMode(f->tdy, (TDyMode)l->mode));
    S(TDySetDiscretization(f->tdy, l->kind == L_WY ? WY : l->kind == L_BDM ? BDM : q->disc == D_FVTPF ? FV_TPF : q->form == 2 ? MPFA_O_TRANSIENTVAR : MPFA_O));
    S(TDySetDMConstructor(f->tdy, q, make_dm));
    break;
  case 1:
    clear_opts();
    snprintf(b, sizeof b, "%.17g", q->grav); set_opt("-tdy_gravity", b);
    set_opt("-tdy_water_density", q->rho == 0 ? "CONSTANT" : "EXPONENTIAL");
    if (q->disc == D_MPFATPF) set_opt("-tdy_mpfao_gmatrix_method", "MPFAO_GMATRIX_TPF");
    set_opt(q->disc == D_FVTPF ? "-tdy_fvtpf_boundary_condition_type" : "-tdy_mpfao_boundary_condition_type", q->bc == B_DIR ? "DIRICHLET_BC" : q->bc == B_NEU ? "NEUMANN_BC" : "SEEPAGE_BC");
    if (l->kind == L_BDM) set_opt("-tdy_quadrature", l->var ? "LUMPED" : "FULL");
    if (driver(l)) {
      set_opt("-tdy_time_integration_method", l->kind == L_DRIVER && l->var ? "TS" : "SNES"); set_opt("-ts_type", "beuler"); set_opt("-tdy_dt_init", l->var ? "500" : "300"); set_opt("-tdy_dt_max", l->var ? "1000" : "700"); set_opt("-tdy_dt_growth_factor", l->var ? "1.5" : "1.25");
      set_opt("-snes_rtol", "1e-10"); set_opt("-snes_atol", "1e-13"); set_opt("-snes_stol", "1e-14"); set_opt("-ksp_type", "preonly"); set_opt("-pc_type", "lu");
    }
    S(TDySetFromOptions(f->tdy));
    S(TDySetPorosityFunction(f->tdy, f_phi)); S(TDySetResidualSaturationFunction(f->tdy, f_sr));
    if (q->kk == K_FULL) S(TDySetTensorPermeabilityFunction(f->tdy, f_full)); else if (q->kk == K_HDIAG) S(TDySetDiagonalPermeabilityFunction(f->tdy, f_diag)); else S(TDySetIsotropicPermeabilityFunction(f->tdy, f_iso));
    S(TDySetBoundaryPressureFunction(f->tdy, f_pb));
    if (!fe(l) && q->disc == D_FVTPF && l->var) S(TDySetBoundaryPressureTypeFunction(f->tdy, f_bt));
    S(more(f->tdy));
    if (!driver(l)) clear_opts();
    break;
  case 2:
    if (driver(l)) {                       /* the driver reads options again */
      clear_opts();
      set_opt("-tdy_time_integration_method", l->kind == L_DRIVER && l->var ? "TS" : "SNES"); set_opt("-ts_type", "beuler"); set_opt("-tdy_dt_init", l->var ? "500" : "300"); set_opt("-tdy_dt_max", l->var ? "1000" : "700"); set_opt("-tdy_dt_growth_factor", l->var ? "1.5" : "1.25");
      set_opt("-snes_rtol", "1e-10"); set_opt("-snes_atol", "1e-13"); set_opt("-snes_stol", "1e-14"); set_opt("-ksp_type", "preonly"); set_opt("-pc_type", "lu");
      snprintf(b, sizeof b, "%.17g", q->grav); set_opt("-tdy_gravity", b); set_opt("-tdy_water_density", q->rho == 0 ? "CONSTANT" : "EXPONENTIAL");
      set_opt(q->disc == D_FVTPF ? "-tdy_fvtpf_boundary_condition_type" : "-tdy_mpfao_boundary_condition_type", q->bc == B_DIR ? "DIRICHLET_BC" : q->bc == B_NEU ? "NEUMANN_BC" : "SEEPAGE_BC");
      S(TDyDriverInitializeTDy(f->tdy)); clear_opts();
      S(TDyGetDM(f->tdy, &f->dm));
      break;
    }
    S(TDySetup(f->tdy)); S(TDyGetDM(f->tdy, &f->dm));
    if (!fe(l)) S(TDyCreateVectors(f->tdy));
    S(TDyCreatePrognosticVector(f->tdy, &f->U)); S(VecDuplicate(f->U, &f->R));
    break;
  case 3:
    if (driver(l)) {
      state(l, f->tdy->soln, 0); S(TDySetPreviousSolutionForSNESSolver(f->tdy, f->tdy->soln)); break;
    }
    if (fe(l)) { S(TDyCreateMatrix(f->tdy, &l->K)); S(VecDuplicate(f->U, &l->F)); break; }
    if (uses_ts(l)) {
      S(TSCreate(PETSC_COMM_WORLD, &f->ts)); S(TSSetDM(f->ts, f->dm)); S(TSSetType(f->ts, TSBEULER)); S(TSSetSolution(f->ts, f->U)); S(TDySetIFunction(f->ts, f->tdy));
      if (l->kind == L_TS) S(TDySetIJacobian(f->ts, f->tdy));
    } else {
      S(flow_snes(f, q->dt)); state(l, f->U, 2); S(TDySetPreviousSolutionForSNESSolver(f->tdy, f->U)); S(TDyPreSolveSNESSolver(f->tdy));
    }
    break;
  case 4:
    evaluate(l, 0);
    if (!fe(l) && !l->bad) {
      Vec v; S(TDyUpdateDiagnostics(f->tdy)); S(TDyCreateDiagnosticVector(f->tdy, &v));
      S(TDyGetLiquidSaturation(f->tdy, v)); recv(l, v); S(TDyGetLiquidMass(f->tdy, v)); recv(l, v);
      VecDestroy(&v);
    }
    break;
  case 5: evaluate(l, 1); break;
  case 6:
    if (f->snes) S(SNESDestroy(&f->snes)); if (f->ts) S(TSDestroy(&f->ts));
    if (l->K) S(MatDestroy(&l->K)); if (l->F) S(VecDestroy(&l->F));
    S(VecDestroy(&f->U)); S(VecDestroy(&f->R)); S(TDyDestroy(&f->tdy));
    break;
  }
}
static void stage(life *l) { int s = l->step; step(l); if (!vh_thorough && s == 2) step(l); }
/* what each life computes when it is the only one its process has ever had */
static life (*REF)[2];
static void alone_all(void) {
  REF = mmap(NULL, sizeof(life)*2*L_N, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  fflush(NULL);
  for (int kind = 0; kind < L_N; ++kind) for (int var = 0; var < 2; ++var) {
    life *l = &REF[kind][var]; int st = 0; pid_t p = fork();
    if (!p) { life_init(l, kind, var); for (int s = 0; s < NSTEP; ++s) step(l); _exit(0); }
    waitpid(p, &st, 0);
    if (st && !l->bad) { l->bad = 1; snprintf(l->err, sizeof l->err, "ended with status %d", st); }
  }
}
static void alone(int kind, int var) { const life *l = &REF[kind][var]; if (l->bad) vh_fail("error", "%s %d alone: %s", LN[kind], var, l->err); }
static int compare(const life *l, const char *order, const char *who) {
  const life *r = &REF[l->kind][l->var];
  if (l->bad) { vh_fail("error", "order %s, %s: %s", order, who, l->err); return 1; }
  if (l->n != r->n) { vh_fail("amount", "order %s, %s: %d values computed, %d alone", order, who, l->n, r->n); return 1; }
  for (int i = 0; i < l->n; ++i) if (memcmp(&l->tr[i], &r->tr[i], sizeof(double))) {
    int s = 0; while (s+1 < NSTEP && l->at[s+1] <= i) s++;
    vh_fail("interference", "order %s, %s: value %d of step %d is %.17g, alone %.17g", order, who, i-l->at[s], s, l->tr[i], r->tr[i]); return 1;
  }
  return 0;
}
static void run_pair(int a, int va, int b, int vb, int lo, int hi) {
  static life A, B; int k = 0, nbad = 0, n = stages();
  alone(a, va); alone(b, vb);
  for (int m = 0; m < 1 << (2*n) && nbad < 3; ++m) {
    if (__builtin_popcount(m) != n) continue;
    if (k++ < lo || k > hi) continue;
    char o[2*NSTEP+1]; for (int i = 0; i < 2*n; ++i) o[i] = m>>i&1 ? 'b' : 'a'; o[2*n] = 0;
    life_init(&A, a, va); life_init(&B, b, vb);
    for (int i = 0; i < 2*n; ++i) { stage(o[i] == 'a' ? &A : &B); vh_trans(1); }
    vh_state(vh_hs(vh_hi(vh_hi(vh_hi(vh_hi(vh_h0(), a), va), b), vb), o));
    uint64_t h = vh_h0(); for (int i = 0; i < A.n; ++i) h = vh_hd(h, A.tr[i]); for (int i = 0; i < B.n; ++i) h = vh_hd(h, B.tr[i]);
    vh_outcome(h);
    nbad += compare(&A, o, "first"); nbad += compare(&B, o, "second");
    if (k == lo+1) vh_sample("%s and %s, order %s: %d and %d values agree with those computed alone", LN[a], LN[b], o, A.n, B.n);
  }
}
static void g_pair(void) {
  alone_all();
  int TOTAL = vh_thorough ? 3432 : 924, BLOCK = 132;
  for (int a = 0; a < L_N; ++a) for (int b = a; b < L_N; ++b) for (int v = 0; v < (vh_thorough ? 2 : 1); ++v) for (int k = 0; k < TOTAL; k += BLOCK)
    if (vh_case("%s and %s%s, orders %d to %d", LN[a], LN[b], v ? ", settings exchanged" : "", k, k+BLOCK-1)) run_pair(a, v, b, 1-v, k, k+BLOCK);
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv);
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot();
  if (vh_grp("pair")) g_pair();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
