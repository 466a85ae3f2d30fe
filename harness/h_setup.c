/* C01 lifecycle, C02 layout, C03 options: histories of the calls that set up a dycore. */
#include "flow.h"
#include <private/tdytiimpl.h>
#include <private/tdyioimpl.h>

static const char *MNAME[] = {"RICHARDS","TH","SALINITY"};
static const char *DNAME[] = {"MPFA_O","MPFA_O_DAE","MPFA_O_TRANSIENTVAR","BDM","WY","FV_TPF"};
static int supported(int m, int d) { return m == RICHARDS || d == MPFA_O; }

static PetscErrorCode small_box(MPI_Comm comm, void *ctx, DM *dm) {
  PetscInt *n = (PetscInt*)ctx; PetscReal lo[3] = {0,0,0}, hi[3];
  for (int d = 0; d < 3; ++d) hi[d] = n[d];
  return DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, n, lo, hi, NULL, PETSC_TRUE, dm);
}
static void f_one(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = PREF + 500*x[3*i] - 200*x[3*i+2]; }
static PetscErrorCode set_props(TDy t, int mode) {
  PetscErrorCode e = 0;
  e |= TDySetConstantPorosity(t, 0.31); e |= TDySetConstantIsotropicPermeability(t, 2e-12); e |= TDySetConstantResidualSaturation(t, 0.11);
  e |= TDySetConstantSoilDensity(t, 2500); e |= TDySetConstantSoilSpecificHeat(t, 900); e |= TDySetConstantIsotropicThermalConductivity(t, 1.5);
  e |= TDySetConstantIsotropicSalineDiffusivity(t, 1e-8); e |= TDySetConstantSalineMolecularWeight(t, 50.0);
  e |= TDySetBoundaryPressureFunction(t, f_one);
  return e;
}
/* what a completed dycore computes: size of the solution and, where the method has one, its residual at a fixed state */
typedef struct { long n; double r[64]; int nr; long nnz; } probe_t;
static int probe(TDy t, int mode, int disc, probe_t *p) {
  PetscErrorCode ierr; Vec u, r, v; PetscInt n; SNES snes = NULL; TS ts = NULL;
  memset(p, 0, sizeof *p);
#define PK(e) do { ierr = (e); if (ierr) { vh_fail("completion", "%s returned %d (%s)", #e, ierr, vh_errmsg); return 1; } } while (0)
  PK(TDyCreatePrognosticVector(t, &u)); PK(VecDuplicate(u, &r)); PK(VecDuplicate(u, &v));
  VecGetLocalSize(u, &n); p->n = n;
  PetscScalar *a; VecGetArray(u, &a);
  int bs = mode == RICHARDS ? 1 : 2;
  for (int i = 0; i < n; ++i) a[i] = bs == 2 && i%2 ? (mode == TH ? 300 + i : 0.01*i) : 90000 + 1000*i;
  VecRestoreArray(u, &a);
  VecSet(v, 0.5);
  if (disc == MPFA_O && mode == TH) {
    DM dm; TDyGetDM(t, &dm);
    PK(TSCreate(PETSC_COMM_WORLD, &ts)); PK(TSSetDM(ts, dm)); PK(TDySetIFunction(ts, t)); PK(TDySetIJacobian(ts, t));
    PK(TSComputeIFunction(ts, 0.0, u, v, r, PETSC_FALSE)); p->nr = n;
  } else if (disc == MPFA_O || disc == FV_TPF) {
    DM dm; TDyGetDM(t, &dm);
    PK(SNESCreate(PETSC_COMM_WORLD, &snes)); PK(SNESSetDM(snes, dm)); PK(TDySetSNESFunction(snes, t)); PK(TDySetSNESJacobian(snes, t));
    PK(TDySetDtimeForSNESSolver(t, 1000.0)); PK(TDySetPreviousSolutionForSNESSolver(t, u)); PK(TDyPreSolveSNESSolver(t));
    VecScale(u, 0.95);
    PK(SNESComputeFunction(snes, u, r)); p->nr = n;
  } else if (disc == MPFA_O_TRANSIENTVAR) {
    DM dm; TDyGetDM(t, &dm);
    PK(TSCreate(PETSC_COMM_WORLD, &ts)); PK(TSSetDM(ts, dm)); PK(TDySetIFunction(ts, t)); PK(TSSetUp(ts));
    Vec c; VecDuplicate(u, &c); PK(TSComputeTransientVariable(ts, u, c)); VecCopy(c, r); VecDestroy(&c); p->nr = n;
  } else if (disc == BDM || disc == WY) {
    Mat K; PK(TDyCreateMatrix(t, &K));
    PK(disc == BDM ? TDyBDMComputeSystem(t, K, r) : TDyWYComputeSystem(t, K, r)); p->nr = n;
    MatInfo mi; MatGetInfo(K, MAT_LOCAL, &mi); p->nnz = (long)mi.nz_used;
    MatDestroy(&K);
  }
  const PetscScalar *b; VecGetArrayRead(r, &b);
  if (p->nr > 64) p->nr = 64;
  for (int i = 0; i < p->nr; ++i) p->r[i] = b[i];
  VecRestoreArrayRead(r, &b);
  if (snes) SNESDestroy(&snes);
  if (ts) TSDestroy(&ts);
  VecDestroy(&u); VecDestroy(&r); VecDestroy(&v);
  return 0;
}
static PetscInt BOX[3] = {2,1,1};
static void box_options(void) {
  set_opt("-dm_plex_dim", "3"); set_opt("-dm_plex_simplex", "0"); set_opt("-dm_plex_box_faces", "2,1,1"); set_opt("-dm_plex_box_upper", "2,1,1"); set_opt("-dm_coord_space", "0");
}
static probe_t REF[3][6]; static int REFOK[3][6];
static int reference(int m, int d) {
  set_opt("-tdy_gravity", "9.8");
  if (REFOK[m][d]) return REFOK[m][d] == 1;
  TDy t; PetscErrorCode ierr; probe_t p;
  PetscOptionsClearValue(NULL, "-tdy_mode"); PetscOptionsClearValue(NULL, "-tdy_discretization");
  REFOK[m][d] = 2;
  PK(TDyCreate(PETSC_COMM_WORLD, &t)); PK(TDySetMode(t, m)); PK(TDySetDiscretization(t, d)); PK(TDySetDMConstructor(t, BOX, small_box));
  PK(TDySetFromOptions(t)); PK(set_props(t, m)); PK(TDySetup(t)); PK(TDyCreateVectors(t)); PK(TDyCreateJacobian(t));
  if (probe(t, m, d, &p)) return 0;
  PK(TDyDestroy(&t));
  REF[m][d] = p; REFOK[m][d] = 1;
  return 1;
}
enum { L_MODE = 0, L_DISC = 3, L_CTOR = 9, L_OPTS, L_SETUP, L_VECS, L_JAC, L_UPD, L_DVEC, L_PVEC, L_MAT, L_SAT, NL };
static const char *LN[NL] = {"mode(R)","mode(TH)","mode(SAL)","disc(MPFA_O)","disc(DAE)","disc(TVAR)","disc(BDM)","disc(WY)","disc(FV_TPF)","ctor","options","setup","vectors","jacobian","update","dvec","pvec","matrix","saturation"};
/* the model: which stage the dycore has reached; op_mode/op_disc: values given as runtime options (-1: none) */
typedef struct { int mode, disc, ctor, opts, setup, vecs, jac; } lc;
enum { REFUSED, ACCEPTED, UNSPEC };
static int om = -1, od = -1;
static int lc_step(lc *s, int l) {
  if (l < L_DISC) {
    if (s->opts) return REFUSED;
    if (s->disc >= 0 && !supported(l, s->disc)) return REFUSED;
    s->mode = l; return ACCEPTED;
  }
  if (l < L_CTOR) {
    int d = l - L_DISC;
    if (s->opts || s->mode < 0 || !supported(s->mode, d)) return REFUSED;
    s->disc = d; return ACCEPTED;
  }
  switch (l) {
  case L_CTOR: if (s->disc < 0 || s->opts) return REFUSED; s->ctor = 1; return ACCEPTED;
  case L_OPTS: {
    if (s->setup) return REFUSED;
    if (s->opts) return UNSPEC;
    int m = om >= 0 ? om : s->mode, d = od >= 0 ? od : s->disc;
    if (m < 0 || d < 0) return (om >= 0 || od >= 0) ? UNSPEC : REFUSED;
    if (!supported(m, d)) return REFUSED;
    s->mode = m; s->disc = d; s->opts = 1; return ACCEPTED;
  }
  case L_SETUP: if (s->disc < 0 || !s->opts) return REFUSED; if (s->setup) return UNSPEC; s->setup = 1; return ACCEPTED;
  case L_VECS: if (!s->opts) return REFUSED; if (!s->setup) return UNSPEC; s->vecs = 1; return ACCEPTED;
  case L_JAC: if (!s->opts) return REFUSED; if (!s->setup) return UNSPEC; s->jac = 1; return ACCEPTED;
  case L_UPD: case L_SAT: case L_DVEC: if (!s->setup || s->disc == BDM || s->disc == WY || s->disc == MPFA_O_DAE) return REFUSED; return ACCEPTED;
  case L_PVEC: case L_MAT: return s->setup ? ACCEPTED : REFUSED;
  }
  return UNSPEC;
}
static PetscErrorCode lc_do(TDy t, lc *after, int l) {
  PetscErrorCode ierr = 0; Vec v = NULL; Mat A = NULL;
  if (l < L_DISC) return TDySetMode(t, l);
  if (l < L_CTOR) return TDySetDiscretization(t, l - L_DISC);
  switch (l) {
  case L_CTOR: return TDySetDMConstructor(t, BOX, small_box);
  case L_OPTS: ierr = TDySetFromOptions(t); if (!ierr) ierr = set_props(t, after->mode); return ierr;
  case L_SETUP: return TDySetup(t);
  case L_VECS: return TDyCreateVectors(t);
  case L_JAC: return TDyCreateJacobian(t);
  case L_UPD: return TDyUpdateDiagnostics(t);
  case L_DVEC: ierr = TDyCreateDiagnosticVector(t, &v); if (!ierr) VecDestroy(&v); return ierr;
  case L_PVEC: ierr = TDyCreatePrognosticVector(t, &v); if (!ierr) VecDestroy(&v); return ierr;
  case L_MAT: ierr = TDyCreateMatrix(t, &A); if (!ierr) MatDestroy(&A); return ierr;
  case L_SAT:
    VecCreateSeq(PETSC_COMM_SELF, 2, &v); ierr = TDyGetLiquidSaturation(t, v); VecDestroy(&v); return ierr;
  }
  return 0;
}
static void life_run(const int *seq, int n) {
  TDy t; lc s = {-1,-1,0,0,0,0,0}; PetscErrorCode ierr; char h[512] = "";
  set_opt("-tdy_gravity", "9.8");
  if (om >= 0) set_opt("-tdy_mode", MNAME[om]); else PetscOptionsClearValue(NULL, "-tdy_mode");
  if (od >= 0) set_opt("-tdy_discretization", DNAME[od]); else PetscOptionsClearValue(NULL, "-tdy_discretization");
  ierr = TDyCreate(PETSC_COMM_WORLD, &t); if (ierr) { vh_fail("create", "%s", vh_errmsg); return; }
  for (int i = 0; i < n; ++i) {
    lc b = s; int want = lc_step(&s, seq[i]);
    strcat(h, " "); strcat(h, LN[seq[i]]);
    ierr = lc_do(t, &s, seq[i]); vh_trans(1);
    if (want == REFUSED && !ierr) { vh_fail("accepted", "%s: should have been refused", h); return; }
    if (want == ACCEPTED && ierr) { vh_fail("refused", "%s: refused (%s)", h, vh_errmsg); return; }
    if (ierr) s = b;
    vh_state(vh_hb(vh_hi(vh_hi(vh_h0(), om), od), &s, sizeof s));
  }
  /* the rest of the correct sequence must work, and give what it gives alone */
  static const int order[] = {L_MODE, L_DISC, L_CTOR, L_OPTS, L_SETUP, L_VECS, L_JAC};
  if (!s.opts) {
    if (s.mode < 0) { s.mode = RICHARDS; ierr = TDySetMode(t, RICHARDS); if (ierr) { vh_fail("completion", "%s: mode: %s", h, vh_errmsg); return; } }
    if (s.disc < 0) { s.disc = MPFA_O; ierr = TDySetDiscretization(t, MPFA_O); if (ierr) { vh_fail("completion", "%s: discretization: %s", h, vh_errmsg); return; } }
    int m = om >= 0 ? om : s.mode, d = od >= 0 ? od : s.disc;
    if (!s.ctor) { s.ctor = 1; ierr = TDySetDMConstructor(t, BOX, small_box); if (ierr) { vh_fail("completion", "%s: constructor: %s", h, vh_errmsg); return; } }
    ierr = TDySetFromOptions(t);
    if (!supported(m, d)) {
      if (!ierr) vh_fail("accepted", "%s: options with %s and %s should be refused", h, MNAME[m], DNAME[d]);
      ierr = TDyDestroy(&t); if (ierr) vh_fail("destroy", "%s: %s", h, vh_errmsg);
      return;
    }
    if (ierr) { vh_fail("completion", "%s: options: %s", h, vh_errmsg); return; }
    s.mode = m; s.disc = d; s.opts = 1;
    ierr = set_props(t, s.mode); if (ierr) vh_fail("completion", "%s: properties: %s", h, vh_errmsg);
  }
  if (!s.setup) { ierr = TDySetup(t); if (ierr) { vh_fail("completion", "%s: setup: %s", h, vh_errmsg); return; } }
  ierr = TDyCreateVectors(t); if (ierr) { vh_fail("completion", "%s: vectors: %s", h, vh_errmsg); return; }
  ierr = TDyCreateJacobian(t); if (ierr) { vh_fail("completion", "%s: jacobian: %s", h, vh_errmsg); return; }
  TDyDiscretization gd; TDyGetDiscretization(t, &gd);
  if ((int)gd != s.disc) vh_fail("discretization", "%s: is %s, should be %s", h, DNAME[gd], DNAME[s.disc]);
  probe_t p;
  if (probe(t, s.mode, s.disc, &p)) return;
  probe_t *q = &REF[s.mode][s.disc];
  if (p.n != q->n || p.nr != q->nr || p.nnz != q->nnz) vh_fail("layout", "%s: %ld unknowns, %ld alone", h, p.n, q->n);
  else if (memcmp(p.r, q->r, sizeof p.r)) vh_fail("residual", "%s: the residual differs from that of a dycore set up directly: %.17g, %.17g", h, p.r[0], q->r[0]);
  vh_outcome(vh_hb(vh_hi(vh_hi(vh_h0(), s.mode), s.disc), p.r, sizeof p.r));
  ierr = TDyDestroy(&t); if (ierr) vh_fail("destroy", "%s: %s", h, vh_errmsg);
}
static void life_early(const int *seq, int n) {                       /* destroyed where the history ends */
  TDy t; lc s = {-1,-1,0,0,0,0,0}; PetscErrorCode ierr;
  ierr = TDyCreate(PETSC_COMM_WORLD, &t); if (ierr) { vh_fail("create", "%s", vh_errmsg); return; }
  for (int i = 0; i < n; ++i) { lc b = s; lc_step(&s, seq[i]); if (lc_do(t, &s, seq[i])) s = b; }
  ierr = TDyDestroy(&t); if (ierr) vh_fail("destroy", "%s", vh_errmsg);
  if (t) vh_fail("destroy", "the handle is kept");
}
static void life_rec(int *seq, int n, int depth, lc s, int early) {
  if (early) life_early(seq, n); else life_run(seq, n);
  if (n == depth || vh_nfail_case >= 6) return;
  for (int l = 0; l < NL; ++l) {
    lc b = s; int w = lc_step(&b, l);
    if (w == UNSPEC) continue;
    seq[n] = l; life_rec(seq, n+1, depth, w == ACCEPTED ? b : s, early);
  }
}
static void grp_life(void) {
  int depth = vh_thorough ? 4 : 3;
  for (int m = 0; m < 3; ++m) for (int d = 0; d < 6; ++d) if (supported(m, d)) { vh_active = 1; vh_index = -1; reference(m, d); vh_active = 0; }
  /* every history of a few calls, with the correct continuation */
  for (int a = 0; a < NL; ++a) for (int b = -1; b < NL; ++b) {
    lc s = {-1,-1,0,0,0,0,0}, t; int seq[16];
    t = s; int w = lc_step(&t, a); if (w == UNSPEC) continue; if (w == ACCEPTED) s = t;
    if (b >= 0) { t = s; w = lc_step(&t, b); if (w == UNSPEC) continue; if (w == ACCEPTED) s = t; }
    if (!vh_case("calls %s %s", LN[a], b >= 0 ? LN[b] : "-")) continue;
    seq[0] = a; seq[1] = b;
    if (b < 0) life_run(seq, 1); else life_rec(seq, 2, depth, s, 0);
  }
  /* histories that go further: set up to a stage, then every call */
  static const int pre[] = {L_MODE, L_DISC, L_CTOR, L_OPTS, L_SETUP, L_VECS};
  for (int m = 0; m < 3; ++m) for (int d = 0; d < 6; ++d) if (supported(m, d)) for (int k = 3; k <= 6; ++k) for (int l = 0; l < NL; ++l) {
    lc s = {-1,-1,0,0,0,0,0}; int seq[16];
    for (int i = 0; i < k; ++i) { seq[i] = i == 0 ? m : i == 1 ? L_DISC + d : pre[i]; lc_step(&s, seq[i]); }
    lc t = s; int w = lc_step(&t, l); if (w == UNSPEC) continue; if (w == ACCEPTED) s = t;
    if (!vh_case("stage %d %s %s %s", k, MNAME[m], DNAME[d], LN[l])) continue;
    seq[k] = l; life_rec(seq, k+1, k + (vh_thorough ? 3 : 2), s, 0);
    life_rec(seq, k+1, k+1, s, 1);
  }
  /* mode and discretization given as options, over those given by calls */
  for (om = -1; om < 3; ++om) for (od = -1; od < 6; ++od) if (om >= 0 || od >= 0) for (int m = 0; m < 3; ++m) for (int d = 0; d < 6; ++d) if (supported(m, d)) {
    if (!vh_case("options mode=%s disc=%s over %s %s", om < 0 ? "-" : MNAME[om], od < 0 ? "-" : DNAME[od], MNAME[m], DNAME[d])) continue;
    int seq[4] = {m, L_DISC + d, L_CTOR, 0};
    life_run(seq, 3); life_run(seq, 2);
  }
  om = od = -1;
  /* destruction at every stage */
  for (int m = 0; m < 3; ++m) for (int d = 0; d < 6; ++d) if (supported(m, d)) for (int k = 0; k <= 6; ++k) {
    if (!vh_case("destroy %s %s stage %d", MNAME[m], DNAME[d], k)) continue;
    PetscOptionsClearValue(NULL, "-tdy_mode"); PetscOptionsClearValue(NULL, "-tdy_discretization");
    int seq[8]; for (int i = 0; i < k; ++i) seq[i] = i == 0 ? m : i == 1 ? L_DISC + d : pre[i];
    lc s = {-1,-1,0,0,0,0,0}; life_rec(seq, k, k, s, 1);
  }
}
int main(int argc, char **argv) {
  MPI_Init(NULL, NULL);
  setenv("PETSC_OPTIONS", "-no_signal_handler", 1);
  int c = 1; char *av[2] = {argv[0], NULL};
  vh_parse(argc, argv);
  if (!freopen("/dev/null", "w", stdout)) return 98;
  TDyInit(c, av);
  MPI_Comm_rank(PETSC_COMM_WORLD, &vh_rank);
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot(); box_options();
  if (vh_grp("life")) grp_life();
  else { fprintf(stderr, "no such group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  return 0;
}
