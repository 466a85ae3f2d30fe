/* C21: the same problem on one process and spread over several in every possible way */
#include <mpi.h>
static MPI_Comm PCOMM;
#define FCOMM PCOMM
#include "flow.h"
#include "two.h"

static int PART[MAXC];       /* the process each cell is given to */
static PetscErrorCode make_part(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode ierr = make_dm(comm, ctx, dm); if (ierr) return ierr;
  int n, me; MPI_Comm_size(comm, &n); MPI_Comm_rank(comm, &me);
  if (n == 1) return 0;
  PetscPartitioner pt; PetscInt sz[8] = {0}, pts[MAXC], cs, ce, k = 0;
  DMPlexGetHeightStratum(*dm, 0, &cs, &ce);
  for (int p = 0; p < n; ++p) for (PetscInt c = cs; c < ce; ++c) if (PART[c] == p) { sz[p]++; pts[k++] = c-cs; }
  ierr = DMPlexGetPartitioner(*dm, &pt); if (ierr) return ierr;
  ierr = PetscPartitionerSetType(pt, PETSCPARTITIONERSHELL); if (ierr) return ierr;
  return PetscPartitionerShellSetPartition(pt, n, sz, pts);
}
#define ND 2
#define MX (MAXC*ND)
typedef struct { flow f; int nd, nc; int own, *cell, *l2s; PetscInt r0, r1; int *g2s; } side;   /* owned cell k: cell[k] in the DM, l2s[k] in the serial mesh */
static void side_map(side *s, const side *ser) {
  PetscSection gs; DMGetGlobalSection(s->f.dm, &gs);
  VecGetOwnershipRange(s->f.U, &s->r0, &s->r1);
  s->cell = calloc(MX, sizeof(int)); s->l2s = calloc(MX, sizeof(int)); s->g2s = malloc(MX*sizeof(int)); s->own = 0;
  int *t = malloc(MX*sizeof(int)); for (int i = 0; i < MX; ++i) t[i] = -1;
  for (int c = 0; c < s->f.nc; ++c) {
    PetscInt d, off; PetscSectionGetDof(gs, c, &d); PetscSectionGetOffset(gs, c, &off);
    if (off < 0 || d <= 0) continue;
    int k = (off - s->r0)/s->nd, b = -1; double bd = 1e30;
    for (int j = 0; j < ser->f.nc; ++j) { double e = 0; for (int x = 0; x < 3; ++x) e += fabs(s->f.cen[c][x]-ser->f.cen[j][x]); if (e < bd) { bd = e; b = j; } }
    if (bd > 1e-8) vh_fail("cells", "cell %d is not in the mesh", c);
    if (k < 0 || k >= (s->r1-s->r0)/s->nd) { vh_fail("layout", "cell %d is outside the process' part of the vector", c); continue; }
    s->cell[k] = c; s->l2s[k] = b; s->own++;
    for (int m = 0; m < s->nd; ++m) t[off+m] = b*s->nd+m;
  }
  MPI_Allreduce(t, s->g2s, MX, MPI_INT, MPI_MAX, PCOMM); free(t);
}
static int side_create(prob *q, side *s, const side *ser, int mode) {
  s->nd = mode == RICHARDS ? 1 : 2; s->cell = s->l2s = s->g2s = NULL;
  if (flow_create(q, &s->f, mode)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; }
  DMSetUseNatural(s->f.dm, PETSC_TRUE);
  if (q->form == 0) { if (flow_snes(&s->f, q->dt)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; } }
  else {
    TSCreate(PCOMM, &s->f.ts); TSSetDM(s->f.ts, s->f.dm); TSSetType(s->f.ts, TSBEULER); TSSetSolution(s->f.ts, s->f.U);
    if (TDySetIFunction(s->f.ts, s->f.tdy) || TDySetIJacobian(s->f.ts, s->f.tdy)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; }
  }
  side_map(s, ser ? ser : s);
  return 0;
}
static void side_destroy(side *s) { free(s->cell); free(s->l2s); free(s->g2s); flow_destroy(&s->f); }
/* serial numbering <-> this communicator's vector */
static void put(side *s, Vec v, const double *x, int nd) {
  PetscScalar *a; VecGetArray(v, &a);
  for (int k = 0; k < s->own; ++k) for (int m = 0; m < nd; ++m) a[k*nd+m] = x[s->l2s[k]*nd+m];
  VecRestoreArray(v, &a);
}
static void get(side *s, Vec v, double *x, int nd, int nc) {
  const PetscScalar *a; double t[MX]; VecGetArrayRead(v, &a);
  for (int i = 0; i < nc*nd; ++i) t[i] = 0;
  for (int k = 0; k < s->own; ++k) for (int m = 0; m < nd; ++m) t[s->l2s[k]*nd+m] = a[k*nd+m];
  VecRestoreArrayRead(v, &a);
  MPI_Allreduce(t, x, nc*nd, MPI_DOUBLE, MPI_SUM, PCOMM);
}
/* a vector in natural order (the order of the serial mesh) */
static void getnat(Vec N, double *x, int n) {
  PetscInt lo, hi; double t[MX] = {0}; const PetscScalar *a;
  VecGetOwnershipRange(N, &lo, &hi); VecGetArrayRead(N, &a);
  for (PetscInt i = lo; i < hi && i < MX; ++i) t[i] = a[i-lo];
  VecRestoreArrayRead(N, &a);
  MPI_Allreduce(t, x, n, MPI_DOUBLE, MPI_SUM, PCOMM);
}
static void getmat(side *s, Mat B, double *J, int n) {
  double *t = calloc((size_t)n*n, sizeof(double));
  PetscInt r0, r1; MatGetOwnershipRange(B, &r0, &r1);
  for (PetscInt r = r0; r < r1; ++r) {
    PetscInt nz; const PetscInt *c; const PetscScalar *v; MatGetRow(B, r, &nz, &c, &v);
    for (PetscInt k = 0; k < nz; ++k) t[s->g2s[r]*n + s->g2s[c[k]]] = v[k];
    MatRestoreRow(B, r, &nz, &c, &v);
  }
  MPI_Allreduce(t, J, n*n, MPI_DOUBLE, MPI_SUM, PCOMM); free(t);
}
/* ------------------------------------------------------------------------------------------------- what is compared */
#define NS 3
typedef struct { double R[NS][MX], J[MX*MX], sat[MAXC], mass[MAXC], lp[MX], step[MX], nat[MX]; int conv; double st[2][MAXC]; } result;
static void states(int nc, int nd, int k, double *x);
static double pvals(int a, int c) { static const double p[5] = {PREF-5000, PREF+4000, PREF-40000, PREF, PREF-1200}; return p[a] + 37.0*c; }
static void states(int nc, int nd, int k, double *x) {
  for (int c = 0; c < nc; ++c) { x[c*nd] = pvals((k+2*c)%5, c); if (nd == 2) x[c*nd+1] = (CMODE == TH ? 20 + 15*((k+c)%3) : 0.3*((k+2*c)%4)) + 0.01*c; }
}
/* the reported fields, in natural order */
static void diags(side *s, result *r, int nc) {
  Vec d; VH_CHK(TDyCreateDiagnosticVector(s->f.tdy, &d));
  VH_CHK(TDyUpdateDiagnostics(s->f.tdy));
  VecSet(d, 7777.0); VH_CHK(TDyGetLiquidSaturation(s->f.tdy, d)); getnat(d, r->sat, nc);
  VecSet(d, 7777.0); VH_CHK(TDyGetLiquidMass(s->f.tdy, d)); getnat(d, r->mass, nc);
  VH_CHK(TDyPostSolve(s->f.tdy, s->f.U));
  VecSet(d, 7777.0); VH_CHK(TDyGetLiquidPressure(s->f.tdy, d)); getnat(d, r->lp, nc);
  VecDestroy(&d);
}
static int collect(prob *q, side *s, result *r, int nc, int full) {
  int n = nc*s->nd; double x[MX], v[MX]; PetscErrorCode ierr; Mat A, B;
  memset(r, 0, sizeof *r);
  if (q->form == 0) {
    states(nc, s->nd, 0, x); put(s, s->f.U, x, s->nd);
    VH_CHK(TDySetPreviousSolutionForSNESSolver(s->f.tdy, s->f.U)); VH_CHK(TDyPreSolveSNESSolver(s->f.tdy));
    for (int k = 1; k <= NS; ++k) {
      states(nc, s->nd, k, x); put(s, s->f.U, x, s->nd); VecSet(s->f.R, 7777.0);
      if ((ierr = SNESComputeFunction(s->f.snes, s->f.U, s->f.R))) { vh_fail("error", "residual: %d %s", ierr, vh_errmsg); return 1; }
      get(s, s->f.R, r->R[k-1], s->nd, nc);
    }
    SNESGetJacobian(s->f.snes, &A, &B, NULL, NULL);
    if ((ierr = SNESComputeJacobian(s->f.snes, s->f.U, A, B))) { vh_fail("error", "Jacobian: %d %s", ierr, vh_errmsg); return 1; }
    if (CMODE != SALINITY) getmat(s, B, r->J, n);      /* the saline Jacobian is a known finding of C23 */
    diags(s, r, nc);
    vh_trans(NS+5);
    if (full) {
      KSP ksp; PC pc; SNESGetKSP(s->f.snes, &ksp); KSPSetType(ksp, KSPPREONLY); KSPGetPC(ksp, &pc); PCSetType(pc, PCREDUNDANT);
      SNESSetTolerances(s->f.snes, 1e-14, 1e-13, 0, 60, 10000);
      states(nc, s->nd, 0, x); put(s, s->f.U, x, s->nd);
      VH_CHK(TDySetPreviousSolutionForSNESSolver(s->f.tdy, s->f.U)); VH_CHK(TDyPreSolveSNESSolver(s->f.tdy));
      VH_CHK(SNESSolve(s->f.snes, NULL, s->f.U)); vh_trans(1);
      SNESConvergedReason why; SNESGetConvergedReason(s->f.snes, &why); r->conv = why > 0;
      if (r->conv) get(s, s->f.U, r->step, s->nd, nc);
    }
  } else {
    Vec V; VecDuplicate(s->f.U, &V);
    for (int c = 0; c < n; ++c) v[c] = 3.0*(c%2 ? -1 : 1)*(1+c);
    put(s, V, v, s->nd);
    for (int k = 1; k <= NS; ++k) {
      states(nc, s->nd, k, x); put(s, s->f.U, x, s->nd); VecSet(s->f.R, 7777.0);
      if ((ierr = TSComputeIFunction(s->f.ts, 0.0, s->f.U, V, s->f.R, PETSC_FALSE))) { vh_fail("error", "residual: %d %s", ierr, vh_errmsg); return 1; }
      get(s, s->f.R, r->R[k-1], s->nd, nc);
    }
    if (q->form == 1) {
      TSGetIJacobian(s->f.ts, &A, &B, NULL, NULL);
      if ((ierr = TSComputeIJacobian(s->f.ts, 0.0, s->f.U, V, 1.0/q->dt, A, B, PETSC_FALSE))) { vh_fail("error", "Jacobian: %d %s", ierr, vh_errmsg); return 1; }
      getmat(s, B, r->J, n);
    } else { Vec C; VecDuplicate(s->f.U, &C); VecSet(C, 7777.0); VH_CHK(TSComputeTransientVariable(s->f.ts, s->f.U, C)); get(s, C, r->step, s->nd, nc); r->conv = 1; VecDestroy(&C); }
    diags(s, r, nc);
    VecDestroy(&V); vh_trans(NS+4);
  }
  if (CMODE == RICHARDS && q->form == 0 && q->disc != D_FVTPF && q->bc == B_DIR) {      /* the steady system: its right-hand side, and what it says of a state */
    Mat M; Vec b; VH_CHK(TDyCreateMatrix(s->f.tdy, &M)); VecDuplicate(s->f.U, &b); VecSet(b, 0);
    if ((ierr = TDyMPFAOComputeSystem(s->f.tdy, M, b))) { vh_fail("error", "steady system: %d %s", ierr, vh_errmsg); return 1; }
    VecAssemblyBegin(b); VecAssemblyEnd(b); get(s, b, r->st[0], 1, nc);
    states(nc, 1, 1, x); put(s, s->f.U, x, 1); MatMult(M, s->f.U, s->f.R); get(s, s->f.R, r->st[1], 1, nc); vh_trans(1);
    MatDestroy(&M); VecDestroy(&b);
  }
  /* natural order */
  for (int c = 0; c < n; ++c) v[c] = c; put(s, s->f.U, v, s->nd);
  Vec N; VH_CHK(TDyCreatePrognosticVector(s->f.tdy, &N)); VecSet(N, -1);
  VH_CHK(TDyGlobalToNatural(s->f.tdy, s->f.U, N));
  getnat(N, r->nat, n);
  VecDestroy(&N);
  return 0;
}
static void cmpv(const char *kind, const char *what, const double *a, const double *b, int n, double rel, int nd) {
  double sc[2] = {0}; for (int i = 0; i < n; ++i) sc[i%nd] = fmax(sc[i%nd], fabs(a[i]));
  for (int i = 0; i < n; ++i) if (!(fabs(a[i]-b[i]) <= rel*sc[i%nd] + 1e-300)) { vh_fail(kind, "%s of cell %d%s is %.15g on %d processes, %.15g on one", what, i/nd, nd == 1 ? "" : i%nd ? " (second)" : " (first)", b[i], vh_size, a[i]); return; }
}
static void compare(prob *q, side *ser, result *a, result *b, int full) {
  int nc = ser->f.nc, n = nc*ser->nd, nd = ser->nd; uint64_t o = vh_h0();
  for (int k = 0; k < NS; ++k) { cmpv("residual", "the residual", a->R[k], b->R[k], n, 1e-11, nd); for (int i = 0; i < n; ++i) o = vh_hd(o, b->R[k][i]); }
  cmpv("jacobian", "the Jacobian entry (row*n+col)", a->J, b->J, n*n, 1e-11, nd);
  cmpv("steady", "the right-hand side of the steady system", a->st[0], b->st[0], nc, 1e-11, 1); cmpv("steady", "the steady system applied to a state", a->st[1], b->st[1], nc, 1e-11, 1);
  cmpv("saturation", "the saturation", a->sat, b->sat, nc, 1e-12, 1); cmpv("mass", "the mass", a->mass, b->mass, nc, 1e-12, 1);
  cmpv("pressure", "the reported pressure", a->lp, b->lp, nc, 0, 1);
  cmpv("natural", "the natural number", a->nat, b->nat, n, 0, nd);
  for (int i = 0; i < n; ++i) if (b->nat[i] != i) { vh_fail("natural", "natural position %d holds the value of cell %g", i, b->nat[i]); break; }
  if (full) {
    if (a->conv != b->conv) vh_fail("step", "the step %s on one process and %s on %d", a->conv ? "converges" : "fails", b->conv ? "converges" : "fails", vh_size);
    else if (a->conv) cmpv("step", "the pressure after a step", a->step, b->step, n, 1e-7, nd);
  }
  vh_outcome(o);
}
static const int SZ[][3] = {{2,1,1},{3,1,1},{1,3,1},{1,1,3},{2,2,1},{1,2,2},{2,1,2},{4,1,1},{3,2,1},{2,2,2},{3,3,1},{4,2,1}};
static void g_par(int mode) {
  CMODE = mode; MORE_SETTINGS = more;
  side ser; result *A = malloc(sizeof *A), *B = malloc(sizeof *B); int have = -1, pi = 0;
  long lim = vh_thorough ? 4096 : vh_size == 2 ? 256 : vh_size == 3 ? 81 : 64;
  for (int z = 0; z < 12; ++z) for (int form = 0; form < 3; ++form) for (int disc = 0; disc < 3; ++disc) for (int kk = 0; kk <= K_FULL; ++kk) for (int geom = 0; geom <= G_PERT; ++geom) for (int bc = 0; bc < 3; ++bc) {
    int nc = SZ[z][0]*SZ[z][1]*SZ[z][2]; long np = 1; for (int i = 0; i < nc; ++i) np *= vh_size;
    if (form && disc == D_FVTPF) continue;
    if (mode == TH && (form != 1 || disc == D_FVTPF || bc == B_SEEP)) continue;
    if (mode == SALINITY && (form || disc == D_FVTPF)) continue;
    if (kk != K_HDIAG && kk != K_FULL) continue;
    if (np > lim) continue;
    if (!vh_thorough) {
      if (disc && kk == K_FULL) continue;
      if (geom != (kk == K_FULL ? (z%2 ? G_PERT : G_SHEAR) : G_STRETCH)) continue;
      if (mode != RICHARDS) { if (bc != (z+disc)%(mode == TH ? 2 : 3)) continue; }
      else {
        if (nc >= 6 && (form || bc != (disc + kk) % 3)) continue;
        if ((form || (vh_size > 2 && nc == 4)) && bc != (z+disc)%3) continue;
      }
    }
    ++pi;
    prob q; memset(&q, 0, sizeof q); memcpy(q.n, SZ[z], sizeof q.n); q.disc = disc; q.kk = kk; q.geom = geom; q.bc = bc; q.form = form; q.rho = 1; q.dt = 3600; q.grav = 9.8068; q.pb = 0; CB = z%2; CK = kk == K_FULL ? 2 : 1;
    for (long p = 0; p < np; ++p) {
      long t = p; for (int c = 0; c < nc; ++c) { PART[c] = t % vh_size; t /= vh_size; }
      char s[MAXC+1]; for (int c = 0; c < nc; ++c) s[c] = '0' + PART[c]; s[nc] = 0;
      if (!vh_case("%spartition %s form=%d %s", mode == TH ? "th-" : mode == SALINITY ? "salt-" : "", s, form, pname(&q))) continue;
      int full = form == 0 && mode == RICHARDS;
      if (have != pi) {        /* what one process gives */
        if (have >= 0) { PCOMM = PETSC_COMM_SELF; side_destroy(&ser); have = -1; }
        PCOMM = PETSC_COMM_SELF; MAKE_DM = make_dm;
        if (side_create(&q, &ser, NULL, mode)) continue;
        have = pi;
        if (collect(&q, &ser, A, nc, full)) continue;
      }
      vh_state(vh_hi(vh_hb(phash(&q), s, nc), vh_size));
      side par; PCOMM = PETSC_COMM_WORLD; MAKE_DM = make_part;
      if (!side_create(&q, &par, &ser, mode) && !collect(&q, &par, B, nc, full)) {
        if (!vh_rank) compare(&q, &ser, A, B, full);
        if (vh_index % 97 == 0 && !vh_rank) vh_sample("%s: residual of cell 0 %.10g", vh_name, B->R[0][0]);
      }
      side_destroy(&par);
    }
  }
  if (have >= 0) { PCOMM = PETSC_COMM_SELF; side_destroy(&ser); }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv); vh_parallel();
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot();
  if (vh_grp("par")) g_par(RICHARDS);
  else if (vh_grp("parth")) g_par(TH);
  else if (vh_grp("parsalt")) g_par(SALINITY);
  else { fprintf(stderr, "unknown group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  return 0;
}
