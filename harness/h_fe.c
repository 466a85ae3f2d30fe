/* C18: the finite-element methods on small meshes: the assembled system, its solution, and the transient residual */
#include <private/tdycoreimpl.h>
#include <private/tdywyimpl.h>
#include <private/tdybdmimpl.h>
#include "vh.h"
#include "ref.h"
#define PREF 101325.0
#define MAXC 32
#define MAXN 400
enum { M_WY, M_BDM, M_BDML };
static const char *MN[] = {"wy","bdm","bdm-lumped"};
enum { G_BOX, G_STRETCH, G_SHEAR, G_PERT };
static const char *GN[] = {"box","stretched","sheared","perturbed"};
enum { K_ISO, K_DIAG, K_FULL, K_FULLNEG, K_HET, K_LAYER };
static const char *KN[] = {"iso","diag","full","full-neg","het","layers"};
enum { V_FN, V_ISOCONST, V_ISOFN, V_DIAGCONST };   /* the call the permeability is set with */
static const char *VN[] = {"tensor-fn","iso-const","iso-fn","diag-const"};
typedef struct { int dim, n[3], geom, kk, via, meth, rot, perm, nomark; } fp;
static fp *CUR;
static MPI_Comm FC;
static int PART[MAXC];       /* the process each cell is given to */

static void geo_map(const fp *q, const double u[3], double x[3]) {
  double s[3] = {1.0, 1.5, 0.8}, y[3];
  for (int d = 0; d < q->dim; ++d) {
    y[d] = u[d]*s[d];
    if (q->geom != G_BOX) y[d] = s[d]*(u[d] + 0.17*u[d]*u[d]);
    x[d] = y[d];
  }
  if (q->geom == G_SHEAR) { x[0] = y[0] + 0.3*y[1]; x[1] = y[1] - 0.15*y[0]; if (q->dim == 3) { x[1] += 0.12*y[2]; x[2] = y[2] + 0.1*y[0] - 0.2*y[1]; } }
  if (q->geom == G_PERT) for (int d = 0; d < q->dim; ++d) {
    int i = (int)lround(u[0])*7 + (int)lround(u[1])*3 + (q->dim == 3 ? (int)lround(u[2])*11 : 0) + d*5;
    x[d] += 0.11*(((i*37)%17)/8.0-1)*s[d];
  }
}
static int ROT[2][24][3], RSG[2][24][3], NROT[2];
static void gen_rot(void) {
  int p3[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}}, s3[6] = {1,1,1,-1,-1,-1};
  for (int p = 0; p < 6; ++p) for (int m = 0; m < 8; ++m) {
    int s[3], det = s3[p];
    for (int d = 0; d < 3; ++d) { s[d] = (m>>d&1) ? -1 : 1; det *= s[d]; }
    if (det != 1) continue;
    for (int d = 0; d < 3; ++d) { ROT[1][NROT[1]][d] = p3[p][d]; RSG[1][NROT[1]][d] = s[d]; }
    NROT[1]++;
    if (p3[p][2] == 2 && s[2] == 1) { memcpy(ROT[0][NROT[0]], ROT[1][NROT[1]-1], sizeof ROT[0][0]); memcpy(RSG[0][NROT[0]], RSG[1][NROT[1]-1], sizeof RSG[0][0]); NROT[0]++; }
  }
}
static PetscErrorCode make_dm(MPI_Comm comm, void *ctx, DM *dm) {
  fp *q = (fp*)ctx; PetscErrorCode ierr; int D = q->dim;
  PetscInt n[3]; PetscReal lo[3] = {0,0,0}, hi[3]; int *ro = ROT[D-2][q->rot], *sg = RSG[D-2][q->rot];
  for (int d = 0; d < D; ++d) { n[d] = q->n[ro[d]]; hi[d] = n[d]; }
  ierr = DMPlexCreateBoxMesh(comm, D, PETSC_FALSE, n, lo, hi, NULL, PETSC_TRUE, dm); if (ierr) return ierr;
  Vec co, cg; PetscScalar *a; PetscInt sz; DM cdm;
  ierr = DMGetCoordinatesLocal(*dm, &co); if (ierr) return ierr;
  VecGetLocalSize(co, &sz); VecGetArray(co, &a);
  for (PetscInt v = 0; v < sz/D; ++v) {
    double u[3] = {0,0,0}, x[3];
    for (int d = 0; d < D; ++d) { int e = ro[d]; u[e] = sg[d] > 0 ? a[D*v+d] : q->n[e]-a[D*v+d]; }
    geo_map(q, u, x);
    for (int d = 0; d < D; ++d) a[D*v+d] = x[d];
  }
  VecRestoreArray(co, &a);
  ierr = DMSetCoordinatesLocal(*dm, co); if (ierr) return ierr;
  DMGetCoordinateDM(*dm, &cdm); DMGetCoordinates(*dm, &cg);
  DMLocalToGlobal(cdm, co, INSERT_VALUES, cg);
  if (q->perm) {      /* the points of one kind in the reverse order */
    PetscInt s, e, ps, pe; DM nd; IS is; PetscInt *p;
    DMPlexGetChart(*dm, &ps, &pe);
    if (q->perm == 1) DMPlexGetHeightStratum(*dm, 0, &s, &e); else if (q->perm == 2) DMPlexGetHeightStratum(*dm, 1, &s, &e); else DMPlexGetDepthStratum(*dm, 0, &s, &e);
    PetscMalloc1(pe-ps, &p);
    for (PetscInt k = 0; k < pe-ps; ++k) p[k] = k;
    for (PetscInt k = s; k < e; ++k) p[k] = s + e-1-k;
    ISCreateGeneral(PETSC_COMM_SELF, pe-ps, p, PETSC_OWN_POINTER, &is);
    ierr = DMPlexPermute(*dm, is, &nd); if (ierr) return ierr;
    ISDestroy(&is); DMDestroy(dm); *dm = nd;
  }
  int np, me; MPI_Comm_size(comm, &np); MPI_Comm_rank(comm, &me);
  if (np > 1) {
    PetscPartitioner pt; PetscInt z[8] = {0}, pts[MAXC], cs, ce, k = 0;
    DMPlexGetHeightStratum(*dm, 0, &cs, &ce);
    for (int p = 0; p < np; ++p) for (PetscInt c = cs; c < ce; ++c) if (PART[c] == p) { z[p]++; pts[k++] = c-cs; }
    ierr = DMPlexGetPartitioner(*dm, &pt); if (ierr) return ierr;
    ierr = PetscPartitionerSetType(pt, PETSCPARTITIONERSHELL); if (ierr) return ierr;
    ierr = PetscPartitionerShellSetPartition(pt, np, z, pts); if (ierr) return ierr;
  }
  if (q->nomark) { DMLabel l; ierr = DMRemoveLabel(*dm, "marker", &l); if (ierr) return ierr; DMLabelDestroy(&l); }
  return 0;
}

/* ------------------------------------------------------------------------------------------------- data of the problem */
static double LAYK[4] = {1.0, 5.0, 0.3, 2.0};
static int layer_of(const fp *q, double x) {
  double u[3] = {0,0,0}, y[3]; int k = 0;
  for (int i = 1; i < q->n[0]; ++i) { u[0] = i; geo_map(q, u, y); if (x > y[0]) k = i; }
  return k;
}
/* a further factor of each cell's permeability, for the comparison with the transient form; cells found by their centre */
static double KFAC[MAXC], KCEN[MAXC][3]; static int KNF;
static void k_at(const fp *q, const double *x, double K[9]) {
  int D = q->dim; memset(K, 0, 9*sizeof(double));
  switch (q->kk) {
  case K_ISO: for (int d = 0; d < D; ++d) K[d*D+d] = 2.5; break;
  case K_DIAG: { double t[3] = {1, 3, 0.5}; for (int d = 0; d < D; ++d) K[d*D+d] = t[d]; } break;
  case K_FULL: case K_FULLNEG: {
    double s = q->kk == K_FULL ? 1 : -1;
    if (D == 2) { K[0] = 5; K[1] = K[2] = s; K[3] = 2; }
    else { double t[9] = {2,.3*s,.2,.3*s,1.5,.4*s,.2,.4*s,1}; memcpy(K, t, sizeof t); }
  } break;
  case K_HET: { double h = 1 + 0.7*fabs(x[0]) + 0.4*x[1]*x[1] + (D == 3 ? 0.9*fabs(x[2]) : 0); for (int d = 0; d < D; ++d) K[d*D+d] = h*(1+0.5*d); K[1] = K[D] = 0.2; } break;
  case K_LAYER: for (int d = 0; d < D; ++d) K[d*D+d] = LAYK[layer_of(q, x[0])]; break;
  }
  if (KNF) {
    int b = 0; double bd = 1e30;
    for (int i = 0; i < KNF; ++i) { double e = 0; for (int d = 0; d < D; ++d) e += fabs(x[d]-KCEN[i][d]); if (e < bd) { bd = e; b = i; } }
    for (int i = 0; i < D*D; ++i) K[i] *= KFAC[b];
  }
}
static void f_full(PetscInt n, PetscReal *x, PetscReal *f) { int D = CUR->dim; double K[9]; for (int i = 0; i < n; ++i) { k_at(CUR, x+D*i, K); memcpy(f+D*D*i, K, sizeof(double)*D*D); } }
static void f_iso(PetscInt n, PetscReal *x, PetscReal *f) { int D = CUR->dim; double K[9]; for (int i = 0; i < n; ++i) { k_at(CUR, x+D*i, K); f[i] = K[0]; } }
/* boundary pressure: 0 constant, 1 linear, 2 quadratic, 3 one-dimensional through the layers; 9: nothing */
static int PB; static double LIN[4] = {1.7, -2.3, 0.9, 4.0}, FORCE;
static double p_at(const fp *q, const double *x) {
  switch (PB) {
  case 0: return LIN[3];
  case 1: { double s = LIN[3]; for (int d = 0; d < q->dim; ++d) s += LIN[d]*x[d]; return s; }
  case 2: { double s = LIN[3]; for (int d = 0; d < q->dim; ++d) s += LIN[d]*x[d]*x[d]; return s + x[0]*x[1]; }
  case 3: { double s = LIN[3], a = 0, u[3] = {0,0,0}, y[3];
      for (int i = 0; i < q->n[0]; ++i) { u[0] = i+1; geo_map(q, u, y); double b = i == q->n[0]-1 ? x[0] : fmin(y[0], x[0]); if (b > a) s += (b-a)/LAYK[i]; a = y[0]; }
      return s; }
  case 4: return PREF + 4000 + 300*x[0];
  case 5: return PREF - 3000 + 2500*x[0] - 1100*x[1];
  }
  return 0;
}
static void f_pb(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = p_at(CUR, x+CUR->dim*i); }
static double force_at(const fp *q, const double *x) { return FORCE ? FORCE*(1 + (q->geom == G_PERT ? 0 : 0.3*x[0] - 0.2*x[1])) : 0; }
static void f_force(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = force_at(CUR, x+CUR->dim*i); }
static double phi_at(const double *x) { return 0.25 + 0.03*x[0] - 0.02*x[1]; }
static double sr_at(const double *x) { return 0.15 + 0.01*x[0] + 0.02*x[1]; }
static void f_phi(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = phi_at(x+CUR->dim*i); }
static void f_sr(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = sr_at(x+CUR->dim*i); }

/* -------------------------------------------------------------------------------------------------------- the dycore */
typedef struct {
  TDy tdy; DM dm; Mat K; Vec F, U; TS ts; int n, nc, nf;          /* n: unknowns of all processes; local cells and faces */
  PetscInt c0, f0; int crow[MAXC], frow[4*MAXC]; double cen[MAXC][3], fc[MAXC][3], vol[MAXC]; PetscSection gs;
} fe;
static int fe_open(fp *q, fe *f, int setpb) {
  PetscErrorCode ierr; int D = q->dim;
  memset(f, 0, sizeof *f); CUR = q;
#define S(x) do { ierr = x; if (ierr) { vh_fail("error", "setup: %s: %s", #x, vh_errmsg); return 1; } } while (0)
  S(TDyCreate(FC, &f->tdy)); S(TDySetMode(f->tdy, RICHARDS)); S(TDySetDiscretization(f->tdy, q->meth == M_WY ? WY : BDM));
  S(TDySetDMConstructor(f->tdy, q, make_dm));
  if (q->meth != M_WY) PetscOptionsSetValue(NULL, "-tdy_quadrature", q->meth == M_BDM ? "FULL" : "LUMPED"); else PetscOptionsClearValue(NULL, "-tdy_quadrature");
  S(TDySetFromOptions(f->tdy));
  S(TDySetPorosityFunction(f->tdy, f_phi)); S(TDySetResidualSaturationFunction(f->tdy, f_sr));
  double z[3] = {0,0,0}, K[9]; k_at(q, z, K); double dg[3] = {K[0], K[D+1], D == 3 ? K[8] : 1};
  switch (q->via) {
  case V_FN: S(TDySetTensorPermeabilityFunction(f->tdy, f_full)); break;
  case V_ISOFN: S(TDySetIsotropicPermeabilityFunction(f->tdy, f_iso)); break;
  case V_ISOCONST: S(TDySetConstantIsotropicPermeability(f->tdy, K[0])); break;
  case V_DIAGCONST: S(TDySetConstantDiagonalPermeability(f->tdy, dg)); break;
  }
  if (setpb) S(TDySetBoundaryPressureFunction(f->tdy, f_pb));
  S(TDySetForcingFunction(f->tdy, f_force));
  S(TDySetup(f->tdy));
  S(TDyGetDM(f->tdy, &f->dm));
  S(TDyCreatePrognosticVector(f->tdy, &f->U)); S(VecDuplicate(f->U, &f->F)); S(TDyCreateMatrix(f->tdy, &f->K));
  S(MatSetOption(f->K, MAT_NEW_NONZERO_LOCATION_ERR, PETSC_TRUE));
  PetscInt e, n; VecGetSize(f->U, &n); f->n = n;
  DMGetGlobalSection(f->dm, &f->gs);
  DMPlexGetHeightStratum(f->dm, 0, &f->c0, &e); f->nc = e-f->c0;
  Vec co; PetscSection sec; DM cdm; DMGetCoordinatesLocal(f->dm, &co); DMGetCoordinateDM(f->dm, &cdm); DMGetLocalSection(cdm, &sec);
  for (int c = 0; c < f->nc; ++c) {
    PetscInt sz, off; PetscScalar *a = NULL; PetscReal v, ce[3];
    DMPlexVecGetClosure(cdm, sec, co, f->c0+c, &sz, &a);
    for (int d = 0; d < D; ++d) { f->cen[c][d] = 0; for (int v = 0; v < sz/D; ++v) f->cen[c][d] += a[D*v+d]/(sz/D); }
    DMPlexVecRestoreClosure(cdm, sec, co, f->c0+c, &sz, &a);
    PetscSectionGetOffset(f->gs, f->c0+c, &off); f->crow[c] = off < 0 ? -1 : off;
    DMPlexComputeCellGeometryFVM(f->dm, f->c0+c, &v, ce, NULL); f->vol[c] = v;
  }
  DMPlexGetHeightStratum(f->dm, 1, &f->f0, &e); f->nf = e-f->f0;
  if (f->n > MAXN) { vh_fail("error", "harness: %d unknowns", f->n); return 1; }
  return 0;
}
static void fe_close(fe *f) {
  if (f->ts) TSDestroy(&f->ts);
  MatDestroy(&f->K); VecDestroy(&f->F); VecDestroy(&f->U);
  VH_CHK(TDyDestroy(&f->tdy));
}
static void gatherv(fe *f, Vec v, double *x) {
  PetscInt r0, r1; const PetscScalar *a; double *t = calloc(f->n, sizeof(double));
  VecGetOwnershipRange(v, &r0, &r1); VecGetArrayRead(v, &a);
  for (PetscInt r = r0; r < r1; ++r) t[r] = a[r-r0];
  VecRestoreArrayRead(v, &a);
  MPI_Allreduce(t, x, f->n, MPI_DOUBLE, MPI_SUM, FC); free(t);
}
/* assembles the system with the boundary pressure and forcing of the moment */
static int fe_sys(fe *f, double *A, double *b) {
  PetscErrorCode ierr; TDyWY *w = NULL; (void)w;
  MatZeroEntries(f->K); VecSet(f->F, 0);
  ierr = CUR->meth == M_WY ? TDyWYComputeSystem(f->tdy, f->K, f->F) : TDyBDMComputeSystem(f->tdy, f->K, f->F);
  if (ierr) { vh_fail(strstr(vh_errmsg, "nonzero") || strstr(vh_errmsg, "Inserting") ? "pattern" : "error", "assembly: %s", vh_errmsg); return 1; }
  int n = f->n; double *t = calloc((size_t)n*n, sizeof(double)); PetscInt r0, r1;
  MatGetOwnershipRange(f->K, &r0, &r1);
  for (PetscInt r = r0; r < r1; ++r) {
    PetscInt nz; const PetscInt *c; const PetscScalar *v; MatGetRow(f->K, r, &nz, &c, &v);
    for (PetscInt k = 0; k < nz; ++k) t[r*n+c[k]] = v[k];
    MatRestoreRow(f->K, r, &nz, &c, &v);
  }
  MPI_Allreduce(t, A, n*n, MPI_DOUBLE, MPI_SUM, FC); free(t);
  gatherv(f, f->F, b);
  vh_trans(1);
  return 0;
}
static int lu(double *A, double *b, int n) {
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k+1; i < n; ++i) if (fabs(A[i*n+k]) > fabs(A[p*n+k])) p = i;
    if (!(fabs(A[p*n+k]) > 1e-300)) return 1;
    if (p != k) { for (int j = 0; j < n; ++j) { double t = A[k*n+j]; A[k*n+j] = A[p*n+j]; A[p*n+j] = t; } double t = b[k]; b[k] = b[p]; b[p] = t; }
    for (int i = k+1; i < n; ++i) { double m = A[i*n+k]/A[k*n+k]; if (m == 0) continue; for (int j = k; j < n; ++j) A[i*n+j] -= m*A[k*n+j]; b[i] -= m*b[k]; }
  }
  for (int i = n-1; i >= 0; --i) { for (int j = i+1; j < n; ++j) b[i] -= A[i*n+j]*b[j]; b[i] /= A[i*n+i]; }
  return 0;
}
static int posdef(const double *A0, const int *rows, int m, int n) {
  double *L = malloc(sizeof(double)*m*m); int ok = 1;
  for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) L[i*m+j] = A0[rows[i]*n+rows[j]];
  for (int k = 0; k < m && ok; ++k) {
    if (!(L[k*m+k] > 0)) { ok = 0; break; }
    for (int i = k+1; i < m; ++i) { double f = L[i*m+k]/L[k*m+k]; for (int j = k; j < m; ++j) L[i*m+j] -= f*L[k*m+j]; }
  }
  free(L); return ok;
}
static double amax(const double *a, int n) { double m = 0; for (int i = 0; i < n; ++i) m = fmax(m, fabs(a[i])); return m; }
static const char *pname(const fp *q) {
  static char b[256];
  snprintf(b, sizeof b, "%s %dd %dx%dx%d rot=%d %s K=%s via=%s perm=%d%s", MN[q->meth], q->dim, q->n[0], q->n[1], q->dim == 3 ? q->n[2] : 1, q->rot, GN[q->geom], KN[q->kk], VN[q->via], q->perm, q->nomark ? " no-marker" : "");
  return b;
}
/* the solution of the system must be the given field: pressures at the cells, and on faces the flux of -K grad p */
static void check_solution(fp *q, fe *f, const double *A, const double *b, const char *what, int flux) {
  int n = f->n, D = q->dim; double *B = malloc(sizeof(double)*n*n), *x = malloc(sizeof(double)*n);
  memcpy(B, A, sizeof(double)*n*n); memcpy(x, b, sizeof(double)*n);
  if (lu(B, x, n)) { vh_fail("singular", "%s: the system has no unique solution", what); free(B); free(x); return; }
  uint64_t h = vh_hs(vh_h0(), what);
  for (int c = 0; c < f->nc; ++c) if (f->crow[c] >= 0) {
    double e = p_at(q, f->cen[c]);
    h = vh_hd(h, x[f->crow[c]]);
    if (fabs(x[f->crow[c]]-e) > 1e-8*(fabs(e)+10)) vh_fail("solution", "%s: pressure of cell at (%g %g %g) is %.12g, exact %.12g", what, f->cen[c][0], f->cen[c][1], f->cen[c][2], x[f->crow[c]], e);
  }
  vh_outcome(h);
  if (q->meth != M_WY && flux) for (int k = 0; k < f->nf; ++k) {
    PetscInt off, nd; PetscReal v, ce[3], no[3]; double K[9], un = 0;
    PetscSectionGetOffset(f->gs, f->f0+k, &off); PetscSectionGetDof(f->gs, f->f0+k, &nd);
    if (off < 0) continue;
    DMPlexComputeCellGeometryFVM(f->dm, f->f0+k, &v, ce, no);
    double g[3]; for (int d = 0; d < D; ++d) g[d] = PB == 0 ? 0 : LIN[d];
    k_at(q, ce, K);
    for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) un -= K[i*D+j]*g[j]*no[i];
    for (int m = 0; m < nd; ++m) if (fabs(fabs(x[off+m])-fabs(un)*v/nd) > 1e-7*(1+fabs(un)*v))
      vh_fail("velocity", "%s: flux %d of face at (%g %g %g) is %.10g, exact %.10g", what, m, ce[0], ce[1], D == 3 ? ce[2] : 0, x[off+m], un*v/nd);
  }
  free(B); free(x);
}
static int affine(const fp *q) { return q->geom != G_PERT; }
static void case_sys(fp *q) {
  fe f; KNF = 0; PB = 0; FORCE = 0;
  if (fe_open(q, &f, 1)) return;
  int n = f.n; size_t nn = (size_t)n*n;
  double *A = malloc(sizeof(double)*nn), *A1 = malloc(sizeof(double)*nn), *b = malloc(sizeof(double)*n), *b1 = malloc(sizeof(double)*n);
  vh_state(vh_hb(vh_hb(vh_h0(), q, sizeof *q), PART, sizeof PART));
  if (fe_sys(&f, A, b)) goto out;
  double am = amax(A, nn);
  if (!(am > 0) || !isfinite(am)) { vh_fail("matrix", "largest entry %g", am); goto out; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (!(fabs(A[i*n+j]-A[j*n+i]) <= 1e-11*am)) vh_fail("symmetry", "entry (%d,%d) is %.12g, its transpose %.12g", i, j, A[i*n+j], A[j*n+i]);
  /* positive definite on pressures (WY), on velocities (BDM) */
  { int rows[MAXN], m = 0, *own = calloc(n, sizeof(int)), *all = calloc(n, sizeof(int));
    for (int c = 0; c < f.nc; ++c) if (f.crow[c] >= 0) own[f.crow[c]] = 1;
    MPI_Allreduce(own, all, n, MPI_INT, MPI_SUM, FC);
    for (int i = 0; i < n; ++i) if (all[i] == (q->meth == M_WY)) rows[m++] = i;
    if (!posdef(A, rows, m, n)) vh_fail("definite", "the %s block is not positive definite", q->meth == M_WY ? "pressure" : "velocity");
    free(own); free(all); }
  if (q->kk != K_LAYER) check_solution(q, &f, A, b, "constant pressure", q->kk != K_HET);
  else { PB = 3; if (!fe_sys(&f, A1, b1)) check_solution(q, &f, A1, b1, "layers in series", 0); }
  /* linear pressure */
  int lin = q->kk < K_HET && (affine(q) || (q->meth == M_BDM && q->dim == 2));
  if (lin && q->meth != M_BDML) { PB = 1; if (fe_sys(&f, A1, b1)) goto out; check_solution(q, &f, A1, b1, "linear pressure", 1); }
  /* the system does not depend on how often or with which data it was assembled before */
  PB = 2; FORCE = 0; if (fe_sys(&f, A1, b1)) goto out;
  for (size_t i = 0; i < nn; ++i) if (fabs(A1[i]-A[i]) > 1e-12*am) { vh_fail("repeat", "matrix entry (%d,%d) of a later assembly is %.12g, first %.12g", (int)(i/n), (int)(i%n), A1[i], A[i]); break; }
  double *b2 = malloc(sizeof(double)*n);
  FORCE = 3.5; if (fe_sys(&f, A1, b2)) { free(b2); goto out; }
  double bm = amax(b2, n);
  for (size_t i = 0; i < nn; ++i) if (fabs(A1[i]-A[i]) > 1e-12*am) { vh_fail("repeat", "matrix entry (%d,%d) of the third assembly is %.12g, first %.12g", (int)(i/n), (int)(i%n), A1[i], A[i]); break; }
  { int *own = calloc(n, sizeof(int)), *all = calloc(n, sizeof(int)); double *want = calloc(n, sizeof(double)), *w = calloc(n, sizeof(double));
    for (int c = 0; c < f.nc; ++c) if (f.crow[c] >= 0) w[f.crow[c]] = (q->meth == M_WY ? 1 : -1)*force_at(q, f.cen[c])*f.vol[c];
    MPI_Allreduce(w, want, n, MPI_DOUBLE, MPI_SUM, FC);
    if (affine(q) || q->dim == 2)
      for (int i = 0; i < n; ++i) if (fabs(b2[i]-b1[i]-want[i]) > 1e-10*(bm+1)) vh_fail("forcing", "right-hand side %d changes by %.12g, the forcing of its cell is %.12g", i, b2[i]-b1[i], want[i]);
    free(own); free(all); free(want); free(w); }
  PB = q->kk == K_LAYER ? 3 : 0; FORCE = 0; if (!fe_sys(&f, A1, b1)) {
    if (q->kk == K_LAYER) check_solution(q, &f, A1, b1, "layers in series, again", 0);
    else for (int i = 0; i < n; ++i) if (fabs(b1[i]-b[i]) > 1e-12*(amax(b, n)+1)) vh_fail("repeat", "right-hand side %d of a later assembly is %.12g, first %.12g", i, b1[i], b[i]);
  }
  free(b2);
  vh_sample("%s: %d unknowns", pname(q), n);
out:
  free(A); free(A1); free(b); free(b1);
  fe_close(&f);
}
/* the transient residual of WY: storage, and the flux of the steady system with each cell's relative permeability */
static void case_trans(fp *q, int pb) {
  fe f, g; KNF = 0; PB = pb; FORCE = 1.5;
  if (fe_open(q, &f, 1)) return;
  int n = f.n, N = 0; PetscErrorCode ierr; double P[MAXC], W[MAXC], R[MAXC], R0[MAXC];
  vh_state(vh_hi(vh_hb(vh_hb(vh_h0(), q, sizeof *q), PART, sizeof PART), pb));
  TSCreate(FC, &f.ts); TSSetDM(f.ts, f.dm); TSSetType(f.ts, TSBEULER); TSSetSolution(f.ts, f.U);
  if ((ierr = TDySetIFunction(f.ts, f.tdy))) { vh_fail("error", "function: %s", vh_errmsg); fe_close(&f); return; }
  Vec Ut, Rv; VecDuplicate(f.U, &Ut); VecDuplicate(f.U, &Rv);
  /* all cells: centre, pressure and rate by position, so that they do not depend on the numbering */
  double C[MAXC*3] = {0}, Ca[MAXC*3], V[MAXC] = {0}, Va[MAXC];
  for (int c = 0; c < f.nc; ++c) if (f.crow[c] >= 0) { for (int d = 0; d < q->dim; ++d) C[f.crow[c]*3+d] = f.cen[c][d]; V[f.crow[c]] = f.vol[c]; }
  MPI_Allreduce(C, Ca, 3*n, MPI_DOUBLE, MPI_SUM, FC); MPI_Allreduce(V, Va, n, MPI_DOUBLE, MPI_SUM, FC);
  PetscInt r0, r1; VecGetOwnershipRange(f.U, &r0, &r1);
  for (int k = 0; k < 2; ++k) {
    PetscScalar *u, *w; VecGetArray(f.U, &u); VecGetArray(Ut, &w);
    for (int i = 0; i < n; ++i) {
      double *x = Ca+3*i; P[i] = p_at(q, x) + 700*sin(3*x[0]+5*x[1]+2*x[2]); W[i] = k ? 20 + 9*cos(x[0]+2*x[1]) : 0;
      if (i >= r0 && i < r1) { u[i-r0] = P[i]; w[i-r0] = W[i]; }
    }
    VecRestoreArray(f.U, &u); VecRestoreArray(Ut, &w);
    VecSet(Rv, 555.0);
    ierr = TSComputeIFunction(f.ts, 0.0, f.U, Ut, Rv, PETSC_FALSE);
    if (ierr) { vh_fail("error", "residual: %s", vh_errmsg); goto out; }
    gatherv(&f, Rv, k ? R : R0); vh_trans(1);
  }
  /* a steady system whose permeability already has the relative permeability of each cell */
  for (int i = 0; i < n; ++i) {
    double S, d1, d2, kr, dk, Sr = sr_at(Ca+3*i);
    ref_vg(0.8, 1e-4, Sr, PREF-P[i], &S, &d1, &d2); ref_mualem(0.8, 0.99, 1.0, (S-Sr)/(1-Sr), &kr, &dk); if (S >= 1) kr = 1;
    KFAC[i] = kr; memcpy(KCEN[i], Ca+3*i, sizeof KCEN[0]);
    double want = phi_at(Ca+3*i)*d1*W[i]*Va[i];
    if (fabs(R[i]-R0[i]-want) > 1e-7*(fabs(want)+1e-6)+1e-11*fabs(R0[i])) vh_fail("storage", "cell %d: the residual changes by %.10g, porosity x dS/dt x volume is %.10g", i, R[i]-R0[i], want);
    N++;
  }
  { uint64_t h = vh_h0(); for (int i = 0; i < n; ++i) h = vh_hd(h, R[i]); vh_outcome(h); }
  KNF = n;
  if (!fe_open(q, &g, 1)) {
    double *A = malloc(sizeof(double)*n*n), *b = malloc(sizeof(double)*n);
    if (g.n == n && !fe_sys(&g, A, b)) {
      double sc = amax(b, n), m[MAXC];
      for (int i = 0; i < n; ++i) { m[i] = -b[i]; for (int j = 0; j < n; ++j) m[i] += A[i*n+j]*P[j]; sc = fmax(sc, fabs(A[i*n+i]*P[i])); }
      for (int i = 0; i < n; ++i) if (fabs(R0[i]-m[i]) > 1e-8*sc) vh_fail("flux", "cell %d: the residual without storage is %.10g, the steady system gives %.10g", i, R0[i], m[i]);
    }
    free(A); free(b);
    KNF = 0; fe_close(&g);
  }
  vh_sample("%s pb=%d: %d cells", pname(q), pb, N);
out:
  KNF = 0;
  VecDestroy(&Ut); VecDestroy(&Rv); fe_close(&f);
}
/* ---------------------------------------------------------------------------------------------- layout of the unknowns (C02) */
static double mark(const double *x, int m) { return 2 + x[0] + 3.7*x[1] + 11.3*x[2] + 0.01*m; }
static void case_layout(fp *q) {
  fe f; KNF = 0; PB = 1; FORCE = 0; FC = PETSC_COMM_WORLD;
  if (fe_open(q, &f, 1)) return;
  int D = q->dim, nall = q->n[0]*q->n[1]*(D == 3 ? q->n[2] : 1), nv = q->meth == M_WY ? 0 : 1<<(D-1), n = nall + nv*(q->n[0]*q->n[1]*(D == 3 ? q->n[2] : 1)*D);
  for (int d = 0; d < D; ++d) n += nv*nall/q->n[d];
  vh_state(vh_hi(vh_hb(vh_hb(vh_h0(), q, sizeof *q), PART, sizeof(int)*nall), vh_size));
  if (f.n != n) vh_fail("size", "%d unknowns, the mesh needs %d", f.n, n);
  PetscInt r0, r1, M, N, a0, a1, np = f.nc+f.nf, nown = 0; PetscSection ls; Vec L;
  DMGetLocalSection(f.dm, &ls); VecGetOwnershipRange(f.U, &r0, &r1);
  int *cov = calloc(f.n+1, sizeof(int)), *all = calloc(f.n+1, sizeof(int)), tot = 0;
  PetscInt *off = malloc(sizeof(PetscInt)*np);
  for (int i = 0; i < np; ++i) {
    PetscInt pt = i < f.nc ? f.c0+i : f.f0+i-f.nc, d, e, want = i < f.nc ? 1 : nv;
    PetscSectionGetDof(ls, pt, &d); tot += d;
    if (d != want) vh_fail("layout", "%s %d has %d unknowns", i < f.nc ? "cell" : "face", (int)pt, (int)d);
    DMPlexGetPointGlobal(f.dm, pt, &off[i], &e);
    if (off[i] < 0 || e <= off[i]) continue;
    nown += d;
    if (e-off[i] != want || off[i] < r0 || e > r1) { vh_fail("layout", "point %d: entries %d to %d of %d-%d", (int)pt, (int)off[i], (int)e, (int)r0, (int)r1); continue; }
    for (int m = 0; m < d; ++m) cov[off[i]+m]++;
  }
  if (nown != r1-r0) vh_fail("size", "%d entries here, %d expected", (int)(r1-r0), (int)nown);
  MPI_Allreduce(cov, all, f.n, MPI_INT, MPI_SUM, FC);
  for (int i = 0; i < f.n; ++i) if (all[i] != 1) vh_fail("layout", "entry %d belongs to %d points", i, all[i]);
  free(cov); free(all);
  /* values of all points, transferred */
  double (*x)[3] = calloc(np, sizeof *x);
  for (int i = 0; i < np; ++i) {
    if (i < f.nc) { memcpy(x[i], f.cen[i], sizeof x[i]); continue; }
    Vec co; PetscSection sec; DM cdm; PetscInt sz; PetscScalar *a = NULL;
    DMGetCoordinatesLocal(f.dm, &co); DMGetCoordinateDM(f.dm, &cdm); DMGetLocalSection(cdm, &sec);
    DMPlexVecGetClosure(cdm, sec, co, f.f0+i-f.nc, &sz, &a);
    for (int v = 0; v < sz/D; ++v) for (int d = 0; d < D; ++d) x[i][d] += a[D*v+d]/(sz/D);
    DMPlexVecRestoreClosure(cdm, sec, co, f.f0+i-f.nc, &sz, &a);
  }
  PetscScalar *a; const PetscScalar *ca;
  VecGetArray(f.U, &a);
  for (int i = 0; i < np; ++i) if (off[i] >= r0 && off[i] < r1) for (int m = 0; m < (i < f.nc ? 1 : nv); ++m) a[off[i]-r0+m] = mark(x[i], m);
  VecRestoreArray(f.U, &a);
  VH_CHK(TDyCreateLocalVector(f.tdy, &L)); VecGetSize(L, &M); if (M != tot) vh_fail("size", "the local vector has %d entries, %d expected", (int)M, tot);
  VecSet(L, -1);
  if (TDyGlobalToLocal(f.tdy, f.U, L)) vh_fail("error", "global to local: %s", vh_errmsg);
  VecGetArrayRead(L, &ca);
  for (int i = 0; i < np; ++i) for (int m = 0; m < (i < f.nc ? 1 : nv); ++m) {
    PetscInt o; PetscSectionGetOffset(ls, i < f.nc ? f.c0+i : f.f0+i-f.nc, &o);
    if (fabs(ca[o+m]-mark(x[i], m)) > 1e-9) vh_fail("transfer", "local entry %d of %s %d is %g", m, i < f.nc ? "cell" : "face", i < f.nc ? i : i-f.nc, ca[o+m]);
  }
  VecRestoreArrayRead(L, &ca); VecDestroy(&L); vh_trans(1);
  /* the matrix couples everything that belongs to one cell; with WY, cells that share a face */
  MatGetSize(f.K, &M, &N); MatGetOwnershipRange(f.K, &a0, &a1);
  if (M != f.n || N != f.n || a0 != r0 || a1 != r1) vh_fail("matrix", "%d x %d entries, rows %d-%d here", (int)M, (int)N, (int)a0, (int)a1);
  else for (int c = 0; c < f.nc; ++c) {
    const PetscInt *cone; PetscInt cs, g[64], k = 0; DMPlexGetConeSize(f.dm, f.c0+c, &cs); DMPlexGetCone(f.dm, f.c0+c, &cone);
    int own_all = 1;
    g[k++] = off[c] < 0 ? -off[c]-1 : off[c];
    for (int i = 0; i < cs; ++i) {
      const PetscInt *sup; PetscInt ss, o = off[f.nc+cone[i]-f.f0]; if (o < 0) o = -o-1;
      for (int m = 0; m < nv; ++m) g[k++] = o+m;
      if (nv) continue;
      DMPlexGetSupportSize(f.dm, cone[i], &ss); DMPlexGetSupport(f.dm, cone[i], &sup);
      for (int j = 0; j < ss; ++j) if (sup[j] != f.c0+c) { o = off[sup[j]-f.c0]; g[k++] = o < 0 ? -o-1 : o; }
    }
    (void)own_all;
    for (int i = 0; i < (nv ? k : 1); ++i) if (g[i] >= a0 && g[i] < a1) {
      PetscInt nz; const PetscInt *cl; const PetscScalar *v; char *have = calloc(f.n, 1);
      MatGetRow(f.K, g[i], &nz, &cl, &v); for (PetscInt z = 0; z < nz; ++z) have[cl[z]] = 1; MatRestoreRow(f.K, g[i], &nz, &cl, &v);
      for (int j = 0; j < k; ++j) if (!have[g[j]]) vh_fail("pattern", "row %d has no column %d, both belong to cell %d%s", (int)g[i], (int)g[j], c, nv ? "" : " or a neighbour");
      free(have);
    }
  }
  free(off); free(x);
  { size_t nn = (size_t)f.n*f.n; double *A = malloc(sizeof(double)*nn), *b = malloc(sizeof(double)*f.n); for (int r = 0; r < 2; ++r) if (!fe_sys(&f, A, b)) vh_outcome(vh_hb(vh_h0(), b, sizeof(double)*f.n)); free(A); free(b); }
  if (vh_index % 53 == 0 && !vh_rank) vh_sample("%s: %d unknowns", pname(q), f.n);
  fe_close(&f);
}
static int DIM2[][3] = {{1,1,1},{2,1,1},{1,2,1},{2,2,1},{3,1,1},{1,3,1},{3,2,1},{2,3,1},{3,3,1}};
static int DIM3[][3] = {{1,1,1},{2,1,1},{1,2,1},{1,1,2},{2,2,1},{2,1,2},{1,2,2},{2,2,2},{3,1,1},{1,1,3},{3,2,1},{3,2,2}};
static void enum_sys(void) {
  for (int dim = 2; dim <= 3; ++dim) {
    int nd = dim == 2 ? 9 : vh_thorough ? 12 : 8;
    for (int i = 0; i < nd; ++i) for (int meth = 0; meth < 3; ++meth) for (int geom = 0; geom < 4; ++geom) for (int kk = 0; kk < 6; ++kk) {
      if (kk == K_LAYER && geom > G_STRETCH) continue;
      fp q = {0}; q.dim = dim; memcpy(q.n, dim == 2 ? DIM2[i] : DIM3[i], sizeof q.n); q.meth = meth; q.geom = geom; q.kk = kk;
      int cells = q.n[0]*q.n[1]*q.n[2];
      if (meth != M_WY && dim == 3 && cells > 8) continue;
      for (int rot = 0; rot < NROT[dim-2]; ++rot) {
        if (dim == 3 && !vh_thorough && !(rot == 0 || (rot % 5 == 2 && geom >= G_SHEAR && kk >= K_FULL))) continue;
        q.rot = rot; q.perm = 0; q.via = 0; q.nomark = 0;
        if (vh_case("%s", pname(&q))) case_sys(&q);
      }
      q.rot = 0;
      if (geom >= G_SHEAR && (kk == K_FULL || kk == K_HET)) for (q.perm = 1; q.perm <= 3; ++q.perm) if (vh_case("%s", pname(&q))) case_sys(&q);
      q.perm = 0;
      if (kk <= K_DIAG && geom % 2 == 0) for (q.via = 1; q.via <= 3; ++q.via) {
        if (kk == K_DIAG && q.via != V_DIAGCONST) continue;
        if (vh_case("%s", pname(&q))) case_sys(&q);
      }
      q.via = 0; q.nomark = 1;
      if (kk == K_FULL && geom == G_SHEAR) if (vh_case("%s", pname(&q))) case_sys(&q);
    }
  }
}
static void enum_trans(void) {
  for (int dim = 2; dim <= 3; ++dim) {
    int nd = dim == 2 ? 9 : vh_thorough ? 12 : 8;
    for (int i = 0; i < nd; ++i) for (int geom = 0; geom < 3; ++geom) for (int kk = 0; kk < 5; ++kk) for (int pb = 4; pb <= 5; ++pb) {
      fp q = {0}; q.dim = dim; memcpy(q.n, dim == 2 ? DIM2[i] : DIM3[i], sizeof q.n); q.geom = geom; q.kk = kk;
      for (int rot = 0; rot < NROT[dim-2]; ++rot) {
        if (rot && !vh_thorough && rot % (dim == 3 ? 7 : 2) != 1) continue;
        q.rot = rot;
        if (vh_case("%s trans pb=%d", pname(&q), pb)) case_trans(&q, pb);
      }
      q.rot = 0;
      if (kk == K_HET) for (q.perm = 1; q.perm <= 3; ++q.perm) if (vh_case("%s trans pb=%d", pname(&q), pb)) case_trans(&q, pb);
    }
  }
}
/* every assignment of the cells to the processes */
static int parts(int nc, long p, char *s) {
  long t = p, all = 1;
  for (int c = 0; c < nc; ++c) { PART[c] = t % vh_size; t /= vh_size; all *= vh_size; s[c] = '0'+PART[c]; }
  s[nc] = 0;
  return p < all;
}
static void par_sys(void) {
  for (int dim = 2; dim <= 3; ++dim) for (int i = 0; i < (dim == 2 ? 9 : 12); ++i) {
    fp q = {0}; q.dim = dim; memcpy(q.n, dim == 2 ? DIM2[i] : DIM3[i], sizeof q.n);
    int nc = q.n[0]*q.n[1]*q.n[2]; char s[MAXC+1]; long lim = 1; for (int k = 0; k < nc; ++k) lim *= vh_size;
    if (nc < 2 || lim > (vh_thorough ? 4096 : vh_size == 2 ? 64 : 27)) continue;
    for (int meth = 0; meth < 3; ++meth) for (int geom = 0; geom < 4; ++geom) for (int kk = 0; kk < 6; ++kk) for (long p = 0; parts(nc, p, s); ++p) {
      if (kk == K_LAYER && geom > G_STRETCH) continue;
      if (kk != K_LAYER && kk != K_FULL && kk != K_HET) continue;
      if (!vh_thorough && (geom == G_BOX || (kk == K_FULL && geom == G_STRETCH) || (kk == K_HET && geom != G_PERT))) continue;
      q.meth = meth; q.geom = geom; q.kk = kk; q.perm = (geom == G_PERT)*(1+i%3);
      if (vh_case("partition %s %s", s, pname(&q))) case_sys(&q);
    }
  }
}
static void par_trans(void) {
  for (int dim = 2; dim <= 3; ++dim) for (int i = 0; i < (dim == 2 ? 9 : 12); ++i) {
    fp q = {0}; q.dim = dim; memcpy(q.n, dim == 2 ? DIM2[i] : DIM3[i], sizeof q.n);
    int nc = q.n[0]*q.n[1]*q.n[2]; char s[MAXC+1]; long lim = 1; for (int k = 0; k < nc; ++k) lim *= vh_size;
    if (nc < 2 || lim > (vh_thorough ? 4096 : vh_size == 2 ? 64 : 27)) continue;
    for (int geom = 0; geom < 3; ++geom) for (int kk = K_FULL; kk <= K_HET; ++kk) for (int pb = 4; pb <= 5; ++pb) for (long p = 0; parts(nc, p, s); ++p) {
      if (kk == K_FULLNEG) continue;
      if (!vh_thorough && (geom == G_BOX || (kk == K_HET) != (geom == G_STRETCH) || pb != 4+i%2)) continue;
      q.geom = geom; q.kk = kk;
      if (vh_case("partition %s %s trans pb=%d", s, pname(&q), pb)) case_trans(&q, pb);
    }
  }
}
static void enum_layout(void) {
  for (int dim = 2; dim <= 3; ++dim) for (int i = 0; i < (dim == 2 ? 9 : 12); ++i) for (int meth = 0; meth < 3; ++meth) for (int geom = 0; geom < 4; ++geom) {
    fp q = {0}; q.dim = dim; memcpy(q.n, dim == 2 ? DIM2[i] : DIM3[i], sizeof q.n); q.meth = meth; q.geom = geom; q.kk = K_FULL;
    int nc = q.n[0]*q.n[1]*q.n[2]; char s[MAXC+1]; long lim = 1; for (int k = 0; k < nc; ++k) lim *= vh_size;
    if (lim > (vh_thorough ? 4096 : vh_size == 2 ? 64 : 27) || (dim == 3 && meth && nc > 8)) continue;
    if (geom != G_SHEAR && geom != G_PERT) continue;
    for (q.rot = 0; q.rot < NROT[dim-2]; ++q.rot) for (q.perm = 0; q.perm < 4; ++q.perm) for (long p = 0; parts(nc, p, s); ++p) {
      if (q.rot && (q.perm || vh_size > 1 || (!vh_thorough && q.rot % 5 != 2))) continue;
      if (vh_size > 1 && (geom == G_PERT) != (q.perm != 0)) continue;
      if (vh_case("partition %s %s", s, pname(&q))) case_layout(&q);
    }
  }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv);
  vh_parallel();
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  FC = PETSC_COMM_WORLD;
  gen_rot();
  if (vh_grp("sys")) enum_sys();
  else if (vh_grp("syspar")) par_sys();
  else if (vh_grp("trans")) enum_trans();
  else if (vh_grp("transpar")) par_trans();
  else if (vh_grp("layfe")) enum_layout();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  if (vh_size > 1) { vh_finish(); return 0; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
