/* Small flow problems on the public interface, and a reference discretization written independently of the code. */
#ifndef FLOW_H
#define FLOW_H
#include <private/tdycoreimpl.h>
#include <tdytimers.h>
#include "vh.h"
#include "ref.h"

#ifndef FCOMM
#define FCOMM PETSC_COMM_WORLD
#endif
#define PREF 101325.0
#define MAXC 64
enum { D_MPFAO, D_MPFATPF, D_FVTPF };
static const char *DN[] = {"mpfao","mpfao-tpf","fvtpf"};
enum { B_DIR = 0, B_NEU = 1, B_SEEP = 2, B_SIDES = 3 };
static const char *BN[] = {"dirichlet","noflow","seepage","sides"};
/* geometries: unit-ish boxes, stretched, sheared (parallelepipeds), tapered (planar faces), perturbed (general hexahedra) */
enum { G_BOX, G_STRETCH, G_SHEAR, G_TAPER, G_PERT };
static const char *GN[] = {"box","stretched","sheared","tapered","perturbed"};
enum { K_ISO, K_DIAG, K_HISO, K_HDIAG, K_FULL, K_FULLNEG, K_LAYER };
static const char *KN[] = {"iso","diag","het-iso","het-diag","full","full-neg","layers"};
static const char *RN[] = {"const","exp","bw"};
typedef struct {
  int n[3], geom, kk, rho, disc, bc, pb, sides[6], form, rot; double grav, dt; int shift; int perm_kind, perm_i, perm_j;
} prob;
static prob *CUR;

/* the unit cube of cell indices mapped to space */
static void geo_map(const prob *q, const double u[3], double x[3]) {
  double s[3] = {1.0, 1.5, 0.8}, y[3];
  for (int d = 0; d < 3; ++d) {
    y[d] = u[d]*s[d];
    if (q->geom != G_BOX) y[d] = s[d]*(u[d] + 0.17*(d+1)*u[d]*u[d]/ (1+d));
  }
  for (int d = 0; d < 3; ++d) x[d] = y[d];
  if (q->geom == G_SHEAR) { x[0] = y[0] + 0.3*y[1]; x[1] = y[1] - 0.15*y[0]; x[2] = y[2] + 0.1*y[0] - 0.2*y[1]; }
  if (q->geom == G_TAPER) { x[0] = y[0]*(1+0.1*y[1]); x[1] = y[1]; x[2] = y[2]*(1 + 0.1*x[0] - 0.06*x[1]); }
  if (q->geom == G_PERT) for (int d = 0; d < 3; ++d) {
    int i = (int)lround(u[0])*7 + (int)lround(u[1])*3 + (d < 2 ? 0 : (int)lround(u[2])*11) + d*5;   /* the columns stay vertical */
    x[d] += 0.09*(((i*37)%17)/8.0-1)*s[d];
  }
}
/* the 24 rotations of the grid: topological index axes -> physical index axes */
static int ROT[24][3], RSG[24][3];
static void gen_rot(void) {
  int perms[6][3] = {{0,1,2},{1,2,0},{2,0,1},{0,2,1},{2,1,0},{1,0,2}}, sg[6] = {1,1,1,-1,-1,-1}, k = 0;
  for (int p = 0; p < 6; ++p) for (int m = 0; m < 8; ++m) {
    int s[3], det = sg[p];
    for (int d = 0; d < 3; ++d) { s[d] = (m>>d&1) ? -1 : 1; det *= s[d]; }
    if (det != 1) continue;
    for (int d = 0; d < 3; ++d) { ROT[k][d] = perms[p][d]; RSG[k][d] = s[d]; }
    k++;
  }
}
static PetscErrorCode permute_points(DM *dm, int kind, int i, int j);
static PetscErrorCode make_dm(MPI_Comm comm, void *ctx, DM *dm) {
  prob *q = (prob*)ctx; PetscErrorCode ierr;
  PetscInt n[3]; PetscReal lo[3] = {0,0,0}, hi[3];
  for (int d = 0; d < 3; ++d) { n[d] = q->n[ROT[q->rot][d]]; hi[d] = n[d]; }
  ierr = DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, n, lo, hi, NULL, PETSC_TRUE, dm); if (ierr) return ierr;
  Vec co; PetscScalar *a; PetscInt sz, bs;
  ierr = DMGetCoordinatesLocal(*dm, &co); if (ierr) return ierr;
  VecGetLocalSize(co, &sz); VecGetArray(co, &a);
  for (PetscInt v = 0; v < sz/3; ++v) {
    double u[3], x[3];
    for (int d = 0; d < 3; ++d) { int e = ROT[q->rot][d]; u[e] = RSG[q->rot][d] > 0 ? a[3*v+d] : q->n[e]-a[3*v+d]; }
    geo_map(q, u, x);
    for (int d = 0; d < 3; ++d) a[3*v+d] = x[d];
  }
  VecRestoreArray(co, &a); (void)bs;
  ierr = DMSetCoordinatesLocal(*dm, co); if (ierr) return ierr;
  /* the global coordinates must follow */
  Vec cg; DM cdm; DMGetCoordinateDM(*dm, &cdm); DMGetCoordinates(*dm, &cg);
  DMLocalToGlobal(cdm, co, INSERT_VALUES, cg);
  if (q->perm_kind) { ierr = permute_points(dm, q->perm_kind, q->perm_i, q->perm_j); if (ierr) return ierr; }
  return 0;
}
/* the mesh with two of its cells (1), faces (2) or vertices (3) renumbered */
static PetscErrorCode permute_points(DM *dm, int kind, int i, int j) {
  PetscInt s, e, ps, pe; DM nd; IS is; PetscInt *p;
  DMPlexGetChart(*dm, &ps, &pe);
  if (kind == 1) DMPlexGetHeightStratum(*dm, 0, &s, &e); else if (kind == 2) DMPlexGetHeightStratum(*dm, 1, &s, &e);
  else if (kind == 3) DMPlexGetDepthStratum(*dm, 0, &s, &e); else DMPlexGetDepthStratum(*dm, 1, &s, &e);
  PetscMalloc1(pe-ps, &p);
  for (PetscInt k = 0; k < pe-ps; ++k) p[k] = k;
  if (j >= 0) { i = i % (e-s); j = j % (e-s); p[s+i] = s+j; p[s+j] = s+i; }
  else for (PetscInt k = s; k < e; ++k) p[k] = s + e-1-k;                   /* the reversed order */
  ISCreateGeneral(PETSC_COMM_SELF, pe-ps, p, PETSC_OWN_POINTER, &is);
  PetscErrorCode ierr = DMPlexPermute(*dm, is, &nd); if (ierr) return ierr;
  ISDestroy(&is);
  DMDestroy(dm); *dm = nd;
  return 0;
}

/* ----------------------------------------------------------------------------------------- material and boundary data */
static double SC = 1.0;
static void k_at(const prob *q, const double *x, double K[9]) {
  memset(K, 0, 9*sizeof(double));
  double h = 1 + 0.7*x[0] + 0.4*x[1]*x[1] + 0.9*x[2];
  switch (q->kk) {
  case K_ISO: K[0] = K[4] = K[8] = 1e-12; break;
  case K_DIAG: K[0] = 1e-12; K[4] = 3e-12; K[8] = 0.5e-12; break;
  case K_HISO: K[0] = K[4] = K[8] = 1e-12*h; break;
  case K_HDIAG: K[0] = 1e-12*h; K[4] = 2e-12/h; K[8] = 0.5e-12*(1+h*h); break;
  case K_FULL: { double t[9] = {2,.3,.2,.3,1.5,.4,.2,.4,1}; for (int i = 0; i < 9; ++i) K[i] = 1e-12*t[i]; } break;
  case K_FULLNEG: { double t[9] = {2,-.3,.2,-.3,1.5,-.4,.2,-.4,1}; for (int i = 0; i < 9; ++i) K[i] = 1e-12*t[i]; } break;
  case K_LAYER: K[0] = K[4] = K[8] = 1e-12; break;
  }
}
static double phi_at(const double *x) { return 0.25 + 0.03*x[0] - 0.02*x[1] + 0.01*x[2]; }
static double sr_at(const double *x) { return 0.15 + 0.01*x[0] + 0.02*x[2]; }
static void f_iso(PetscInt n, PetscReal *x, PetscReal *f) { double K[9]; for (int i = 0; i < n; ++i) { k_at(CUR, x+3*i, K); f[i] = K[0]; } }
static void f_diag(PetscInt n, PetscReal *x, PetscReal *f) { double K[9]; for (int i = 0; i < n; ++i) { k_at(CUR, x+3*i, K); f[3*i] = K[0]; f[3*i+1] = K[4]; f[3*i+2] = K[8]; } }
static void f_full(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) k_at(CUR, x+3*i, f+9*i); }
static void f_phi(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = phi_at(x+3*i); }
static void f_sr(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = sr_at(x+3*i); }
/* boundary pressures: 0: around the reference pressure, 1: all below, 2: all above, 3: exact linear field, 4: just hydrostatic */
static double LIN[4];
static double pb_at(const prob *q, const double *x) {
  switch (q->pb) {
  case 0: return PREF + 3000*x[0] - 2000*x[1] + 1500*x[2] - 900;
  case 1: return PREF - 9000 + 800*x[0] + 500*x[1] - 700*x[2];
  case 2: return PREF + 9000 + 800*x[0] + 500*x[1] - 700*x[2];
  case 3: return LIN[3] + LIN[0]*x[0] + LIN[1]*x[1] + LIN[2]*x[2];
  case 5: return PREF;
  }
  return PREF;
}
static void f_pb(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = pb_at(CUR, x+3*i); }
/* which side of an orthogonal box a boundary point is on: -x +x -y +y -z +z */
static int side_of(const prob *q, const double *x) {
  double u0[3] = {0,0,0}, u1[3] = {(double)q->n[0],(double)q->n[1],(double)q->n[2]}, a[3], b[3];
  geo_map(q, u0, a); geo_map(q, u1, b);
  for (int d = 0; d < 3; ++d) { if (fabs(x[d]-a[d]) < 1e-9) return 2*d; if (fabs(x[d]-b[d]) < 1e-9) return 2*d+1; }
  return -1;
}
static int bt_at(const prob *q, const double *x) {
  if (q->bc != B_SIDES) return q->bc;
  int s = side_of(q, x); return s < 0 ? B_NEU : q->sides[s];
}
static void f_bt(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = bt_at(CUR, x+3*i); }

/* ---------------------------------------------------------------------------------------------------- the dycore */
typedef struct { TDy tdy; SNES snes; TS ts; Vec U, R; int nc, ndof; DM dm; double vol[MAXC], cen[MAXC][3], lo[MAXC][3], hi[MAXC][3]; } flow;
static void set_opt(const char *k, const char *v) { PetscOptionsSetValue(NULL, k, v); }
static PetscErrorCode (*MAKE_DM)(MPI_Comm, void*, DM*) = make_dm;
static PetscErrorCode (*MORE_SETTINGS)(TDy);
static PetscErrorCode flow_create(prob *q, flow *f, int mode) {
  PetscErrorCode ierr; char b[64];
  memset(f, 0, sizeof *f); CUR = q;
  TDyDiscretization d = q->disc == D_FVTPF ? FV_TPF : q->form == 2 ? MPFA_O_TRANSIENTVAR : MPFA_O;
  ierr = TDyCreate(FCOMM, &f->tdy); if (ierr) return ierr;
  ierr = TDySetMode(f->tdy, (TDyMode)mode); if (ierr) return ierr;
  ierr = TDySetDiscretization(f->tdy, d); if (ierr) return ierr;
  ierr = TDySetDMConstructor(f->tdy, q, MAKE_DM); if (ierr) return ierr;
  snprintf(b, sizeof b, "%.17g", q->grav); set_opt("-tdy_gravity", b);
  set_opt("-tdy_water_density", q->rho == 0 ? "CONSTANT" : q->rho == 1 ? "EXPONENTIAL" : "BATZLE_AND_WANG");
  if (q->rho == 2) set_opt("-tdy_water_viscosity", "BATZLE_AND_WANG"); else PetscOptionsClearValue(NULL, "-tdy_water_viscosity");
  if (q->disc != D_FVTPF) {
    set_opt("-tdy_mpfao_gmatrix_method", q->disc == D_MPFATPF ? "MPFAO_GMATRIX_TPF" : "MPFAO_GMATRIX_DEFAULT");
    set_opt("-tdy_mpfao_boundary_condition_type", q->bc == B_DIR ? "DIRICHLET_BC" : q->bc == B_NEU ? "NEUMANN_BC" : "SEEPAGE_BC");
  }
  ierr = TDySetFromOptions(f->tdy); if (ierr) return ierr;
  ierr = TDySetPorosityFunction(f->tdy, f_phi); if (ierr) return ierr;
  ierr = TDySetResidualSaturationFunction(f->tdy, f_sr); if (ierr) return ierr;
  if (q->kk == K_FULL || q->kk == K_FULLNEG) ierr = TDySetTensorPermeabilityFunction(f->tdy, f_full);
  else if (q->kk == K_DIAG || q->kk == K_HDIAG) ierr = TDySetDiagonalPermeabilityFunction(f->tdy, f_diag);
  else ierr = TDySetIsotropicPermeabilityFunction(f->tdy, f_iso);
  if (ierr) return ierr;
  ierr = TDySetBoundaryPressureFunction(f->tdy, f_pb); if (ierr) return ierr;
  if (q->disc == D_FVTPF) { ierr = TDySetBoundaryPressureTypeFunction(f->tdy, f_bt); if (ierr) return ierr; }
  if (MORE_SETTINGS) { ierr = MORE_SETTINGS(f->tdy); if (ierr) return ierr; }
  ierr = TDySetup(f->tdy); if (ierr) return ierr;
  ierr = TDyCreateVectors(f->tdy); if (ierr) return ierr;
  ierr = TDyGetDM(f->tdy, &f->dm); if (ierr) return ierr;
  PetscInt cs, ce; DMPlexGetHeightStratum(f->dm, 0, &cs, &ce); f->nc = ce-cs;
  ierr = TDyCreatePrognosticVector(f->tdy, &f->U); if (ierr) return ierr;
  ierr = VecDuplicate(f->U, &f->R); if (ierr) return ierr;
  /* extents of each cell, from its vertices */
  Vec co; PetscSection sec; DM cdm; DMGetCoordinatesLocal(f->dm, &co); DMGetCoordinateDM(f->dm, &cdm); DMGetLocalSection(cdm, &sec);
  for (PetscInt c = cs; c < ce && c < MAXC; ++c) {
    PetscInt sz; PetscScalar *a = NULL;
    DMPlexVecGetClosure(cdm, sec, co, c, &sz, &a);
    for (int e = 0; e < 3; ++e) { f->lo[c][e] = 1e30; f->hi[c][e] = -1e30; f->cen[c][e] = 0; }
    for (int v = 0; v < sz/3; ++v) for (int e = 0; e < 3; ++e) {
      double x = a[3*v+e]; f->lo[c][e] = fmin(f->lo[c][e], x); f->hi[c][e] = fmax(f->hi[c][e], x); f->cen[c][e] += x/(sz/3);
    }
    DMPlexVecRestoreClosure(cdm, sec, co, c, &sz, &a);
    f->vol[c] = (f->hi[c][0]-f->lo[c][0])*(f->hi[c][1]-f->lo[c][1])*(f->hi[c][2]-f->lo[c][2]);
  }
  return 0;
}
static PetscErrorCode flow_snes(flow *f, double dt) {
  PetscErrorCode ierr;
  ierr = TDyCreateJacobian(f->tdy); if (ierr) return ierr;
  ierr = SNESCreate(FCOMM, &f->snes); if (ierr) return ierr;
  ierr = SNESSetDM(f->snes, f->dm); if (ierr) return ierr;
  ierr = TDySetSNESFunction(f->snes, f->tdy); if (ierr) return ierr;
  ierr = TDySetSNESJacobian(f->snes, f->tdy); if (ierr) return ierr;
  ierr = TDySetDtimeForSNESSolver(f->tdy, dt); if (ierr) return ierr;
  return 0;
}
static void flow_put(flow *f, Vec v, const double *x) {
  PetscScalar *a; VecGetArray(v, &a); PetscInt n; VecGetLocalSize(v, &n);
  for (PetscInt i = 0; i < n; ++i) a[i] = x[i];
  VecRestoreArray(v, &a);
}
static void flow_get(flow *f, Vec v, double *x) {
  const PetscScalar *a; VecGetArrayRead(v, &a); PetscInt n; VecGetLocalSize(v, &n);
  for (PetscInt i = 0; i < n; ++i) x[i] = a[i];
  VecRestoreArrayRead(v, &a);
}
static void flow_prev(flow *f, const double *x) {
  flow_put(f, f->U, x);
  VH_CHK(TDySetPreviousSolutionForSNESSolver(f->tdy, f->U)); VH_CHK(TDyPreSolveSNESSolver(f->tdy));
}
static int flow_res(flow *f, const double *x, double *r) {
  flow_put(f, f->U, x);
  VecSet(f->R, 7777.0);
  PetscErrorCode ierr = SNESComputeFunction(f->snes, f->U, f->R);
  if (ierr) { vh_fail("error", "residual: %d %s", ierr, vh_errmsg); return 1; }
  flow_get(f, f->R, r);
  vh_trans(1);
  return 0;
}
/* the Jacobian at x as a dense matrix (nothing is evaluated before it) */
static int flow_jac(flow *f, const double *x, double *J) {
  Mat A, B; PetscErrorCode ierr;
  flow_put(f, f->U, x);
  ierr = SNESGetJacobian(f->snes, &A, &B, NULL, NULL); if (ierr) return ierr;
  ierr = SNESComputeJacobian(f->snes, f->U, A, B);
  if (ierr) { vh_fail("error", "jacobian: %d %s", ierr, vh_errmsg); return 1; }
  PetscInt n; VecGetLocalSize(f->U, &n);
  for (PetscInt i = 0; i < n; ++i) {
    PetscInt nc; const PetscInt *c; const PetscScalar *v;
    for (PetscInt j = 0; j < n; ++j) J[i*n+j] = 0;
    MatGetRow(B, i, &nc, &c, &v);
    for (PetscInt k = 0; k < nc; ++k) J[i*n+c[k]] = v[k];
    MatRestoreRow(B, i, &nc, &c, &v);
  }
  vh_trans(1);
  return 0;
}
static void flow_destroy(flow *f) {
  if (f->snes) SNESDestroy(&f->snes);
  if (f->ts) TSDestroy(&f->ts);
  VecDestroy(&f->U); VecDestroy(&f->R);
  VH_CHK(TDyDestroy(&f->tdy));
}

/* ----------------------------------------------------------------------------- reference properties and residual */
typedef struct { double rho, S, kr, mu; } cellp;
static double ref_rho(const prob *q, double P) {
  if (q->rho == 0) return 998.0;
  if (q->rho == 1) return P < PREF ? 997.16 : 997.16*exp(1e-8*(P-PREF));
  double T = 25, p = P*1e-6;   /* Batzle and Wang, pure water */
  return 1000*(1 + 1e-6*(-80*T - 3.3*T*T + 0.00175*T*T*T + 489*p - 2*T*p + 0.016*T*T*p - 1.3e-5*T*T*T*p - 0.333*p*p - 0.002*T*p*p));
}
static double ref_mu(const prob *q) {
  if (q->rho != 2) return 9.94e-4;
  double T = 25; return 1e-3*(0.1 + 1.65*exp(-(0.42*pow(0-0.17,2)+0.045)*pow(T,0.8)));
}
static cellp ref_cell(const prob *q, double P, double Sr) {
  cellp c; double d1, d2, d;
  ref_vg(0.8, 1e-4, Sr, PREF-P, &c.S, &d1, &d2);
  double Se = (c.S-Sr)/(1-Sr);
  ref_mualem(0.8, 0.99, 1.0, Se, &c.kr, &d); if (Se >= 1) c.kr = 1;
  c.rho = ref_rho(q, P); c.mu = ref_mu(q);
  return c;
}
/* flux of mass per time through every face of an orthogonal grid with diagonal permeability, cell-centred differences,
   upstream mobility; returns the residual of one implicit step */
static double ref_flux(const prob *q, double T, double Pa, double Pb, double za, double zb, cellp a, cellp b, double wa) {
  double den = wa*a.rho + (1-wa)*b.rho, dphi = Pa - Pb + den*q->grav*(za-zb);
  if (q->disc == D_FVTPF && a.kr <= 1e-8 && b.kr <= 1e-8) return 0;
  double mob = dphi > 0 ? a.kr/a.mu : b.kr/b.mu;
  return den*mob*T*dphi;
}
static void ref_residual(const prob *q, const flow *f, const double *P, const double *P0, double dt, double *R, double *scale) {
  cellp c[MAXC]; *scale = 0;
  for (int i = 0; i < f->nc; ++i) {
    double Sr = sr_at(f->cen[i]), ph = phi_at(f->cen[i]);
    c[i] = ref_cell(q, P[i], Sr);
    R[i] = 0;
    if (P0) { cellp o = ref_cell(q, P0[i], Sr); R[i] = ph*f->vol[i]*(c[i].rho*c[i].S - o.rho*o.S)/dt; *scale = fmax(*scale, ph*f->vol[i]*c[i].rho*c[i].S/dt); }
  }
  for (int i = 0; i < f->nc; ++i) for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
    int e1 = (d+1)%3, e2 = (d+2)%3;
    double pos = s ? f->hi[i][d] : f->lo[i][d], area = (f->hi[i][e1]-f->lo[i][e1])*(f->hi[i][e2]-f->lo[i][e2]);
    int nb = -1;
    for (int j = 0; j < f->nc; ++j) if (j != i && fabs((s ? f->lo[j][d] : f->hi[j][d])-pos) < 1e-9 && fabs(f->cen[j][e1]-f->cen[i][e1]) < 1e-9 && fabs(f->cen[j][e2]-f->cen[i][e2]) < 1e-9) nb = j;
    double Ki[9], di = 0.5*(f->hi[i][d]-f->lo[i][d]); k_at(q, f->cen[i], Ki);
    double F;
    if (nb >= 0) {
      double Kj[9], dj = 0.5*(f->hi[nb][d]-f->lo[nb][d]); k_at(q, f->cen[nb], Kj);
      double T = area/(di/Ki[4*d] + dj/Kj[4*d]);
      double w = q->disc == D_FVTPF ? dj/(di+dj) : 0.5;
      F = ref_flux(q, T, P[i], P[nb], f->cen[i][2], f->cen[nb][2], c[i], c[nb], w);
    } else {
      double xf[3] = {f->cen[i][0], f->cen[i][1], f->cen[i][2]}; xf[d] = pos;
      int bt = bt_at(q, xf); if (bt == B_NEU) continue;
      double Pb = pb_at(q, xf); cellp b = ref_cell(q, Pb, sr_at(f->cen[i]));
      b.rho = ref_rho(q, PREF);          /* boundary water has its density and viscosity at the reference pressure */
      double T = area*Ki[4*d]/di, w = q->disc == D_FVTPF ? 0.0 : 0.5;
      F = ref_flux(q, T, P[i], Pb, f->cen[i][2], xf[2], c[i], b, w);
      if (bt == B_SEEP && F < 0 && Pb <= PREF + (q->disc == D_FVTPF ? 1e-8 : 0)) F = 0;
    }
    R[i] += F; *scale = fmax(*scale, fabs(F));
  }
}
static const char *pname(const prob *q) {
  static char b[8][256]; static int k; k = (k+1)%8;
  snprintf(b[k], 256, "%s %dx%dx%d %s K=%s rho=%s bc=%s pb=%d g=%g", DN[q->disc], q->n[0], q->n[1], q->n[2], GN[q->geom], KN[q->kk], RN[q->rho], BN[q->bc], q->pb, q->grav);
  if (q->bc == B_SIDES) { int l = strlen(b[k]); snprintf(b[k]+l, 256-l, " %d%d%d%d%d%d", q->sides[0], q->sides[1], q->sides[2], q->sides[3], q->sides[4], q->sides[5]); }
  return b[k];
}
static uint64_t phash(const prob *q) { return vh_hb(vh_h0(), q, sizeof *q); }
#endif
