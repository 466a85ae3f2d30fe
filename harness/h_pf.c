/* C26: meshes read from PFLOTRAN HDF5 files: every cell, vertex numbering, orientation and assignment of cells to
   processes of small meshes of every cell type; the residual, its derivatives and the geometry against a reference
   computed from the contents of the file alone */
#define FCOMM PETSC_COMM_WORLD
#include "flow.h"
#include <petsc/private/matimpl.h>
#include <petscviewerhdf5.h>
#include <private/tdydiscretizationimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdymeshimpl.h>
#include <unistd.h>

#define MV 128
typedef struct { int nv, nc; double x[MV][3]; int t[MAXC], v[MAXC][8]; } pmesh;
static const int QF[4][6][4] = {   /* faces: tetrahedron, pyramid, wedge, hexahedron (only as sets of vertices) */
  {{0,1,2,-1},{0,1,3,-1},{1,2,3,-1},{0,2,3,-1}},
  {{0,1,2,3},{0,1,4,-1},{1,2,4,-1},{2,3,4,-1},{3,0,4,-1}},
  {{0,1,2,-1},{3,4,5,-1},{0,1,4,3},{1,2,5,4},{2,0,3,5}},
  {{0,1,2,3},{4,5,6,7},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7}}};
static const int QN[4] = {4,5,5,6};
static int ti(int n) { return n == 4 ? 0 : n == 5 ? 1 : n == 6 ? 2 : 3; }
static int too_big; static void addc(pmesh *m, int n, int a, int b, int c, int d, int e, int f, int g, int h) { int w[8] = {a,b,c,d,e,f,g,h}; if (m->nc >= MAXC) { too_big = 1; return; } m->t[m->nc] = n; memcpy(m->v[m->nc++], w, sizeof w); }
enum { T_HEX, T_WEDGE, T_PYR, T_TET, T_HEXWEDGE, T_HEXPYR, T_ALL, NT };
static const char *TN[] = {"hex","wedge","pyramid","tet","hex+wedge","hex+pyramid","all"};
#define G_KITE 5   /* faces across x without parallel sides, all of them plane */
static const char *GP[] = {"box","stretched","sheared","tapered","perturbed","kite"};
static void build(pmesh *m, int kind, const int *n, int geom) {
  prob q; memset(&q, 0, sizeof q); memcpy(q.n, n, sizeof q.n); q.geom = geom == G_KITE ? G_STRETCH : geom;
  memset(m, 0, sizeof *m);
  for (int k = 0; k <= n[2]; ++k) for (int j = 0; j <= n[1]; ++j) for (int i = 0; i <= n[0]; ++i) { double u[3] = {i,j,k}; geo_map(&q, u, m->x[m->nv]); if (geom == G_KITE) { double *x = m->x[m->nv], y = x[1], z = x[2]; x[1] = y*(1+0.2*z); x[2] = z*(1+0.1*y); } m->nv++; }
#define V(a,b,c) ((a)+(n[0]+1)*((b)+(n[1]+1)*(c)))
  for (int k = 0; k < n[2]; ++k) for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
    int w[8] = {V(i,j,k),V(i+1,j,k),V(i+1,j+1,k),V(i,j+1,k),V(i,j,k+1),V(i+1,j,k+1),V(i+1,j+1,k+1),V(i,j+1,k+1)}, odd = (i+j+k)%2, type = kind;
    if (kind == T_HEXWEDGE) type = (i+j)%2 ? T_HEX : T_WEDGE;
    if (kind == T_HEXPYR) type = odd ? T_HEX : T_PYR;
    if (kind == T_ALL) type = (i+j)%2 == 0 ? (j%2 ? T_WEDGE : T_HEX) : T_PYR;
    if (type == T_HEX) addc(m, 8, w[0],w[1],w[2],w[3],w[4],w[5],w[6],w[7]);
    else if (type == T_WEDGE) { addc(m, 6, w[0],w[1],w[2],w[4],w[5],w[6],0,0); addc(m, 6, w[0],w[2],w[3],w[4],w[6],w[7],0,0); }
    else if (type == T_TET) {
      static const int A[5][4] = {{0,1,3,4},{1,2,3,6},{1,4,5,6},{3,4,6,7},{1,3,4,6}}, B[5][4] = {{0,1,2,5},{0,2,3,7},{0,4,5,7},{2,5,6,7},{0,2,5,7}};
      for (int c = 0; c < 5; ++c) { const int *p = odd ? B[c] : A[c]; addc(m, 4, w[p[0]],w[p[1]],w[p[2]],w[p[3]],0,0,0,0); }
    } else {
      if (m->nv >= MV) { too_big = 1; return; } int ce = m->nv++; for (int d = 0; d < 3; ++d) { m->x[ce][d] = 0; for (int a = 0; a < 8; ++a) m->x[ce][d] += m->x[w[a]][d]/8; }
      for (int f = 0; f < 6; ++f) {
        const int *p = QF[3][f];
        int edge = f == 5 && i == 0 && kind == T_ALL;   /* a pyramid at the boundary becomes two tetrahedra */
        if (edge) { addc(m, 4, w[p[0]],w[p[1]],w[p[2]],ce,0,0,0,0); addc(m, 4, w[p[0]],w[p[2]],w[p[3]],ce,0,0,0,0); }
        else addc(m, 5, w[p[0]],w[p[1]],w[p[2]],w[p[3]],ce,0,0,0);
      }
    }
  }
}
/* the other ways to write one cell down */
static int RH[24][8];
static void gen_rh(void) {
  static const int C[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
  for (int r = 0; r < 24; ++r) for (int a = 0; a < 8; ++a) { int y[3]; for (int d = 0; d < 3; ++d) { int s = C[a][ROT[r][d]]; y[d] = RSG[r][d] > 0 ? s : 1-s; }
    for (int b = 0; b < 8; ++b) if (C[b][0] == y[0] && C[b][1] == y[1] && C[b][2] == y[2]) RH[r][a] = b; }
}
static void respell(pmesh *m, int c, int r) {
  static const int RW[6][6] = {{0,1,2,3,4,5},{1,2,0,4,5,3},{2,0,1,5,3,4},{3,5,4,0,2,1},{5,4,3,2,1,0},{4,3,5,1,0,2}};
  static const int RT[12][4] = {{0,1,2,3},{1,2,0,3},{2,0,1,3},{0,2,3,1},{0,3,1,2},{2,1,3,0},{3,0,2,1},{1,3,2,0},{3,1,0,2},{1,0,3,2},{2,3,0,1},{3,2,1,0}};
  int o[8]; memcpy(o, m->v[c], sizeof o);
  for (int a = 0; a < m->t[c]; ++a) switch (m->t[c]) {
    case 8: m->v[c][a] = o[RH[r%24][a]]; break;
    case 6: m->v[c][a] = o[RW[r%6][a]]; break;
    case 5: m->v[c][a] = a < 4 ? o[(a+r)%4] : o[4]; break;
    default: m->v[c][a] = o[RT[r%12][a]];
  }
}
static void perm_cells(pmesh *m, const int *p) { pmesh o = *m; for (int c = 0; c < m->nc; ++c) { m->t[c] = o.t[p[c]]; memcpy(m->v[c], o.v[p[c]], sizeof o.v[0]); } }
static void perm_verts(pmesh *m, const int *p) { pmesh o = *m; for (int v = 0; v < m->nv; ++v) memcpy(m->x[p[v]], o.x[v], sizeof o.x[0]); for (int c = 0; c < m->nc; ++c) for (int a = 0; a < m->t[c]; ++a) m->v[c][a] = p[o.v[c][a]]; }

static int maxn(const pmesh *m) { int k = 0; for (int c = 0; c < m->nc; ++c) if (m->t[c] > k) k = m->t[c]; return k; }
static char FN[64];
/* raw: rows of `bs` numbers for the cells as given, or NULL to write the mesh with 9 (or as many as needed) per row */
static int writef(const pmesh *m, int tight, const double *raw, int bs, int vdim, int what) {
  int bad = 0;
  if (!vh_rank) {
    PetscViewer v; Vec c, x; PetscScalar *a;
    unlink(FN);
    bad |= PetscViewerHDF5Open(PETSC_COMM_SELF, FN, FILE_MODE_WRITE, &v);
    bad |= PetscViewerHDF5PushGroup(v, "/Domain");
    if (!bs) bs = tight ? maxn(m)+1 : 9;
    VecCreateSeq(PETSC_COMM_SELF, bs*m->nc, &c); VecSetBlockSize(c, bs); PetscObjectSetName((PetscObject)c, what == 1 ? "Elements" : "Cells");
    VecCreateSeq(PETSC_COMM_SELF, vdim*m->nv, &x); VecSetBlockSize(x, vdim); PetscObjectSetName((PetscObject)x, what == 2 ? "Points" : "Vertices");
    VecGetArray(c, &a);
    if (raw) for (int i = 0; i < bs*m->nc; ++i) a[i] = raw[i];
    else for (int i = 0; i < m->nc; ++i) { a[bs*i] = m->t[i]; for (int k = 0; k < bs-1; ++k) a[bs*i+1+k] = k < m->t[i] ? m->v[i][k]+1 : 0; }
    VecRestoreArray(c, &a); VecGetArray(x, &a);
    for (int i = 0; i < m->nv; ++i) for (int d = 0; d < vdim; ++d) a[vdim*i+d] = m->x[i][d];
    VecRestoreArray(x, &a);
    bad |= VecView(c, v); bad |= VecView(x, v); bad |= PetscViewerDestroy(&v);
    VecDestroy(&c); VecDestroy(&x);
  }
  MPI_Bcast(&bad, 1, MPI_INT, 0, MPI_COMM_WORLD);
  return bad;
}
/* partitions chosen by the enumeration */
static int PART[MAXC];
static PetscErrorCode part_apply(MatPartitioning p, IS *is) {
  PetscInt lo, hi; PetscErrorCode e = MatGetOwnershipRange(p->adj, &lo, &hi); if (e) return e;
  PetscInt *i; PetscMalloc1(hi-lo+1, &i); for (PetscInt k = lo; k < hi; ++k) i[k-lo] = PART[k];
  return ISCreateGeneral(PetscObjectComm((PetscObject)p), hi-lo, i, PETSC_OWN_POINTER, is);
}
static PetscErrorCode part_create(MatPartitioning p) { p->ops->apply = part_apply; return 0; }

/* ------------------------------------------------------------------------------------------------- the reference */
typedef struct { int a, b; double area, parea, da, db, n[3]; } rface;
typedef struct { double vol[MAXC], cen[MAXC][3]; int nf; rface f[6*MAXC]; } rgeo;
static void sub3(const double *a, const double *b, double *c) { for (int d = 0; d < 3; ++d) c[d] = a[d]-b[d]; }
static void cross(const double *a, const double *b, double *c) { c[0] = a[1]*b[2]-a[2]*b[1]; c[1] = a[2]*b[0]-a[0]*b[2]; c[2] = a[0]*b[1]-a[1]*b[0]; }
static double dot(const double *a, const double *b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static void fgeo(const pmesh *m, const int *v, double *av, double *fc) {   /* vector area and centre of a planar face */
  int n = v[3] < 0 ? 3 : 4; for (int d = 0; d < 3; ++d) { av[d] = fc[d] = 0; for (int i = 0; i < n; ++i) fc[d] += m->x[v[i]][d]/n; }
  for (int i = 0; i < n; ++i) { double a[3], b[3], c[3]; sub3(m->x[v[i]], fc, a); sub3(m->x[v[(i+1)%n]], fc, b); cross(a, b, c); for (int d = 0; d < 3; ++d) av[d] += c[d]/2; }
}
static void rgeometry(const pmesh *m, rgeo *g) {
  memset(g, 0, sizeof *g);
  for (int c = 0; c < m->nc; ++c) for (int d = 0; d < 3; ++d) for (int a = 0; a < m->t[c]; ++a) g->cen[c][d] += m->x[m->v[c][a]][d]/m->t[c];
  for (int c = 0; c < m->nc; ++c) { int t = ti(m->t[c]);
    for (int f = 0; f < QN[t]; ++f) {
      int v[4]; for (int i = 0; i < 4; ++i) v[i] = QF[t][f][i] < 0 ? -1 : m->v[c][QF[t][f][i]];
      double av[3], fc[3], r[3]; fgeo(m, v, av, fc); sub3(fc, g->cen[c], r);
      g->vol[c] += fabs(dot(av, r))/3;
      int n = v[3] < 0 ? 3 : 4;
      for (int o = c+1; o < m->nc; ++o) {
        int t2 = ti(m->t[o]), hit = 0;
        for (int h = 0; h < QN[t2] && !hit; ++h) { int n2 = QF[t2][h][3] < 0 ? 3 : 4, k = 0; if (n2 != n) continue;
          for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k += v[i] == m->v[o][QF[t2][h][j]]; hit = k == n; }
        if (!hit) continue;
        rface *F = &g->f[g->nf++]; F->a = c; F->b = o;
        double w[3]; sub3(g->cen[o], g->cen[c], w); double L = sqrt(dot(w, w)); for (int d = 0; d < 3; ++d) F->n[d] = w[d]/L;
        F->area = sqrt(dot(av, av)); F->parea = fabs(dot(av, F->n));
        double s = dot(av, r)/dot(av, w); F->da = s*L; F->db = (1-s)*L;
      }
    }
  }
}
/* the permeability along a direction as PFLOTRAN (whose meshes these are) defines it */
static double kn(const prob *q, const double *x, const double *n) { double K[9], s = 0; k_at(q, x, K); for (int i = 0; i < 3; ++i) s += n[i]*n[i]/K[4*i]; return 1/s; }
static void rresidual(const prob *q, const pmesh *m, const rgeo *g, const double *P, const double *P0, double *R, double *scale) {
  cellp c[MAXC]; *scale = 0;
  for (int i = 0; i < m->nc; ++i) { double Sr = sr_at(g->cen[i]), ph = phi_at(g->cen[i]); c[i] = ref_cell(q, P[i], Sr); cellp o = ref_cell(q, P0[i], Sr);
    R[i] = ph*g->vol[i]*(c[i].rho*c[i].S-o.rho*o.S)/q->dt; *scale = fmax(*scale, ph*g->vol[i]*c[i].rho*c[i].S/q->dt); }
  for (int f = 0; f < g->nf; ++f) { const rface *F = &g->f[f];
    double T = F->parea/(F->da/kn(q, g->cen[F->a], F->n) + F->db/kn(q, g->cen[F->b], F->n));
    double x = ref_flux(q, T, P[F->a], P[F->b], g->cen[F->a][2], g->cen[F->b][2], c[F->a], c[F->b], F->db/(F->da+F->db));
    R[F->a] += x; R[F->b] -= x; *scale = fmax(*scale, fabs(x)); }
}
static double ST(int s, int i) { switch (s) { case 0: return PREF - 3000 + 611.0*((5*i+2)%13); case 1: return PREF - 9000 + 377.0*((7*i+4)%11); case 2: return PREF + 1000 + 93.0*((3*i+1)%17); default: return PREF - 2000 - 433.0*i; } }
static PetscErrorCode pf_create(prob *q, TDy *t) {
  char b[64]; PetscErrorCode e; CUR = q;
  set_opt("-tdy_read_pflotran_mesh", FN);
  snprintf(b, sizeof b, "%.17g", q->grav); set_opt("-tdy_gravity", b);
  set_opt("-tdy_water_density", q->rho == 0 ? "CONSTANT" : "EXPONENTIAL");
  if ((e = TDyCreate(FCOMM, t))) return e;
  if ((e = TDySetMode(*t, RICHARDS))) return e;
  if ((e = TDySetDiscretization(*t, FV_TPF))) return e;
  if ((e = TDySetFromOptions(*t))) return e;
  if ((e = TDySetPorosityFunction(*t, f_phi))) return e;
  if ((e = TDySetResidualSaturationFunction(*t, f_sr))) return e;
  if ((e = q->kk == K_DIAG || q->kk == K_HDIAG ? TDySetDiagonalPermeabilityFunction(*t, f_diag) : TDySetIsotropicPermeabilityFunction(*t, f_iso))) return e;
  return TDySetup(*t);
}
static void all(Vec v, double *x) { Vec s; VecScatter sc; const PetscScalar *a; PetscInt n; VecGetSize(v, &n); VecScatterCreateToAll(v, &sc, &s); VecScatterBegin(sc, v, s, INSERT_VALUES, SCATTER_FORWARD); VecScatterEnd(sc, v, s, INSERT_VALUES, SCATTER_FORWARD); VecGetArrayRead(s, &a); for (PetscInt i = 0; i < n && i < MAXC; ++i) x[i] = a[i]; VecRestoreArrayRead(s, &a); VecScatterDestroy(&sc); VecDestroy(&s); }
static void put(TDy t, Vec nat, Vec glob, const double *x) { PetscInt lo, hi; VecGetOwnershipRange(nat, &lo, &hi); for (PetscInt i = lo; i < hi; ++i) VecSetValue(nat, i, x[i], INSERT_VALUES); VecAssemblyBegin(nat); VecAssemblyEnd(nat); VH_CHK(TDyDiscretizationNaturalToGlobal(t->discretization, nat, glob)); }
static void get(TDy t, Vec nat, Vec glob, double *x) { VecSet(nat, 7777.); VH_CHK(TDyGlobalToNatural(t, glob, nat)); all(nat, x); }
static int near(double a, double b, double s) { return fabs(a-b) <= 1e-10*s; }

static void geometry(TDy t, const pmesh *m, const rgeo *g) {
  TDyMesh *M = ((TDyFVTPF*)t->context)->mesh; int own[MAXC] = {0}, tot[MAXC]; double L = 0;
  for (int v = 0; v < m->nv; ++v) for (int d = 0; d < 3; ++d) L = fmax(L, fabs(m->x[v][d]));
  for (int i = 0; i < M->num_cells; ++i) { int c = M->cells.natural_id[i];
    if (c < 0 || c >= m->nc) { vh_fail("cell", "cell %d is number %d of the file, which has %d", i, c, m->nc); return; }
    if (M->cells.is_local[i]) own[c]++;
    if (!near(M->cells.volume[i], g->vol[c], L*L*L)) vh_fail("volume", "cell %d of the file: volume %.12g, it is %.12g", c, M->cells.volume[i], g->vol[c]);
    for (int d = 0; d < 3; ++d) if (!near(M->cells.centroid[i].X[d], g->cen[c][d], L)) vh_fail("centroid", "cell %d of the file: coordinate %d of its centre %.12g, it is %.12g", c, d, M->cells.centroid[i].X[d], g->cen[c][d]);
  }
  MPI_Allreduce(own, tot, m->nc, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
  for (int c = 0; c < m->nc; ++c) if (tot[c] != 1) vh_fail("owner", "cell %d of the file is owned %d times", c, tot[c]);
  int seen = 0, expect = 0;
  for (int f = 0; f < g->nf; ++f) expect += own[g->f[f].a] || own[g->f[f].b];
  for (int i = 0; i < M->num_faces; ++i) {
    PetscInt *ci, n; TDyMeshGetFaceCells(M, i, &ci, &n);
    if (n != 2) { vh_fail("face", "face %d has %d cells", i, (int)n); continue; }
    if (ci[0] < 0 || ci[0] >= M->num_cells || ci[1] < 0 || ci[1] >= M->num_cells) { vh_fail("face", "face %d: cells %d and %d", i, ci[0], ci[1]); continue; }
    int a = M->cells.natural_id[ci[0]], b = M->cells.natural_id[ci[1]], k = -1;
    for (int f = 0; f < g->nf; ++f) if ((g->f[f].a == a && g->f[f].b == b) || (g->f[f].a == b && g->f[f].b == a)) k = f;
    if (k < 0) { vh_fail("face", "cells %d and %d of the file have no common face", a, b); continue; }
    const rface *F = &g->f[k]; double s = F->a == a ? 1 : -1, da = s > 0 ? F->da : F->db, db = s > 0 ? F->db : F->da;
    seen++;
    if (!near(M->faces.area[i], F->area, L*L)) vh_fail("area", "face of cells %d and %d: area %.12g, it is %.12g", a, b, M->faces.area[i], F->area);
    if (!near(M->faces.projected_area[i], F->parea, L*L)) vh_fail("area", "face of cells %d and %d: projected area %.12g, it is %.12g", a, b, M->faces.projected_area[i], F->parea);
    if (!near(M->faces.dist_up_dn[i][0], da, L) || !near(M->faces.dist_up_dn[i][1], db, L)) vh_fail("distance", "face of cells %d and %d: distances %.12g %.12g, they are %.12g %.12g", a, b, M->faces.dist_up_dn[i][0], M->faces.dist_up_dn[i][1], da, db);
    for (int d = 0; d < 3; ++d) if (!near(M->faces.unit_vec_up_dn[i][d], s*F->n[d], 1)) vh_fail("direction", "face of cells %d and %d: component %d of the direction %.12g, it is %.12g", a, b, d, M->faces.unit_vec_up_dn[i][d], s*F->n[d]);
  }
  if (seen != expect) vh_fail("face", "%d faces between cells, the file has %d here", seen, expect);
}
static void pcase(prob *q, const pmesh *m, int tight, int full) {
  TDy t = NULL; rgeo g; double R[MAXC], S[MAXC], P[MAXC], P0[MAXC], sc; Vec U, F, N; SNES s; DM dm;
  if (writef(m, tight, NULL, 0, 3, 0)) { vh_fail("error", "file: %s", vh_errmsg); return; }
  rgeometry(m, &g);
  int share[MV] = {0}, most = 0; for (int c = 0; c < m->nc; ++c) for (int a = 0; a < m->t[c]; ++a) { int k = ++share[m->v[c][a]]; if (k > most) most = k; }
  if (most > 24 && vh_size > 1) return;   /* refused, by the process that has the vertex only: the others wait for it */
  vh_errmsg[0] = 0;
  if (pf_create(q, &t)) { if (most > 24) { vh_count("refused", 1); return; } vh_fail("error", "setup: %s", vh_errmsg); return; }   /* the library's documented limit */
  VH_CHK(TDyCreateVectors(t)); VH_CHK(TDyCreateJacobian(t)); VH_CHK(TDyGetDM(t, &dm));
  vh_state(vh_hb(vh_hb(vh_hb(vh_h0(), m, sizeof *m), PART, sizeof PART), q, sizeof *q));
  geometry(t, m, &g);
  VH_CHK(TDyCreatePrognosticVector(t, &U)); VecDuplicate(U, &F); N = NULL; VH_CHK(TDyDiscretizationCreateNaturalVector(t->discretization, &N));
  PetscInt n; VecGetSize(U, &n); if (n != m->nc) { vh_fail("cells", "%d unknowns, the file has %d cells", (int)n, m->nc); return; }
  if (!N) { vh_fail("natural", "there is no natural vector"); return; }
  SNESCreate(FCOMM, &s); SNESSetDM(s, dm); VH_CHK(TDySetSNESFunction(s, t)); VH_CHK(TDySetSNESJacobian(s, t)); VH_CHK(TDySetDtimeForSNESSolver(t, q->dt));
  for (int k = 0; k < (full ? 4 : 2); ++k) {
    for (int i = 0; i < m->nc; ++i) { P0[i] = ST((k+1)%4, i); P[i] = ST(k, i); }
    put(t, N, U, P0); VH_CHK(TDySetPreviousSolutionForSNESSolver(t, U)); VH_CHK(TDyPreSolveSNESSolver(t));
    put(t, N, U, P); VecSet(F, 7777.);
    if (SNESComputeFunction(s, U, F)) { vh_fail("error", "residual: %s", vh_errmsg); break; }
    vh_trans(1);
    get(t, N, F, R); rresidual(q, m, &g, P, P0, S, &sc);
    double tot = 0, acc = 0;
    for (int i = 0; i < m->nc; ++i) { if (!(fabs(R[i]-S[i]) <= 1e-8*sc)) vh_fail("residual", "state %d cell %d: residual %.12g, the reference is %.12g (scale %.3g)", k, i, R[i], S[i], sc); tot += R[i]; acc += S[i]; }
    { uint64_t h = vh_h0(); for (int i = 0; i < m->nc; ++i) h = vh_hd(h, R[i]); vh_outcome(h); }
    if (k > 1 || (!full && k)) continue;
    Mat A, B; SNESGetJacobian(s, &A, &B, NULL, NULL);
    if (SNESComputeJacobian(s, U, A, B)) { vh_fail("error", "Jacobian: %s", vh_errmsg); break; }
    vh_trans(1);
    for (int j = 0; j < m->nc; ++j) {
      double e[MAXC] = {0}, c[MAXC], a[MAXC], b[MAXC], h = 0.01, s2, mx = 0; e[j] = 1;
      put(t, N, U, e); VH_CHK(MatMult(B, U, F)); get(t, N, F, c);
      double p = P[j]; P[j] = p+h; rresidual(q, m, &g, P, P0, a, &s2); P[j] = p-h; rresidual(q, m, &g, P, P0, b, &s2); P[j] = p;
      for (int i = 0; i < m->nc; ++i) mx = fmax(mx, fabs(a[i]-b[i])/(2*h));
      for (int i = 0; i < m->nc; ++i) if (!(fabs(c[i]-(a[i]-b[i])/(2*h)) <= 1e-4*mx + 1e-12*sc/h)) vh_fail("jacobian", "state %d: derivative of cell %d by cell %d is %.9g, the reference is %.9g", k, i, j, c[i], (a[i]-b[i])/(2*h));
    }
  }
  if (vh_index % 97 == 0) vh_sample("%s: %d cells, %d vertices, %d faces", vh_name, m->nc, m->nv, g.nf);
  SNESDestroy(&s); VecDestroy(&U); VecDestroy(&F); VecDestroy(&N);
  VH_CHK(TDyDestroy(&t));
}
static int ncells(int kind, const int *n) { pmesh m; too_big = 0; build(&m, kind, n, 0); return too_big ? 1000 : m.nc; }
static const int Z[][3] = {{1,1,1},{2,1,1},{1,2,1},{1,1,2},{3,1,1},{2,2,1},{1,2,2},{2,1,2},{2,2,2},{3,2,1},{4,1,1},{1,1,4},{3,2,2},{3,3,1}};
#define NZ 14
static void ident(int *p, int n) { for (int i = 0; i < n; ++i) p[i] = i; }
static prob P0(int geom, int kk, int rho) { prob q; memset(&q, 0, sizeof q); q.geom = geom; q.kk = kk; q.rho = rho; q.disc = D_FVTPF; q.bc = B_NEU; q.dt = 3600; q.grav = 9.8068; q.perm_j = -1; return q; }
static int usable(int kind, int geom) { if (geom == G_KITE) return kind == T_HEX || kind == T_PYR || kind == T_TET || kind == T_HEXPYR; return geom != G_PERT && (geom != G_TAPER || kind == T_HEX || kind == T_HEXWEDGE || kind == T_WEDGE); }
/* all meshes, geometries and permeabilities */
static void g_mesh(void) {
  for (int kind = 0; kind < NT; ++kind) for (int z = 0; z < NZ; ++z) {
    if (ncells(kind, Z[z]) > (vh_size > 1 ? 24 : vh_thorough ? MAXC : 40)) continue;
    for (int geom = G_BOX; geom <= G_KITE; geom += geom == G_SHEAR ? 3 : 1) for (int kk = 0; kk < 4; ++kk) for (int rho = 0; rho < 2; ++rho) for (int tight = 0; tight < (vh_size > 1 ? 1 : 2); ++tight) {
      if (!usable(kind, geom)) continue;
      if (!vh_case("mesh %s %dx%dx%d %s K=%s rho=%s%s", TN[kind], Z[z][0], Z[z][1], Z[z][2], GP[geom], KN[kk], RN[rho], tight ? " tight" : "")) continue;
      pmesh m; build(&m, kind, Z[z], geom); prob q = P0(geom, kk, rho); q.n[0] = Z[z][0]; q.n[1] = Z[z][1]; q.n[2] = Z[z][2];
      for (int c = 0; c < m.nc; ++c) PART[c] = c*vh_size/m.nc;
      if (m.nc < vh_size) continue;
      pcase(&q, &m, tight, 1);
    }
  }
}
/* all ways of writing the cells down, and renumberings of the cells and vertices */
static void g_spell(void) {
  for (int kind = 0; kind < NT; ++kind) for (int z = 0; z < (vh_size > 1 ? 4 : 9); ++z) {
    pmesh b; if (ncells(kind, Z[z]) > 24) continue; build(&b, kind, Z[z], G_SHEAR); if (b.nc < 2 || b.nc > 24 || b.nc < vh_size) continue;
    prob q = P0(G_SHEAR, K_HDIAG, 1);
    for (int c = 0; c < b.nc; ++c) PART[c] = (c*5/3)%vh_size;
    static const int NR[4] = {12, 4, 6, 24};
    for (int c = 0; c < b.nc && c < 7; ++c) for (int r = 1; r < NR[ti(b.t[c])]; ++r) { if (!vh_case("spell %s %dx%dx%d cell %d as %d", TN[kind], Z[z][0], Z[z][1], Z[z][2], c, r)) continue; pmesh m = b; respell(&m, c, r); pcase(&q, &m, 0, 0); }
    for (int r = 1; r < 24; ++r) { if (!vh_case("spell %s %dx%dx%d all as %d", TN[kind], Z[z][0], Z[z][1], Z[z][2], r)) continue; pmesh m = b; for (int c = 0; c < m.nc; ++c) respell(&m, c, r+7*c); pcase(&q, &m, 0, 0); }
    int p[MV];
    for (int i = 0; i < b.nc; ++i) for (int j = i+1; j < b.nc; ++j) { if (b.nc > 8 && j > i+1 && (i || j < b.nc-1)) continue; if (!vh_case("swap %s %dx%dx%d cells %d %d", TN[kind], Z[z][0], Z[z][1], Z[z][2], i, j)) continue; pmesh m = b; ident(p, b.nc); p[i] = j; p[j] = i; perm_cells(&m, p); pcase(&q, &m, 0, 0); }
    if (vh_case("reverse %s %dx%dx%d cells", TN[kind], Z[z][0], Z[z][1], Z[z][2])) { pmesh m = b; for (int i = 0; i < b.nc; ++i) p[i] = b.nc-1-i; perm_cells(&m, p); pcase(&q, &m, 0, 0); }
    for (int i = 0; i < b.nv; ++i) for (int j = i+1; j < b.nv; ++j) { if ((b.nv > 12 || vh_size > 1) && i && j > i+1) continue; if (!vh_case("swap %s %dx%dx%d vertices %d %d", TN[kind], Z[z][0], Z[z][1], Z[z][2], i, j)) continue; pmesh m = b; ident(p, b.nv); p[i] = j; p[j] = i; perm_verts(&m, p); pcase(&q, &m, 0, 0); }
    if (vh_case("reverse %s %dx%dx%d vertices", TN[kind], Z[z][0], Z[z][1], Z[z][2])) { pmesh m = b; for (int i = 0; i < b.nv; ++i) p[i] = b.nv-1-i; perm_verts(&m, p); pcase(&q, &m, 0, 0); }
  }
}
/* every assignment of the cells to the processes */
static void g_part(void) {
  long lim = vh_thorough ? 1100 : vh_size == 2 ? 260 : 82;
  for (int kind = 0; kind < NT; ++kind) for (int z = 0; z < NZ; ++z) for (int geom = vh_thorough ? G_BOX : G_SHEAR; geom <= G_SHEAR; geom += 2) {
    pmesh m; if (ncells(kind, Z[z]) > 24) continue; build(&m, kind, Z[z], geom); long np = 1; for (int c = 0; c < m.nc && np <= lim; ++c) np *= vh_size;
    if (np > lim || m.nc < vh_size) continue;
    prob q = P0(geom, K_HDIAG, 1); char s[MAXC+1];
    for (long p = 0; p < np; ++p) {
      long w = p; int cnt[8] = {0}; for (int c = 0; c < m.nc; ++c) { PART[c] = w%vh_size; w /= vh_size; cnt[PART[c]]++; s[c] = '0'+PART[c]; } s[m.nc] = 0;
      int empty = 0; for (int r = 0; r < vh_size; ++r) empty |= !cnt[r];
      if (empty) continue;
      if (!vh_case("part %s %dx%dx%d %s %s", TN[kind], Z[z][0], Z[z][1], Z[z][2], GP[geom], s)) continue;
      pcase(&q, &m, 0, 0);
    }
  }
}
/* files that are not meshes are refused */
static void g_bad(void) {
  for (int kind = 0; kind < NT; ++kind) for (int z = 0; z < 6; ++z) {
    pmesh m; build(&m, kind, Z[z], G_BOX); prob q = P0(G_BOX, K_ISO, 1); int nbad = 0;
    if (m.nc > 12) continue;
    for (int c = 0; c < m.nc; ++c) PART[c] = 0;
    for (int what = 0; what < 8; ++what) for (int c = 0; c < m.nc; ++c) for (int a = 0; a < 8; ++a) {
      static const char *W[] = {"vertex beyond the last","negative vertex","vertex missing","wrong count","two coordinates","no cells","no vertices","no file"};
      static const int CNT[] = {0, 1, 2, 3, 7, 9, -1, 100};
      if (what >= 4 && (c || a)) continue;
      if (what < 3 && a >= m.t[c]) continue;
      if (!vh_case("bad %s %dx%dx%d %s cell %d entry %d", TN[kind], Z[z][0], Z[z][1], Z[z][2], W[what], c, a)) continue;
      double raw[9*MAXC]; for (int i = 0; i < m.nc; ++i) { raw[9*i] = m.t[i]; for (int k = 0; k < 8; ++k) raw[9*i+1+k] = k < m.t[i] ? m.v[i][k]+1 : 0; }
      if (what == 0) raw[9*c+1+a] = m.nv+1; else if (what == 1) raw[9*c+1+a] = -1; else if (what == 2) raw[9*c+1+a] = 0; else if (what == 3) raw[9*c] = CNT[a];
      if (writef(&m, 0, raw, 9, what == 4 ? 2 : 3, what == 5 ? 1 : what == 6 ? 2 : 0)) { vh_fail("error", "file: %s", vh_errmsg); continue; }
      if (what == 7) unlink(FN);
      vh_errmsg[0] = 0; TDy t = NULL; PetscErrorCode e = pf_create(&q, &t); vh_trans(1);
      vh_state(vh_hi(vh_hi(vh_hi(vh_hb(vh_h0(), &m, sizeof m), what), c), a)); vh_outcome(vh_hi(vh_h0(), e));
      if (!e) vh_fail("accepted", "the file is accepted"); else nbad++;
    }
  }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -mat_partitioning_type vh", 1);
  int ac = 1; char *av[2] = {argv[0], NULL}; int pid = getpid();
  MPI_Init(&argc, &argv); vh_parallel();
  MPI_Bcast(&pid, 1, MPI_INT, 0, MPI_COMM_WORLD); snprintf(FN, sizeof FN, "pf%d.h5", pid);
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  MatPartitioningRegister("vh", part_create);
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot(); gen_rh();
  if (vh_grp("mesh")) g_mesh(); else if (vh_grp("spell")) g_spell(); else if (vh_grp("part")) g_part(); else if (vh_grp("bad")) g_bad();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  if (!vh_rank) unlink(FN);
  if (vh_size > 1) { vh_finish(); return 0; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
