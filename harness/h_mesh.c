/* C11 connectivity and C12 geometry of the mesh the finite-volume methods build: every small mesh of a family of boxes,
   distorted boxes and extruded triangulations, compared with the topology it was built from and with formulas of its own. */
#include "flow.h"
#include <private/tdympfaoimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdymeshimpl.h>

#define MV 512
typedef struct { int wedge, base, layers; prob q; int perm, bn;  TDyMode mode; } mcase;
/* the mesh as made, before it is distributed: centroids of its cells in their order */
static int OC; static double OCEN[MV][3], OVOL; static int PLANAR;

static void cross(const double *a, const double *b, double *c) { c[0] = a[1]*b[2]-a[2]*b[1]; c[1] = a[2]*b[0]-a[0]*b[2]; c[2] = a[0]*b[1]-a[1]*b[0]; }
static double dot(const double *a, const double *b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static double nrm(const double *a) { return sqrt(dot(a,a)); }
static void sub(const double *a, const double *b, double *c) { for (int d = 0; d < 3; ++d) c[d] = a[d]-b[d]; }

/* ---- extruded triangulations: base points, triangles (counter-clockwise) */
typedef struct { int np, nt; double p[12][2]; int t[8][3]; } base_t;
static const base_t BASES[] = {
  {3, 1, {{0,0},{1,0},{0.2,1}}, {{0,1,2}}},
  {4, 2, {{0,0},{1,0},{1,1},{0,1}}, {{0,1,2},{0,2,3}}},
  {4, 2, {{0,0},{1.3,0.1},{1,1},{-0.1,0.8}}, {{0,1,3},{1,2,3}}},
  {5, 3, {{0,0},{1,0},{1.2,1},{0.1,0.9},{0.5,1.8}}, {{0,1,3},{1,2,3},{3,2,4}}},
  {5, 4, {{0,0},{1,0},{1,1},{0,1},{0.45,0.55}}, {{0,1,4},{1,2,4},{2,3,4},{3,0,4}}},
  {6, 4, {{0,0},{1,0},{2,0.2},{0,1},{1,1.1},{2,1}}, {{0,1,4},{0,4,3},{1,2,5},{1,5,4}}},
  {7, 6, {{0,0},{1,0},{0.5,0.9},{-0.5,0.9},{-1,0},{-0.5,-0.9},{0.5,-0.9}}, {{0,1,2},{0,2,3},{0,3,4},{0,4,5},{0,5,6},{0,6,1}}},
  {9, 8, {{0,0},{1,0},{2,0},{0,1},{1.1,0.9},{2,1},{0,2},{1,2},{2,2}}, {{0,1,4},{0,4,3},{1,2,4},{2,5,4},{3,4,6},{4,7,6},{4,5,8},{4,8,7}}},
};
#define NBASE ((int)(sizeof BASES/sizeof BASES[0]))
static void wedge_map(const prob *q, double x, double y, double z, double *o) {
  o[0] = x; o[1] = y; o[2] = z;
  if (q->geom == G_STRETCH) o[2] = z*(1+0.3*z);
  if (q->geom == G_SHEAR) { o[0] = x + 0.3*y; o[1] = y - 0.2*x; o[2] = z + 0.2*x - 0.1*y; }
  if (q->geom == G_TAPER) o[2] = z*(1 + 0.15*x - 0.07*y);
}
static PetscErrorCode make_wedges(MPI_Comm comm, const mcase *m, DM *dm) {
  const base_t *b = &BASES[m->base]; PetscMPIInt rank; MPI_Comm_rank(comm, &rank);
  PetscInt cells[6*64]; PetscReal co[3*128]; int nc = 0, nv = 0;
  if (!rank) {
    for (int l = 0; l <= m->layers; ++l) for (int i = 0; i < b->np; ++i) { double o[3]; wedge_map(&m->q, b->p[i][0], b->p[i][1], 0.7*l, o); for (int d = 0; d < 3; ++d) co[3*nv+d] = o[d]; nv++; }
    for (int l = 0; l < m->layers; ++l) for (int t = 0; t < b->nt; ++t) {
      const int *v = b->t[t]; int r = m->q.rot%3; int a = v[r], e = v[(r+1)%3], f = v[(r+2)%3], lo = l*b->np, hi = (l+1)*b->np;
      PetscInt c[6] = {lo+a, lo+f, lo+e, hi+a, hi+e, hi+f};
      memcpy(cells+6*nc, c, sizeof c); nc++;
    }
  }
  DM u; PetscInt cs, ce, p0, p1; PetscErrorCode ierr = DMPlexCreateFromCellListPetsc(comm, 3, nc, nv, 6, PETSC_FALSE, cells, 3, co, &u); if (ierr) return ierr;
  DMPlexGetChart(u, &p0, &p1); DMPlexGetHeightStratum(u, 0, &cs, &ce);
  DMLabel ctl; DMPlexGetCellTypeLabel(u, &ctl);
  for (PetscInt p = cs; p < ce; ++p) { DMPolytopeType t; DMPlexGetCellType(u, p, &t); DMLabelClearValue(ctl, p, t); DMPlexSetCellType(u, p, DM_POLYTOPE_TRI_PRISM); }
  ierr = DMPlexInterpolate(u, dm); if (ierr) return ierr;
  return DMDestroy(&u);
}
/* vertices of a mesh point, in the order of its closure; for a face this is cyclic */
static int point_verts(DM dm, PetscInt p, PetscInt *v) {
  PetscInt n, *cl = NULL, vs, ve; int k = 0;
  DMPlexGetDepthStratum(dm, 0, &vs, &ve);
  DMPlexGetTransitiveClosure(dm, p, PETSC_TRUE, &n, &cl);
  for (int i = 0; i < n; ++i) if (cl[2*i] >= vs && cl[2*i] < ve) v[k++] = cl[2*i]-vs;
  DMPlexRestoreTransitiveClosure(dm, p, PETSC_TRUE, &n, &cl);
  return k;
}
static int point_edges(DM dm, PetscInt p, PetscInt *v) {
  PetscInt n, *cl = NULL, vs, ve; int k = 0;
  DMPlexGetDepthStratum(dm, 1, &vs, &ve);
  DMPlexGetTransitiveClosure(dm, p, PETSC_TRUE, &n, &cl);
  for (int i = 0; i < n; ++i) if (cl[2*i] >= vs && cl[2*i] < ve) v[k++] = cl[2*i]-vs;
  DMPlexRestoreTransitiveClosure(dm, p, PETSC_TRUE, &n, &cl);
  return k;
}
/* the vertices of a face in cyclic order, from its edges alone */
static int face_cycle(DM dm, PetscInt f, PetscInt *v) {
  PetscInt n, vs, ve; const PetscInt *e; DMPlexGetConeSize(dm, f, &n); DMPlexGetCone(dm, f, &e); DMPlexGetDepthStratum(dm, 0, &vs, &ve);
  const PetscInt *c; int used[8] = {0}; DMPlexGetCone(dm, e[0], &c); v[0] = c[0]-vs; v[1] = c[1]-vs; used[0] = 1; int k = 2;
  while (k < n) {
    int ok = 0;
    for (int i = 1; i < n && !ok; ++i) if (!used[i]) { DMPlexGetCone(dm, e[i], &c); for (int s = 0; s < 2; ++s) if (c[s]-vs == v[k-1]) { v[k++] = c[1-s]-vs; used[i] = 1; ok = 1; break; } }
    if (!ok) return -1;
  }
  return n;
}
static int get_coords(DM dm, double *x) {
  Vec co; const PetscScalar *a; PetscInt n; DMGetCoordinatesLocal(dm, &co); VecGetLocalSize(co, &n); VecGetArrayRead(co, &a);
  PetscSection s; PetscInt vs, ve; DMGetCoordinateSection(dm, &s); DMPlexGetDepthStratum(dm, 0, &vs, &ve);
  for (PetscInt v = vs; v < ve; ++v) { PetscInt o; PetscSectionGetOffset(s, v, &o); for (int d = 0; d < 3; ++d) x[3*(v-vs)+d] = a[o+d]; }
  VecRestoreArrayRead(co, &a);
  return ve-vs;
}
/* reference geometry */
static void face_geo(DM dm, PetscInt f, const double *x, double *avec, double *area, double *cen, double *warp) {
  PetscInt v[8]; int n = face_cycle(dm, f, v); double c[3] = {0,0,0};
  for (int i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) c[d] += x[3*v[i]+d]/n;
  double s[3] = {0,0,0}; for (int d = 0; d < 3; ++d) { avec[d] = 0; cen[d] = 0; } *area = 0;
  for (int i = 0; i < n; ++i) {
    double a[3], b[3], cr[3]; sub(x+3*v[i], c, a); sub(x+3*v[(i+1)%n], c, b); cross(a, b, cr);
    double w = 0.5*nrm(cr); *area += w;
    for (int d = 0; d < 3; ++d) { avec[d] += 0.5*cr[d]; s[d] += w*(c[d] + x[3*v[i]+d] + x[3*v[(i+1)%n]+d])/3; }
  }
  for (int d = 0; d < 3; ++d) cen[d] = s[d]/ *area;
  *warp = 0;
  if (n == 4) { double a[3], b[3], e[3], cr[3]; sub(x+3*v[1], x+3*v[0], a); sub(x+3*v[2], x+3*v[0], b); sub(x+3*v[3], x+3*v[0], e); cross(a, b, cr); *warp = fabs(dot(cr, e))/6; }
}
static void cell_geo(DM dm, PetscInt c, const double *x, double *vol, double *cen, double *warp) {
  const PetscInt *f; PetscInt nf; PetscInt v[32]; int nv = point_verts(dm, c, v); double g[3] = {0,0,0};
  for (int i = 0; i < nv; ++i) for (int d = 0; d < 3; ++d) g[d] += x[3*v[i]+d]/nv;
  DMPlexGetConeSize(dm, c, &nf); DMPlexGetCone(dm, c, &f);
  *vol = 0; *warp = 0; double s[3] = {0,0,0};
  for (int i = 0; i < nf; ++i) {
    double av[3], ar, fc[3], w; face_geo(dm, f[i], x, av, &ar, fc, &w); *warp += w;
    double r[3]; sub(fc, g, r); double h = dot(r, av), V = 0;   /* pyramid over the face, from tetrahedra (g, face centre, edge) */
    PetscInt u[8]; int n = face_cycle(dm, f[i], u); double fm[3] = {0,0,0};
    for (int k = 0; k < n; ++k) for (int d = 0; d < 3; ++d) fm[d] += x[3*u[k]+d]/n;
    double t[3] = {0,0,0};
    for (int k = 0; k < n; ++k) {
      double a[3], b[3], e[3], cr[3]; sub(fm, g, a); sub(x+3*u[k], g, b); sub(x+3*u[(k+1)%n], g, e); cross(a, b, cr);
      double tv = dot(cr, e)/6 * (h < 0 ? -1 : 1); V += tv; for (int d = 0; d < 3; ++d) t[d] += tv*(g[d]+fm[d]+x[3*u[k]+d]+x[3*u[(k+1)%n]+d])/4;
    }
    *vol += V; for (int d = 0; d < 3; ++d) s[d] += t[d];
  }
  for (int d = 0; d < 3; ++d) cen[d] = s[d]/ *vol;
}
static PetscErrorCode make_mesh(MPI_Comm comm, void *ctx, DM *dm) {
  mcase *m = (mcase*)ctx; PetscErrorCode ierr;
  if (m->wedge) ierr = make_wedges(comm, m, dm); else ierr = make_dm(comm, &m->q, dm);
  if (ierr) return ierr;
  if (m->perm) { ierr = permute_points(dm, m->perm, 0, -1); if (ierr) return ierr; }
  /* what was made, for everyone */
  PetscInt cs, ce; DMPlexGetHeightStratum(*dm, 0, &cs, &ce);
  static double x[3*MV]; get_coords(*dm, x);
  OC = ce-cs; OVOL = 0;
  for (int c = cs; c < ce; ++c) { double v, w; cell_geo(*dm, c, x, &v, OCEN[c-cs], &w); OVOL += v; }
  MPI_Bcast(&OC, 1, MPI_INT, 0, comm); MPI_Bcast(OCEN, 3*MV, MPI_DOUBLE, 0, comm); MPI_Bcast(&OVOL, 1, MPI_DOUBLE, 0, comm);
  return 0;
}
typedef struct { TDy tdy; DM dm; TDyMesh *mesh; } built;
static PetscErrorCode build(mcase *m, int disc, built *b) {
  PetscErrorCode ierr; memset(b, 0, sizeof *b); CUR = &m->q;
  ierr = TDyCreate(PETSC_COMM_WORLD, &b->tdy); if (ierr) return ierr;
  ierr = TDySetMode(b->tdy, m->mode); if (ierr) return ierr;
  ierr = TDySetDiscretization(b->tdy, disc); if (ierr) return ierr;
  ierr = TDySetDMConstructor(b->tdy, m, make_mesh); if (ierr) return ierr;
  ierr = TDySetFromOptions(b->tdy); if (ierr) return ierr;
  ierr = TDySetConstantIsotropicPermeability(b->tdy, 1e-12); if (ierr) return ierr;
  ierr = TDySetConstantPorosity(b->tdy, 0.3); if (ierr) return ierr;
  if (m->mode == TH) {
    if ((ierr = TDySetConstantIsotropicThermalConductivity(b->tdy, 1)) || (ierr = TDySetConstantSoilDensity(b->tdy, 2650)) || (ierr = TDySetConstantSoilSpecificHeat(b->tdy, 1000))) return ierr;
  } else if (m->mode == SALINITY) {
    if ((ierr = TDySetConstantIsotropicSalineDiffusivity(b->tdy, 1e-6)) || (ierr = TDySetConstantSalineMolecularWeight(b->tdy, 58.44))) return ierr;
  }
  ierr = TDySetup(b->tdy); if (ierr) return ierr;
  ierr = TDyGetDM(b->tdy, &b->dm); if (ierr) return ierr;
  b->mesh = disc == FV_TPF ? ((TDyFVTPF*)b->tdy->context)->mesh : ((TDyMPFAO*)b->tdy->context)->mesh;
  return 0;
}
#define MIN(a,b) ((a) < (b) ? (a) : (b))
static int cmpi(const void *a, const void *b) { return *(const PetscInt*)a - *(const PetscInt*)b; }
static int same_set(int n, const PetscInt *a, int m, const PetscInt *b) {
  PetscInt x[256], y[256]; if (n != m || n > 256) return 0;
  memcpy(x, a, n*sizeof *a); memcpy(y, b, n*sizeof *b); qsort(x, n, sizeof *x, cmpi); qsort(y, n, sizeof *y, cmpi);
  return !memcmp(x, y, n*sizeof *x);
}
#define G(e) do { PetscErrorCode e_ = (e); if (e_) { vh_fail("error", "%s returned %d (%s)", #e, e_, vh_errmsg); return; } } while (0)
#define BAD(kind, ...) do { vh_fail(kind, __VA_ARGS__); } while (0)

static void topo(built *b, mcase *m) {
  TDyMesh *M = b->mesh; DM dm = b->dm;
  PetscInt cs, ce, fs, fe, es, ee, vs, ve;
  DMPlexGetHeightStratum(dm, 0, &cs, &ce); DMPlexGetHeightStratum(dm, 1, &fs, &fe); DMPlexGetDepthStratum(dm, 1, &es, &ee); DMPlexGetDepthStratum(dm, 0, &vs, &ve);
  PetscInt nc = ce-cs, nf = fe-fs, ne = ee-es, nv = ve-vs;
  if (M->num_cells != nc || M->num_faces != nf || M->num_edges != ne || M->num_vertices != nv)
    { BAD("counts", "%d cells %d faces %d edges %d vertices, the topology has %d %d %d %d", M->num_cells, M->num_faces, M->num_edges, M->num_vertices, nc, nf, ne, nv); return; }
  vh_state(vh_hi(vh_hi(vh_hi(vh_hb(vh_h0(), m, sizeof *m), nc), nf), nv));
  PetscInt owned = 0;
  /* cells */
  PetscInt nl, *islocal = (PetscInt*)malloc(sizeof(PetscInt)*(nc+1)), *nat = (PetscInt*)malloc(sizeof(PetscInt)*(nc+1));
  G(TDyMeshGetCellIsLocal(M, &nl, islocal)); if (nl != nc) BAD("locality", "locality of %d cells of %d", nl, nc);
  for (PetscInt c = 0; c < nc; ++c) {
    PetscInt *v, *f, *e, n, k, w[64];
    G(TDyMeshGetCellVertices(M, c, &v, &n)); k = point_verts(dm, cs+c, w);
    if (!same_set(n, v, k, w)) BAD("cell-vertices", "cell %d has %d vertices, the topology %d, or others", c, n, k);
    G(TDyMeshGetCellNumVertices(M, c, &n)); if (n != k) BAD("cell-vertices", "cell %d: number of vertices %d", c, n);
    G(TDyMeshGetCellEdges(M, c, &e, &n)); k = point_edges(dm, cs+c, w);
    if (!same_set(n, e, k, w)) BAD("cell-edges", "cell %d has %d edges, the topology %d, or others", c, n, k);
    const PetscInt *cone; DMPlexGetConeSize(dm, cs+c, &k); DMPlexGetCone(dm, cs+c, &cone); for (int i = 0; i < k; ++i) w[i] = cone[i]-fs;
    G(TDyMeshGetCellFaces(M, c, &f, &n)); if (!same_set(n, f, k, w)) BAD("cell-faces", "cell %d has %d faces, the topology %d, or others", c, n, k);
    G(TDyMeshGetCellNumFaces(M, c, &n)); if (n != k) BAD("cell-faces", "cell %d: number of faces %d", c, n);
    PetscInt g0, g1; DMPlexGetPointGlobal(dm, cs+c, &g0, &g1);
    if ((g0 >= 0) != (islocal[c] != 0)) BAD("cell-local", "cell %d is %s", c, g0 >= 0 ? "owned, marked remote" : "remote, marked owned");
    if (M->cells.global_id[c] != (g0 >= 0 ? g0 : -g0-1)) BAD("cell-global", "cell %d has the global number %d, not %d", c, M->cells.global_id[c], g0);
    owned += g0 >= 0; vh_trans(4);
  }
  PetscInt nloc; G(TDyMeshGetNumLocalCells(M, &nloc)); if (nloc != owned) BAD("cell-local", "%d local cells, %d owned", nloc, owned);
  int tot = owned, sum; MPI_Allreduce(&tot, &sum, 1, MPI_INT, MPI_SUM, PETSC_COMM_WORLD);
  if (sum != OC) BAD("cell-local", "%d cells owned in all, the mesh has %d", sum, OC);
  /* natural numbers: the order in which the mesh was made */
  PetscBool un; DMGetUseNatural(dm, &un);
  if (un) {
    G(TDyMeshGetLocalCellNaturalIDs(M, &nl, nat));
    if (nl != nc) BAD("natural", "%d natural numbers for %d cells", nl, nc);
    static double x[3*MV]; get_coords(dm, x);
    for (PetscInt c = 0; c < nc; ++c) {
      double V, cen[3], w, d[3]; cell_geo(dm, cs+c, x, &V, cen, &w);
      if (nat[c] < 0 || nat[c] >= OC) { BAD("natural", "cell %d has natural number %d", c, nat[c]); continue; }
      sub(cen, OCEN[nat[c]], d); if (nrm(d) > 1e-10) BAD("natural", "cell %d at %g %g %g has natural number %d, which is at %g %g %g", c, cen[0], cen[1], cen[2], nat[c], OCEN[nat[c]][0], OCEN[nat[c]][1], OCEN[nat[c]][2]);
    }
  }
  free(islocal); free(nat);
  /* faces */
  PetscInt nb = 0; char *seen = (char*)calloc(nf+2, 1);
  for (PetscInt f = 0; f < nf; ++f) {
    PetscInt *v, *cc, n, k, w[16], ss; const PetscInt *sup; DMPlexGetSupportSize(dm, fs+f, &ss); DMPlexGetSupport(dm, fs+f, &sup);
    G(TDyMeshGetFaceVertices(M, f, &v, &n)); k = face_cycle(dm, fs+f, w);
    if (!same_set(n, v, k, w)) BAD("face-vertices", "face %d has %d vertices, the topology %d, or others", f, n, k);
    else { /* cyclic order */
      int at = 0; while (w[at] != v[0]) at++;
      int fw = 1, bw = 1; for (int i = 0; i < n; ++i) { if (v[i] != w[(at+i)%n]) fw = 0; if (v[i] != w[(at-i+n)%n]) bw = 0; }
      if (!fw && !bw) BAD("face-order", "the vertices of face %d are not listed around it", f);
    }
    G(TDyMeshGetFaceNumVertices(M, f, &n)); if (n != k) BAD("face-vertices", "face %d: number of vertices %d", f, n);
    n = M->faces.num_cells[f]; if (n != ss) BAD("face-cells", "face %d: %d cells, the topology has %d", f, n, ss);
    G(TDyMeshGetFaceCells(M, f, &cc, &n)); 
    if (!!M->faces.is_internal[f] != (ss == 2)) BAD("face-boundary", "face %d with %d cells is %s", f, ss, M->faces.is_internal[f] ? "internal" : "on the boundary");
    int loc = 0; for (int i = 0; i < ss; ++i) { PetscInt g0, g1; DMPlexGetPointGlobal(dm, sup[i], &g0, &g1); loc |= g0 >= 0; }
    if (!!M->faces.is_local[f] != loc) BAD("face-local", "face %d is %s", f, loc ? "next to an owned cell, marked remote" : "not next to an owned cell, marked local");
    if (ss == 2) { PetscInt s2[2] = {sup[0]-cs, sup[1]-cs}; if (!same_set(2, cc, 2, s2)) BAD("face-cells", "face %d lies between cells %d %d, not %d %d", f, cc[0], cc[1], s2[0], s2[1]); }
    else {
      nb++;
      int in = cc[0] >= 0 ? 0 : 1;
      if (cc[in] != sup[0]-cs || cc[1-in] >= 0) BAD("face-cells", "boundary face %d has cells %d %d, the topology %d", f, cc[0], cc[1], sup[0]-cs);
      else { int k2 = -cc[1-in]; if (k2 < 1 || k2 > nf || seen[k2]) BAD("face-boundary", "boundary face %d has the boundary number %d, out of range or taken", f, cc[1-in]); else seen[k2] = 1; }
      if (in != 1) BAD("face-boundary", "the inside cell of boundary face %d is listed first", f);
    }
    vh_trans(3);
  }
  for (PetscInt i = 1; i <= nb; ++i) if (!seen[i]) BAD("face-boundary", "no boundary face has the number %d", -i);
  if (M->num_boundary_faces != nb) BAD("counts", "%d boundary faces, the topology has %d", M->num_boundary_faces, nb);
  free(seen);
  /* vertices and subcells */
  PetscInt maxc = 0, maxf = 0;
  for (PetscInt v = 0; v < nv; ++v) {
    PetscInt n, *star = NULL, C[64], F[64], B[64], nC = 0, nF = 0, nB = 0, *a, k, *s; int loc = 0;
    DMPlexGetTransitiveClosure(dm, vs+v, PETSC_FALSE, &n, &star);
    for (int i = 0; i < n; ++i) {
      PetscInt p = star[2*i];
      if (p >= cs && p < ce) { PetscInt g0, g1; C[nC++] = p-cs; DMPlexGetPointGlobal(dm, p, &g0, &g1); loc |= g0 >= 0; }
      if (p >= fs && p < fe) { PetscInt ss; F[nF++] = p-fs; DMPlexGetSupportSize(dm, p, &ss); if (ss == 1) B[nB++] = p-fs; }
    }
    DMPlexRestoreTransitiveClosure(dm, vs+v, PETSC_FALSE, &n, &star);
    if (nC > maxc) maxc = nC; if (nF > maxf) maxf = nF;
    G(TDyMeshGetVertexInternalCells(M, v, &a, &k)); if (!same_set(k, a, nC, C)) BAD("vertex-cells", "vertex %d has %d cells, the topology %d, or others", v, k, nC);
    G(TDyMeshGetVertexNumInternalCells(M, v, &k)); if (k != nC) BAD("vertex-cells", "vertex %d: number of cells %d", v, k);
    G(TDyMeshGetVertexFaces(M, v, &a, &k)); if (!same_set(k, a, nF, F)) BAD("vertex-faces", "vertex %d has %d faces, the topology %d, or others", v, k, nF);
    PetscInt *fa = a, nfa = k;
    G(TDyMeshGetVertexNumFaces(M, v, &k)); if (k != nF) BAD("vertex-faces", "vertex %d: number of faces %d", v, k);
    G(TDyMeshGetVertexSubfaces(M, v, &s, &k)); if (k != nfa) BAD("vertex-subfaces", "vertex %d: %d subfaces for %d faces", v, k, nfa);
    else if (loc) for (int i = 0; i < k; ++i) { PetscInt *fv, n2; G(TDyMeshGetFaceVertices(M, fa[i], &fv, &n2)); if (s[i] < 0 || s[i] >= n2 || fv[s[i]] != v) BAD("vertex-subfaces", "vertex %d is not vertex %d of its face %d", v, s[i], fa[i]); }
    G(TDyMeshGetVertexBoundaryFaces(M, v, &a, &k)); if (!same_set(k, a, nB, B)) BAD("vertex-boundary", "vertex %d has %d boundary faces, the topology %d, or others", v, k, nB);
    G(TDyMeshGetVertexNumBoundaryFaces(M, v, &k)); if (k != nB) BAD("vertex-boundary", "vertex %d: number of boundary faces %d", v, k);
    if (!!M->vertices.is_local[v] != loc) BAD("vertex-local", "vertex %d is %s", v, loc ? "next to an owned cell, marked remote" : "not next to an owned cell, marked local");
    /* the subcells around the vertex */
    G(TDyMeshGetVertexInternalCells(M, v, &a, &k));
    PetscInt unk[64], up[64][2], nsub[64]; for (int i = 0; i < nF; ++i) { unk[i] = -1; nsub[i] = 0; }
    PetscInt *sub_i = M->vertices.subcell_ids + M->vertices.subcell_offset[v], nsubs; G(TDyMeshGetVertexNumSubcells(M, v, &nsubs)); if (nsubs != nC) BAD("vertex-subcells", "vertex %d: %d subcells for %d cells", v, nsubs, nC);
    for (int i = 0; i < k; ++i) {
      PetscInt *cv, nn; G(TDyMeshGetCellVertices(M, a[i], &cv, &nn));
      if (sub_i[i] < 0 || sub_i[i] >= nn || cv[sub_i[i]] != v) { BAD("vertex-subcells", "vertex %d is not vertex %d of its cell %d", v, sub_i[i], a[i]); continue; }
      PetscInt sid; G(TDyFindSubcellOfACellThatIncludesAVertex(&M->cells, a[i], &M->vertices, v, &M->subcells, &sid));
      PetscInt *sf, ns, *sv, *su, *un, n3; G(TDyMeshGetSubcellFaces(M, sid, &sf, &ns)); G(TDyMeshGetSubcellVertices(M, sid, &sv, &n3)); G(TDyMeshGetSubcellIsFaceUp(M, sid, &su, &n3)); G(TDyMeshGetSubcellFaceUnknownIdxs(M, sid, &un, &n3));
      if (ns != 3) { BAD("subcell-faces", "subcell of cell %d at vertex %d has %d faces", a[i], v, ns); continue; }
      /* exactly the faces of this cell at this vertex */
      PetscInt w[16], nw = 0, *cf, ncf; G(TDyMeshGetCellFaces(M, a[i], &cf, &ncf));
      for (int j = 0; j < ncf; ++j) for (int l = 0; l < nF; ++l) if (F[l] == cf[j]) w[nw++] = cf[j];
      if (!same_set(3, sf, nw, w)) { BAD("subcell-faces", "the subcell of cell %d at vertex %d has faces %d %d %d, other than the cell's faces there", a[i], v, sf[0], sf[1], sf[2]); continue; }
      for (int j = 0; j < 3; ++j) {
        if (sv[j] != v) BAD("subcell-vertex", "the subcell of cell %d at vertex %d has vertex %d", a[i], v, sv[j]);
        int l = 0; while (F[l] != sf[j]) l++;
        if (nC > 1 && loc) {
          if (nsub[l] < 2) up[l][nsub[l]] = su[j];
          nsub[l]++;
          if (un[j] < 0 || un[j] >= nF) BAD("subcell-unknown", "face %d at vertex %d has unknown %d of %d", sf[j], v, un[j], nF);
          else if (unk[l] >= 0 && unk[l] != un[j]) BAD("subcell-unknown", "face %d at vertex %d has unknown %d seen from one side and %d from the other", sf[j], v, unk[l], un[j]);
          unk[l] = un[j];
        }
      }
      vh_trans(1);
    }
    if (nC > 1 && loc) for (int l = 0; l < nF; ++l) {
      for (int o = 0; o < l; ++o) if (unk[o] == unk[l]) BAD("subcell-unknown", "faces %d and %d at vertex %d share the unknown %d", F[o], F[l], v, unk[l]);
      if (nsub[l] == 2 && up[l][0] == up[l][1]) BAD("subcell-up", "face %d at vertex %d is upstream of both its subcells or of none", F[l], v);
    }
  }
  G(TDyMeshGetMaxVertexConnectivity(M, &nl, &nloc)); if (nl < maxc || nloc < maxf) BAD("counts", "most cells and faces at a vertex: %d %d, the topology has %d %d", nl, nloc, maxc, maxf);
  /* edges */
  for (PetscInt e = 0; e < ne; ++e) {
    const PetscInt *c; DMPlexGetCone(dm, es+e, &c); PetscInt w[2] = {c[0]-vs, c[1]-vs};
    if (!same_set(2, M->edges.vertex_ids+2*e, 2, w)) BAD("edge-vertices", "edge %d joins vertices %d %d, not %d %d", e, M->edges.vertex_ids[2*e], M->edges.vertex_ids[2*e+1], w[0], w[1]);
  }
  vh_outcome(vh_hi(vh_hi(vh_hi(vh_hi(vh_h0(), nc), nf), nv), nb));
}
static void geom(built *b, mcase *m) {
  TDyMesh *M = b->mesh; DM dm = b->dm; static double x[3*MV]; get_coords(dm, x);
  PetscInt cs, ce, fs, fe, es, ee, vs, ve;
  DMPlexGetHeightStratum(dm, 0, &cs, &ce); DMPlexGetHeightStratum(dm, 1, &fs, &fe); DMPlexGetDepthStratum(dm, 1, &es, &ee); DMPlexGetDepthStratum(dm, 0, &vs, &ve);
  double own = 0, tw = 0; const double eps = 1e-11;
  if (M->num_cells > MV || M->num_faces > MV*4) return;
  for (PetscInt v = 0; v < ve-vs; ++v) for (int d = 0; d < 3; ++d) if (M->vertices.coordinate[v].X[d] != x[3*v+d]) { BAD("vertex", "vertex %d is at %g in direction %d, not %g", v, M->vertices.coordinate[v].X[d], d, x[3*v+d]); break; }
  for (PetscInt e = 0; e < ee-es; ++e) {
    const PetscInt *c; DMPlexGetCone(dm, es+e, &c); double *a = x+3*(c[0]-vs), *q = x+3*(c[1]-vs), l[3]; sub(a, q, l);
    if (fabs(M->edges.length[e]-nrm(l)) > eps) BAD("edge", "edge %d has length %g, not %g", e, M->edges.length[e], nrm(l));
    for (int d = 0; d < 3; ++d) if (fabs(M->edges.centroid[e].X[d]-(a[d]+q[d])/2) > eps) { BAD("edge", "the midpoint of edge %d", e); break; }
  }
  static double vol[MV], cen[MV][3], mc[MV][3], wr[MV];
  for (PetscInt c = 0; c < ce-cs; ++c) {
    cell_geo(dm, cs+c, x, &vol[c], cen[c], &wr[c]);
    PetscReal V; TDyCoordinate X; G(TDyMeshGetCellVolume(M, c, &V)); G(TDyMeshGetCellCentroid(M, c, &X));
    double size = cbrt(vol[c]);
    if (!(V > 0)) BAD("volume", "cell %d has volume %g", c, V);
    if (fabs(V-vol[c]) > eps*vol[c] + 0.5001*wr[c]) BAD("volume", "cell %d has volume %.12g, not %.12g (faces warped by %g)", c, V, vol[c], wr[c]);
    double d[3]; memcpy(mc[c], X.X, sizeof d); sub(X.X, cen[c], d); if (nrm(d) > eps*size + 4*size*wr[c]/vol[c]) BAD("centroid", "the centroid of cell %d is %g %g %g, not %g %g %g", c, X.X[0], X.X[1], X.X[2], cen[c][0], cen[c][1], cen[c][2]);
    if (M->cells.is_local[c]) { own += V; tw += wr[c]; }
    vh_trans(1); vh_outcome(vh_hd(vh_h0(), V));
  }
  double sv = own, sw; MPI_Allreduce(&own, &sv, 1, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD); MPI_Allreduce(&tw, &sw, 1, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
  if (fabs(sv-OVOL) > 1e-10*OVOL + 0.5001*sw) BAD("volume", "the cells add up to the volume %.12g, the domain has %.12g", sv, OVOL);
  vh_state(vh_hb(vh_hb(vh_h0(), m, sizeof *m), &sv, sizeof sv));
  for (PetscInt f = 0; f < fe-fs; ++f) {
    double av[3], ar, fc[3], w; face_geo(dm, fs+f, x, av, &ar, fc, &w); double an = nrm(av); int planar = w < 1e-13;
    TDyVector N; TDyCoordinate X; PetscReal A; PetscInt *cc, n; G(TDyMeshGetFaceNormal(M, f, &N)); G(TDyMeshGetFaceCentroid(M, f, &X)); G(TDyMeshGetFaceArea(M, f, &A)); G(TDyMeshGetFaceCells(M, f, &cc, &n));
    double tolw = planar ? 0 : 3*w/(an*sqrt(an));    /* relative; a warped face has no exact normal, area or centre */
    if (fabs(nrm(N.V)-1) > eps) BAD("normal", "the normal of face %d has length %g", f, nrm(N.V));
    double cr[3]; cross(N.V, av, cr); if (nrm(cr) > an*(eps + tolw)) BAD("normal", "the normal of face %d (%g %g %g) is not orthogonal to it", f, N.V[0], N.V[1], N.V[2]);
    if (fabs(A-ar) > ar*(eps + tolw)) BAD("area", "face %d has area %.12g, not %.12g", f, A, ar);
    double d[3]; sub(X.X, fc, d); if (nrm(d) > sqrt(an)*(eps + tolw)) BAD("face-centroid", "the centroid of face %d is %g %g %g, not %g %g %g", f, X.X[0], X.X[1], X.X[2], fc[0], fc[1], fc[2]);
    /* orientation: from the first to the second */
    double *from = cc[0] >= 0 ? mc[cc[0]] : fc, *to = cc[1] >= 0 ? mc[cc[1]] : fc; sub(to, from, d);
    if (dot(d, N.V) <= 0) BAD("orientation", "the normal of face %d points from cell %d to cell %d", f, cc[1], cc[0]);
    /* distances of the cells to the face, along the line that joins them */
    double up = M->faces.dist_up_dn[f][0], dn = M->faces.dist_up_dn[f][1], *u = M->faces.unit_vec_up_dn[f];
    if (planar) {
      double nn[3] = {av[0]/an, av[1]/an, av[2]/an}, eu, ed, ew[3];
      if (cc[0] >= 0 && cc[1] >= 0) {
        double a[3], L = nrm(d); sub(fc, from, a); double t = dot(a, nn)/dot(d, nn); eu = t*L; ed = (1-t)*L; for (int k = 0; k < 3; ++k) ew[k] = d[k]/L;
      } else { double a[3]; sub(to, fc, a); eu = 0; ed = fabs(dot(a, nn)); for (int k = 0; k < 3; ++k) ew[k] = N.V[k]; }
      if (fabs(up-eu) > 1e-9 || fabs(dn-ed) > 1e-9) BAD("distance", "face %d is %.10g and %.10g from its cells, not %.10g and %.10g", f, up, dn, eu, ed);
      double e3[3]; sub(u, ew, e3); if (nrm(e3) > 1e-9) BAD("direction", "the direction across face %d is %g %g %g, not %g %g %g", f, u[0], u[1], u[2], ew[0], ew[1], ew[2]);
      if (fabs(M->faces.dist_wt_up[f] - eu/(eu+ed)) > 1e-9) BAD("distance", "the weight at face %d is %.10g, not %.10g", f, M->faces.dist_wt_up[f], eu/(eu+ed));
      if (fabs(M->faces.projected_area[f] - ar*dot(ew, N.V)) > 1e-9*ar) BAD("projected-area", "the projected area of face %d is %.10g, not %.10g", f, M->faces.projected_area[f], ar*dot(ew, N.V));
    }
    vh_trans(1); vh_outcome(vh_hd(vh_hd(vh_h0(), A), up));
  }
  /* the faces of a cell close, and its subcells divide them */
  for (PetscInt c = 0; c < ce-cs; ++c) {
    PetscInt *fa, nfa; double s[3] = {0,0,0}, big = 0; G(TDyMeshGetCellFaces(M, c, &fa, &nfa)); int planar = wr[c] < 1e-13;
    for (int i = 0; i < nfa; ++i) {
      TDyVector N; PetscReal A; PetscInt *cc, n; G(TDyMeshGetFaceNormal(M, fa[i], &N)); G(TDyMeshGetFaceArea(M, fa[i], &A)); G(TDyMeshGetFaceCells(M, fa[i], &cc, &n));
      double o = cc[0] == c ? 1 : -1; for (int d = 0; d < 3; ++d) s[d] += o*A*N.V[d]; big = fmax(big, A);
    }
    if (planar && nrm(s) > 1e-10*big) BAD("closed", "the area vectors of cell %d add up to %g %g %g", c, s[0], s[1], s[2]);
    PetscInt *cv, nv; G(TDyMeshGetCellVertices(M, c, &cv, &nv)); double fsum[16] = {0}, tsum = 0; TDyCoordinate X; G(TDyMeshGetCellCentroid(M, c, &X));
    for (int i = 0; i < nv; ++i) {
      PetscInt sid, *sf, ns, k; PetscReal *sa; TDyVector *nu; TDyCoordinate *scen;
      G(TDyFindSubcellOfACellThatIncludesAVertex(&M->cells, c, &M->vertices, cv[i], &M->subcells, &sid));
      G(TDyMeshGetSubcellFaces(M, sid, &sf, &ns)); G(TDyMeshGetSubcellFaceAreas(M, sid, &sa, &k)); G(TDyMeshGetSubcellNuVectors(M, sid, &nu, &k)); G(TDyMeshGetSubcellFaceCentroids(M, sid, &scen, &k));
      double a[3][3], cr[3];
      for (int j = 0; j < 3; ++j) {
        TDyCoordinate F; G(TDyMeshGetFaceCentroid(M, sf[j], &F)); sub(F.X, X.X, a[j]);
        for (int l = 0; l < nfa; ++l) if (fa[l] == sf[j]) fsum[l] += sa[j];
      }
      cross(a[1], a[2], cr); double T = dot(a[0], cr);
      if (!(M->subcells.T[sid] > 0) || fabs(M->subcells.T[sid]-fabs(T)) > 1e-10*fabs(T)) BAD("subcell-volume", "the subcell of cell %d at vertex %d has T=%.12g, not %.12g", c, cv[i], M->subcells.T[sid], fabs(T));
      tsum += M->subcells.T[sid];
      /* the nu vectors are dual to the lines from the cell to its faces: nu_i . a_j is T (or -T for all) where i = j, else 0 */
      double sg = dot(nu[0].V, a[0]) < 0 ? -1 : 1;
      for (int j = 0; j < 3; ++j) for (int l = 0; l < 3; ++l) {
        double e = dot(nu[j].V, a[l]), want = j == l ? sg*M->subcells.T[sid] : 0;
        if (fabs(e - want) > 1e-10*fabs(T)) { BAD("nu", "nu vector %d of the subcell of cell %d at vertex %d: %.10g along face %d, not %.10g", j, c, cv[i], e, l, want); break; }
      }
      /* the facet of the subcell on each of its faces: between the vertex, the face's centre and the middles of its edges */
      for (int j = 0; j < 3; ++j) {
        TDyCoordinate F; G(TDyMeshGetFaceCentroid(M, sf[j], &F)); PetscInt w[8]; int n = face_cycle(dm, fs+sf[j], w), at = 0; while (w[at] != cv[i]) at++;
        double *p0 = x+3*cv[i], *p1 = x+3*w[(at+1)%n], *p2 = x+3*w[(at+n-1)%n], e[3];
        for (int d = 0; d < 3; ++d) e[d] = (p0[d] + (p0[d]+p1[d])/2 + (p0[d]+p2[d])/2 + F.X[d])/4 - scen[j].X[d];
        if (nrm(e) > 1e-10) BAD("subcell-face-centroid", "facet %d of the subcell of cell %d at vertex %d has its centre at %g %g %g", j, c, cv[i], scen[j].X[0], scen[j].X[1], scen[j].X[2]);
      }
      vh_trans(1);
    }
    for (int l = 0; l < nfa; ++l) { PetscReal A; G(TDyMeshGetFaceArea(M, fa[l], &A)); if (fabs(fsum[l]-A) > 1e-10*A) BAD("subcell-area", "the facets of cell %d on face %d add up to %.12g, the face has %.12g", c, fa[l], fsum[l], A); }
    if (!m->wedge && m->q.geom <= G_SHEAR && fabs(tsum - vol[c]) > 1e-10*vol[c]) BAD("subcell-volume", "the subcells of the parallelepiped %d add up to %.12g, its volume is %.12g", c, tsum, vol[c]);
  }
}
static const char *PN[] = {"","cells-reversed","faces-reversed","vertices-reversed","edges-reversed"};
static const char *DISCN[] = {"mpfao","fvtpf"}; static const int DISCS[] = {MPFA_O, FV_TPF};
static int T;
static void one(mcase *m, int di) {
  built b; if (build(m, DISCS[di], &b)) { vh_fail("error", "%s", vh_errmsg); if (b.tdy) TDyDestroy(&b.tdy); return; }
  if (T) topo(&b, m); else geom(&b, m);
  if (vh_index % 37 == 0) vh_sample("%s: %d cells, volume %g", vh_name, OC, OVOL);
  VH_CHK(TDyDestroy(&b.tdy));
}
static void grp(void) {
  int maxc = vh_thorough ? 18 : vh_size > 1 ? 8 : 12;
  for (int di = 0; di < 2; ++di) {
    for (int x = 1; x <= maxc; ++x) for (int y = 1; y*x <= maxc; ++y) for (int z = 1; z*y*x <= maxc; ++z) for (int g = 0; g < 5; ++g) for (int r = 0; r < 24; ++r) for (int p = 0; p <= 4; ++p) {
      if ((x > 4 && (y > 1 || z > 1)) || (y > 4 && (x > 1 || z > 1)) || (z > 4 && (x > 1 || y > 1))) continue;
      if (x > 6 || y > 6 || z > 6 || (g > G_SHEAR && (x > 4 || y > 4 || z > 4))) continue;
      if (p && vh_size > 1) continue;
      if (r && !(vh_thorough ? 1 : (r == 5 || r == 10 || r == 15 || r == 20) && x*y*z <= 8)) continue;
      if (p && r && !(vh_thorough && x*y*z <= 8)) continue;
      if (x*y*z < vh_size) continue;
      mcase m; memset(&m, 0, sizeof m); m.mode = RICHARDS; m.q.n[0] = x; m.q.n[1] = y; m.q.n[2] = z; m.q.geom = g; m.q.rot = r; m.perm = p;
      if (!vh_case("%s hex %dx%dx%d %s rot=%d %s", DISCN[di], x, y, z, GN[g], r, PN[p])) continue;
      one(&m, di);
    }
    for (int bs = 0; bs < NBASE; ++bs) for (int l = 1; l <= 3; ++l) for (int g = 0; g < 4; ++g) for (int r = 0; r < 3; ++r) for (int p = 0; p <= 4; ++p) {
      if (p && vh_size > 1) continue;
      if (BASES[bs].nt*l < vh_size) continue;
      mcase m; memset(&m, 0, sizeof m); m.mode = RICHARDS; m.wedge = 1; m.base = bs; m.layers = l; m.q.geom = g; m.q.rot = r; m.perm = p;
      if (!vh_case("%s wedge base=%d layers=%d %s rot=%d %s", DISCN[di], bs, l, GN[g], r, PN[p])) continue;
      one(&m, di);
    }
    /* the modes with two unknowns in every cell */
    for (int k = 0; k < 2 && T && di == 0; ++k) for (int x = 1; x <= 4; ++x) for (int y = 1; y <= 3; ++y) for (int z = 1; z <= 3; ++z) for (int w = 0; w < 2; ++w) {
      mcase m; memset(&m, 0, sizeof m); m.mode = k ? SALINITY : TH; m.q.n[0] = x; m.q.n[1] = y; m.q.n[2] = z; m.q.geom = G_STRETCH;
      if (w) { if (y > 1 || x > NBASE) continue; m.wedge = 1; m.base = x-1; m.layers = z; }
      if (w ? BASES[m.base].nt*z < vh_size : x*y*z < vh_size || x*y*z > maxc) continue;
      if (w ? !vh_case("%s wedge base=%d layers=%d", k ? "salinity" : "thermal", m.base, z) : !vh_case("%s hex %dx%dx%d", k ? "salinity" : "thermal", x, y, z)) continue;
      one(&m, di);
    }
  }
}
int main(int argc, char **argv) {
  MPI_Init(NULL, NULL); vh_parallel();
  setenv("PETSC_OPTIONS", "-no_signal_handler", 1);
  int c = 1; char *av[2] = {argv[0], NULL};
  vh_parse(argc, argv);
  if (!freopen("/dev/null", "w", stdout)) return 98;
  TDyInit(c, av);
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot(); set_opt("-dm_coord_space", "0");
  if (vh_grp("topo")) { T = 1; grp(); } else if (vh_grp("geom")) grp();
  else { fprintf(stderr, "no such group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  return 0;
}
