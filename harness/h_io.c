/* C24: the regression file for every field, selection and assignment of cells to processes */
#define FCOMM PETSC_COMM_WORLD
#include "flow.h"
#include "two.h"
#include "part.h"
#include <unistd.h>

static void g_cube(PetscInt n, PetscReal *x, PetscReal *f) { (void)x; for (int i = 0; i < n; ++i) f[i] = 1e-12; }
static PetscErrorCode wy_create(prob *q, flow *f) {
  PetscErrorCode e; memset(f, 0, sizeof *f); CUR = q;
  e = TDyCreate(FCOMM, &f->tdy); if (e) return e;
  e = TDySetMode(f->tdy, RICHARDS); if (e) return e;
  e = TDySetDiscretization(f->tdy, WY); if (e) return e;
  e = TDySetDMConstructor(f->tdy, q, MAKE_DM); if (e) return e;
  e = TDySetFromOptions(f->tdy); if (e) return e;
  e = TDySetIsotropicPermeabilityFunction(f->tdy, g_cube); if (e) return e;
  e = TDySetup(f->tdy); if (e) return e;
  e = TDyCreateVectors(f->tdy); if (e) return e;
  e = TDyCreatePrognosticVector(f->tdy, &f->U); if (e) return e;
  e = VecDuplicate(f->U, &f->R); if (e) return e;
  return TDyGetDM(f->tdy, &f->dm);
}
/* a field of n cells and nd variables; entry of cell g (in the order of the solution vector) */
static double field(int pat, int g, int n, int m) {
  double b = m ? 40 : 1e5, s = m ? 3 : 1000;
  switch (pat) {
  case 0: return b + s*g;                                 /* growing */
  case 1: return b + s*((5*g+3)%(n+1)) + m;               /* mixed */
  case 2: return (g%2 ? -1 : 1)*(b + s*(n-g)) - m;        /* signs */
  case 3: return b + m;                                   /* constant */
  case 4: return g == n/2 ? -1e-300*(1+m) : 1.0/3 + m;    /* one small */
  default: return (m ? 1e-7 : -1e14)*(1 + g/7.0);         /* large */
  }
}
#define NPAT 6
static int same(double a, double b) { return a == b || fabs(a-b) <= 6e-14*fabs(b) + 1e-307; }
typedef struct { double mx, mn, mean; int n, num[256]; double v[256]; } block;
static int parse(const char *fn, block *b, int maxb) {
  FILE *fp = fopen(fn, "r"); char l[512]; int k = -1; if (!fp) return -1;
  while (fgets(l, sizeof l, fp)) {
    double v; int i;
    if (l[0] == '-' && l[1] == '-') { if (++k >= maxb) break; memset(&b[k], 0, sizeof b[k]); b[k].mx = b[k].mn = b[k].mean = NAN; continue; }
    if (k < 0) { k = -2; break; }
    if (sscanf(l, " Max: %lf", &v) == 1) b[k].mx = v;
    else if (sscanf(l, " Min: %lf", &v) == 1) b[k].mn = v;
    else if (sscanf(l, " Mean: %lf", &v) == 1) b[k].mean = v;
    else if (sscanf(l, " %d: %lf", &i, &v) == 2) { if (b[k].n < 256) { b[k].num[b[k].n] = i; b[k].v[b[k].n++] = v; } }
    else { k = -2; break; }
  }
  fclose(fp);
  return k+1;
}
static void check_file(const char *fn, int pat, int n, int nd, int num, const int *cnt) {
  static const char *VN[] = {"pressure","second variable"}; block b[4];
  int nb = parse(fn, b, 4);
  if (nb < 0) { vh_fail("file", nb == -1 ? "no file is written" : "the file is not a regression file"); return; }
  if (nb != nd) { vh_fail("blocks", "%d fields are reported, the solution has %d", nb, nd); return; }
  int mincnt = n, nz = 0; for (int p = 0; p < vh_size; ++p) if (cnt[p] < mincnt) mincnt = cnt[p];
  int k = num < mincnt ? num : mincnt; if (k < 0) k = 0; (void)nz;
  for (int m = 0; m < nd; ++m) {
    double mx = -INFINITY, mn = INFINITY, sum = 0, ab = 0;
    for (int g = 0; g < n; ++g) { double v = field(pat, g, n, m); if (v > mx) mx = v; if (v < mn) mn = v; sum += v; ab += fabs(v); }
    if (!same(b[m].mx, mx)) vh_fail("max", "%s: maximum %.13e, it is %.13e", VN[m], b[m].mx, mx);
    if (!same(b[m].mn, mn)) vh_fail("min", "%s: minimum %.13e, it is %.13e", VN[m], b[m].mn, mn);
    if (!(fabs(b[m].mean-sum/n) <= 1e-12*ab/n)) vh_fail("mean", "%s: mean %.13e, it is %.13e", VN[m], b[m].mean, sum/n);
    if (b[m].n != k*vh_size) vh_fail("cells", "%s: %d cells are listed, asked for %d on each of %d processes of at least %d cells", VN[m], b[m].n, num, vh_size, mincnt);
    char seen[256] = {0}; int i = 0;
    for (int j = 0; j < b[m].n; ++j) {
      int g = b[m].num[j];
      if (g < 0 || g >= n) { vh_fail("cells", "%s: cell %d of %d is listed", VN[m], g, n); continue; }
      if (seen[g]++) vh_fail("cells", "%s: cell %d is listed twice", VN[m], g);
      if (!same(b[m].v[j], field(pat, g, n, m))) vh_fail("value", "%s: cell %d is listed with %.13e, it is %.13e", VN[m], g, b[m].v[j], field(pat, g, n, m));
    }
    if (b[m].n == k*vh_size) for (int p = 0, off = 0; p < vh_size; off += cnt[p++]) for (int c = 0; c < k; ++c, ++i)
      if (b[m].num[i] < off || b[m].num[i] >= off+cnt[p]) vh_fail("cells", "%s: entry %d is cell %d, process %d has cells %d to %d", VN[m], i, b[m].num[i], p, off, off+cnt[p]-1);
  }
}
static int shared_pid;
static void reg_case(prob *q, int mode, int num, int fast) {
  flow f; char fn[64], b[80]; int nd = mode == RICHARDS || mode < 0 ? 1 : 2, n, cnt[8]; PetscErrorCode e;
  snprintf(fn, sizeof fn, "reg%d", shared_pid);
  set_opt("-tdy_regression_test", "1"); set_opt("-tdy_regression_test_filename", fn);
  if (num >= 0) { snprintf(b, sizeof b, "%d", num); set_opt("-tdy_regression_test_num_cells_per_process", b); } else { PetscOptionsClearValue(NULL, "-tdy_regression_test_num_cells_per_process"); num = 2; }
  snprintf(b, sizeof b, "%s.regression", fn);
  if (!vh_rank) unlink(b);
  e = mode < 0 ? wy_create(q, &f) : flow_create(q, &f, mode);
  if (e) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  vh_state(vh_hi(vh_hi(vh_hi(vh_hb(vh_hb(phash(q), PART, sizeof PART), &mode, sizeof mode), vh_size), num), f.nc));
  PetscInt ls, gs, r0, r1; VecGetLocalSize(f.U, &ls); VecGetSize(f.U, &gs); VecGetOwnershipRange(f.U, &r0, &r1);
  n = gs/nd; int own = ls/nd; MPI_Allgather(&own, 1, MPI_INT, cnt, 1, MPI_INT, PETSC_COMM_WORLD);
  if (n != q->n[0]*q->n[1]*q->n[2]) vh_fail("size", "%d cells in the solution", n);
  for (int pat = 0; pat < NPAT; ++pat) {
    if (fast && pat != 1 && pat != 2) continue;
    PetscScalar *a; VecGetArray(f.U, &a);
    for (PetscInt i = r0; i < r1; ++i) a[i-r0] = field(pat, i/nd, n, i%nd);
    VecRestoreArray(f.U, &a);
    VecDuplicate(f.U, &f.R); VecCopy(f.U, f.R);
    e = TDyOutputRegression(f.tdy, f.U); vh_trans(1);
    if (e) { vh_fail("error", "output: %s", vh_errmsg); break; }
    PetscBool eq; VecEqual(f.U, f.R, &eq); if (!eq) vh_fail("solution", "writing the file changes the solution");
    VecDestroy(&f.R);
    MPI_Barrier(PETSC_COMM_WORLD);
    check_file(b, pat, n, nd, num, cnt);
    MPI_Barrier(PETSC_COMM_WORLD);
    { uint64_t h = vh_h0(); for (int p = 0; p < vh_size; ++p) h = vh_hi(h, cnt[p]); vh_outcome(vh_hi(vh_hi(vh_hi(h, pat), num), nd)); }
  }
  if (vh_index % 61 == 0 && !vh_rank) vh_sample("%s: %d cells over %d processes", vh_name, n, vh_size);
  if (!f.R) VecDuplicate(f.U, &f.R);
  if (mode < 0) { VecDestroy(&f.U); VecDestroy(&f.R); TDyDestroy(&f.tdy); } else flow_destroy(&f);
  if (!vh_rank) unlink(b);
  MPI_Barrier(PETSC_COMM_WORLD);
}
static const int SZ[][3] = {{1,1,1},{2,1,1},{1,1,3},{2,2,1},{5,1,1},{3,2,1},{2,2,2},{3,3,1}};
static void g_reg(void) {
  static const int MODES[] = {RICHARDS, RICHARDS, RICHARDS, TH, SALINITY}; static const char *MNM[] = {"mpfao","fvtpf","wy","th","salinity"};
  static const int NUM[] = {-1, 0, 1, 2, 3, 4, 5, 7, 100};
  long lim = vh_thorough ? 1024 : vh_size == 2 ? 64 : 27;
  MORE_SETTINGS = more;
  for (int z = 0; z < 8; ++z) {
    int nc = SZ[z][0]*SZ[z][1]*SZ[z][2]; long np = npart(nc); if (np > lim) continue;
    for (int mi = 0; mi < 5; ++mi) for (int k = 0; k < 9; ++k) {
      if (!vh_thorough && vh_size > 1 && nc > 4 && NUM[k] != 2 && NUM[k] != 3 && NUM[k] != 100) continue;
      CMODE = MODES[mi]; CB = 1; CK = 0;
      prob q; memset(&q, 0, sizeof q); memcpy(q.n, SZ[z], sizeof q.n); q.disc = mi == 1 ? D_FVTPF : D_MPFAO; q.kk = K_ISO; q.geom = G_BOX; q.bc = B_NEU; q.form = mi == 3 ? 1 : 0; q.rho = 1; q.dt = 3600; q.grav = 9.8068; q.perm_j = -1;
      for (long p = 0; p < np; ++p) {
        const char *s = set_part(p, nc);
        if (!vh_case("%s %dx%dx%d partition %s cells %d", MNM[mi], SZ[z][0], SZ[z][1], SZ[z][2], s, NUM[k])) continue;
        reg_case(&q, mi == 2 ? -1 : MODES[mi], NUM[k], vh_size > 1 && !vh_thorough);
      }
    }
  }
}

/* ------------------------------------------------------------------------------------------------- C20: files */
#include <petscviewerhdf5.h>
#include <private/tdytiimpl.h>
#include <private/tdyioimpl.h>
#include <dirent.h>
#include <sys/stat.h>
static char DIRN[64];
static void clean_dir(void) {
  MPI_Barrier(PETSC_COMM_WORLD);
  if (!vh_rank) { DIR *d = opendir("."); struct dirent *e; if (d) { while ((e = readdir(d))) if (e->d_name[0] != '.') unlink(e->d_name); closedir(d); } }
  MPI_Barrier(PETSC_COMM_WORLD);
}
static double FP(int k, int nat) { switch (k) { case 0: return 0.15 + 0.07*((3*nat+1)%7); case 1: return 1e-12*(1 + (nat*5+2)%7); case 2: return 2e-12*(1 + (nat*3+1)%5); case 3: return 5e-13*(1+nat); default: return 3e-12/(1+nat%4); } }
static double ICV(int mode, int nat, int m, int step) { return m == 0 ? PREF - 6000 + 531.0*((7*nat+3*step)%11) - 77.25*step : mode == TH ? 20 + 1.5*((nat+step)%9) : 0.2 + 0.03125*((nat*5+step)%13); }
static void writevec(const char *fn, const char *name, int n, double (*g)(int), int append) {
  PetscViewer v; Vec u; PetscScalar *a;
  VecCreateSeq(PETSC_COMM_SELF, n, &u); VecGetArray(u, &a); for (int i = 0; i < n; ++i) a[i] = g(i); VecRestoreArray(u, &a);
  PetscObjectSetName((PetscObject)u, name);
  VH_CHK(PetscViewerHDF5Open(PETSC_COMM_SELF, fn, append ? FILE_MODE_APPEND : FILE_MODE_WRITE, &v));
  VH_CHK(VecView(u, v)); VH_CHK(PetscViewerDestroy(&v)); VecDestroy(&u);
}
static int GK, GM, GND, GSTEP;
static double gp(int i) { return FP(GK, i); }
static double gic(int i) { return ICV(GM, i/GND, i%GND, GSTEP); }
static int nearest(const double *x) { int b = 0; double bd = 1e30; for (int i = 0; i < NNAT; ++i) { double e = 0; for (int d = 0; d < 3; ++d) e += (x[d]-NATC[i][d])*(x[d]-NATC[i][d]); if (e < bd) { bd = e; b = i; } } return b; }
static void r_phi(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = FP(0, nearest(x+3*i)); }
static void r_iso(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = FP(1, nearest(x+3*i)); }
static void r_dia(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) f[3*i+d] = FP(2+d, nearest(x+3*i)); }
enum { RD_PHI = 1, RD_ISO = 2, RD_ANI = 4, RD_IC = 8, RD_UNI = 16 };
static double gu(int i) { return FP(1, 0); }
static void r_uni(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = FP(1, 0); }
static int drv_create(prob *q, flow *f, int mode, int ref) {
  PetscErrorCode e; memset(f, 0, sizeof *f); CUR = q; char b[64];
  snprintf(b, sizeof b, "%.17g", q->grav); set_opt("-tdy_gravity", b);
  set_opt("-tdy_water_density", "EXPONENTIAL");
  set_opt("-tdy_mpfao_boundary_condition_type", q->bc == B_DIR ? "DIRICHLET_BC" : "NEUMANN_BC");
  set_opt("-tdy_time_integration_method", q->form ? "TS" : "SNES");
  if ((e = TDyCreate(FCOMM, &f->tdy))) return e;
  if ((e = TDySetMode(f->tdy, (TDyMode)mode))) return e;
  if ((e = TDySetDiscretization(f->tdy, q->disc == D_FVTPF ? FV_TPF : MPFA_O))) return e;
  if ((e = TDySetDMConstructor(f->tdy, q, MAKE_DM))) return e;
  if ((e = TDySetFromOptions(f->tdy))) return e;
  if ((e = TDySetResidualSaturationFunction(f->tdy, f_sr))) return e;
  if ((e = TDySetBoundaryPressureFunction(f->tdy, f_pb))) return e;
  if (q->disc == D_FVTPF && (e = TDySetBoundaryPressureTypeFunction(f->tdy, f_bt))) return e;
  if (mode != RICHARDS && (e = more(f->tdy))) return e;
  if (ref & RD_PHI && (e = TDySetPorosityFunction(f->tdy, r_phi))) return e;
  if (ref & RD_ISO && (e = TDySetIsotropicPermeabilityFunction(f->tdy, ref & RD_UNI ? r_uni : r_iso))) return e;
  if (ref & RD_ANI && (e = TDySetDiagonalPermeabilityFunction(f->tdy, r_dia))) return e;
  if ((e = TDyDriverInitializeTDy(f->tdy))) return e;
  TDyGetDM(f->tdy, &f->dm);
  PetscInt cs, ce; DMPlexGetHeightStratum(f->dm, 0, &cs, &ce); f->nc = ce-cs;
  Vec co; PetscSection sec; DM cdm; DMGetCoordinatesLocal(f->dm, &co); DMGetCoordinateDM(f->dm, &cdm); DMGetLocalSection(cdm, &sec);
  for (PetscInt c = cs; c < ce && c < MAXC; ++c) {
    PetscInt sz; PetscScalar *a = NULL; DMPlexVecGetClosure(cdm, sec, co, c, &sz, &a);
    for (int d = 0; d < 3; ++d) { f->cen[c][d] = 0; for (int v = 0; v < sz/3; ++v) f->cen[c][d] += a[3*v+d]/(sz/3); }
    DMPlexVecRestoreClosure(cdm, sec, co, c, &sz, &a);
  }
  return 0;
}
/* owned cell k of the process -> its place in the natural order */
static int own_nat(flow *f, int *nat, int nd) {
  PetscInt r0, r1; int n = 0; VecGetOwnershipRange(f->tdy->soln, &r0, &r1);
  for (int c = 0; c < f->nc; ++c) { PetscInt o, e; DMPlexGetPointGlobal(f->dm, c, &o, &e); if (o < 0) continue;
    int k = nat_of(f->cen[c]); if (k < 0) { vh_fail("cells", "cell %d is not in the mesh", c); k = 0; }
    nat[(o-r0)/nd] = k; n++; }
  return n;
}
static void setic(flow *f, Vec v, int mode, int nd, int step) {
  int nat[MAXC], n = own_nat(f, nat, nd); PetscScalar *a; VecGetArray(v, &a);
  for (int k = 0; k < n; ++k) for (int m = 0; m < nd; ++m) a[k*nd+m] = ICV(mode, nat[k], m, step);
  VecRestoreArray(v, &a);
}
static int checkic(flow *f, Vec v, int mode, int nd, int step, const char *what) {
  int nat[MAXC], n = own_nat(f, nat, nd), bad = 0; const PetscScalar *a; VecGetArrayRead(v, &a);
  for (int k = 0; k < n && !bad; ++k) for (int m = 0; m < nd; ++m) if (a[k*nd+m] != ICV(mode, nat[k], m, step)) { vh_fail("initial", "%s: variable %d of cell %d is %.9g, the file has %.9g", what, m, nat[k], a[k*nd+m], ICV(mode, nat[k], m, step)); bad = 1; break; }
  VecRestoreArrayRead(v, &a); return bad;
}
static PetscErrorCode resid(prob *q, flow *f, int mode, int nd, Vec U, Vec R, Vec V) {
  PetscErrorCode e; TDy t = f->tdy;
  setic(f, U, mode, nd, 0);
  if (q->form) { VecSet(V, 0.25); setic(f, U, mode, nd, 1); return TSComputeIFunction(t->ti->ts, 0, U, V, R, PETSC_FALSE); }
  if ((e = TDySetDtimeForSNESSolver(t, q->dt)) || (e = TDySetPreviousSolutionForSNESSolver(t, U)) || (e = TDyPreSolveSNESSolver(t))) return e;
  setic(f, U, mode, nd, 1);
  return SNESComputeFunction(t->ti->snes, U, R);
}
static const char *FILE_OPTS[] = {"-ksp_type","-pc_type","-snes_fd","-init_porosity_file","-porosity_dataset","-init_permeability_file","-permeability_dataset","-ic_file","-ic_dataset","-anisotropic_perm","-enable_checkpoint","-checkpoint_timestep_interval","-output_timestep_interval","-tdy_dt_init","-tdy_dt_max","-tdy_dt_growth_factor","-tdy_dt_reduction_factor"};
static void clear_opts(void) { for (unsigned i = 0; i < sizeof FILE_OPTS/sizeof *FILE_OPTS; ++i) PetscOptionsClearValue(NULL, FILE_OPTS[i]); }
static void read_case(prob *q, int mode, int what, int names) {
  flow f, g; int nd = mode == RICHARDS ? 1 : 2, nall = q->n[0]*q->n[1]*q->n[2]; char s[64];
  clear_opts(); clean_dir();
  const char *pn = names ? "phi" : "Porosity", *kn = names ? "perm" : "Permeability", *in = names ? "fields/start" : "IC";
  if (!vh_rank) {
    int app = 0; GM = mode; GND = nd; GSTEP = 0;
    GK = 0; writevec("in.h5", pn, nall, gp, app++);
    if (what & RD_ISO) { GK = 1; writevec("in.h5", kn, nall, what & RD_UNI ? gu : gp, app++); }
    if (what & RD_ANI) for (int d = 0; d < 3; ++d) { GK = 2+d; snprintf(s, sizeof s, "%s%c", kn, "XYZ"[d]); writevec("in.h5", s, nall, gp, app++); }
    if (names) { PetscViewer v; Vec u; PetscScalar *a; VecCreateSeq(PETSC_COMM_SELF, nall*nd, &u); VecGetArray(u, &a); for (int i = 0; i < nall*nd; ++i) a[i] = gic(i); VecRestoreArray(u, &a);
      PetscObjectSetName((PetscObject)u, "start"); VH_CHK(PetscViewerHDF5Open(PETSC_COMM_SELF, "in.h5", FILE_MODE_APPEND, &v)); VH_CHK(PetscViewerHDF5PushGroup(v, "fields")); VH_CHK(VecView(u, v)); VH_CHK(PetscViewerHDF5PopGroup(v)); VH_CHK(PetscViewerDestroy(&v)); VecDestroy(&u); }
    else writevec("in.h5", in, nall*nd, gic, app++);
  }
  MPI_Barrier(PETSC_COMM_WORLD);
  if (what & RD_PHI) { set_opt("-init_porosity_file", "in.h5"); if (names) set_opt("-porosity_dataset", pn); }
  if (what & (RD_ISO|RD_ANI)) { set_opt("-init_permeability_file", "in.h5"); if (names) set_opt("-permeability_dataset", kn); if (what & RD_ANI) set_opt("-anisotropic_perm", "1"); }
  if (what & RD_IC) { set_opt("-ic_file", "in.h5"); if (names) set_opt("-ic_dataset", in); }
  PetscErrorCode e = drv_create(q, &f, mode, 0); clear_opts();
  if (e) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  vh_state(vh_hi(vh_hi(vh_hi(vh_hi(vh_hb(phash(q), PART, sizeof PART), mode), what), names), vh_size));
  if (what & RD_IC) { checkic(&f, f.tdy->soln, mode, nd, 0, "the solution"); checkic(&f, f.tdy->soln_prev, mode, nd, 0, "the previous solution"); vh_trans(1); }
  Vec U, R, V, U2, R2, V2; VecDuplicate(f.tdy->soln, &U); VecDuplicate(U, &R); VecDuplicate(U, &V);
  if (resid(q, &f, mode, nd, U, R, V)) { vh_fail("error", "residual: %s", vh_errmsg); goto out; }
  vh_trans(1);
  if (drv_create(q, &g, mode, what)) { vh_fail("error", "setup by functions: %s", vh_errmsg); goto out; }
  VecDuplicate(g.tdy->soln, &U2); VecDuplicate(U2, &R2); VecDuplicate(U2, &V2);
  if (resid(q, &g, mode, nd, U2, R2, V2)) { vh_fail("error", "residual: %s", vh_errmsg); goto out; }
  { int nat[MAXC], n = own_nat(&f, nat, nd); const PetscScalar *a, *b; double sc[2] = {0,0}, s2[2]; VecGetArrayRead(R, &a); VecGetArrayRead(R2, &b);
    for (int k = 0; k < n*nd; ++k) sc[k%nd] = fmax(sc[k%nd], fabs(b[k]));
    MPI_Allreduce(sc, s2, 2, MPI_DOUBLE, MPI_MAX, PETSC_COMM_WORLD);
    uint64_t h = vh_h0();
    for (int k = 0; k < n*nd; ++k) { h = vh_hd(h, a[k]); if (!(fabs(a[k]-b[k]) <= 1e-12*s2[k%nd])) { vh_fail((what & (RD_ISO|RD_UNI)) == RD_ISO ? "isotropic" : "values", "residual %d of cell %d is %.12g with the values of the file, %.12g with the same values given by functions", k%nd, nat[k/nd], a[k], b[k]); break; } }
    vh_outcome(h);
    VecRestoreArrayRead(R, &a); VecRestoreArrayRead(R2, &b); }
  VecDestroy(&U2); VecDestroy(&R2); VecDestroy(&V2);
  VH_CHK(TDyDestroy(&g.tdy));
  if (vh_index % 61 == 0 && !vh_rank) vh_sample("%s", vh_name);
out:
  VecDestroy(&U); VecDestroy(&R); VecDestroy(&V);
  VH_CHK(TDyDestroy(&f.tdy));
}
static void g_read(void) {
  static const int MODES[] = {RICHARDS, RICHARDS, RICHARDS, TH, SALINITY}; static const char *MNM[] = {"mpfao","fvtpf","mpfao-ts","th","salinity"};
  static const int WH[] = {RD_PHI, RD_ISO|RD_UNI, RD_ANI, RD_IC, RD_PHI|RD_ISO|RD_UNI|RD_IC, RD_PHI|RD_ANI|RD_IC, RD_ISO, RD_PHI|RD_IC};
  static const char *WN[] = {"porosity","one-permeability","permeabilities","start","porosity,one-permeability,start","porosity,permeabilities,start","isotropic-permeability","porosity,start"};
  static const int Z[][3] = {{1,1,1},{2,1,1},{1,1,3},{2,2,1},{5,1,1},{3,2,1},{2,2,2}};
  long lim = vh_thorough ? 1024 : vh_size == 2 ? 16 : 27;
  for (int z = 0; z < 7; ++z) {
    int nc = Z[z][0]*Z[z][1]*Z[z][2]; long np = npart(nc); if (np > lim) continue;
    for (int mi = 0; mi < 5; ++mi) for (int w = 0; w < 8; ++w) for (int names = 0; names < 2; ++names) for (int geom = G_BOX; geom <= G_PERT; ++geom) {
      if (geom != G_BOX && geom != G_PERT) continue;
      if (WH[w] & RD_ISO && (vh_size > 1 || nc < 3)) continue;   /* the first three values are read as one tensor: known finding */
      if (vh_size > 1 && !vh_thorough && ((geom == G_PERT) != (w%2 == 0) || names != (w+mi)%2)) continue;
      CMODE = MODES[mi]; CB = 1; CK = 0;
      prob q; memset(&q, 0, sizeof q); memcpy(q.n, Z[z], sizeof q.n); q.disc = mi == 1 ? D_FVTPF : D_MPFAO; q.geom = geom; q.bc = (w+z)%2 ? B_DIR : B_NEU; q.form = mi == 2 || mi == 3; q.rho = 1; q.dt = 3600; q.grav = 9.8068; q.perm_j = -1;
      for (long p = 0; p < np; ++p) {
        if (vh_size > 2 && !vh_thorough && (p+w+mi)%2) continue;
        const char *s = set_part(p, nc);
        if (!vh_case("%s %dx%dx%d %s partition %s reads %s names %d", MNM[mi], Z[z][0], Z[z][1], Z[z][2], GN[geom], s, WN[w], names)) continue;
        if (natural(&q, nc)) { vh_fail("error", "mesh"); continue; }
        read_case(&q, MODES[mi], WH[w], names);
      }
    }
  }
}

/* checkpoints and output of a run whose solver follows a prescribed pattern of success and failure */
static struct { const char *pat; int npat, pos, acc, mode, nd; flow *f; } S;
static PetscErrorCode scripted(SNES snes, Vec x) {
  int ok = S.pos >= S.npat || S.pat[S.pos] == 'S'; S.pos++;
  vh_trans(1);
  if (!ok) { VecSet(x, NAN); return SNESSetConvergedReason(snes, SNES_DIVERGED_LINE_SEARCH); }
  setic(S.f, x, S.mode, S.nd, ++S.acc);
  Vec r; VecDuplicate(x, &r); PetscErrorCode e = SNESComputeFunction(snes, x, r); VecDestroy(&r); if (e) return e;
  return SNESSetConvergedReason(snes, SNES_CONVERGED_FNORM_RELATIVE);
}
static int rd_h5(const char *fn, const char *name, int n, double *x) {
  PetscViewer v; Vec u; const PetscScalar *a; PetscErrorCode e; PetscInt k;
  if (PetscViewerHDF5Open(PETSC_COMM_SELF, fn, FILE_MODE_READ, &v)) return 1;
  VecCreate(PETSC_COMM_SELF, &u); PetscObjectSetName((PetscObject)u, name);
  e = VecLoad(u, v); PetscViewerDestroy(&v);
  if (!e) { VecGetSize(u, &k); if (k != n) e = 2; else { VecGetArrayRead(u, &a); for (int i = 0; i < n; ++i) x[i] = a[i]; VecRestoreArrayRead(u, &a); } }
  VecDestroy(&u);
  return e;
}
static int rd_txt(const char *fn, double *x, int max) {
  FILE *fp = fopen(fn, "r"); char l[512], *e; int n = 0; if (!fp) return -1;
  while (fgets(l, sizeof l, fp)) { double v = strtod(l, &e); if (e == l) continue; while (*e == ' ' || *e == '\n') e++; if (!*e && n < max) x[n++] = v; }
  fclose(fp); return n;
}
#define MAXF 128
static int count_files(const char *suffix) { int n = 0; DIR *d = opendir("."); struct dirent *e; size_t k = strlen(suffix); while ((e = readdir(d))) { size_t l = strlen(e->d_name); if (l >= k && !strcmp(e->d_name+l-k, suffix)) n++; } closedir(d); return n; }
typedef struct { double t; int step; } stop;
/* one field of an output file against what the step's solution gives */
static void cmp_out(prob *q, const double *x, int n, int step, int which, int mode, const char *fn, double tol) {
  for (int i = 0; i < n; ++i) {
    double P = ICV(mode, i, 0, step), v = which == 0 ? P : ref_cell(q, P, sr_at(NATC[i])).S;
    if (!(fabs(x[i]-v) <= tol*fabs(v))) { vh_fail("output", "%s: cell %d has %.9g, the solution has %.9g", fn, i, x[i], v); return; }
  }
}
static void chk_case(prob *q, int mode, int interval, int out, int fmt, const double *T, int nt, const char *pat) {
  flow f; int nd = mode == RICHARDS ? 1 : 2, nall = q->n[0]*q->n[1]*q->n[2]; char b[64]; PetscErrorCode e;
  clear_opts(); clean_dir();
  double dt = 600;
  set_opt("-tdy_dt_init", "600"); set_opt("-tdy_dt_max", "600"); set_opt("-tdy_dt_growth_factor", "1"); set_opt("-tdy_dt_reduction_factor", "0.5");
  if (interval >= 0) { set_opt("-enable_checkpoint", "1"); snprintf(b, sizeof b, "%d", interval); if (interval != 1) set_opt("-checkpoint_timestep_interval", b); }
  if (out >= 0) { snprintf(b, sizeof b, "%d", out); set_opt("-output_timestep_interval", b); }
  e = drv_create(q, &f, mode, 0); clear_opts();
  if (e) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  uint64_t h = vh_hi(vh_hi(vh_hi(vh_hi(vh_hi(vh_hb(phash(q), PART, sizeof PART), mode), interval), out), fmt), vh_size); int nck = 0, no = 0;
  S.pat = pat; S.npat = strlen(pat); S.pos = S.acc = 0; S.mode = mode; S.nd = nd; S.f = &f;
  VH_CHK(SNESSetType(f.tdy->ti->snes, SNESSHELL)); VH_CHK(SNESShellSetSolve(f.tdy->ti->snes, scripted));
  setic(&f, f.tdy->soln, mode, nd, 0); VH_CHK(TDySetPreviousSolutionForSNESSolver(f.tdy, f.tdy->soln));
  if (out > 0 && TDyIOSetMode(f.tdy, fmt ? HDF5Format : PetscViewerASCIIFormat)) { vh_fail("error", "output mode: %s", vh_errmsg); goto done; }
  stop ck[MAXF], ot[MAXF]; int pos = 0, acc = 0; double t = 0, nat = dt;
  for (int k = 0; k < nt; ++k) {
    int last = 1, any = 0;
    while (t < T[k]*(1-1e-12)) {
      double d = fmin(nat, T[k]-t); int cut = 0;
      while (pos < S.npat && pat[pos] == 'F') { pos++; d *= 0.5; cut = 1; }
      pos++; t += d; acc++; any = 1; if (cut) nat = d;
      if (fabs(t-T[k]) < 1e-9*T[k]) t = T[k];
      last = interval > 0 && acc % interval == 0;
      if (last && nck < MAXF) { ck[nck].t = t; ck[nck++].step = acc; }
      if (out > 0 && acc % out == 0 && no < MAXF) { ot[no].t = t; ot[no++].step = acc; }
    }
    if (interval >= 0 && any && !last && nck < MAXF) { ck[nck].t = t; ck[nck++].step = acc; }
    if ((e = TDyTimeIntegratorRunToTime(f.tdy, T[k]))) { vh_fail("error", "run: %s", vh_errmsg); goto done; }
    if (S.acc != acc) { vh_fail("steps", "%d steps are accepted, expected %d", S.acc, acc); goto done; }
    h = vh_hi(vh_hd(h, T[k]), acc); vh_state(h);
  }
  MPI_Barrier(PETSC_COMM_WORLD);
  if (!vh_rank) {
    double x[MAXC*2]; char fn[128];
    int n = count_files("_chk.h5");
    if (n != nck) vh_fail("checkpoints", "%d checkpoints are written, expected %d", n, nck);
    for (int i = 0; i < nck; ++i) {
      snprintf(fn, sizeof fn, "%11.5e_chk.h5", ck[i].t);
      if (access(fn, R_OK)) { vh_fail("checkpoints", "the checkpoint %s of step %d is not written", fn, ck[i].step); continue; }
      int r = rd_h5(fn, "fields/IC", nall*nd, x);
      if (r) { vh_fail("checkpoint", "%s: %s", fn, r == 2 ? "wrong size" : vh_errmsg); continue; }
      for (int j = 0; j < nall*nd; ++j) if (x[j] != ICV(mode, j/nd, j%nd, ck[i].step)) { vh_fail("checkpoint", "%s: variable %d of cell %d is %.9g, the solution of step %d has %.9g", fn, j%nd, j/nd, x[j], ck[i].step, ICV(mode, j/nd, j%nd, ck[i].step)); break; }
      vh_trans(1);
    }
    if (!fmt) {
      static const char *VN[] = {"LiquidPressure","LiquidSaturation"};
      for (int w = 0; w < 2; ++w) {
        snprintf(b, sizeof b, "_%s.txt", VN[w]); n = count_files(b);
        if (n != no) vh_fail("outputs", "%d files of %s are written, expected %d", n, VN[w], no);
        for (int i = 0; i < no; ++i) {
          snprintf(fn, sizeof fn, "%11.5e_%s.txt", ot[i].t, VN[w]); n = rd_txt(fn, x, MAXC*2);
          if (n < 0) { vh_fail("outputs", "%s is not written", fn); continue; }
          if (n != nall) { vh_fail("output", "%s has %d values for %d cells", fn, n, nall); continue; }
          cmp_out(q, x, nall, ot[i].step, w, mode, fn, 1e-5); vh_trans(1);
        }
      }
    } else if (out > 0) {
      static const char *VN[] = {"LiquidPressure","LiquidSaturation"};
      { double tp[MAXC*8], ge[3*512]; int nv = (q->n[0]+1)*(q->n[1]+1)*(q->n[2]+1);   /* the mesh in the file */
        int r1 = rd_h5("out.h5", "viz/topology/cells", nall*8, tp), r2 = rd_h5("out.h5", "geometry/vertices", nv*3, ge);
        if (r1 || r2) vh_fail("mesh", "out.h5: the mesh is not there: %s", r1 == 2 || r2 == 2 ? "wrong size" : vh_errmsg);
        else for (int i = 0; i < nall; ++i) {
          double c[3] = {0}; for (int v = 0; v < 8; ++v) for (int d = 0; d < 3; ++d) { int k = tp[8*i+v]; c[d] += k >= 0 && k < nv ? ge[3*k+d]/8 : NAN; }
          int k = nat_of(c);
          if (k < 0) { vh_fail("mesh", "out.h5: cell %d is not in the mesh", i); break; }
          if (k != i) { vh_fail("topology", "out.h5: cell %d of the mesh has the field values of another cell", i); break; }
        } }
      for (int w = 0; w < 2; ++w) for (int i = 0; i < no; ++i) {
        snprintf(fn, sizeof fn, "cell_fields/%11.5e_%s", ot[i].t, VN[w]);
        int r = rd_h5("out.h5", fn, nall, x);
        if (r) { vh_fail("output", "out.h5 %s: %s", fn, r == 2 ? "wrong size" : vh_errmsg); continue; }
        cmp_out(q, x, nall, ot[i].step, w, mode, fn, 1e-9); vh_trans(1);
      }
    }
  }
  vh_outcome(vh_hi(vh_hi(h, nck), no));
  if (vh_index % 97 == 0 && !vh_rank) vh_sample("%s: %d checkpoints, %d outputs in %d steps", vh_name, nck, no, acc);
done:
  VH_CHK(TDyDestroy(&f.tdy));
  MPI_Barrier(PETSC_COMM_WORLD);
  if (!vh_rank) {                                      /* the description of the file */
    FILE *fp = fopen("out.xmf", "r"); char l[512]; int cells = -1, att = 0, foot = 0;
    if (!fp) { if (out > 0 && fmt) vh_fail("xmf", "no description of the output is written"); }
    else {
      while (fgets(l, sizeof l, fp)) { char *c = strstr(l, "NumberOfElements=\""); if (c) cells = atoi(c+18); if (strstr(l, "<Attribute")) att++; if (strstr(l, "</Xdmf>")) foot++; }
      fclose(fp);
      if (!(out > 0 && fmt)) vh_fail("xmf", "a description is written without output");
      else if (!e && (cells != nall || att != 2*no || foot != 1)) vh_fail("xmf", "the description has %d cells, %d fields, %d ends for %d cells and %d outputs of 2 fields", cells, att, foot, nall, no);
    }
  }
}
static void g_chk(void) {
  static const int MODES[] = {RICHARDS, RICHARDS, SALINITY}; static const char *MNM[] = {"fvtpf","mpfao","salinity"};
  static const int Z[][3] = {{1,1,1},{2,1,1},{1,1,3},{2,2,1},{5,1,1}};
  static const double TT[][3] = {{600}, {1200}, {2400}, {900,2400}, {600,1800,3000}}; static const int NT[] = {1,1,1,2,3};
  static const int IV[] = {-1, 0, 1, 2, 3, 7};
  long lim = vh_thorough ? 256 : vh_size == 2 ? 16 : 9;
  int L = vh_thorough ? 5 : 4;
  for (int z = 0; z < 5; ++z) {
    int nc = Z[z][0]*Z[z][1]*Z[z][2]; long np = npart(nc); if (np > lim) continue;
    for (int mi = 0; mi < 3; ++mi) for (int ti = 0; ti < 5; ++ti) for (int iv = 0; iv < 6; ++iv) for (int out = 0; out < 4; ++out) for (int fmt = 0; fmt < 2; ++fmt) for (int bits = 0; bits < 1<<L; ++bits) {
      if (mi && bits) continue;                        /* the cut is offered by the two-point scheme only */
      if (!out && (fmt || IV[iv] < 0)) continue;
      if (fmt && bits && !vh_thorough) continue;
      if (vh_size > 1 && !vh_thorough && (bits || (ti != 3 && (ti != 2 || vh_size > 2)) || (iv+out)%3)) continue;
      if (vh_size == 1 && !vh_thorough && nc > 2 && (bits || (iv+out+ti)%2)) continue;
      if (vh_size == 1 && !vh_thorough && bits && (iv+out+ti+bits)%3) continue;
      CMODE = MODES[mi]; CB = 1; CK = 0;
      prob q; memset(&q, 0, sizeof q); memcpy(q.n, Z[z], sizeof q.n); q.disc = mi == 0 ? D_FVTPF : D_MPFAO; q.geom = G_BOX; q.bc = B_NEU; q.rho = 1; q.dt = 600; q.grav = 9.8068; q.perm_j = -1;
      char pat[9]; for (int k = 0; k < L; ++k) pat[k] = bits>>k&1 ? 'F' : 'S'; pat[L] = 0;
      for (long p = 0; p < np; ++p) {
        const char *s = set_part(p, nc);
        if (!vh_case("%s %dx%dx%d partition %s targets %d every %d output %d %s %s", MNM[mi], Z[z][0], Z[z][1], Z[z][2], s, ti, IV[iv], out, fmt ? "hdf5" : "ascii", pat)) continue;
        if (natural(&q, nc)) { vh_fail("error", "mesh"); continue; }
        chk_case(&q, MODES[mi], IV[iv], out ? out : -1, fmt, TT[ti], NT[ti], pat);
      }
    }
  }
}
/* a run continued from each of its checkpoints */
static void final_state(flow *f, int nd, double *x, int n) {
  int nat[MAXC], k = own_nat(f, nat, nd); double t[MAXC*2] = {0}; const PetscScalar *a; VecGetArrayRead(f->tdy->soln, &a);
  for (int i = 0; i < k*nd; ++i) t[nat[i/nd]*nd+i%nd] = a[i];
  VecRestoreArrayRead(f->tdy->soln, &a); MPI_Allreduce(t, x, n*nd, MPI_DOUBLE, MPI_SUM, PETSC_COMM_WORLD);
}
static void step_opts(int mode) {
  if (mode == SALINITY) set_opt("-snes_fd", "1");      /* its Jacobian: known finding of C23 */
  set_opt("-tdy_dt_init", "900"); set_opt("-tdy_dt_max", "900"); set_opt("-tdy_dt_growth_factor", "1");
  set_opt("-ksp_type", "preonly"); set_opt("-pc_type", "redundant");
}
#define NST 4
static void restart_case(prob *q, int mode) {
  flow f; int nd = mode == RICHARDS ? 1 : 2, nall = q->n[0]*q->n[1]*q->n[2]; double ref[NST+1][MAXC*2], x[MAXC*2]; char b[64]; PetscErrorCode e;
  clear_opts(); clean_dir(); step_opts(mode); set_opt("-enable_checkpoint", "1");
  e = drv_create(q, &f, mode, 0); clear_opts();
  if (e) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  vh_state(vh_hi(vh_hi(vh_hb(phash(q), PART, sizeof PART), mode), vh_size));
  setic(&f, f.tdy->soln, mode, nd, 0); VH_CHK(TDySetPreviousSolutionForSNESSolver(f.tdy, f.tdy->soln));
  int n = 0;
  for (int k = 1; k <= NST; ++k) { if (TDyTimeIntegratorRunToTime(f.tdy, 900.0*k)) break; final_state(&f, nd, ref[k], nall); n = k; vh_trans(1); }
  if (f.tdy->ti->dt < 900 || f.tdy->ti->istep != n) { vh_count("runs_with_cut_steps", 1); n = 0; }
  VH_CHK(TDyDestroy(&f.tdy));
  if (!n) { vh_count("runs_that_did_not_converge", 1); return; }
  for (int k = 1; k < n; ++k) {
    snprintf(b, sizeof b, "%11.5e_chk.h5", 900.0*k);
    step_opts(mode); set_opt("-ic_file", b); set_opt("-ic_dataset", "fields/IC");
    e = drv_create(q, &f, mode, 0); clear_opts();
    if (e) { vh_fail("error", "restart: %s", vh_errmsg); return; }
    final_state(&f, nd, x, nall);
    for (int i = 0; i < nall*nd; ++i) if (x[i] != ref[k][i]) { vh_fail("restart", "step %d: variable %d of cell %d is %.12g, it was %.12g", k, i%nd, i/nd, x[i], ref[k][i]); break; }
    for (int j = k+1; j <= n; ++j) {
      if (TDyTimeIntegratorRunToTime(f.tdy, 900.0*(j-k))) { vh_fail("error", "run: %s", vh_errmsg); break; }
      final_state(&f, nd, x, nall); vh_trans(1);
      for (int i = 0; i < nall*nd; ++i) if (!(fabs(x[i]-ref[j][i]) <= 1e-9*fabs(ref[j][i]))) { vh_fail("continue", "from step %d to %d: variable %d of cell %d is %.12g, running through gives %.12g", k, j, i%nd, i/nd, x[i], ref[j][i]); break; }
    }
    { uint64_t h = vh_h0(); for (int i = 0; i < nall*nd; ++i) h = vh_hd(h, ref[n][i]); vh_outcome(h); }
    VH_CHK(TDyDestroy(&f.tdy));
  }
}
static void g_restart(void) {
  static const int MODES[] = {RICHARDS, RICHARDS, SALINITY}; static const char *MNM[] = {"fvtpf","mpfao","salinity"};
  static const int Z[][3] = {{1,1,1},{2,1,1},{1,1,3},{2,2,1},{5,1,1}};
  long lim = vh_thorough ? 256 : vh_size == 2 ? 16 : 9;
  for (int z = 0; z < 5; ++z) {
    int nc = Z[z][0]*Z[z][1]*Z[z][2]; long np = npart(nc); if (np > lim) continue;
    for (int mi = 0; mi < 3; ++mi) for (int geom = G_BOX; geom <= G_PERT; ++geom) for (int bc = 0; bc < 2; ++bc) {
      if (geom != G_BOX && geom != G_SHEAR && (geom != G_PERT || mi == 0)) continue;
      if (vh_size > 2 && !vh_thorough && (geom+bc+mi)%2) continue;
      CMODE = MODES[mi]; CB = 1; CK = 0;
      prob q; memset(&q, 0, sizeof q); memcpy(q.n, Z[z], sizeof q.n); q.disc = mi == 0 ? D_FVTPF : D_MPFAO; q.geom = geom; q.bc = bc; q.rho = 1; q.dt = 900; q.grav = 9.8068; q.perm_j = -1;
      for (long p = 0; p < np; ++p) {
        const char *s = set_part(p, nc);
        if (!vh_case("%s %dx%dx%d %s %s partition %s", MNM[mi], Z[z][0], Z[z][1], Z[z][2], GN[geom], BN[bc], s)) continue;
        if (natural(&q, nc)) { vh_fail("error", "mesh"); continue; }
        restart_case(&q, MODES[mi]);
      }
    }
  }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv); vh_parallel();
  shared_pid = getpid(); MPI_Bcast(&shared_pid, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot(); MAKE_DM = make_part;
  snprintf(DIRN, sizeof DIRN, "io%d", shared_pid);
  if (!vh_rank) mkdir(DIRN, 0700);
  MPI_Barrier(PETSC_COMM_WORLD);
  if (chdir(DIRN)) return 98;
  if (vh_grp("reg")) g_reg();
  else if (vh_grp("read")) g_read();
  else if (vh_grp("chk")) g_chk();
  else if (vh_grp("restart")) g_restart();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  clean_dir();
  if (!chdir("..")) if (!vh_rank) rmdir(DIRN);
  if (vh_size > 1) { vh_finish(); return 0; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
