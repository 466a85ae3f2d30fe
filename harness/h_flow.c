/* Finite-volume flow: C13 conservation, C14 exactness, C15 Jacobian, C16 boundary conditions, C17 forms, C19 diagnostics, C27 numbering, C28 memory */
#include "flow.h"

/* pressures a cell can have: moist, saturated, dry, very dry, nearly saturated, slightly over-saturated */
static const double PV[] = {80000, 103325, 20000, -1e9, 101125, 101324.5};
static double pv(int k, int c) { return PV[k] + (k == 5 ? 0.01 : 137.0)*c; }

static int next_state(int *s, int n, int base) { int i = 0; while (i < n && ++s[i] == base) s[i++] = 0; return i < n; }
static void begin(prob *q) { memset(q, 0, sizeof *q); q->n[0] = q->n[1] = q->n[2] = 1; q->grav = 9.8068; q->dt = 3600; q->bc = B_NEU; }
static const int SIZES[][3] = {{1,1,1},{2,1,1},{1,2,1},{1,1,2},{3,1,1},{1,1,3},{2,2,1},{2,1,2},{1,2,2},{2,2,2},{3,2,1},{1,3,2}};

/* the residual equals the reference at every state; base^nc states */
static void run_ref(prob *q, int base, int nprev) {
  flow f;
  if (flow_create(q, &f, RICHARDS) || flow_snes(&f, q->dt)) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  uint64_t h0 = phash(q);
  for (int p = 0; p < nprev; ++p) {
    double P0[MAXC]; for (int c = 0; c < f.nc; ++c) P0[c] = pv((p+c)%5, c);
    flow_prev(&f, P0);
    int s[MAXC] = {0};
    do {
      double P[MAXC], R[MAXC], Q[MAXC], sc; uint64_t h = vh_hi(h0, p);
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(s[c], c); h = vh_hi(h, s[c]); }
      vh_state(h);
      if (flow_res(&f, P, R)) break;
      ref_residual(q, &f, P, P0, q->dt, Q, &sc);
      uint64_t o = vh_h0();
      for (int c = 0; c < f.nc; ++c) {
        if (!(fabs(R[c]-Q[c]) <= 1e-9*sc + 1e-16)) vh_fail("residual", "cell %d P=%.10g: %.12g, reference %.12g (scale %g)", c, P[c], R[c], Q[c], sc);
        o = vh_hd(o, Q[c]);
      }
      vh_outcome(o);
    } while (next_state(s, f.nc, base));
  }
  flow_destroy(&f);
}
static int nstates(const int *n, int cap) { int nc = n[0]*n[1]*n[2], b = 6; while (b > 2 && pow(b, nc) > cap) b--; return b; }

/* ------------------------------------------------------------------------------------------------- C13: conservation */
static void g_closed_ref(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_STRETCH; ++geom) for (int kk = K_ISO; kk <= K_HDIAG; ++kk) for (int rho = 0; rho < 3; ++rho)
  for (int z = 0; z < (vh_thorough ? 12 : 10); ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_thorough && z >= 6 && (kk < K_HDIAG || rho == 0)) continue;
    if (vh_case("closed %s", pname(&q))) run_ref(&q, nstates(q.n, vh_thorough ? 8000 : 300), 2);
  }
}
/* on any mesh: without flow through the boundary and with an unchanged state the residuals add up to zero, each pair of
   cells exchanges equal amounts */
static void g_closed_any(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_SHEAR; geom <= G_PERT; ++geom) for (int kk = K_ISO; kk <= K_FULLNEG; ++kk) for (int rho = 0; rho < 3; ++rho)
  for (int z = 1; z < (vh_thorough ? 12 : 10); ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_thorough && (rho == 2 || (z >= 6 && rho != 1))) continue;
    if (!vh_case("conserve %s", pname(&q))) continue;
    flow f;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    int s[MAXC] = {0}, base = nstates(q.n, vh_thorough ? 2000 : 80); uint64_t h0 = phash(&q);
    do {
      double P[MAXC], R[MAXC], sum = 0, abs = 0; uint64_t h = h0, o = vh_h0();
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(s[c], c); h = vh_hi(h, s[c]); }
      vh_state(h);
      flow_prev(&f, P);
      if (flow_res(&f, P, R)) break;
      for (int c = 0; c < f.nc; ++c) { sum += R[c]; abs += fabs(R[c]); o = vh_hd(o, R[c]); }
      vh_outcome(o);
      if (!(fabs(sum) <= 1e-12*abs + 1e-13)) vh_fail("mass", "residuals add up to %g (sum of magnitudes %g)", sum, abs);
    } while (next_state(s, f.nc, base));
    flow_destroy(&f);
  }
}
/* an implicit step of a closed domain conserves the mass */
static void g_step(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_SHEAR; ++geom) for (int kk = K_ISO; kk <= K_FULL; ++kk) for (int rho = 0; rho < 2; ++rho)
  for (int z = 1; z < (vh_thorough ? 10 : 7); ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; memcpy(q.n, SIZES[z], sizeof q.n); q.dt = 600;
    if (geom == G_SHEAR && disc == D_FVTPF) continue;
    if (!vh_case("step %s", pname(&q))) continue;
    flow f;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    KSP ksp; PC pc; SNESGetKSP(f.snes, &ksp); KSPSetType(ksp, KSPPREONLY); KSPGetPC(ksp, &pc); PCSetType(pc, PCLU);
    SNESSetTolerances(f.snes, 1e-14, 1e-13, 0, 60, 10000);
    double vol[MAXC], tot = 0;
    for (int c = 0; c < f.nc; ++c) { PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL); vol[c] = v; }
    int s[MAXC] = {0}, base = 3; uint64_t h0 = phash(&q); long cap = vh_thorough ? 729 : 27, k = 0;
    do {
      double P[MAXC], X[MAXC], m0 = 0, m1 = 0; uint64_t h = h0; static const int a[3] = {0,4,2};
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(a[s[c]], c); h = vh_hi(h, s[c]); }
      vh_state(h);
      flow_prev(&f, P); flow_put(&f, f.U, P);
      VH_CHK(SNESSolve(f.snes, NULL, f.U)); vh_trans(1);
      SNESConvergedReason r; SNESGetConvergedReason(f.snes, &r);
      if (r > 0) {
        flow_get(&f, f.U, X); uint64_t o = vh_h0();
        for (int c = 0; c < f.nc; ++c) {
          PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL);
          cellp p0 = ref_cell(&q, P[c], sr_at(x)), p1 = ref_cell(&q, X[c], sr_at(x));
          m0 += vol[c]*phi_at(x)*p0.rho*p0.S; m1 += vol[c]*phi_at(x)*p1.rho*p1.S; o = vh_hd(o, floor(X[c]));
        }
        vh_outcome(o); tot++;
        if (!(fabs(m1-m0) <= 1e-7*m0)) vh_fail("mass", "mass %.12g before, %.12g after the step", m0, m1);
      }
    } while (++k < cap && next_state(s, f.nc, base));
    vh_count("steps_converged", (long)tot); vh_count("steps_tried", k);
    flow_destroy(&f);
  }
}

/* --------------------------------------------------------------------------------------------------- C14: exactness */
static void g_exact(void) {
  prob q;
  /* linear pressures without gravity on meshes with planar faces: every K for MPFA-O, K aligned with the grid for two-point fluxes */
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_TAPER; ++geom) for (int kk = K_ISO; kk <= K_FULLNEG; ++kk)
  for (int z = 0; z < (vh_thorough ? 12 : 10); ++z) {
    if (kk == K_HISO || kk == K_HDIAG) continue;
    if (disc != D_MPFAO && (geom > G_STRETCH || kk >= K_FULL)) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.bc = B_DIR; q.pb = 3; q.grav = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("linear %s", pname(&q))) continue;
    flow f;
    LIN[0] = LIN[1] = LIN[2] = 0; LIN[3] = PREF + 50000;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    for (int m = 0; m < 7; ++m) {
      static const double A[7][3] = {{1,0,0},{0,1,0},{0,0,1},{1,1,0},{1,0,-1},{0,-1,1},{-1,2,3}};
      for (int d = 0; d < 3; ++d) LIN[d] = 1000*A[m][d];
      double P[MAXC], R[MAXC], sc = 0; uint64_t o = vh_h0();
      for (int c = 0; c < f.nc; ++c) {
        PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL);
        /* the cell value stands for the point the method puts it at */
        double xc[3]; for (int d = 0; d < 3; ++d) xc[d] = geom == G_TAPER ? x[d] : f.cen[c][d];
        P[c] = pb_at(&q, xc);
      }
      vh_state(vh_hi(phash(&q), m));
      flow_prev(&f, P);
      if (flow_res(&f, P, R)) break;
      sc = 998/9.94e-4*1e-12*1000;
      for (int c = 0; c < f.nc; ++c) {
        o = vh_hd(o, P[c]);
        if (!(fabs(R[c]) <= 1e-9*sc)) vh_fail("linear", "field %d cell %d: residual %g at a linear field (flux scale %g)", m, c, R[c], sc);
      }
      vh_outcome(o);
    }
    flow_destroy(&f);
  }
  /* hydrostatic pressure on orthogonal grids, saturated and above the water table with capillary equilibrium */
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_STRETCH; ++geom) for (int kk = K_ISO; kk <= K_HDIAG; ++kk) for (int bc = 0; bc < 3; ++bc) for (int z = 0; z < 10; ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.bc = bc; q.pb = 3; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("hydrostatic %s", pname(&q))) continue;
    flow f;
    LIN[0] = LIN[1] = 0; LIN[2] = -998.0*q.grav; LIN[3] = PREF + 50000;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    static const double L[5] = {50000, 8000, 1000, -5000, -30000};
    for (int m = 0; m < 5; ++m) {
      LIN[3] = PREF + L[m];
      double P[MAXC], R[MAXC], sc = 998/9.94e-4*1e-12*1000; uint64_t o = vh_h0();
      for (int c = 0; c < f.nc; ++c) P[c] = pb_at(&q, f.cen[c]);
      vh_state(vh_hi(phash(&q), m));
      flow_prev(&f, P);
      if (flow_res(&f, P, R)) break;
      for (int c = 0; c < f.nc; ++c) {
        o = vh_hd(o, P[c]);
        if (!(fabs(R[c]) <= 1e-8*sc)) vh_fail("hydrostatic", "level %d cell %d: residual %g at rest (flux scale %g)", m, c, R[c], sc);
      }
      vh_outcome(o);
    }
    flow_destroy(&f);
  }
}

/* the steady system of MPFA-O: at every saturated state it says what the flow residual says (verified on its own), its
   right-hand side is that of the source, and a steady linear field solves it */
static double FORCE[4];
static void f_force(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = FORCE[3] + FORCE[0]*x[3*i] + FORCE[1]*x[3*i+1] + FORCE[2]*x[3*i+2]; }
static int FORCED; static PetscErrorCode with_force(TDy t) { return FORCED ? TDySetForcingFunction(t, f_force) : 0; }
static void run_steady(prob *qq) {
  prob q = *qq; int geom = q.geom; flow f; Mat M = NULL; Vec B = NULL; double sc = 1e-12*5000/9.94e-4*998;
  FORCE[0] = 1e-9; FORCE[1] = -2e-9; FORCE[2] = 3e-9; FORCE[3] = 5e-9;
  MORE_SETTINGS = with_force; PetscErrorCode e = flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt); MORE_SETTINGS = NULL;
  if (e) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  VH_CHK(TDyCreateMatrix(f.tdy, &M)); VecDuplicate(f.U, &B);
  for (int rep = 0; rep < 2; ++rep) {
    VecSet(B, 0.0);
    if (TDyMPFAOComputeSystem(f.tdy, M, B)) { vh_fail("error", "system: %s", vh_errmsg); break; }
    VecAssemblyBegin(B); VecAssemblyEnd(B); vh_trans(1);
    for (int m = 0; m < f.nc+2; ++m) {
      double P[MAXC], R[MAXC], A[MAXC], b[MAXC]; uint64_t o = vh_h0();
      for (int c = 0; c < f.nc; ++c) P[c] = PREF + 9000 + (m < f.nc ? (c == m ? 5000 : 0) : m == f.nc ? 700*c : 4000*((c*5)%3));
      flow_prev(&f, P);
      if (flow_res(&f, P, R)) break;
      VH_CHK(MatMult(M, f.U, f.R)); flow_get(&f, f.R, A); flow_get(&f, B, b);
      vh_state(vh_hi(vh_hi(phash(&q), m), rep+2*FORCED));
      for (int c = 0; c < f.nc; ++c) {
        PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL); double src = 0;
        if (FORCED) { f_force(1, geom == G_PERT || geom == G_TAPER ? x : f.cen[c], &src); src *= v; }
        double got = (A[c]-b[c]+src)*998/9.94e-4; o = vh_hd(o, got);
        if (!(fabs(got-R[c]) <= 1e-9*sc)) vh_fail("system", "assembly %d state %d cell %d: the steady system says %.10g, the flow residual %.10g (flux scale %g)", rep, m, c, got, R[c], sc);
      }
      vh_outcome(o);
    }
  }
  MatDestroy(&M); VecDestroy(&B); flow_destroy(&f);
}
static void g_steady(void) {
  prob q;
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_PERT; ++geom) for (int kk = K_ISO; kk <= K_FULLNEG; ++kk) for (int z = 0; z < (vh_thorough ? 12 : 11); ++z) for (FORCED = 0; FORCED < 2; ++FORCED) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.bc = B_DIR; q.pb = 2; q.grav = 0; q.rho = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (vh_case("steady %s%s", FORCED ? "source " : "", pname(&q))) run_steady(&q);
  }
  FORCED = 0;
  for (int geom = G_BOX; geom <= G_PERT; ++geom) for (int kk = K_HDIAG; kk <= K_FULLNEG; ++kk) for (int z = 0; z < (vh_thorough ? 10 : 8); ++z) {
    begin(&q); q.geom = geom; q.kk = kk; q.bc = B_DIR; q.pb = 2; q.grav = 0; q.rho = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    for (q.rot = 1; q.rot < 24; ++q.rot) if (vh_case("steady %s turned %d", pname(&q), q.rot)) run_steady(&q);
    q.rot = 0;
    int nv = (q.n[0]+1)*(q.n[1]+1)*(q.n[2]+1);
    for (q.perm_kind = 1; q.perm_kind <= 3; ++q.perm_kind) for (q.perm_i = 0; q.perm_i < (q.perm_kind == 3 ? nv : 11); ++q.perm_i) for (q.perm_j = q.perm_i ? q.perm_i+1 : -1; q.perm_j < (q.perm_kind == 3 ? nv : 11); ++q.perm_j) {
      if (q.perm_j == q.perm_i || (!vh_thorough && (geom == G_STRETCH || geom == G_TAPER || (z > 2 && q.perm_j > q.perm_i+1)))) continue;
      if (vh_case("steady %s renumbered %d: %d %d", pname(&q), q.perm_kind, q.perm_i, q.perm_j)) run_steady(&q);
    }
    q.perm_kind = 0;
  }
}

/* ---------------------------------------------------------------------------------------------------- C15: Jacobian */
typedef int (*resfun)(flow*, const double*, double*, void*);
static int snes_res(flow *f, const double *x, double *r, void *c) { return flow_res(f, x, r); }
static void cmp_jac(flow *f, int n, const double *P, const double *hs, const double *J, resfun F, void *ctx) {
  double Rp[2*MAXC], Rm[2*MAXC], Qp[2*MAXC], Qm[2*MAXC], R0[2*MAXC], X[2*MAXC];
  if (F(f, P, R0, ctx)) return;
  for (int j = 0; j < n; ++j) {
    memcpy(X, P, n*sizeof(double)); double h = hs[j];
    X[j] = P[j]+h; if (F(f, X, Rp, ctx)) return;
    double hp = X[j]-P[j];
    X[j] = P[j]-h; if (F(f, X, Rm, ctx)) return;
    double hm = P[j]-X[j], sc = 0;
    X[j] = P[j]+h/2; if (F(f, X, Qp, ctx)) return;
    double kp = X[j]-P[j];
    X[j] = P[j]-h/2; if (F(f, X, Qm, ctx)) return;
    double km = P[j]-X[j];
    for (int i = 0; i < n; ++i) { double c = fabs((Rp[i]-Rm[i])/(hp+hm)); if (c > sc) sc = c; if (fabs(J[i*n+j]) > sc) sc = fabs(J[i*n+j]); }
    for (int i = 0; i < n; ++i) {
      double c = (Rp[i]-Rm[i])/(hp+hm), a = (Rp[i]-R0[i])/hp, b = (R0[i]-Rm[i])/hm, v = J[i*n+j];
      double noise = 4e-15*fmax(fabs(R0[i]), 0.1)/h, tol = 1e-5*sc + noise;
      double c2 = (Qp[i]-Qm[i])/(kp+km), cr = (4*c2-c)/3;   /* extrapolated */
      if (fabs(v-c) <= tol || fabs(v-cr) <= tol + 2*noise) continue;
      /* at a kink (the two one-sided derivatives differ) either side is a derivative */
      if (fabs(a-b) > 1e-3*fmax(fabs(a),fabs(b)) && fabs(a-b) > 4*noise && (fabs(v-a) <= 2e-3*sc+noise || fabs(v-b) <= 2e-3*sc+noise)) continue;
      vh_fail("jacobian", "d R%d / d P%d = %.9g, difference quotients %.9g %.9g %.9g (P%d=%.10g P%d=%.10g)", i, j, v, a, c, b, i, P[i], j, P[j]);
    }
  }
}
static void g_jac(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = 0; geom <= G_PERT; ++geom) for (int kk = 0; kk <= K_FULLNEG; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 3; ++bc) for (int pb = 0; pb < 3; ++pb)
  for (int z = 0; z < 10; ++z) {
    if (bc == B_NEU && pb) continue;
    if (!vh_thorough) {
      if (geom == G_STRETCH || geom == G_TAPER || geom == G_SHEAR) { if (disc != D_MPFAO || kk != K_HDIAG) continue; }
      if (kk == K_ISO || kk == K_DIAG || kk == K_HISO || (kk == K_FULLNEG && disc)) continue;
      if (z == 4 || z == 5 || z == 8 || (z >= 6 && (rho == 0 || pb == 1 || (kk != K_FULL && geom)))) continue;
    }
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.pb = pb; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("jacobian %s", pname(&q))) continue;
    flow f;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    uint64_t h0 = phash(&q);
    int s[MAXC] = {0}, base = nstates(q.n, vh_thorough ? 700 : 40); if (base == 6) base = 5; static const int alph[6] = {0,1,2,4,3,5};
    double P0[MAXC]; for (int c = 0; c < f.nc; ++c) P0[c] = pv((c+1)%5, c);
    flow_prev(&f, P0);
    long k = 0;
    do {
      double P[MAXC], R[MAXC], J[MAXC*MAXC], hs[MAXC]; uint64_t h = h0, o = vh_h0();
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(alph[s[c]], c); h = vh_hi(h, s[c]); hs[c] = alph[s[c]] == 3 ? 1e4 : 1.0; }
      vh_state(h);
      if (flow_res(&f, P, R) || flow_jac(&f, P, J)) break;
      for (int i = 0; i < f.nc*f.nc; ++i) o = vh_hd(o, J[i]);
      vh_outcome(o);
      cmp_jac(&f, f.nc, P, hs, J, snes_res, NULL);
    } while (++k < 100000 && next_state(s, f.nc, base));
    flow_destroy(&f);
  }
}
/* ------------------------------------------------------------------------------- TS forms: C15 (Jacobian) and C17 */
typedef struct { double *V; double shift; const double *base; } tsctx;
static int ts_setup(prob *q, flow *f) {
  if (flow_create(q, f, RICHARDS)) return 1;
  TSCreate(PETSC_COMM_WORLD, &f->ts); TSSetDM(f->ts, f->dm); TSSetType(f->ts, TSBEULER); TSSetSolution(f->ts, f->U);
  if (TDySetIFunction(f->ts, f->tdy)) return 1;
  if (TDySetIJacobian(f->ts, f->tdy)) return 1;
  return 0;
}
static int ts_res(flow *f, const double *x, const double *v, double *r) {
  Vec V; VecDuplicate(f->U, &V); flow_put(f, V, v); flow_put(f, f->U, x); VecSet(f->R, 7777.0);
  PetscErrorCode ierr = TSComputeIFunction(f->ts, 0.0, f->U, V, f->R, PETSC_FALSE);
  VecDestroy(&V);
  if (ierr) { vh_fail("error", "ifunction: %d %s", ierr, vh_errmsg); return 1; }
  flow_get(f, f->R, r); vh_trans(1);
  return 0;
}
static int ts_shifted(flow *f, const double *x, double *r, void *c) {
  tsctx *t = (tsctx*)c; double V[MAXC];
  for (int i = 0; i < f->nc; ++i) V[i] = t->V[i] + t->shift*(x[i]-t->base[i]);
  return ts_res(f, x, V, r);
}
static void g_tsjac(void) {
  prob q;
  for (int disc = 0; disc < 2; ++disc) for (int geom = 0; geom <= G_PERT; ++geom) for (int kk = 0; kk <= K_FULL; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 3; ++bc) for (int z = 0; z < 8; ++z) {
    if (!vh_thorough && ((geom != G_BOX && geom != G_SHEAR) || (kk != K_HDIAG && kk != K_FULL) || z >= 4)) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.pb = 0; q.form = 1; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("ijacobian %s", pname(&q))) continue;
    flow f;
    if (ts_setup(&q, &f)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    int s[MAXC] = {0}, base = nstates(q.n, vh_thorough ? 300 : 25); if (base == 6) base = 5; static const int alph[6] = {0,1,2,4,3,5};
    uint64_t h0 = phash(&q);
    do {
      double P[MAXC], V[MAXC], R[MAXC], J[MAXC*MAXC], hs[MAXC]; uint64_t h = h0;
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(alph[s[c]], c); h = vh_hi(h, s[c]); V[c] = 3.0*(c%2 ? -1 : 1)*(1+c); hs[c] = alph[s[c]] == 3 ? 1e4 : 1.0; }
      vh_state(h);
      Mat A, B; Vec W;
      if (ts_res(&f, P, V, R)) break;
      TSGetIJacobian(f.ts, &A, &B, NULL, NULL);
      VecDuplicate(f.U, &W); flow_put(&f, W, V); flow_put(&f, f.U, P);
      PetscErrorCode ierr = TSComputeIJacobian(f.ts, 0.0, f.U, W, 1.0/q.dt, A, B, PETSC_FALSE); vh_trans(1);
      VecDestroy(&W);
      if (ierr) { vh_fail("error", "ijacobian %d %s", ierr, vh_errmsg); break; }
      for (int i = 0; i < f.nc; ++i) {
        PetscInt nc; const PetscInt *c; const PetscScalar *v;
        for (int j = 0; j < f.nc; ++j) J[i*f.nc+j] = 0;
        MatGetRow(B, i, &nc, &c, &v); for (int k = 0; k < nc; ++k) J[i*f.nc+c[k]] = v[k]; MatRestoreRow(B, i, &nc, &c, &v);
      }
      uint64_t o = vh_h0(); for (int i = 0; i < f.nc*f.nc; ++i) o = vh_hd(o, J[i]); vh_outcome(o);
      tsctx t = {V, 1.0/q.dt, P};
      cmp_jac(&f, f.nc, P, hs, J, ts_shifted, &t);
    } while (next_state(s, f.nc, base));
    flow_destroy(&f);
  }
}
static void g_forms(void) {
  prob q, q1, q2;
  for (int disc = 0; disc < 2; ++disc) for (int geom = 0; geom <= G_PERT; ++geom) for (int kk = 0; kk <= K_FULL; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 3; ++bc) for (int z = 0; z < 10; ++z) {
    if (!vh_thorough && ((geom != G_STRETCH && geom != G_SHEAR) || (kk != K_HDIAG && kk != K_FULL) || (z >= 4 && z != 6))) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.pb = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("forms %s", pname(&q))) continue;
    q1 = q; q1.form = 1; q2 = q; q2.form = 2;
    flow f, g, t;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, q.dt) || ts_setup(&q1, &g) || ts_setup(&q2, &t)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    uint64_t h0 = phash(&q);
    int s[MAXC] = {0}, base = nstates(q.n, vh_thorough ? 300 : 25); if (base == 6) base = 5;
    Vec C; VecDuplicate(t.U, &C);
    do {
      double P[MAXC], P0[MAXC], R[MAXC], A[MAXC], B[MAXC], T[MAXC], Z[MAXC] = {0}, V[MAXC], M[MAXC], M0[MAXC], dM[MAXC], Mp[MAXC], sc = 0; uint64_t h = h0, o = vh_h0();
      for (int c = 0; c < f.nc; ++c) { P[c] = pv(s[c], c); h = vh_hi(h, s[c]); P0[c] = pv((s[c]+1+c)%5, c); V[c] = 2.0 + c; }
      vh_state(h);
      flow_prev(&f, P0); if (flow_res(&f, P, R)) break;
      if (ts_res(&g, P, Z, A) || ts_res(&g, P, V, B)) break;
#define TV(x, out) do { flow_put(&t, t.U, x); VecSet(C, 7777.); VH_CHK(TSComputeTransientVariable(t.ts, t.U, C)); flow_get(&t, C, out); vh_trans(1); } while (0)
      TV(P0, M0); TV(P, M);
      double W[MAXC]; for (int c = 0; c < f.nc; ++c) W[c] = (M[c]-M0[c])/q.dt;
      if (ts_res(&t, P, W, T)) break;
      double X[MAXC], hh[MAXC];
      for (int c = 0; c < f.nc; ++c) { hh[c] = P[c] < -1e8 ? 1e4 : 0.5; X[c] = P[c] + hh[c]; } TV(X, Mp);
      for (int c = 0; c < f.nc; ++c) { X[c] = P[c] - hh[c]; } TV(X, dM);
      for (int c = 0; c < f.nc; ++c) { dM[c] = (Mp[c]-dM[c])/(2*hh[c]); PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL); f.vol[c] = v; sc = fmax(sc, fmax(fabs(A[c]), fabs(W[c]*f.vol[c]))); }
      for (int c = 0; c < f.nc; ++c) {
        PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f.dm, c, &v, x, NULL);
        cellp p = ref_cell(&q, P[c], sr_at(x));
        o = vh_hd(o, R[c]);
        if (!(fabs(M[c] - phi_at(x)*p.rho*p.S) <= 1e-10*fabs(M[c]))) vh_fail("mass", "cell %d: transient variable %.12g, mass per volume %.12g", c, M[c], phi_at(x)*p.rho*p.S);
        /* the backward Euler step with the transient variable is the step of the nonlinear form */
        if (!(fabs(R[c]-T[c]) <= 1e-9*sc + 1e-15)) vh_fail("forms", "cell %d: nonlinear-solver form %.12g, transient-variable form %.12g", c, R[c], T[c]);
        /* flux part of the time-derivative form */
        if (!(fabs(R[c] - (A[c] + W[c]*v)) <= 1e-9*sc + 1e-15)) vh_fail("forms", "cell %d: nonlinear-solver form %.12g, flux of the time-derivative form plus storage %.12g", c, R[c], A[c] + W[c]*v);
        double d = (B[c]-A[c])/(V[c]*v);
        if (s[c] != 5 && !(fabs(d-dM[c]) <= 1e-5*fabs(dM[c]) + 1e-14*fabs(M[c])/hh[c] + 1e-12*fabs(A[c]))) vh_fail("storage", "cell %d P=%.9g: storage coefficient %.9g, derivative of the mass %.9g", c, P[c], d, dM[c]);
      }
      vh_outcome(o);
    } while (next_state(s, f.nc, base));
    VecDestroy(&C);
    flow_destroy(&f); flow_destroy(&g); flow_destroy(&t);
  }
}

/* ------------------------------------------------------------------------------------------- C16: boundary conditions */
static void g_bc(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_STRETCH; ++geom) for (int kk = K_ISO; kk <= K_HDIAG; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 3; ++bc) for (int pb = 0; pb < 6; ++pb)
  for (int z = 0; z < (vh_thorough ? 12 : 10); ++z) {
    if (pb == 3 || pb == 4 || (bc == B_NEU && pb)) continue;
    if (!vh_thorough && z >= 4 && (kk < K_HDIAG || rho != 1)) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.pb = pb; memcpy(q.n, SIZES[z], sizeof q.n);
    if (vh_case("bc %s", pname(&q))) run_ref(&q, nstates(q.n, vh_thorough ? 3000 : 70), 1);
  }
}
/* every assignment of the three types to the six sides (two-point fluxes take a type per face) */
static void g_sides(void) {
  prob q;
  for (int z = 0; z < (vh_thorough ? 7 : 3); ++z) for (int a = 0; a < 729; ++a) {
    begin(&q); q.disc = D_FVTPF; q.geom = G_STRETCH; q.kk = K_HDIAG; q.rho = 1; q.bc = B_SIDES; q.pb = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    for (int d = 0, k = a; d < 6; ++d, k /= 3) q.sides[d] = k % 3;
    if (!vh_thorough && z && a % 3) continue;
    if (vh_case("sides %s", pname(&q))) run_ref(&q, z ? (vh_thorough ? 5 : 3) : 6, 1);
  }
}

/* ------------------------------------------------------------------------------------------- C27: numbering, orientation */
static int find_cell(const flow *f, const double *x) {
  int b = -1; double bd = 1e30;
  for (int c = 0; c < f->nc; ++c) { double d = 0; for (int e = 0; e < 3; ++e) d += pow(f->cen[c][e]-x[e], 2); if (d < bd) { bd = d; b = c; } }
  return bd < 1e-16 ? b : -1;
}
static void compare(prob *q0, prob *q1, int base) {
  flow f, g;
  if (flow_create(q0, &f, RICHARDS) || flow_snes(&f, q0->dt)) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  if (flow_create(q1, &g, RICHARDS) || flow_snes(&g, q1->dt)) { vh_fail("error", "setup of the other numbering: %s", vh_errmsg); return; }
  int m[MAXC], s[MAXC] = {0}; uint64_t h0 = phash(q1);
  if (f.nc != g.nc) { vh_fail("cells", "%d cells, %d cells", f.nc, g.nc); return; }
  for (int c = 0; c < f.nc; ++c) { m[c] = find_cell(&g, f.cen[c]); if (m[c] < 0) { vh_fail("cells", "cell %d has no counterpart", c); return; } }
  do {
    double P[MAXC], Q[MAXC], P0[MAXC], Q0[MAXC], R[MAXC], S[MAXC], sc = 1e-12; uint64_t h = h0, o = vh_h0();
    for (int c = 0; c < f.nc; ++c) { P[c] = pv(s[c], c); P0[c] = pv((s[c]+c)%3, c); h = vh_hi(h, s[c]); Q[m[c]] = P[c]; Q0[m[c]] = P0[c]; }
    vh_state(h);
    flow_prev(&f, P0); if (flow_res(&f, P, R)) break;
    flow_prev(&g, Q0); if (flow_res(&g, Q, S)) break;
    for (int c = 0; c < f.nc; ++c) { sc = fmax(sc, fabs(R[c])); o = vh_hd(o, R[c]); }
    vh_outcome(o);
    for (int c = 0; c < f.nc; ++c) if (!(fabs(R[c]-S[m[c]]) <= 1e-9*sc)) vh_fail("numbering", "cell at (%g %g %g): residual %.12g, renumbered %.12g", f.cen[c][0], f.cen[c][1], f.cen[c][2], R[c], S[m[c]]);
  } while (next_state(s, f.nc, base));
  flow_destroy(&f); flow_destroy(&g);
}
static void g_rot(void) {
  prob q, r;
  for (int disc = 0; disc < 3; ++disc) for (int geom = 0; geom <= G_TAPER; ++geom) for (int kk = 0; kk <= K_FULLNEG; ++kk) for (int bc = 0; bc < 3; ++bc) for (int z = 0; z < 10; ++z) for (int k = 1; k < 24; ++k) {
    if (!vh_thorough && ((kk != K_HDIAG && kk != K_FULL) || (z != 0 && z != 1 && z != 6 && z != 9) || (z == 9 && (geom == G_BOX || bc == B_SEEP)) || geom == G_STRETCH)) continue;
    if (!vh_thorough && z == 9 && k % 4) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = 1; q.bc = bc; q.pb = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    r = q; r.rot = k;
    if (vh_case("rotation %d %s", k, pname(&q))) compare(&q, &r, nstates(q.n, vh_thorough ? 260 : 16) > 4 ? 4 : 2);
  }
}
static void g_renum(void) {
  prob q, r;
  static const int NE[] = {8, 36, 27};   /* upper bounds; indices wrap */
  for (int disc = 0; disc < 3; ++disc) for (int geom = G_BOX; geom <= G_SHEAR; ++geom) for (int bc = 0; bc < 3; bc++) for (int z = 1; z < 10; ++z) for (int kind = 1; kind <= 3; ++kind) {
    int nc = SIZES[z][0]*SIZES[z][1]*SIZES[z][2], nx = SIZES[z][0], ny = SIZES[z][1], nz = SIZES[z][2];
    int cnt[4] = {0, nc, (nx+1)*ny*nz + nx*(ny+1)*nz + nx*ny*(nz+1), (nx+1)*(ny+1)*(nz+1)};
    if (geom == G_STRETCH) continue;
    if (!vh_thorough && ((z != 1 && z != 6) || bc == B_SEEP || (kind > 1 && z == 6 && geom))) continue;
    for (int i = 0; i < cnt[kind]; ++i) for (int j = -1; j < cnt[kind]; ++j) {
      if (j >= 0 && j <= i) continue;
      if (j < 0 && i) continue;
      if (vh_thorough && kind > 1 && z > 7 && j > i+2) continue;
      if (!vh_thorough && kind > 1 && j > i+1 && (i+j)%3) continue;
      begin(&q); q.disc = disc; q.geom = geom; q.kk = K_HDIAG; q.rho = 1; q.bc = bc; q.pb = 0; memcpy(q.n, SIZES[z], sizeof q.n);
      r = q; r.perm_kind = kind; r.perm_i = i; r.perm_j = j;
      if (vh_case("renumber %s %d %d %s", kind == 1 ? "cells" : kind == 2 ? "faces" : "vertices", i, j, pname(&q))) compare(&q, &r, 2);
    }
  }
  (void)NE;
}

/* ------------------------------------------------------------------------------------------------------ C28: no memory */
enum { A_F0, A_F1, A_F2, A_F3 /* next to state 1 */, A_J0, A_J1, A_J2, A_PRE0, A_PRE1, A_DIAG, A_SETP, NACT };
static const char *AN[] = {"F0","F1","F2","F3","J0","J1","J2","pre0","pre1","diag","dt"};
static void g_memory(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int bc = 0; bc < 3; ++bc) for (int rho = 0; rho < 2; ++rho) for (int z = 0; z < 2; ++z) for (int a0 = 0; a0 < NACT; ++a0) {
    begin(&q); q.disc = disc; q.geom = z ? G_SHEAR : G_STRETCH; q.kk = K_HDIAG; q.rho = rho; q.bc = bc; q.pb = 0; memcpy(q.n, SIZES[z ? 6 : 1], sizeof q.n);
    if (!vh_case("memory first=%s %s", AN[a0], pname(&q))) continue;
    double ST[4][MAXC], F[2][2][4][MAXC], JJ[2][2][3][MAXC*MAXC], DT[2] = {3600, 900};
    flow f;
    /* what a fresh dycore gives, for each previous state and step */
    int bad = 0, nc = q.n[0]*q.n[1]*q.n[2];
    for (int k = 0; k < 3; ++k) for (int c = 0; c < nc; ++c) ST[k][c] = pv((k+2*c)%5 == 3 ? 0 : (k+2*c)%5, c+k);
    for (int c = 0; c < nc; ++c) ST[3][c] = ST[1][c] + (c%2 ? -1 : 1)*(c%3 == 0 ? 40 : c%3 == 1 ? 0.7 : 0.01);
    for (int p = 0; p < 2 && !bad; ++p) for (int d = 0; d < 2 && !bad; ++d) for (int k = 0; k < 4 && !bad; ++k) {
      if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, DT[d])) { vh_fail("error", "setup: %s", vh_errmsg); bad = 1; break; }
      flow_prev(&f, ST[p]);
      bad |= flow_res(&f, ST[k], F[p][d][k]) || (k < 3 && flow_jac(&f, ST[k], JJ[p][d][k]));
      flow_destroy(&f);
    }
    if (bad) continue;
    if (flow_create(&q, &f, RICHARDS) || flow_snes(&f, DT[0])) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    int L = vh_thorough ? 5 : 4, idx[6]; uint64_t h0 = phash(&q);
    for (int k = 0; k < L; ++k) idx[k] = 0;
    idx[0] = a0;
    for (;;) {
      int p = 0, d = 0, last = -1, dirty = 0; uint64_t h = h0;
      VH_CHK(TDySetDtimeForSNESSolver(f.tdy, DT[0])); flow_prev(&f, ST[0]);
      for (int k = 0; k < L; ++k) {
        int a = idx[k]; double R[MAXC], J[MAXC*MAXC];
        h = vh_hi(h, a); vh_state(h);
        if (a <= A_F3) {
          if (flow_res(&f, ST[a], R)) break;
          last = a; (void)dirty;
          for (int c = 0; c < nc; ++c) if (R[c] != F[p][d][a][c]) vh_fail("memory", "after %s %s %s %s %s: residual of state %d cell %d is %.17g, %.17g when evaluated alone", AN[idx[0]], k>0?AN[idx[1]]:"", k>1?AN[idx[2]]:"", k>2?AN[idx[3]]:"", k>3?AN[idx[4]]:"", a, c, R[c], F[p][d][a][c]);
        } else if (a <= A_J2) {
          if (last != a-A_J0) { /* the solver evaluates the residual first */ if (flow_res(&f, ST[a-A_J0], R)) break; last = a-A_J0; }
          if (flow_jac(&f, ST[a-A_J0], J)) break;
          for (int c = 0; c < nc*nc; ++c) if (J[c] != JJ[p][d][a-A_J0][c]) vh_fail("memory", "after %s %s %s %s: Jacobian entry %d at state %d is %.17g, %.17g when evaluated alone", AN[idx[0]], k>0?AN[idx[1]]:"", k>1?AN[idx[2]]:"", k>2?AN[idx[3]]:"", c, a-A_J0, J[c], JJ[p][d][a-A_J0][c]);
        } else if (a <= A_PRE1) { p = a-A_PRE0; flow_prev(&f, ST[p]); last = -1; }
        else if (a == A_DIAG) { VH_CHK(TDyUpdateDiagnostics(f.tdy)); }
        else { d = 1-d; VH_CHK(TDySetDtimeForSNESSolver(f.tdy, DT[d])); flow_prev(&f, ST[p]); last = -1; }
      }
      int k = L-1; while (k > 0 && ++idx[k] == NACT) idx[k--] = 0;
      if (k == 0) break;
    }
    flow_destroy(&f);
  }
}

/* --------------------------------------------------------------------------------------------------- C19: diagnostics */
enum { G_F0, G_F1, G_F2, G_F3, G_PRE0, G_PRE1, G_POST, G_DT, G_UPD, NG };
static const char *GA[] = {"F0","F1","F2","F3","pre0","pre1","post","dt","update"};
static int diag_is(flow *f, prob *q, const double *st, const double *acc, const char *hist) {
  Vec v; double a[MAXC]; uint64_t o = vh_h0();
  if (TDyCreateDiagnosticVector(f->tdy, &v)) { vh_fail("error", "%s", vh_errmsg); return 1; }
  if (st) {
    VecSet(v, 7777.0); VH_CHK(TDyGetLiquidSaturation(f->tdy, v)); flow_get(f, v, a);
    for (int c = 0; c < f->nc; ++c) { PetscReal V, x[3]; DMPlexComputeCellGeometryFVM(f->dm, c, &V, x, NULL); cellp p = ref_cell(q, st[c], sr_at(x)); o = vh_hd(o, a[c]);
      if (!(fabs(a[c]-p.S) <= 1e-10)) vh_fail("saturation", "%s: cell %d at P=%.10g reported saturation %.12g, curve %.12g", hist, c, st[c], a[c], p.S); }
    VecSet(v, 7777.0); VH_CHK(TDyGetLiquidMass(f->tdy, v)); flow_get(f, v, a);
    for (int c = 0; c < f->nc; ++c) { PetscReal V, x[3]; DMPlexComputeCellGeometryFVM(f->dm, c, &V, x, NULL); cellp p = ref_cell(q, st[c], sr_at(x));
      double m = p.rho*phi_at(x)*p.S*V; o = vh_hd(o, a[c]);
      if (!(fabs(a[c]-m) <= 1e-9*fabs(m))) vh_fail("mass", "%s: cell %d at P=%.10g reported mass %.12g, density*porosity*saturation*volume %.12g", hist, c, st[c], a[c], m); }
  }
  VecDestroy(&v);
  if (acc) {
    if (TDyCreatePrognosticVector(f->tdy, &v)) { vh_fail("error", "%s", vh_errmsg); return 1; }
    VecSet(v, 7777.0); VH_CHK(TDyGetLiquidPressure(f->tdy, v)); flow_get(f, v, a);
    for (int c = 0; c < f->nc; ++c) { o = vh_hd(o, a[c]); if (a[c] != acc[c]) vh_fail("pressure", "%s: cell %d reported pressure %.17g, accepted %.17g", hist, c, a[c], acc[c]); }
    VecDestroy(&v);
  }
  vh_outcome(o); vh_trans(3);
  return 0;
}
static void g_diag(void) {
  prob q;
  for (int disc = 0; disc < 3; ++disc) for (int geom = 0; geom <= G_PERT; ++geom) for (int rho = 0; rho < 3; ++rho) for (int z = 0; z < 10; ++z) for (int a0 = 0; a0 < NG-1; ++a0) {
    if (!vh_thorough && ((z != 1 && z != 6 && z != 9) || (z == 9 && rho != 1) || (z == 1 && geom < G_SHEAR))) continue;
    begin(&q); q.disc = disc; q.geom = geom; q.kk = K_HDIAG; q.rho = rho; q.bc = a0 % 3; q.pb = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("diagnostics first=%s %s", GA[a0], pname(&q))) continue;
    flow f;
    if (flow_create(&q, &f, RICHARDS)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    DMSetUseNatural(f.dm, PETSC_TRUE);
    if (flow_snes(&f, q.dt)) { vh_fail("error", "setup: %s", vh_errmsg); continue; }
    double ST[4][MAXC]; uint64_t h0 = phash(&q);
    for (int k = 0; k < 4; ++k) for (int c = 0; c < f.nc; ++c) ST[k][c] = pv((k+2*c)%6, c);
    int L = vh_thorough ? 4 : 3, idx[8] = {a0}; 
    for (;;) {
      const double *ev = ST[0], *acc = ST[0], *rep = NULL; uint64_t h = h0; char hist[128] = ""; int eval = -1;
      flow_prev(&f, ST[0]);
      for (int k = 0; k < L; ++k) {
        int a = idx[k]; double R[MAXC];
        h = vh_hi(h, a); vh_state(h); strcat(hist, GA[a]); strcat(hist, " ");
        if (a <= G_F3) { if (flow_res(&f, ST[a], R)) break; ev = ST[a]; eval = a; }
        else if (a == G_PRE0 || a == G_PRE1) { flow_prev(&f, ST[a-G_PRE0+1]); ev = acc = ST[a-G_PRE0+1]; eval = a-G_PRE0+1; }
        else if (a == G_POST) { flow_put(&f, f.U, ev); VH_CHK(TDyPostSolve(f.tdy, f.U)); acc = ev; }
        else if (a == G_DT) VH_CHK(TDySetDtimeForSNESSolver(f.tdy, k % 2 ? 900 : 3600));
        else { VH_CHK(TDyUpdateDiagnostics(f.tdy)); rep = ev; }
        if (a >= G_POST) { if (diag_is(&f, &q, rep, acc, hist)) break; }
      }
      (void)eval;
      VH_CHK(TDyUpdateDiagnostics(f.tdy)); diag_is(&f, &q, ev, acc, hist);
      int k = L-1; while (k > 0 && ++idx[k] == NG) idx[k--] = 0;
      if (k == 0) break;
    }
    flow_destroy(&f);
  }
}

int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv);
  if (!vh_verbose) freopen("/dev/null", "w", stdout);
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot();
  if (vh_grp("closed")) g_closed_ref();
  else if (vh_grp("conserve")) g_closed_any();
  else if (vh_grp("step")) g_step();
  else if (vh_grp("exact")) g_exact(); else if (vh_grp("steady")) g_steady();
  else if (vh_grp("jac")) g_jac();
  else if (vh_grp("tsjac")) g_tsjac();
  else if (vh_grp("forms")) g_forms();
  else if (vh_grp("bc")) g_bc();
  else if (vh_grp("sides")) g_sides();
  else if (vh_grp("rot")) g_rot();
  else if (vh_grp("renum")) g_renum();
  else if (vh_grp("memory")) g_memory();
  else if (vh_grp("diag")) g_diag();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
