/* C10: time stepping. The nonlinear solver is replaced by one that follows a prescribed pattern of convergence and
   failure and observes, through the residual, which step size and previous solution each attempt is made with. */
#include "flow.h"
#include <private/tdytiimpl.h>

enum { MAXA = 100 };
typedef struct { double dt, mprev, guess; int ok; } attempt;
static struct { attempt a[MAXA+1]; int n, pos; const char *pat; int npat; int nacc; flow *f; prob *q; int bad; } W;

static double cell_mass(prob *q, flow *f, double P) {
  cellp p = ref_cell(q, P, sr_at(f->cen[0])); return p.rho*p.S*phi_at(f->cen[0])*f->vol[0];
}
static double PA(int k) { return 60000 + 1700.0*k; }                 /* the k-th accepted solution */
static PetscErrorCode scripted(SNES snes, Vec x) {
  PetscErrorCode ierr; const PetscScalar *a; Vec y, r; double R[2]; static const double X[2] = {50000, 90000};
  attempt *t = &W.a[W.n];
  ierr = VecGetArrayRead(x, &a); if (ierr) return ierr;
  t->guess = a[0]; VecRestoreArrayRead(x, &a);
  VecDuplicate(x, &y); VecDuplicate(x, &r);
  for (int k = 0; k < 2; ++k) {
    VecSet(y, X[k]);
    ierr = SNESComputeFunction(snes, y, r); if (ierr) return ierr;
    VecGetArrayRead(r, &a); R[k] = a[0]; VecRestoreArrayRead(r, &a);
  }
  VecDestroy(&y); VecDestroy(&r);
  double m0 = cell_mass(W.q, W.f, X[0]), m1 = cell_mass(W.q, W.f, X[1]);
  t->dt = (m1-m0)/(R[1]-R[0]); t->mprev = m0 - R[0]*t->dt;
  t->ok = W.pos >= W.npat || W.pat[W.pos] == 'S';
  W.pos++;
  if (W.n < MAXA) W.n++; else { W.bad = 1; t->ok = 0; }     /* beyond the bound: refuse every further step */
  vh_trans(1);
  if (t->ok) { VecSet(x, PA(++W.nacc)); ierr = SNESSetConvergedReason(snes, SNES_CONVERGED_FNORM_RELATIVE); }
  else { VecSet(x, W.n % 2 ? 3e9 : NAN); ierr = SNESSetConvergedReason(snes, W.n % 3 ? SNES_DIVERGED_LINE_SEARCH : SNES_DIVERGED_LINEAR_SOLVE); }
  return ierr;
}
typedef struct { double init, max, grow, red; int have_max; } control;
static int ti_create(prob *q, flow *f, const control *c, const char *method) {
  char b[64]; PetscErrorCode ierr;
  memset(f, 0, sizeof *f); CUR = q;
#define OPT(n, v) do { snprintf(b, sizeof b, "%.17g", v); set_opt(n, b); } while (0)
  OPT("-tdy_dt_init", c->init); OPT("-tdy_dt_growth_factor", c->grow); OPT("-tdy_dt_reduction_factor", c->red);
  if (c->have_max) OPT("-tdy_dt_max", c->max); else PetscOptionsClearValue(NULL, "-tdy_dt_max");
  OPT("-tdy_gravity", 0.0); set_opt("-tdy_water_density", "EXPONENTIAL");
  set_opt("-tdy_time_integration_method", method);
  set_opt("-tdy_mpfao_boundary_condition_type", "NEUMANN_BC");
  if ((ierr = TDyCreate(PETSC_COMM_WORLD, &f->tdy))) return ierr;
  if ((ierr = TDySetMode(f->tdy, RICHARDS))) return ierr;
  if ((ierr = TDySetDiscretization(f->tdy, q->disc == D_FVTPF ? FV_TPF : MPFA_O))) return ierr;
  if ((ierr = TDySetDMConstructor(f->tdy, q, make_dm))) return ierr;
  if ((ierr = TDySetFromOptions(f->tdy))) return ierr;
  if ((ierr = TDySetPorosityFunction(f->tdy, f_phi))) return ierr;
  if ((ierr = TDySetResidualSaturationFunction(f->tdy, f_sr))) return ierr;
  if ((ierr = TDySetBoundaryPressureFunction(f->tdy, f_pb))) return ierr;
  if ((ierr = TDySetBoundaryPressureTypeFunction(f->tdy, f_bt))) return ierr;
  if ((ierr = TDyDriverInitializeTDy(f->tdy))) return ierr;
  TDyGetDM(f->tdy, &f->dm); DMSetUseNatural(f->dm, PETSC_TRUE);
  PetscInt cs, ce; DMPlexGetHeightStratum(f->dm, 0, &cs, &ce); f->nc = ce-cs;
  for (PetscInt c = cs; c < ce; ++c) { PetscReal v, x[3]; DMPlexComputeCellGeometryFVM(f->dm, c, &v, x, NULL); f->vol[c] = v; for (int d = 0; d < 3; ++d) f->cen[c][d] = x[d]; }
  return 0;
}
static int near(double a, double b, double tol) { return fabs(a-b) <= tol*fmax(fabs(a), fabs(b)); }
static void follow(prob *q, const control *c, const double *T, int nt, const char *pat, int npat, uint64_t h) {
  flow f;
  if (ti_create(q, &f, c, "SNES")) { vh_fail("error", "setup: %s", vh_errmsg); return; }
  SNES s = f.tdy->ti->snes;
  memset(&W, 0, sizeof W); W.f = &f; W.q = q; W.pat = pat; W.npat = npat;
  VH_CHK(SNESSetType(s, SNESSHELL)); VH_CHK(SNESShellSetSolve(s, scripted));
  double t = 0, nat = c->init; int acc = 0, i = 0, stopped = 0;     /* the model: time reached, unshortened step, accepted steps */
  VecSet(f.tdy->soln, PA(0)); VH_CHK(TDySetPreviousSolutionForSNESSolver(f.tdy, f.tdy->soln));
  for (int k = 0; k < nt && !stopped; ++k) {
    if (T[k] < 0) { VH_CHK(TDyTimeIntegratorSetTimeStep(f.tdy, -T[k])); nat = -T[k]; continue; }
    int i0 = W.n, cuts = 0, run = 0;
    PetscErrorCode ierr = TDyTimeIntegratorRunToTime(f.tdy, T[k]);
    h = vh_hi(h, k);
    double d = 0, lim = c->have_max ? c->max : 1e300;
    int fresh = 1;
    for (; i < W.n; ++i) {
      attempt *a = &W.a[i];
      h = vh_hd(h, a->dt); h = vh_hi(h, a->ok); vh_state(h);
      if (fresh) d = fmin(nat, T[k]-t);
      if (!near(a->dt, d, 1e-6)) { vh_fail("step", "%s target %g attempt %d at time %g: step %.9g, expected %.9g", pat, T[k], i-i0, t, a->dt, d); goto out; }
      if (a->dt > lim*(1+1e-6)) { vh_fail("max", "step %g exceeds the maximum %g", a->dt, lim); goto out; }
      if (t + a->dt > T[k]*(1+1e-6)) { vh_fail("overshoot", "step %g from %g passes the target %g", a->dt, t, T[k]); goto out; }
      if (!near(a->mprev, cell_mass(q, &f, PA(acc)), 1e-7)) { vh_fail("previous", "%s attempt %d at time %g is made from mass %.9g, last accepted %.9g", pat, i-i0, t, a->mprev, cell_mass(q, &f, PA(acc))); goto out; }
      if (a->guess != PA(acc)) { vh_fail("guess", "%s attempt %d at time %g starts from pressure %.9g, last accepted %.9g", pat, i-i0, t, a->guess, PA(acc)); goto out; }
      if (a->ok) {
        t += d; acc++; fresh = 1; run = 0;
        nat = fmin((nat > d && t >= T[k]*(1-1e-12) ? nat : d)*c->grow, lim);
      } else { fresh = 0; d *= c->red; nat = d; cuts++; run++; }
    }
    if (W.bad) { vh_count("histories_cut_at_100_attempts", 1); goto out; }
    if (ierr) {
      if (q->disc != D_FVTPF && cuts) { stopped = 1; continue; }        /* cutting is not offered there, and says so */
      if (cuts < 25) { vh_fail("stopped", "%s: stopped after %d cuts: %s", pat, cuts, vh_errmsg); goto out; }
      stopped = 1; vh_count("stopped_with_error", 1); continue;
    }
    if (run >= 25) { vh_fail("stopped", "%s: success after %d failures in a row", pat, run); goto out; }
    double want = fmax(T[k], t);
    if (!near(t, want, 1e-9)) { vh_fail("time", "%s: accepted steps add up to %.12g, target %.12g", pat, t, T[k]); goto out; }
    if (!near(f.tdy->ti->time, want, 1e-12)) { vh_fail("time", "%s: the time is %.17g, target %.17g", pat, f.tdy->ti->time, T[k]); goto out; }
    if (T[k] > t) t = T[k];
    const PetscScalar *a; Vec u = f.tdy->soln; VecGetArrayRead(u, &a);
    if (a[0] != PA(acc)) vh_fail("solution", "%s: the solution is %.9g, last accepted %.9g", pat, a[0], PA(acc));
    VecRestoreArrayRead(u, &a);
  }
  vh_outcome(vh_hi(h, acc));
out:
  VH_CHK(TDyDestroy(&f.tdy));
}
static void mkpat(char *b, int L, int bits) { for (int k = 0; k < L; ++k) b[k] = bits>>k&1 ? 'F' : 'S'; b[L] = 0; }
static const control CT[] = {
  {1, 0, 1.25, 0.5, 0}, {1, 2, 2, 0.5, 1}, {1, 2, 1, 0.25, 1}, {3, 3, 1.5, 0.1, 1}, {0.5, 0, 2, 0.5, 0}, {1, 1.3, 1.25, 0.75, 1}, {2, 100, 3, 0.2, 1}, {0.25, 4, 4, 0.9, 1},
};
static const double TG[][6] = {{5}, {2,5}, {1,1,5}, {5,3,7}, {0.5,5}, {1,2,3,4}, {0.75,-0.5,3}, {10}, {2.5,2.5,2.75,3}, {4,-2,4.5,-1,8}};
static const int NT[] = {1,2,3,3,2,4,3,1,4,5};
static void g_pattern(void) {
  prob q; char b[64]; int L = vh_thorough ? 11 : 8;
  for (int c = 0; c < (int)(sizeof CT/sizeof *CT); ++c) for (int g = 0; g < (int)(sizeof NT/sizeof *NT); ++g) for (int hi = 0; hi < 16; ++hi) {
    if (!vh_case("fvtpf control %d targets %d prefix %d", c, g, hi)) continue;
    memset(&q, 0, sizeof q); q.n[0] = q.n[1] = q.n[2] = 1; q.disc = D_FVTPF; q.bc = B_NEU; q.rho = 1;
    for (int bits = 0; bits < 1<<(L-4); ++bits) { mkpat(b, L, hi | bits<<4); follow(&q, &CT[c], TG[g], NT[g], b, L, vh_hi(vh_hi(vh_h0(), c), g)); }
  }
  for (int c = 0; c < (int)(sizeof CT/sizeof *CT); ++c) for (int g = 0; g < (int)(sizeof NT/sizeof *NT); ++g) for (int hi = 0; hi < 16; ++hi) {
    if (!vh_case("mpfao control %d targets %d pattern %d", c, g, hi)) continue;
    memset(&q, 0, sizeof q); q.n[0] = q.n[1] = q.n[2] = 1; q.disc = D_MPFAO; q.bc = B_NEU; q.rho = 1;
    mkpat(b, 4, hi); follow(&q, &CT[c], TG[g], NT[g], b, 4, vh_hi(vh_hi(vh_h0(), 100+c), g));
  }
}
/* long runs of failures */
static void g_cuts(void) {
  prob q; char b[128];
  for (int c = 0; c < (int)(sizeof CT/sizeof *CT); ++c) for (int g = 0; g < (int)(sizeof NT/sizeof *NT); ++g) for (int lead = 0; lead < 4; ++lead) for (int n = 0; n < 30; ++n) {
    if (CT[c].red < 0.5 && n > 12 && n < 25) continue;               /* steps too small to be told from rounding, or too many to finish */
    if (n > 8 && n < 25 && CT[c].grow < 2) continue;
    if (!vh_case("cuts control %d targets %d after %d: %d", c, g, lead, n)) continue;
    memset(&q, 0, sizeof q); q.n[0] = q.n[1] = q.n[2] = 1; q.disc = D_FVTPF; q.bc = B_NEU; q.rho = 1;
    memset(b, 'S', sizeof b); for (int k = 0; k < n; ++k) b[lead+k] = 'F';
    b[lead+n] = 0; follow(&q, &CT[c], TG[g], NT[g], b, lead+n, vh_hi(vh_hi(vh_hi(vh_h0(), c), g), n));
  }
}
/* the real solver: running to a time in pieces is running to it; both time integration methods reach every target */
static void g_run(void) {
  prob q;
  static const double D[][4] = {{4,8,0,0},{2,4,6,8},{8,0,0,0},{3,8,0,0},{1,1,8,0},{2,8,5,0}};
  for (int disc = 0; disc < 3; ++disc) for (int ts = 0; ts < 2; ++ts) for (int d = 0; d < 6; ++d) for (int bc = 0; bc < 2; ++bc) for (int z = 0; z < 3; ++z) {
    static const int SZ[][3] = {{1,1,1},{1,1,3},{2,2,1}};
    if (disc == D_FVTPF && ts) continue;
    if (!vh_case("run %s %s targets %d bc=%s %dx%dx%d", DN[disc], ts ? "TS" : "SNES", d, BN[bc], SZ[z][0], SZ[z][1], SZ[z][2])) continue;
    memset(&q, 0, sizeof q); memcpy(q.n, SZ[z], sizeof q.n); q.disc = disc; q.bc = bc; q.geom = G_STRETCH;
    set_opt("-ts_type", "beuler"); set_opt("-snes_rtol", "1e-10"); set_opt("-snes_atol", "1e-13"); set_opt("-snes_stol", "1e-14"); set_opt("-ksp_type", "preonly"); set_opt("-pc_type", "lu"); set_opt("-snes_max_it", "30");
    set_opt("-tdy_mpfao_gmatrix_method", disc == D_MPFATPF ? "MPFAO_GMATRIX_TPF" : "MPFAO_GMATRIX_DEFAULT");
    double ref[MAXC];
    for (int part = 0; part < 2; ++part) {
      flow f; control c = {1, 1, 1, 0.5, 1};
      if (ti_create(&q, &f, &c, ts ? "TS" : "SNES")) { vh_fail("error", "setup: %s", vh_errmsg); break; }
      if (q.bc == B_DIR) { }
      PetscScalar *a; VecGetArray(f.tdy->soln, &a); for (int k = 0; k < f.nc; ++k) a[k] = 70000 + 9000*k; VecRestoreArray(f.tdy->soln, &a);
      VH_CHK(TDySetPreviousSolutionForSNESSolver(f.tdy, f.tdy->soln));
      double t = 0; int bad = 0;
      for (int k = 0; k < 4 && !bad; ++k) {
        double T = part ? (k ? 0 : 8) : D[d][k]; if (T == 0) break;
        PetscErrorCode ierr = TDyTimeIntegratorRunToTime(f.tdy, T); vh_trans(1);
        if (ierr) { vh_fail("error", "run to %g: %s", T, vh_errmsg); bad = 1; }
        t = fmax(t, T);
        if (!bad && !near(f.tdy->ti->time, t, 1e-12)) { vh_fail("time", "the time is %.12g after running to %g", f.tdy->ti->time, T); bad = 1; }
      }
      const PetscScalar *u; VecGetArrayRead(f.tdy->soln, &u); uint64_t o = vh_h0();
      for (int k = 0; k < f.nc && !bad; ++k) {
        o = vh_hi(o, lround(u[k]*1e3));
        if (!part) ref[k] = u[k];
        else if (!near(u[k], ref[k], 1e-9)) vh_fail("pieces", "cell %d: pressure %.12g after running in pieces, %.12g in one", k, ref[k], u[k]);
      }
      VecRestoreArrayRead(f.tdy->soln, &u);
      vh_state(vh_hi(vh_hi(vh_hs(vh_h0(), vh_name), part), d)); vh_outcome(o);
      VH_CHK(TDyDestroy(&f.tdy));
      if (bad) break;
    }
  }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv);
  freopen("/dev/null", "w", stdout);
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot();
  if (vh_grp("pattern")) g_pattern();
  else if (vh_grp("cuts")) g_cuts();
  else if (vh_grp("run")) g_run();
  else { fprintf(stderr, "unknown group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
