/* C07: characteristic-curve models on every assignment history; C08: the curves themselves; C09: equation of state */
#include <private/tdycoreimpl.h>
#include <private/tdycharacteristiccurvesimpl.h>
#include <private/tdyeosimpl.h>
#include "vh.h"

#include "ref.h"

/* ------------------------------------------------------------------------------------------------ C07: histories */
#define NP 4
typedef struct { int type; int n; int pts[NP]; int pset; } op_t;
typedef struct { int n[2]; int pts[2][NP]; int pset[2][NP]; } model_t;
static double SATP[2][2][NP][3], RELP[2][2][NP][9];   /* type, parameter set, point */
static const double PCV[NP] = {2.0e4, 5.0e3, -1.0e4, 6.0e4}, SR[NP] = {0.1, 0.2, 0.15, 0.3};
static const double SE[NP] = {0.3, 0.995, 1.0, 0.6};
static void init_params(void) {
  for (int s = 0; s < 2; ++s) for (int p = 0; p < NP; ++p) {
    SATP[0][s][p][0] = 0.5+0.1*p; SATP[0][s][p][1] = 0.6+0.05*p+0.02*s; SATP[0][s][p][2] = 1e-5*(1+p+4*s);
    SATP[1][s][p][0] = 0.5+0.07*p+0.03*s; SATP[1][s][p][1] = 2e-5*(1+p+4*s);
    RELP[0][s][p][0] = 2+0.5*p+0.25*s;
    double m = 0.4+0.1*p+0.05*s, x1 = 0.98-0.01*p, x2 = 1.0;
    double *q = RELP[1][s][p];
    q[0] = m; q[2] = x1; q[3] = x2; q[1] = 0.5*(x1+x2); q[4] = 0.5*(x2-x1);
    RelativePermeability_Mualem_GetSmoothingCoeffs(m, q[1], x1, x2, q[4], &q[5]);
  }
}
static int npts_dom; static op_t OPS[4096]; static int nops;
/* every ordered list without repetition over the domain's points */
static int LISTS[400][NP+1], nlists;
static void gen_lists(int *cur, int k, int used) {
  LISTS[nlists][0] = k; for (int i = 0; i < k; ++i) LISTS[nlists][i+1] = cur[i]; nlists++;
  for (int p = 0; p < npts_dom; ++p) if (!(used & 1<<p)) { cur[k] = p; gen_lists(cur, k+1, used | 1<<p); }
}
static void gen_ops(void) {
  nlists = 0; nops = 0; int cur[NP]; gen_lists(cur, 0, 0);
  for (int t = 0; t < 2; ++t) for (int l = 0; l < nlists; ++l) for (int s = 0; s < (LISTS[l][0] ? 2 : 1); ++s) {
    op_t o; o.type = t; o.n = LISTS[l][0]; o.pset = s; for (int i = 0; i < o.n; ++i) o.pts[i] = LISTS[l][i+1];
    OPS[nops++] = o;
  }
}
static int conflicts(const model_t *m, const op_t *o) {
  int other = 1-o->type;
  for (int i = 0; i < o->n; ++i) for (int j = 0; j < m->n[other]; ++j) if (o->pts[i] == m->pts[other][j]) return 1;
  return 0;
}
static void apply(model_t *m, const op_t *o) {
  m->n[o->type] = o->n;
  for (int i = 0; i < o->n; ++i) { m->pts[o->type][i] = o->pts[i]; m->pset[o->type][i] = o->pset; }
}
static int lookup(const model_t *m, int p, int *type, int *pset) {
  for (int t = 0; t < 2; ++t) for (int j = 0; j < m->n[t]; ++j) if (m->pts[t][j] == p) { *type = t; *pset = m->pset[t][j]; return 1; }
  return 0;
}
static uint64_t model_hash(const model_t *m, int which, int obs) {
  uint64_t h = vh_hi(vh_h0(), which*2+obs); h = vh_hi(h, npts_dom);
  for (int t = 0; t < 2; ++t) { h = vh_hi(h, 100+m->n[t]); for (int j = 0; j < m->n[t]; ++j) h = vh_hi(h, m->pts[t][j]*2+m->pset[t][j]); }
  return h;
}
static void ref_at(int which, int type, int ps, int p, double x, double sr, double *a, double *b, double *c) {
  *c = 0;
  if (!which) {
    double *q = SATP[type][ps][p];
    if (type == 0) ref_gardner(q[1], q[2], sr, x, a, b, c); else ref_vg(q[0], q[1], sr, x, a, b, c);
  } else {
    double *q = RELP[type][ps][p];
    if (type == 0) ref_irmay(q[0], x, a, b); else ref_mualem(q[0], q[2], q[3], x, a, b);
  }
}
#define SENT (-777.25)
static void compare(const char *how, int which, const model_t *m, int p, double x, double sr, double a, double b, double c, const char *hist) {
  int t, ps; double ra = SENT, rb = SENT, rc = which ? SENT : SENT;
  if (lookup(m, p, &t, &ps)) { ref_at(which, t, ps, p, x, sr, &ra, &rb, &rc); if (which) rc = SENT; }
  if (!close_rel(a, ra, 1e-9, 1e-12) || !close_rel(b, rb, 1e-7, 1e-14) || (!which && !close_rel(c, rc, 1e-7, 1e-18)))
    vh_fail("wrong-value", "%s %s point %d: got (%g,%g,%g), the model assigned to that point gives (%g,%g,%g); history %s",
            which ? "relative permeability" : "saturation", how, p, a, b, c, ra, rb, rc, hist);
}
/* every observation of the current state: all points at once; then on every ordered list of points */
static void observe(int which, void *obj, const model_t *m, const char *hist) {
  double a[NP], b[NP], c[NP], x[NP], s[NP];
  for (int p = 0; p < NP; ++p) { a[p] = b[p] = c[p] = SENT; x[p] = which ? SE[p] : PCV[p]; s[p] = SR[p]; }
  if (!which) VH_CHK(SaturationCompute((Saturation*)obj, s, x, a, b, c)); else VH_CHK(RelativePermeabilityCompute((RelativePermeability*)obj, x, a, b));
  for (int p = 0; p < NP; ++p) compare("everywhere", which, m, p, x[p], s[p], a[p], b[p], c[p], hist);
  uint64_t h = vh_hi(vh_h0(), which); for (int p = 0; p < NP; ++p) { h = vh_hd(h, a[p]); h = vh_hd(h, b[p]); } vh_outcome(h);
  for (int l = 1; l < nlists; ++l) {
    int k = LISTS[l][0]; PetscInt pts[NP];
    /* exactly as long as the list, so that a stray access is seen */
    double *A = malloc(k*8), *B = malloc(k*8), *C = malloc(k*8), *X = malloc(k*8), *R = malloc(k*8);
    for (int i = 0; i < k; ++i) { int p = LISTS[l][i+1]; pts[i] = p; A[i] = B[i] = C[i] = SENT; X[i] = which ? SE[(p+1)%NP] : PCV[(p+1)%NP]; R[i] = SR[(p+2)%NP]; }
    if (!which) VH_CHK(SaturationComputeOnPoints((Saturation*)obj, k, pts, R, X, A, B, C));
    else VH_CHK(RelativePermeabilityComputeOnPoints((RelativePermeability*)obj, k, pts, X, A, B));
    for (int i = 0; i < k; ++i) compare("on a list of points", which, m, pts[i], X[i], R[i], A[i], B[i], C[i], hist);
    free(A); free(B); free(C); free(X); free(R);
    vh_trans(1);
  }
}
static void set_type(int which, void *obj, const op_t *o) {
  /* the caller's arrays are its own: wiped right after the call */
  PetscInt *pts = malloc(sizeof(PetscInt)*(o->n ? o->n : 1)); int np = which ? (o->type ? 9 : 1) : (o->type ? 2 : 3);
  double *pr = malloc(8*np*(o->n ? o->n : 1));
  for (int i = 0; i < o->n; ++i) { pts[i] = o->pts[i]; memcpy(pr+np*i, which ? RELP[o->type][o->pset][o->pts[i]] : SATP[o->type][o->pset][o->pts[i]], 8*np); }
  if (!which) VH_CHK(SaturationSetType((Saturation*)obj, (SaturationType)o->type, o->n, pts, pr));
  else VH_CHK(RelativePermeabilitySetType((RelativePermeability*)obj, (RelativePermeabilityType)o->type, o->n, pts, pr));
  memset(pr, 0x7f, 8*np*(o->n ? o->n : 1)); memset(pts, 0x7f, sizeof(PetscInt)*(o->n ? o->n : 1));
  free(pts); free(pr);
  vh_trans(1);
}
static void run_seq(int which, const int *seq, int len, int obsmask) {
  PetscLogDouble m0, m1; PetscMallocGetCurrentUsage(&m0);
  model_t m; memset(&m, 0, sizeof m); char hist[512] = ""; void *obj = NULL;
  if (!which) VH_CHK(SaturationCreate((Saturation**)&obj)); else VH_CHK(RelativePermeabilityCreate((RelativePermeability**)&obj));
  for (int i = 0; i < len; ++i) {
    const op_t *o = &OPS[seq[i]];
    char b[100]; int w = snprintf(b, sizeof b, "%sset(%d;", i ? " " : "", o->type); for (int k = 0; k < o->n; ++k) w += snprintf(b+w, sizeof b-w, "%d", o->pts[k]); snprintf(b+w, sizeof b-w, ";params%d)", o->pset); strcat(hist, b);
    set_type(which, obj, o); apply(&m, o);
    vh_state(model_hash(&m, which, obsmask & 1));
    if ((obsmask >> i & 1) || i == len-1) { if (i < len-1) strcat(hist, " eval"); observe(which, obj, &m, hist); }
  }
  if (!which) VH_CHK(SaturationDestroy((Saturation*)obj)); else VH_CHK(RelativePermeabilityDestroy((RelativePermeability*)obj));
  PetscMallocGetCurrentUsage(&m1);
  if (m1 != m0) vh_fail("leak", "%g bytes still allocated after the model was destroyed; history %s", m1-m0, hist);
}
static void group_seq(void) {
  init_params();
  struct { int n, depth; } plan[] = {{1,4},{2,3},{3,3},{4,2},{2,4},{4,3}};
  int nplan = vh_thorough ? 6 : 4;
  for (int q = 0; q < nplan; ++q) {
    npts_dom = plan[q].n; int depth = plan[q].depth; gen_ops();
    for (int which = 0; which < 2; ++which)
      for (int a = 0; a < nops; ++a) {
        /* one case: every continuation of a given first call */
        char first[64]; int w = 0; for (int k = 0; k < OPS[a].n; ++k) w += snprintf(first+w, sizeof first-w, "%d", OPS[a].pts[k]); if (!w) strcpy(first, "-");
        if (!vh_case("curve-history:%s:points=%d:depth=%d:first=set(%d,%s,%d)", which ? "relperm" : "saturation", npts_dom, depth, OPS[a].type, first, OPS[a].pset)) continue;
        int seq[4]; seq[0] = a; long nseq = 0;
        model_t m1; memset(&m1, 0, sizeof m1); apply(&m1, &OPS[a]);
        run_seq(which, seq, 1, 0); nseq++;
        for (int b = 0; b < nops; ++b) {
          if (conflicts(&m1, &OPS[b])) continue;
          model_t m2 = m1; apply(&m2, &OPS[b]); seq[1] = b;
          for (int o = 0; o < 2; ++o) { run_seq(which, seq, 2, o); nseq++; }
          if (depth < 3) continue;
          for (int c = 0; c < nops; ++c) {
            if (conflicts(&m2, &OPS[c])) continue;
            seq[2] = c; int o = (a+b+c) & 3;
            if (npts_dom < 3) { for (o = 0; o < 4; ++o) { run_seq(which, seq, 3, o); nseq++; } }
            else { run_seq(which, seq, 3, o); nseq++; }
            if (depth < 4) continue;
            model_t m3 = m2; apply(&m3, &OPS[c]);
            for (int d = 0; d < nops; ++d) { if (conflicts(&m3, &OPS[d])) continue; seq[3] = d; run_seq(which, seq, 4, (b+c+d) & 7); nseq++; }
          }
        }
        vh_count("sequences", nseq);
        if (a == 5) vh_sample("all call sequences up to depth %d starting with setting model %d on points [%s] of %d", depth, OPS[a].type, first, npts_dom);
      }
  }
}

/* ------------------------------------------------------------------------------------------------ C08: the curves */
static void group_math(void) {
  static const double MS[] = {0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9}, AL[] = {1e-6, 1e-5, 1e-4, 1e-3}, SRS[] = {0, 0.05, 0.15, 0.5, 0.9};
  int nper = vh_thorough ? 40 : 12;
  for (int model = 0; model < 2; ++model) for (unsigned im = 0; im < 7; ++im) for (unsigned ia = 0; ia < 4; ++ia) for (unsigned is = 0; is < 5; ++is) {
    double m = MS[im], al = AL[ia], sr = SRS[is];
    if (!vh_case("saturation-curve:%s:m=%g:alpha=%g:Sr=%g", model ? "van_genuchten" : "gardner", m, al, sr)) continue;
    double prevS = 1.0, prevP = -1e8;
    for (int k = -8*2; k <= 10*nper; ++k) {
      double Pc = k < 0 ? -pow(10, -k/2.0) : (k == 0 ? 0 : pow(10, (double)k/nper));  /* -1e8 .. 0 .. 1e10 Pa */
      double S, d1, d2, S0, r1, r2;
      if (model) { PressureSaturation_VanGenuchten(m, al, sr, Pc, &S, &d1, &d2); ref_vg(m, al, sr, Pc, &S0, &r1, &r2); }
      else { PressureSaturation_Gardner(0.5, m, al, sr, Pc, &S, &d1, &d2); ref_gardner(m, al, sr, Pc, &S0, &r1, &r2); }
      vh_trans(1); uint64_t h = vh_hd(vh_hd(vh_hd(vh_hi(vh_h0(), model), S), d1), d2); vh_outcome(h);
      vh_state(vh_hd(vh_hd(vh_hd(vh_hd(vh_hi(vh_h0(), model), m), al), sr), Pc));
      if (!(S >= sr - 1e-15 && S <= 1 + 1e-15)) vh_fail("bounds", "Pc=%g: saturation %.17g is outside [%g,1]", Pc, S, sr);
      if (S > prevS + 1e-15) vh_fail("monotone", "saturation rises from %.17g at Pc=%g to %.17g at Pc=%g", prevS, prevP, S, Pc);
      if (Pc < 0 && (S != 1 || d1 != 0 || d2 != 0)) vh_fail("saturated", "Pc=%g: S=%g dS=%g d2S=%g above the reference pressure", Pc, S, d1, d2);
      if (!(d1 >= 0)) vh_fail("derivative-sign", "Pc=%g: dS/dP = %g", Pc, d1);
      if (!close_rel(S, S0, 1e-11, 0) || !close_rel(d1, r1, 1e-9, 1e-300) || !close_rel(d2, r2, 1e-8, 1e-12*fabs(d1)/(fabs(Pc)+1e-300) + 1e-300))
        vh_fail("formula", "Pc=%g: (S,dS/dP,d2S/dP2)=(%.15g,%.15g,%.15g), the closed form gives (%.15g,%.15g,%.15g)", Pc, S, d1, d2, S0, r1, r2);
      /* the value is also right when the caller asks for no derivatives */
      double Sn = -1, d1n = -1;
      if (model) { PressureSaturation_VanGenuchten(m, al, sr, Pc, &Sn, NULL, NULL); if (Sn != S) vh_fail("optional", "Pc=%g: S differs without derivatives", Pc);
                   PressureSaturation_VanGenuchten(m, al, sr, Pc, &Sn, &d1n, NULL); if (Sn != S || d1n != d1) vh_fail("optional", "Pc=%g: dS differs without second derivative", Pc); }
      else { PressureSaturation_Gardner(0.5, m, al, sr, Pc, &Sn, NULL, NULL); if (Sn != S) vh_fail("optional", "Pc=%g: S differs without derivatives", Pc); }
      prevS = S; prevP = Pc;
    }
  }
  static const double KM[] = {0.2, 0.35, 0.5, 0.65, 0.8, 0.9}, X1[] = {0.5, 0.9, 0.98, 0.99, 0.995}, X2[] = {1.0, 0.999};
  int NS = vh_thorough ? 4000 : 800;
  for (unsigned im = 0; im < 6; ++im) for (unsigned i1 = 0; i1 < 5; ++i1) for (unsigned i2 = 0; i2 < 2; ++i2) for (int scal = 0; scal < 2; ++scal) {
    double m = KM[im], x1 = X1[i1], x2 = X2[i2], x0, dx, co[4];
    if (scal) { x0 = 0.5*(x1+x2); dx = 0.5*(x2-x1); } else { x0 = x1; dx = 1.0; }
    if (!vh_case("relperm-curve:mualem:m=%g:x1=%g:x2=%g:scaling=%d", m, x1, x2, scal)) continue;
    VH_CHK(RelativePermeability_Mualem_GetSmoothingCoeffs(m, x0, x1, x2, dx, co));
    double prev = -1;
    for (int k = 0; k <= NS + 30; ++k) {
      double Se = k <= 30 ? (k == 0 ? 0.0 : pow(10, -(31-k)/2.0 - 2)) : (double)(k-30)/NS*x2;
      double K, d, rk, rd; RelativePermeability_Mualem(m, x0, x1, dx, co, Se, &K, &d); ref_mualem(m, x1, x2, Se, &K == 0 ? &rk : &rk, &rd);
      vh_trans(1); vh_outcome(vh_hd(vh_hd(vh_h0(), K), d)); vh_state(vh_hd(vh_hd(vh_hd(vh_hd(vh_h0(), m), x1), x2), Se));
      if (!(K >= 0 && K <= 1 + 1e-9)) vh_fail("bounds", "Se=%.15g: relative permeability %.15g is outside [0,1]", Se, K);
      if (!(fabs(d) < 1e300)) vh_fail("not-finite", "Se=%.15g: derivative is %g", Se, d);
      if (k > 31 && K < prev - 1e-9) vh_fail("monotone", "relative permeability falls to %.15g at Se=%.15g from %.15g", K, Se, prev);
      double tol = scal ? 1e-7 : 1e-5;
      if (Se > 1e-6 && (!close_rel(K, rk, 1e-8, tol*1e-2) || !close_rel(d, rd, 1e-7, tol*10))) vh_fail("formula", "Se=%.15g: (K,dK)=(%.15g,%.15g), the smoothed model gives (%.15g,%.15g)", Se, K, d, rk, rd);
      if (k > 30) prev = K;
    }
    double K, d; RelativePermeability_Mualem(m, x0, x1, dx, co, x2, &K, &d);
    if (!close_rel(K, 1, 1e-8, 0) || fabs(d) > 1e-4) vh_fail("endpoint", "at Se=%g: K=%.15g dK=%g instead of 1 and 0", x2, K, d);
    vh_sample("Mualem m=%g smoothed on [%g,%g]: %d effective saturations from 0 to %g", m, x1, x2, NS+31, x2);
  }
  static const double IM[] = {0.5, 1, 2, 3, 3.5, 5};
  for (unsigned im = 0; im < 6; ++im) {
    double m = IM[im];
    if (!vh_case("relperm-curve:irmay:m=%g", m)) continue;
    for (int k = 1; k <= NS + NS/10; ++k) {
      double Se = (double)k/NS, K, d, rk, rd; RelativePermeability_Irmay(m, Se, &K, &d); ref_irmay(m, Se, &rk, &rd); vh_trans(1);
      vh_outcome(vh_hd(vh_hd(vh_h0(), K), d)); vh_state(vh_hd(vh_hd(vh_hi(vh_h0(), 7), m), Se));
      if (!close_rel(K, rk, 1e-13, 0) || !close_rel(d, rd, 1e-12, 0)) vh_fail("formula", "Se=%g: (%.15g,%.15g) for (%.15g,%.15g)", Se, K, d, rk, rd);
      double Kn; RelativePermeability_Irmay(m, Se, &Kn, NULL); if (Kn != K) vh_fail("optional", "Se=%g", Se);
    }
  }
}

/* ----------------------------------------------------------------------------------------- C09: equation of state */
static double ref_bw_density(double P, double T, double S) {
  double p = P*1e-6;
  double w = 1 + 1e-6*(-80*T - 3.3*T*T + 0.00175*T*T*T + 489*p - 2*T*p + 0.016*T*T*p - 1.3e-5*T*T*T*p - 0.333*p*p - 0.002*T*p*p);
  double b = w + S*(0.668 + 0.44*S + 1e-6*(300*p - 2400*p*S + T*(80 + 3*T - 3300*S - 13*p + 47*p*S)));
  return 1000*b;
}
static double ref_bw_viscosity(double T, double S) {
  return 1e-3*(0.1 + 0.333*S + (1.65 + 91.9*S*S*S)*exp(-(0.42*pow(pow(S,0.8)-0.17,2)+0.045)*pow(T,0.8)));
}
static void group_eos(void) {
  static const double PS[] = {0, 5e4, 101325, 101326, 2e5, 1e6, 1e7, 5e7}, TS_[] = {0, 5, 20, 25, 40, 60, 90}, SS[] = {0, 0.01, 0.05, 0.1, 0.2, 0.3};
  for (int dt = 0; dt < 3; ++dt) for (int vt = 0; vt < 2; ++vt) for (unsigned it = 0; it < 7; ++it) for (unsigned is = 0; is < 6; ++is) {
    double T = TS_[it], S = SS[is];
    if (!vh_case("eos:density=%d:viscosity=%d:T=%g:S=%g", dt, vt, T, S)) continue;
    EOS e; memset(&e, 0, sizeof e); e.density_type = (TDyWaterDensityType)dt; e.viscosity_type = vt; e.enthalpy_type = WATER_ENTHALPY_CONSTANT;
    double prevd = 0;
    for (unsigned ip = 0; ip < 8; ++ip) {
      double P = PS[ip], den = NAN, d1 = NAN, d2 = NAN, vis = NAN, v1 = NAN, v2 = NAN, h = NAN, hp = NAN, ht = NAN;
      VH_CHK(EOSComputeWaterDensity(&e, P, T, S, &den, &d1, &d2)); VH_CHK(EOSComputeWaterViscosity(&e, P, T, S, &vis, &v1, &v2)); VH_CHK(EOSComputeWaterEnthalpy(&e, T, P, &h, &hp, &ht));
      vh_trans(3); vh_state(vh_hd(vh_hd(vh_hd(vh_hi(vh_hi(vh_h0(), dt), vt), P), T), S)); vh_outcome(vh_hd(vh_hd(vh_hd(vh_h0(), den), d1), vis));
      double rd = dt == 0 ? 998.0 : dt == 1 ? (P < 101325 ? 997.16 : 997.16*exp(1e-8*(P-101325))) : ref_bw_density(P, T, S);
      double rv = vt == 0 ? 9.94e-4 : ref_bw_viscosity(T, S);
      if (!close_rel(den, rd, 1e-12, 0)) vh_fail("density", "P=%g T=%g S=%g: density %.12g, the published correlation gives %.12g", P, T, S, den, rd);
      if (!close_rel(vis, rv, 1e-12, 0)) vh_fail("viscosity", "P=%g T=%g S=%g: viscosity %.12g, the published correlation gives %.12g", P, T, S, vis, rv);
      if (!(den > 900 && den < 1700)) vh_fail("density-range", "P=%g T=%g S=%g: density %g", P, T, S, den);
      if (!(vis > 0 && vis < 0.02)) vh_fail("viscosity-range", "P=%g T=%g S=%g: viscosity %g", P, T, S, vis);
      if (den < prevd - 1e-9) vh_fail("density-monotone", "density falls with pressure at P=%g", P);
      prevd = den;
      /* derivatives: analytic ones must be those of the value (central difference away from the kink of the
         exponential law) */
      double s = 2e3 + 1e-4*P, da, db, x, y;
      if (!(dt == 1 && fabs(P-101325) < 1.1*s)) {
        VH_CHK(EOSComputeWaterDensity(&e, P+s, T, S, &da, &x, &y)); double xa = x; VH_CHK(EOSComputeWaterDensity(&e, P-s, T, S, &db, &x, &y)); double xb = x;
        double fd = (da-db)/(2*s), fd2 = (xa-xb)/(2*s);
        if (!(fabs(d1-fd) <= 1e-9*1e-6 + 2e-4*fabs(fd) + 3e-13*den/s)) vh_fail("density-derivative", "P=%g T=%g S=%g: d(density)/dP=%g, difference quotient %g", P, T, S, d1, fd);
        if (!(fabs(d2-fd2) <= 1e-18 + 1e-3*fabs(fd2))) vh_fail("density-derivative", "P=%g T=%g S=%g: second derivative %g, difference quotient %g", P, T, S, d2, fd2);
        VH_CHK(EOSComputeWaterViscosity(&e, P+s, T, S, &da, &x, &y)); VH_CHK(EOSComputeWaterViscosity(&e, P-s, T, S, &db, &x, &y)); fd = (da-db)/(2*s);
        if (!(fabs(v1-fd) <= 1e-15 + 1e-4*fabs(fd)) || !(fabs(v2) < 1e-12)) vh_fail("viscosity-derivative", "P=%g T=%g S=%g: d(viscosity)/dP=%g %g, difference quotient %g", P, T, S, v1, v2, fd);
      }
      if (!(fabs(hp) <= 1e-12 && fabs(ht) <= 1e-12 && h > 0)) vh_fail("enthalpy", "constant enthalpy %g with derivatives %g %g", h, hp, ht);
    }
    /* viscosity falls with temperature, and both rise with salinity */
    double a, b, x, y;
    VH_CHK(EOSComputeWaterViscosity(&e, 1e5, T, S, &a, &x, &y)); VH_CHK(EOSComputeWaterViscosity(&e, 1e5, T+5, S, &b, &x, &y));
    if (b > a*(1+1e-12)) vh_fail("viscosity-temperature", "S=%g: viscosity rises from %g at T=%g to %g at T=%g", S, a, T, b, T+5);
    VH_CHK(EOSComputeWaterDensity(&e, 1e5, T, S, &a, &x, &y)); VH_CHK(EOSComputeWaterDensity(&e, 1e5, T, S+0.01, &b, &x, &y));
    if (b < a*(1-1e-12)) vh_fail("density-salinity", "T=%g: density falls from %g to %g with salinity %g", T, a, b, S);
  }
  for (int k = 0; k < 40; ++k) for (int j = 0; j < 4; ++j) {
    double psi = k*0.25, mw = (double[]){58.44, 58.44e-3, 1, 100}[j], f = NAN, g = NAN;
    if (!vh_case("salinity-fraction:psi=%g:mw=%g", psi, mw)) continue;
    EOS e; memset(&e, 0, sizeof e);
    VH_CHK(EOSComputeSalinityFraction(&e, psi, mw, 999., &f)); VH_CHK(EOSComputeSalinityFraction(&e, psi+0.25, mw, 999., &g)); vh_trans(2);
    vh_state(vh_hd(vh_hd(vh_h0(), psi), mw)); vh_outcome(vh_hd(vh_h0(), f));
    if (!(f >= 0 && f < 1) || !(g > f)) vh_fail("fraction", "mass fraction %g at psi=%g, %g at %g", f, psi, g, psi+0.25);
    if (!close_rel(f, psi*mw/(psi*mw+999.), 1e-12, 0)) vh_fail("fraction", "mass fraction %.12g", f);
  }
  /* types outside the enumeration are refused, not computed */
  for (int t = -1; t < 6; ++t) for (int which = 0; which < 3; ++which) {
    if (!vh_case("eos-type:%d:%d", which, t)) continue;
    EOS e; memset(&e, 0, sizeof e); double a, b, c; PetscErrorCode r;
    int valid = which == 0 ? (t >= 0 && t < 3) : which == 1 ? (t >= 0 && t < 2) : (t == 0);
    if (which == 0) { e.density_type = (TDyWaterDensityType)t; r = EOSComputeWaterDensity(&e, 1e5, 25, 0.1, &a, &b, &c); }
    else if (which == 1) { e.viscosity_type = t; r = EOSComputeWaterViscosity(&e, 1e5, 25, 0.1, &a, &b, &c); }
    else { e.enthalpy_type = t; r = EOSComputeWaterEnthalpy(&e, 25, 1e5, &a, &b, &c); }
    vh_trans(1); vh_state(vh_hi(vh_hi(vh_h0(), which), t)); vh_outcome(vh_hi(vh_h0(), r));
    if (!r != valid) vh_fail("type", "type %d of law %d: return code %d", t, which, (int)r);
  }
}

int main(int argc, char **argv) {
  vh_parse(argc, argv);
  PetscOptionsSetValue(NULL, "-no_signal_handler", "1");
  int ac = 1; char *av[] = {argv[0], NULL}; char **avp = av;
  setenv("PETSC_OPTIONS", vh_grp("seq") ? "-no_signal_handler -malloc_debug" : "-no_signal_handler -malloc_debug 0", 1);
  if (PetscInitialize(&ac, &avp, NULL, NULL)) return 98;
  PetscPushErrorHandler(vh_errh, NULL);
  if (vh_grp("seq")) group_seq(); else if (vh_grp("math")) group_math(); else if (vh_grp("eos")) group_eos(); else return 98;
  vh_finish();
  PetscPopErrorHandler();
  PetscFinalize();
  return 0;
}
