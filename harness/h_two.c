/* Two-component flow: C22 thermal-hydrologic mode, C23 saline mode */
#include "flow.h"
#include "two.h"

static const double PV[] = {80000, 103325, 20000, 101125};
static const double TV[] = {25, 60, 5}, SV[] = {0, 0.4, 3.0};
static double pv(int k, int c) { return PV[k] + 137.0*c; }
static void begin(prob *q) { memset(q, 0, sizeof *q); q->n[0] = q->n[1] = q->n[2] = 1; q->grav = 9.8068; q->dt = 3600; q->bc = B_NEU; }
static const int SIZES[][3] = {{1,1,1},{2,1,1},{1,2,1},{1,1,2},{3,1,1},{1,1,3},{2,2,1},{2,1,2},{1,2,2},{2,2,2},{3,2,1}};

typedef struct { flow f; prob q; int mode, nc; } two;
static PetscErrorCode (*MORE)(TDy) = more;
static int two_create(two *t, prob *q, int mode) {
  CMODE = mode; MORE_SETTINGS = MORE; memset(t, 0, sizeof *t); t->q = *q; t->mode = mode;
  t->q.form = mode == TH || (mode == RICHARDS && q->form) ? 1 : 0;
  if (flow_create(&t->q, &t->f, mode)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; }
  t->nc = t->f.nc;
  if (t->q.form == 0) { if (flow_snes(&t->f, q->dt)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; } }
  else {
    TSCreate(PETSC_COMM_WORLD, &t->f.ts); TSSetDM(t->f.ts, t->f.dm); TSSetType(t->f.ts, TSBEULER); TSSetSolution(t->f.ts, t->f.U);
    if (TDySetIFunction(t->f.ts, t->f.tdy) || TDySetIJacobian(t->f.ts, t->f.tdy)) { vh_fail("error", "setup: %s", vh_errmsg); return 1; }
  }
  return 0;
}
/* residual; y: time derivative (TS) */
static int two_res(two *t, const double *x, const double *y, double *r) {
  CUR = &t->q; CMODE = t->mode;
  if (!t->q.form) return flow_res(&t->f, x, r);
  Vec V; VecDuplicate(t->f.U, &V); flow_put(&t->f, t->f.U, x); flow_put(&t->f, V, y); VecSet(t->f.R, 7777.0);
  PetscErrorCode ierr = TSComputeIFunction(t->f.ts, 0.0, t->f.U, V, t->f.R, PETSC_FALSE); vh_trans(1);
  VecDestroy(&V);
  if (ierr) { vh_fail("error", "residual: %d %s", ierr, vh_errmsg); return 1; }
  flow_get(&t->f, t->f.R, r);
  return 0;
}
static const char *tname(const prob *q) {
  static char b[4][320]; static int k; k = (k+1)%4;
  snprintf(b[k], sizeof b[k], "%s D=%d boundary=%d", pname(q), CK, CB); return b[k];
}
/* --------------------------------------------------------------------------------------------------- the reference */
typedef struct { double rho, S, kr, mu, x, h, u, drho, dS; } comp;
static EOS *EO;
static comp comp_at(const prob *q, double P, double X, double Sr) {
  comp c; double d2, d, a, b; memset(&c, 0, sizeof c); c.x = X;
  ref_vg(0.8, 1e-4, Sr, PREF-P, &c.S, &c.dS, &d2);
  double Se = (c.S-Sr)/(1-Sr);
  ref_mualem(0.8, 0.99, 1.0, Se, &c.kr, &d); if (Se >= 1) c.kr = 1;
  double m = CMODE == SALINITY ? X*58.44/(X*58.44+999.) : 0;
  /* the water properties themselves are decided by C09 */
  VH_CHK(EOSComputeWaterDensity(EO, P, 25, m, &c.rho, &c.drho, &a)); VH_CHK(EOSComputeWaterViscosity(EO, P, 25, m, &c.mu, &a, &b));
  VH_CHK(EOSComputeWaterEnthalpy(EO, X, P, &c.h, &a, &b)); c.u = c.h - P/c.rho;
  return c;
}
typedef struct { double R[2*MAXC], sc[2]; } rres;
static void ref_two(two *t, const double *x, const double *x0, const double *y, rres *r, int no_gravity, int no_du) {
  prob Q = t->q, *q = &Q; if (no_gravity) Q.grav = 0;
  flow *f = &t->f; comp c[MAXC]; int nc = t->nc, salt = t->mode == SALINITY;
  EO = &t->f.tdy->eos; CMODE = t->mode; memset(r, 0, sizeof *r);
  for (int i = 0; i < nc; ++i) {
    double Sr = sr_at(f->cen[i]), ph = phi_at(f->cen[i]), V = f->vol[i];
    c[i] = comp_at(q, x[2*i], x[2*i+1], Sr);
    if (salt) {
      comp o = comp_at(q, x0[2*i], x0[2*i+1], Sr);
      r->R[2*i] = ph*V*(c[i].rho*c[i].S - o.rho*o.S)/q->dt;
      r->R[2*i+1] = ph*V*(c[i].rho*c[i].S*c[i].x - o.rho*o.S*o.x)/q->dt;
      r->sc[0] = fmax(r->sc[0], ph*V*c[i].rho*c[i].S/q->dt); r->sc[1] = fmax(r->sc[1], ph*V*c[i].rho*c[i].S*fmax(c[i].x, o.x)/q->dt);
    } else {
      double dm = ph*(c[i].drho*c[i].S + c[i].rho*c[i].dS), rc = rs_at(f->cen[i])*cs_at(f->cen[i])*(1-ph);
      double du = no_du ? 0 : -1/c[i].rho + x[2*i]/(c[i].rho*c[i].rho)*c[i].drho;
      double a = (dm*c[i].u + ph*c[i].rho*c[i].S*du)*y[2*i]*V, b = rc*y[2*i+1]*V;
      r->R[2*i] = dm*y[2*i]*V; r->R[2*i+1] = a + b;
      r->sc[0] = fmax(r->sc[0], fabs(r->R[2*i])); r->sc[1] = fmax(r->sc[1], fabs(a) + fabs(b));
    }
  }
  for (int i = 0; i < nc; ++i) for (int d = 0; d < 3; ++d) for (int s = 0; s < 2; ++s) {
    int e1 = (d+1)%3, e2 = (d+2)%3, nb = -1;
    double pos = s ? f->hi[i][d] : f->lo[i][d], area = (f->hi[i][e1]-f->lo[i][e1])*(f->hi[i][e2]-f->lo[i][e2]);
    for (int j = 0; j < nc; ++j) if (j != i && fabs((s ? f->lo[j][d] : f->hi[j][d])-pos) < 1e-9 && fabs(f->cen[j][e1]-f->cen[i][e1]) < 1e-9 && fabs(f->cen[j][e2]-f->cen[i][e2]) < 1e-9) nb = j;
    double Ki[9], Ci[9], di = 0.5*(f->hi[i][d]-f->lo[i][d]), T, D, zb, xb; comp b; k_at(q, f->cen[i], Ki); c_at(f->cen[i], Ci);
    double Pb;
    if (nb >= 0) {
      double Kj[9], Cj[9], dj = 0.5*(f->hi[nb][d]-f->lo[nb][d]); k_at(q, f->cen[nb], Kj); c_at(f->cen[nb], Cj);
      T = area/(di/Ki[4*d] + dj/Kj[4*d]); D = area/(di/Ci[4*d] + dj/Cj[4*d]);
      b = c[nb]; zb = f->cen[nb][2]; Pb = x[2*nb]; xb = x[2*nb+1];
    } else {
      double xf[3] = {f->cen[i][0], f->cen[i][1], f->cen[i][2]}; xf[d] = pos;
      if (q->bc == B_NEU) continue;
      T = area*Ki[4*d]/di; D = area*Ci[4*d]/di; zb = xf[2];
      Pb = pb_at(q, xf); xb = CB ? tb_at(xf) : x[2*i+1];
      b = comp_at(q, Pb, xb, sr_at(f->cen[i]));
      comp w = comp_at(q, PREF, salt ? 0 : 25, 0.1); b.rho = w.rho; b.mu = w.mu; b.h = w.h;    /* boundary water has its properties at the reference state */
    }
    double den = 0.5*(c[i].rho+b.rho), dphi = x[2*i] - Pb + den*q->grav*(f->cen[i][2]-zb);
    comp *u = dphi > 0 ? &c[i] : &b;
    double F = nb < 0 && q->bc == B_SEEP && dphi < 0 && Pb <= PREF ? 0 : den*u->kr/u->mu*T*dphi, up = dphi > 0 ? x[2*i+1] : xb, G = salt ? F*up : F*u->h, H = (salt ? den : 1)*D*(x[2*i+1]-xb);
    r->R[2*i] += F; r->R[2*i+1] += G + H;
    r->sc[0] = fmax(r->sc[0], fabs(F)); r->sc[1] = fmax(r->sc[1], fabs(G)+fabs(H));
  }
}
/* values of the cells of one unknown: all of them over nv values while that is at most cap, else over two values, else a few patterns */
static int vmax(int nc, int nv, int cap) { int b = nv; while (b > 1 && pow(b, nc) > cap) b--; return b > 1 ? (int)(pow(b, nc)+0.5) : 8; }
static int vat(int nc, int nv, int cap, int j, int c) {
  int b = nv; while (b > 1 && pow(b, nc) > cap) b--;
  if (b > 1) { while (c--) j /= b; return j % b; }
  switch (j) { case 0: return 0; case 1: return c%2; case 2: return c >= nc/2; case 3: return c%4 >= 2; case 4: return c == 0; case 5: return c == nc-1; case 6: return c%nv; default: return (c/2+1)%nv; }
}
/* states: pressures and the second unknown independently per cell (each over a small alphabet) */
static void g_ref(int mode) {
  prob q;
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_STRETCH; ++geom) for (int kk = K_ISO; kk <= K_HDIAG; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < (mode == TH ? 2 : 3); ++bc) for (int g = 0; g < 2; ++g)
  for (CK = 0; CK < 2; ++CK) for (CB = 0; CB < 2; ++CB) for (int z = 0; z < 11; ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.grav = g ? 9.8068 : 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (bc == B_NEU && CB) continue;
    if (bc == B_SEEP && g) q.pb = z%2+1;
    if (!vh_thorough && ((kk != K_ISO && kk != K_HDIAG) || CK != (kk == K_HDIAG) || geom != (kk == K_HDIAG) || (z == 10))) continue;
    int nc = q.n[0]*q.n[1]*q.n[2];
    if (!vh_case("%s %s", mode == TH ? "th" : "salt", tname(&q))) continue;
    two t; if (two_create(&t, &q, mode)) continue;
    int said[2] = {0}, s[2*MAXC], cp = vh_thorough ? 256 : 64, cx = vh_thorough ? 81 : 27; uint64_t h0 = vh_hi(vh_hi(phash(&q), CK*2+CB), mode);
    for (int jp = 0; jp < vmax(nc, 4, cp); ++jp) for (int jx = 0; jx < vmax(nc, 3, cx); ++jx) for (int k = mode == TH ? 1 : 0; k < (mode == TH ? 3 : 1); ++k) {
        for (int c = 0; c < nc; ++c) { s[c] = vat(nc, 4, cp, jp, c); s[nc+c] = vat(nc, 3, cx, jx, c); }
        double x[2*MAXC], x0[2*MAXC], y[2*MAXC], R[2*MAXC]; uint64_t h = vh_hi(h0, 3);
        for (int c = 0; c < nc; ++c) {
          x[2*c] = pv(s[c], c); x[2*c+1] = (mode == TH ? TV : SV)[s[nc+c]] + 0.01*c; x0[2*c] = pv((s[c]+1+c)%4, c); x0[2*c+1] = (mode == TH ? TV : SV)[(s[nc+c]+1)%3];
          y[2*c] = (k & 1) ? (c%2 ? -2.0 : 3.0) : 0; y[2*c+1] = (k & 2) ? (c%2 ? 1e-3 : -2e-3) : 0;
          h = vh_hi(h, s[c]*10+s[nc+c]);
        }
        vh_state(vh_hi(h, k));
        CUR = &t.q; CMODE = mode;
        if (mode == SALINITY) flow_prev(&t.f, x0);
        if (two_res(&t, x, y, R)) goto out;
        rres r, v[4]; ref_two(&t, x, x0, y, &r, 0, 0);
        int have[4] = {0};
        uint64_t o = vh_h0();
        for (int c = 0; c < nc; ++c) for (int m = 0; m < 2; ++m) {
          if (fabs(R[2*c+m]-r.R[2*c+m]) <= 1e-9*r.sc[m] + 1e-16) { o = vh_hd(o, r.R[2*c+m]); continue; }
          int w = 4;      /* what exactly is missing from the thermal equations? */
          if (mode == TH) for (w = 1; w < 4; ++w) { if (!have[w]) { ref_two(&t, x, x0, y, &v[w], w & 1, w & 2); have[w] = 1; } if (fabs(R[2*c+m]-v[w].R[2*c+m]) <= 1e-9*v[w].sc[m] + 1e-16) break; }
          if (w < 4) {
            if ((w & 1) && !said[0]++) vh_fail("gravity", "cell %d: %s %.12g, that without gravity; with it %.12g", c, m ? "energy" : "mass", R[2*c+m], r.R[2*c+m]);
            if ((w & 2) && !said[1]++) vh_fail("internal-energy", "cell %d: energy %.12g, without the change of the internal energy with pressure; with it %.12g", c, R[2*c+m], r.R[2*c+m]);
          } else vh_fail(m ? (mode == TH ? "energy" : "salt") : "mass", "cell %d P=%.10g %s=%g: %.12g, reference %.12g (scale %g)", c, x[2*c], mode == TH ? "T" : "Psi", x[2*c+1], R[2*c+m], r.R[2*c+m], r.sc[m]);
          o = vh_hd(o, r.R[2*c+m]);
        }
        vh_outcome(o);
    }
    out: flow_destroy(&t.f);
  }
}
/* any mesh and tensor: what must hold whatever the fluxes are */
static void g_any(int mode) {
  prob q; const char *m2 = mode == TH ? "energy" : "salt";
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_PERT; ++geom) for (int kk = K_ISO; kk <= K_FULLNEG; ++kk) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 2; ++bc) for (int g = 0; g < 2; ++g)
  for (CK = 1; CK < 3; ++CK) for (CB = 0; CB < 2; ++CB) for (int z = 1; z < 11; ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = kk; q.rho = rho; q.bc = bc; q.grav = g ? 9.8068 : 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (bc == B_NEU && CB) continue;
    if (!vh_thorough && ((kk != K_HDIAG && kk != K_FULL) || (CK == 2) != (kk == K_FULL) || geom < G_SHEAR || rho == 2 || z == 10 || (z >= 6 && rho))) continue;
    int nc = q.n[0]*q.n[1]*q.n[2];
    if (!vh_case("%s-any %s", mode == TH ? "th" : "salt", tname(&q))) continue;
    two t, iso, iso0; prob qi = q, q0; qi.form = mode == TH; q0 = qi; q0.grav = 0;
    if (two_create(&t, &q, mode)) continue;
    if (two_create(&iso, &qi, RICHARDS)) { flow_destroy(&t.f); continue; }
    if (two_create(&iso0, &q0, RICHARDS)) { flow_destroy(&t.f); flow_destroy(&iso.f); continue; }
    int s[2*MAXC], cp = vh_thorough ? 256 : 64, cx = vh_thorough ? 81 : 27; uint64_t h0 = vh_hi(vh_hi(phash(&q), CK*2+CB), 100+mode);
    for (int jp = 0; jp < vmax(nc, 4, cp); ++jp) for (int jx = 0; jx < vmax(nc, 3, cx); ++jx) {
      for (int c = 0; c < nc; ++c) { s[c] = vat(nc, 4, cp, jp, c); s[nc+c] = vat(nc, 3, cx, jx, c); }
      double x[2*MAXC], y[2*MAXC], R[2*MAXC], p[MAXC], v[MAXC], r[MAXC], sum[2] = {0}, abs[2] = {0}; uint64_t h = h0, o = vh_h0(); int uni = 1;
      for (int c = 0; c < nc; ++c) { p[c] = x[2*c] = pv(s[c], c); x[2*c+1] = (mode == TH ? TV : SV)[s[nc+c]]; y[2*c] = y[2*c+1] = v[c] = 0; h = vh_hi(h, s[c]*10+s[nc+c]); if (s[nc+c] != s[nc]) uni = 0; }
      vh_state(h);
      CUR = &t.q; CMODE = mode; if (mode == SALINITY) flow_prev(&t.f, x);
      if (two_res(&t, x, y, R)) break;
      for (int c = 0; c < 2*nc; ++c) { sum[c%2] += R[c]; abs[c%2] += fabs(R[c]); o = vh_hd(o, R[c]); }
      vh_outcome(o);
      if (bc == B_NEU) for (int m = 0; m < 2; ++m) if (!(fabs(sum[m]) <= 1e-12*abs[m] + 1e-12*(m && mode == TH ? 1e6 : 1))) vh_fail(m ? m2 : "mass", "residuals of a closed domain add up to %g (sum of magnitudes %g)", sum[m], abs[m]);
      /* the water does as it would without the second component when that does not change its properties */
      double smax = 0;
      if (mode == TH || (rho < 2)) {
        CUR = &iso.q; CMODE = RICHARDS; if (mode == SALINITY) flow_prev(&iso.f, p);
        if (two_res(&iso, p, v, r)) break;
        for (int c = 0; c < nc; ++c) smax = fmax(smax, fabs(r[c]));
        int same = 1; for (int c = 0; c < nc; ++c) if (!(fabs(r[c]-R[2*c]) <= 1e-10*smax + 1e-15)) same = 0;
        if (!same && mode == TH) {
          double r0[MAXC], s0 = 0; CUR = &iso0.q; if (two_res(&iso0, p, v, r0)) break; for (int c = 0; c < nc; ++c) s0 = fmax(s0, fabs(r0[c]));
          same = 1; for (int c = 0; c < nc; ++c) if (!(fabs(r0[c]-R[2*c]) <= 1e-10*s0 + 1e-15)) same = 0;
          if (same) vh_fail("gravity", "cell 0: the water equation gives %.12g, that of isothermal flow without gravity; with it %.12g", R[0], r[0]);
        }
        if (!same) for (int c = 0; c < nc; ++c) if (!(fabs(r[c]-R[2*c]) <= 1e-10*smax + 1e-15)) { vh_fail("mass", "cell %d: the water equation gives %.12g, that of isothermal fresh water %.12g", c, R[2*c], r[c]); break; }
      }
      /* with the same concentration everywhere the salt moves with the water; with the same temperature the energy with the enthalpy */
      if (uni && !CB) {
        double fac = x[1]; if (mode == TH) { double a, b; VH_CHK(EOSComputeWaterEnthalpy(&t.f.tdy->eos, x[1], x[0], &fac, &a, &b)); }
        for (int c = 0; c < nc; ++c) if (!(fabs(R[2*c+1]-fac*R[2*c]) <= 1e-9*fac*abs[0] + 1e-12)) { vh_fail(m2, "cell %d: %.12g, the water carries %.12g", c, R[2*c+1], fac*R[2*c]); break; }
      }
    }
    flow_destroy(&t.f); flow_destroy(&iso.f); flow_destroy(&iso0.f);
  }
}
/* conduction and diffusion reproduce linear fields: no net flux into any cell */
static void g_linear(int mode) {
  prob q;
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_TAPER; ++geom) for (CK = 0; CK < 3; CK += 2) for (int l = 0; l < 7; ++l) for (int z = 0; z < 11; ++z) {
    begin(&q); CB = 2; q.disc = disc; q.geom = geom; q.kk = K_ISO; q.bc = B_DIR; q.pb = 5; q.grav = 0; q.rho = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (disc == D_MPFATPF && (geom > G_STRETCH || CK == 2)) continue;
    double sc = mode == TH ? 3.0 : 0.1;
    for (int d = 0; d < 3; ++d) LT[d] = ((l+1)>>d&1) ? sc*(d == 1 ? -1 : 1+d) : 0;
    LT[3] = mode == TH ? 25 : 2.0;
    if (!vh_case("%s-linear %d %s", mode == TH ? "th" : "salt", l, tname(&q))) continue;
    two t; if (two_create(&t, &q, mode)) continue;
    double x[2*MAXC], y[2*MAXC] = {0}, R[2*MAXC]; int nc = t.nc; uint64_t o = vh_h0();
    vh_state(vh_hi(vh_hi(phash(&q), CK), l*10+mode));
    for (int c = 0; c < nc; ++c) { PetscReal v, g[3]; DMPlexComputeCellGeometryFVM(t.f.dm, c, &v, g, NULL); x[2*c] = PREF; x[2*c+1] = tb_at(g); }
    CUR = &t.q; CMODE = mode; if (mode == SALINITY) flow_prev(&t.f, x);
    if (!two_res(&t, x, y, R)) {
      double K = mode == TH ? 1.0 : 1e-6*998;
      for (int c = 0; c < nc; ++c) {
        o = vh_hd(o, R[2*c+1]);
        if (!(fabs(R[2*c+1]) <= 1e-10*K*sc)) vh_fail(mode == TH ? "energy" : "salt", "cell %d: net flux %g in a linear field", c, R[2*c+1]);
        if (!(fabs(R[2*c]) <= 1e-14)) vh_fail("mass", "cell %d: net flux %g at constant pressure", c, R[2*c]);
      }
      /* one cell moved off the field: its own balance is positive when hotter, its face neighbours' negative */
      for (int k = 0; k < nc; ++k) for (int up = -1; up <= 1; up += 2) if (disc == D_MPFATPF || CK == 0) {
        double w[2*MAXC]; memcpy(w, x, sizeof w); w[2*k+1] += up*sc*0.5; CUR = &t.q; CMODE = mode;
        if (mode == SALINITY) flow_prev(&t.f, w);
        if (two_res(&t, w, y, R)) break;
        vh_state(vh_hi(vh_hi(vh_hi(phash(&q), CK), l*10+mode), 1000+2*k+up));
        if (!(up*R[2*k+1] > 1e-6*K*sc)) vh_fail("direction", "cell %d is %s than its surroundings and loses %g", k, up > 0 ? "higher" : "lower", R[2*k+1]);
        for (int c = 0; c < nc; ++c) if (c != k && geom <= G_STRETCH && up*R[2*c+1] > 1e-10*K*sc) vh_fail("direction", "cell %d loses %g beside a %s cell", c, R[2*c+1], up > 0 ? "higher" : "lower");
      }
    }
    vh_outcome(o);
    flow_destroy(&t.f);
  }
}
/* conduction and diffusion against the flow of water: with the conductivity as permeability, saturated water of one density and the temperature as
   pressure, the same discretization gives the same numbers */
static int KMODE;
static void f_kc(PetscInt n, PetscReal *x, PetscReal *f) { int m = CMODE; CMODE = KMODE; for (int i = 0; i < n; ++i) c_at(x+3*i, f+9*i); CMODE = m; }
static void f_pt(PetscInt n, PetscReal *x, PetscReal *f) { int m = CMODE; CMODE = KMODE; for (int i = 0; i < n; ++i) f[i] = PREF + 50000 + 1000*tb_at(x+3*i); CMODE = m; }
static void f_pc(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = PREF + 50000; }
static PetscErrorCode more_darcy(TDy t) { PetscErrorCode e = TDySetTensorPermeabilityFunction(t, f_kc); return e ? e : TDySetBoundaryPressureFunction(t, f_pt); }
static PetscErrorCode more_still(TDy t) { PetscErrorCode e = more(t); return e ? e : TDySetBoundaryPressureFunction(t, f_pc); }
static void g_cond(int mode) {
  prob q; const char *kind = mode == TH ? "energy" : "salt";
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_PERT; ++geom) for (int bc = 0; bc < 2; ++bc) for (CK = 0; CK < 3; ++CK) for (int z = 0; z < 11; ++z) {
    begin(&q); CB = bc != B_NEU; q.disc = disc; q.geom = geom; q.kk = K_ISO; q.bc = bc; q.grav = 0; q.rho = 0; memcpy(q.n, SIZES[z], sizeof q.n);
    if (!vh_case("%s-cond %s", mode == TH ? "th" : "salt", tname(&q))) continue;
    two t, w; prob qw = q; qw.form = 1; KMODE = mode;
    MORE = more_still; int bad = two_create(&t, &q, mode); MORE = more_darcy; bad = bad || two_create(&w, &qw, RICHARDS); MORE = more;
    if (bad) continue;
    int nc = t.nc, cx = vh_thorough ? 729 : 81; double rho, mu, a, b;
    for (int j = 0; j < vmax(nc, 3, cx); ++j) {
      double x[2*MAXC], y[2*MAXC] = {0}, R[2*MAXC], p[MAXC], v[MAXC] = {0}, r[MAXC], sc = 0; uint64_t h = vh_hi(vh_hi(phash(&q), CK), 300+mode), o = vh_h0();
      for (int c = 0; c < nc; ++c) { int k = vat(nc, 3, cx, j, c); x[2*c] = PREF+50000; x[2*c+1] = (mode == TH ? TV : SV)[k]; p[c] = PREF + 50000 + 1000*x[2*c+1]; h = vh_hi(h, k); }
      vh_state(h);
      CUR = &t.q; CMODE = mode; if (mode == SALINITY) flow_prev(&t.f, x);
      if (two_res(&t, x, y, R)) break;
      CUR = &w.q; CMODE = RICHARDS; if (two_res(&w, p, v, r)) break;
      VH_CHK(EOSComputeWaterDensity(&t.f.tdy->eos, PREF, 25, 0, &rho, &a, &b)); VH_CHK(EOSComputeWaterViscosity(&t.f.tdy->eos, PREF, 25, 0, &mu, &a, &b));
      double s = mu/rho/1000*(mode == SALINITY ? rho : 1);
      for (int c = 0; c < nc; ++c) sc = fmax(sc, fabs(s*r[c]));
      for (int c = 0; c < nc; ++c) { if (!(fabs(R[2*c+1]-s*r[c]) <= 1e-8*sc + 1e-10*(mode == TH ? 1 : 1e-3))) { vh_fail(kind, "cell %d: %.12g, the same conductivity as permeability gives %.12g", c, R[2*c+1], s*r[c]); break; } o = vh_hd(o, R[2*c+1]); }
      vh_outcome(o);
    }
    flow_destroy(&t.f); flow_destroy(&w.f);
  }
}
/* the Jacobian against differences of the residual */
static int two_jac(two *t, const double *x, const double *y, double shift, double *J) {
  double r[2*MAXC]; if (two_res(t, x, y, r)) return 1;      /* solvers evaluate the residual at a point before its Jacobian */
  if (!t->q.form) return flow_jac(&t->f, x, J);
  Vec V; Mat A, B; VecDuplicate(t->f.U, &V); flow_put(&t->f, t->f.U, x); flow_put(&t->f, V, y);
  PetscErrorCode ierr = TSGetIJacobian(t->f.ts, &A, &B, NULL, NULL);
  if (!ierr) ierr = TSComputeIJacobian(t->f.ts, 0.0, t->f.U, V, shift, A, B, PETSC_FALSE);
  VecDestroy(&V); vh_trans(1);
  if (ierr) { vh_fail("error", "jacobian: %d %s", ierr, vh_errmsg); return 1; }
  PetscInt n; VecGetLocalSize(t->f.U, &n);
  for (PetscInt i = 0; i < n; ++i) {
    PetscInt nc; const PetscInt *c; const PetscScalar *v;
    for (PetscInt j = 0; j < n; ++j) J[i*n+j] = 0;
    MatGetRow(B, i, &nc, &c, &v); for (PetscInt k = 0; k < nc; ++k) J[i*n+c[k]] = v[k]; MatRestoreRow(B, i, &nc, &c, &v);
  }
  return 0;
}
static void g_jac(int mode) {
  prob q;
  for (int disc = 0; disc < 2; ++disc) for (int geom = G_BOX; geom <= G_STRETCH; ++geom) for (int rho = 0; rho < 3; ++rho) for (int bc = 0; bc < 2; ++bc) for (CK = 0; CK < 2; ++CK) for (CB = 0; CB < 2; ++CB) for (int z = 0; z < 7; ++z) {
    begin(&q); q.disc = disc; q.geom = geom; q.kk = CK ? K_HDIAG : K_ISO; q.rho = rho; q.bc = bc; memcpy(q.n, SIZES[z], sizeof q.n);
    if (bc == B_NEU && CB) continue;
    if (!vh_case("%s-jac %s", mode == TH ? "th" : "salt", tname(&q))) continue;
    two t; if (two_create(&t, &q, mode)) continue;
    int nc = t.nc, n = 2*nc, cp = vh_thorough ? 64 : 16, cx = 9, flows = nc > 1 || bc != B_NEU; double *J = malloc(n*n*sizeof(double)), *K = malloc(n*n*sizeof(double));
    for (int jp = 0; jp < vmax(nc, 4, cp); ++jp) for (int jx = 0; jx < vmax(nc, 3, cx); ++jx) for (int k = 0; k < (mode == TH ? 2 : 1); ++k) {
      double x[2*MAXC], x0[2*MAXC], y[2*MAXC], a[2*MAXC], b[2*MAXC]; uint64_t h = vh_hi(vh_hi(phash(&q), CK*4+CB*2+k), 200+mode), o = vh_h0();
      for (int c = 0; c < nc; ++c) {
        int s = vat(nc, 4, cp, jp, c), u = vat(nc, 3, cx, jx, c); h = vh_hi(h, s*10+u);
        x[2*c] = pv(s, c); x[2*c+1] = (mode == TH ? TV : SV)[u] + 0.01*c + 0.05; x0[2*c] = pv((s+1)%4, c); x0[2*c+1] = 1;
        y[2*c] = k ? (c%2 ? -2.0 : 3.0) : 0; y[2*c+1] = k ? (c%2 ? 1e-3 : -2e-3) : 0;
      }
      vh_state(h); CUR = &t.q; CMODE = mode; if (mode == SALINITY) flow_prev(&t.f, x0);
      if (two_jac(&t, x, y, 1e-3, J)) goto out;
      for (int i = 0; i < n; ++i) o = vh_hd(o, J[i*n+i]);
      vh_outcome(o);
      if (mode == TH) {      /* the part with the shift: the residual is linear in the time derivative */
        if (two_jac(&t, x, y, 3e-3, K)) goto out;
        for (int j = 0; j < n; ++j) {
          double s = y[j]; y[j] = s+1; if (two_res(&t, x, y, a)) goto out; y[j] = s-1; if (two_res(&t, x, y, b)) goto out; y[j] = s;
          for (int i = 0; i < n; ++i) { double d = 0.5*(a[i]-b[i]), g = (K[i*n+j]-J[i*n+j])/2e-3, r = 1e-9*(fabs(a[i])+fabs(b[i]))+1e-6*fabs(d); if (!(fabs(d-g) <= r)) { vh_fail("shift", "d r[%d]/d xdot[%d]: %.10g, differences give %.10g", i, j, g, d); break; } }
        }
      }
      if (mode == TH) for (int i = 0; i < n*n; ++i) J[i] = 1.5*J[i]-0.5*K[i];
      for (int j = 0; j < n; ++j) {
        double e = j%2 ? (mode == TH ? 1e-3 : 1e-5) : 0.1, s = x[j]; 
        x[j] = s+e; if (two_res(&t, x, y, a)) goto out; x[j] = s-e; if (two_res(&t, x, y, b)) goto out; x[j] = s;
        double cs = 0; for (int i = 0; i < n; ++i) cs = fmax(cs, fabs(a[i]-b[i])/(2*e));
        for (int i = 0; i < n; ++i) { double d = (a[i]-b[i])/(2*e); if (!(fabs(d-J[i*n+j]) <= 1e-4*cs + 1e-9*(fabs(a[i])+fabs(b[i]))/e + (mode == TH ? 1e-11*fabs(K[i*n+j]) : 0))) { vh_fail(flows ? "jacobian" : "jacobian-storage", "d r[%d]/d x[%d]: %.10g, differences give %.10g (column scale %g)", i, j, J[i*n+j], d, cs); goto next; } }
      }
      next:;
    }
    out: free(J); free(K); flow_destroy(&t.f);
  }
}
int main(int argc, char **argv) {
  vh_parse(argc, argv);
  setenv("PETSC_OPTIONS", "-no_signal_handler -dm_plex_dim 3", 1);
  int ac = 1; char *av[2] = {argv[0], NULL};
  MPI_Init(&argc, &argv);
  if (!vh_verbose) if (!freopen("/dev/null", "w", stdout)) return 98;
  if (TDyInit(ac, av)) return 3;
  PetscPushErrorHandler(vh_errh, NULL);
  gen_rot();
  if (vh_grp("thref")) g_ref(TH);
  else if (vh_grp("thany")) g_any(TH);
  else if (vh_grp("thlin")) g_linear(TH);
  else if (vh_grp("thcond")) g_cond(TH);
  else if (vh_grp("saltcond")) g_cond(SALINITY);
  else if (vh_grp("saltref")) g_ref(SALINITY);
  else if (vh_grp("saltany")) g_any(SALINITY);
  else if (vh_grp("saltlin")) g_linear(SALINITY);
  else if (vh_grp("thjac")) g_jac(TH);
  else if (vh_grp("saltjac")) g_jac(SALINITY);
  else { fprintf(stderr, "unknown group\n"); return 98; }
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize(); MPI_Finalize();
  return 0;
}
