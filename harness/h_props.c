/* C04: material property setters; C05: conditions; C06: initialization, registry, shutdown callbacks */
#include <private/tdycoreimpl.h>
#include <private/tdymaterialpropertiesimpl.h>
#include <private/tdyconditionsimpl.h>
#include <tdytimers.h>
#include "vh.h"

/* ------------------------------------------------------------------------------------------ reference functions */
static double refv(int id, const double *x, int comp) { return 1.0 + 0.37*id + 0.11*comp*(1+id) + x[0]*(1+0.5*id+0.25*comp) - 0.3*x[1]*x[1] + 0.7*x[2]*(comp+1); }
#define FUN(ID,NC) static void fun_##ID##_##NC(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) for (int c = 0; c < NC; ++c) f[NC*i+c] = refv(ID, x+3*i, c); }
FUN(0,1) FUN(1,1) FUN(0,3) FUN(1,3) FUN(0,9) FUN(1,9)
static TDySpatialFunction FS[2] = {fun_0_1, fun_1_1}, FV[2] = {fun_0_3, fun_1_3}, FT[2] = {fun_0_9, fun_1_9};
static void ifun_0(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = 3 + (int)floor(10*refv(0,x+3*i,0)); }
static void ifun_1(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = 3 + (int)floor(10*refv(1,x+3*i,0)); }
static double X[4*3] = {0.5,0.25,0.125, 1.5,-2,0.75, -0.25,1,2, 0,0,0};

static TDy make_tdy(void) {
  TDy tdy = NULL;
  VH_CHK(TDyCreate(PETSC_COMM_WORLD, &tdy)); VH_CHK(TDySetMode(tdy, RICHARDS)); VH_CHK(TDySetDiscretization(tdy, MPFA_O)); VH_CHK(TDySetFromOptions(tdy));
  return tdy;
}

/* ---------------------------------------------------------------------------------------------------------- C04 */
enum { POR, RSAT, SDEN, SHEAT, MW, PERM, COND, DIFF, NPROP };
static const char *PNAME[] = {"porosity","residual-saturation","soil-density","soil-specific-heat","saline-molecular-weight","permeability","thermal-conductivity","saline-diffusivity"};
enum { CONST, FUNC, CISO, FISO, CDIAG, FDIAG, CTENS, FTENS, RAW, RAWDEL };
static const char *KNAME[] = {"const","func","const-iso","func-iso","const-diag","func-diag","const-tensor","func-tensor","raw","raw-null"};
typedef struct { int prop, kind, v; } mop;
static mop MO[256]; static int nmo;
static void gen_mops(void) {
  nmo = 0;
  for (int p = 0; p < NPROP; ++p) {
    int k0 = p < PERM ? CONST : CISO, k1 = p < PERM ? FUNC : FTENS;
    for (int k = k0; k <= k1; ++k) for (int v = 0; v < 2; ++v) MO[nmo++] = (mop){p,k,v};
    MO[nmo++] = (mop){p,RAW,0}; MO[nmo++] = (mop){p,RAWDEL,0};
  }
}
typedef struct { int id, nc, dead; } rawctx;
static rawctx RC[64]; static int nrc; static int wrong_ctx;
static PetscErrorCode raw_eval(void *c, PetscInt n, PetscReal *x, PetscReal *f) {
  rawctx *r = (rawctx*)c;
  if (!r || r < RC || r >= RC+64 || r->dead) { wrong_ctx = 1; return 0; }
  for (int i = 0; i < n; ++i) for (int k = 0; k < r->nc; ++k) f[r->nc*i+k] = refv(10+r->id, x+3*i, k);
  return 0;
}
static PetscErrorCode raw_ieval(void *c, PetscInt n, PetscReal *x, PetscInt *f) {
  rawctx *r = (rawctx*)c;
  if (!r || r < RC || r >= RC+64 || r->dead) { wrong_ctx = 1; return 0; }
  for (int i = 0; i < n; ++i) f[i] = 3 + (int)floor(10*refv(10+r->id,x+3*i,0));
  return 0;
}
static PetscErrorCode raw_dtor(void *c) { ((rawctx*)c)->dead++; return 0; }
static PetscErrorCode (*RAWSET[NPROP])(MaterialProp*, void*, PetscErrorCode(*)(void*,PetscInt,PetscReal*,PetscReal*), PetscErrorCode(*)(void*)) = {
  MaterialPropSetPorosity, MaterialPropSetResidualSaturation, MaterialPropSetSoilDensity, MaterialPropSetSoilSpecificHeat,
  MaterialPropSetSalineMolecularWeight, MaterialPropSetPermeability, MaterialPropSetThermalConductivity, MaterialPropSetSalineDiffusivity };
static PetscErrorCode (*COMP[NPROP])(MaterialProp*, PetscInt, PetscReal*, PetscReal*) = {
  MaterialPropComputePorosity, MaterialPropComputeResidualSaturation, MaterialPropComputeSoilDensity, MaterialPropComputeSoilSpecificHeat,
  MaterialPropComputeSalineMolecularWeight, MaterialPropComputePermeability, MaterialPropComputeThermalConductivity, MaterialPropComputeSalineDiffusivity };
static PetscBool (*HAS[NPROP])(MaterialProp*) = {
  MaterialPropHasPorosity, MaterialPropHasResidualSaturation, MaterialPropHasSoilDensity, MaterialPropHasSoilSpecificHeat,
  MaterialPropHasSalineMolecularWeight, MaterialPropHasPermeability, MaterialPropHasThermalConductivity, MaterialPropHasSalineDiffusivity };
static PetscErrorCode (*SETC[5])(TDy, PetscReal) = { TDySetConstantPorosity, TDySetConstantResidualSaturation, TDySetConstantSoilDensity, TDySetConstantSoilSpecificHeat, TDySetConstantSalineMolecularWeight };
static PetscErrorCode (*SETF[5])(TDy, TDyScalarSpatialFunction) = { TDySetPorosityFunction, TDySetResidualSaturationFunction, TDySetSoilDensityFunction, TDySetSoilSpecificHeatFunction, TDySetSalineMolecularWeightFunction };
static PetscErrorCode (*SETCI[3])(TDy, PetscReal) = { TDySetConstantIsotropicPermeability, TDySetConstantIsotropicThermalConductivity, TDySetConstantIsotropicSalineDiffusivity };
static PetscErrorCode (*SETFI[3])(TDy, TDyScalarSpatialFunction) = { TDySetIsotropicPermeabilityFunction, TDySetIsotropicThermalConductivityFunction, TDySetIsotropicSalineDiffusivityFunction };
static PetscErrorCode (*SETCD[3])(TDy, PetscReal[]) = { TDySetConstantDiagonalPermeability, TDySetConstantDiagonalThermalConductivity, TDySetConstantDiagonalSalineDiffusivity };
static PetscErrorCode (*SETFD[3])(TDy, TDyVectorSpatialFunction) = { TDySetDiagonalPermeabilityFunction, TDySetDiagonalThermalConductivityFunction, TDySetDiagonalSalineDiffusivityFunction };
static PetscErrorCode (*SETCT[3])(TDy, PetscReal[]) = { TDySetConstantTensorPermeability, TDySetConstantTensorThermalConductivity, TDySetConstantTensorSalineDiffusivity };
static PetscErrorCode (*SETFT[3])(TDy, TDyTensorSpatialFunction) = { TDySetTensorPermeabilityFunction, TDySetTensorThermalConductivityFunction, TDySetTensorSalineDiffusivityFunction };
static double cval(int p, int v, int c) { return 2.0 + p + 0.5*v + 0.03*(c+1)*(v+1); }

typedef struct { int kind, v, rc; } mstate;   /* kind -1: never set */
static void m_apply(TDy tdy, mstate *st, const mop *o) {
  int p = o->prop, t = p-PERM;
  double *buf = malloc(sizeof(double)*(o->kind == CDIAG ? 3 : 9));     /* exactly as long as the setter may read */
  switch (o->kind) {
    case CONST: VH_CHK(SETC[p](tdy, cval(p,o->v,0))); break;
    case FUNC: VH_CHK(SETF[p](tdy, FS[o->v])); break;
    case CISO: VH_CHK(SETCI[t](tdy, cval(p,o->v,0))); break;
    case FISO: VH_CHK(SETFI[t](tdy, FS[o->v])); break;
    case CDIAG: for (int i = 0; i < 3; ++i) buf[i] = cval(p,o->v,i); VH_CHK(SETCD[t](tdy, buf)); break;
    case FDIAG: VH_CHK(SETFD[t](tdy, FV[o->v])); break;
    case CTENS: for (int i = 0; i < 9; ++i) buf[i] = cval(p,o->v,i); VH_CHK(SETCT[t](tdy, buf)); break;
    case FTENS: VH_CHK(SETFT[t](tdy, FT[o->v])); break;
    case RAW: RC[nrc] = (rawctx){nrc, p < PERM ? 1 : 9, 0}; VH_CHK(RAWSET[p](tdy->matprop, &RC[nrc], raw_eval, raw_dtor)); break;
    case RAWDEL: VH_CHK(RAWSET[p](tdy->matprop, NULL, NULL, NULL)); break;
  }
  memset(buf, 0x7f, sizeof(double)*(o->kind == CDIAG ? 3 : 9)); free(buf);      /* the caller's array may go away */
  st[p].kind = o->kind == RAWDEL ? -1 : o->kind; st[p].v = o->v; st[p].rc = -1;
  if (o->kind == RAW) st[p].rc = nrc++;
}
static double m_expect(int p, const mstate *s, const double *x, int c) {
  int i = c/3, j = c%3;
  switch (s->kind) {
    case CONST: return cval(p,s->v,0);
    case FUNC: return refv(s->v,x,0);
    case CISO: return i == j ? cval(p,s->v,0) : 0;
    case FISO: return i == j ? refv(s->v,x,0) : 0;
    case CDIAG: return i == j ? cval(p,s->v,i) : 0;
    case FDIAG: return i == j ? refv(s->v,x,i) : 0;
    case CTENS: return cval(p,s->v,c);
    case FTENS: return refv(s->v,x,c);
    case RAW: return refv(10+s->rc,x,c);
  }
  return NAN;
}
static void m_observe(TDy tdy, const mstate *st, const char *hist) {
  for (int p = 0; p < NPROP; ++p) {
    int nc = p < PERM ? 1 : 9;
    if ((HAS[p](tdy->matprop) != 0) != (st[p].kind >= 0)) vh_fail("has", "%s reported %s; history %s", PNAME[p], st[p].kind >= 0 ? "absent" : "present", hist);
    if (st[p].kind < 0) continue;
    for (int n = 0; n <= 3; n += (n ? 2 : 1)) {
      double *f = malloc(8*(nc*n+1)), *x = malloc(8*(3*n+1)); const double sent = 7.77e77;
      for (int i = 0; i < nc*n+1; ++i) f[i] = sent;
      memcpy(x, X, 8*3*n);
      wrong_ctx = 0;
      VH_CHK(COMP[p](tdy->matprop, n, x, f)); vh_trans(1);
      if (wrong_ctx) vh_fail("context", "%s evaluated with a foreign or released context; history %s", PNAME[p], hist);
      if (f[nc*n] != sent) vh_fail("overrun", "%s writes behind its output; history %s", PNAME[p], hist);
      for (int i = 0; i < n; ++i) for (int c = 0; c < nc; ++c) {
        double e = m_expect(p, &st[p], X+3*i, c);
        if (f[nc*i+c] != e && fabs(f[nc*i+c]-e) > 1e-13*fabs(e)) { vh_fail("value", "%s[%d,%d] is %g, last set (%s %d) to %g; history %s", PNAME[p], i, c, f[nc*i+c], KNAME[st[p].kind], st[p].v, e, hist); i = n; break; }
      }
      free(f); free(x);
    }
  }
}
static uint64_t m_hash(const mstate *st) { uint64_t h = vh_h0(); for (int p = 0; p < NPROP; ++p) { h = vh_hi(h, st[p].kind); h = vh_hi(h, st[p].v); } return h; }
static long m_hists;
static void m_history(TDy tdy, const int *seq, int n) {
  mstate st[NPROP]; for (int p = 0; p < NPROP; ++p) st[p] = (mstate){-1,0,-1};
  char hist[512] = "";
  nrc = 0; m_hists++;
  PetscLogDouble m0, m1; PetscMallocGetCurrentUsage(&m0);
  VH_CHK(MaterialPropCreate(3, &tdy->matprop));
  for (int k = 0; k < n; ++k) {
    const mop *o = &MO[seq[k]];
    snprintf(hist+strlen(hist), sizeof hist-strlen(hist), "%s%s:%s:%d", k ? " " : "", PNAME[o->prop], KNAME[o->kind], o->v);
    m_apply(tdy, st, o); vh_trans(1);
    vh_state(m_hash(st));
    for (int r = 0; r < nrc; ++r) {
      int live = 0; for (int p = 0; p < NPROP; ++p) live |= st[p].rc == r;
      if (RC[r].dead != !live) vh_fail("context", "context %d released %d times while %s; history %s", r, RC[r].dead, live ? "in use" : "replaced", hist);
    }
  }
  m_observe(tdy, st, hist);
  vh_outcome(m_hash(st));
  VH_CHK(MaterialPropDestroy(tdy->matprop)); tdy->matprop = NULL;
  for (int r = 0; r < nrc; ++r) if (RC[r].dead != 1) vh_fail("context", "context %d released %d times in all; history %s", r, RC[r].dead, hist);
  PetscMallocGetCurrentUsage(&m1);
  if (m0 != m1) vh_fail("leak", "%g bytes left; history %s", m1-m0, hist);
  vh_sample("%s", hist);
}
static void group_matprop(void) {
  gen_mops();
  int depth = vh_thorough ? 3 : 2;
  TDy tdy = NULL;
  for (int i = 0; i < nmo; ++i) {
    if (!vh_case("first=%s:%s:%d", PNAME[MO[i].prop], KNAME[MO[i].kind], MO[i].v)) continue;
    if (!tdy) { tdy = make_tdy(); VH_CHK(MaterialPropDestroy(tdy->matprop)); tdy->matprop = NULL; }
    int s[3] = {i,0,0}; m_hists = 0;
    m_history(tdy, s, 1);
    for (int j = 0; j < nmo; ++j) { s[1] = j; m_history(tdy, s, 2);
      /* quick: a third call only on the same property as one of the first two */
      for (int k = 0; k < nmo; ++k) if (depth >= 3 || MO[k].prop == MO[i].prop || (MO[k].prop == MO[j].prop && MO[k].v == 0)) { s[2] = k; m_history(tdy, s, 3); } }
    vh_count("histories", m_hists);
  }
  /* the functions see every point and only the coordinates given, for any number of points */
  for (int n = 0; n <= 40; ++n) {
    if (!vh_case("points=%d", n)) continue;
    if (!tdy) { tdy = make_tdy(); VH_CHK(MaterialPropDestroy(tdy->matprop)); tdy->matprop = NULL; }
    for (int o = 0; o < nmo; ++o) {
      mstate st[NPROP]; for (int p = 0; p < NPROP; ++p) st[p] = (mstate){-1,0,-1};
      nrc = 0; VH_CHK(MaterialPropCreate(3, &tdy->matprop));
      m_apply(tdy, st, &MO[o]);
      int p = MO[o].prop, nc = p < PERM ? 1 : 9;
      double *f = malloc(8*nc*n+1), *x = malloc(24*n+1);
      for (int i = 0; i < 3*n; ++i) x[i] = 0.1*((7*i)%11)-0.3;
      for (int i = 0; i < nc*n; ++i) f[i] = 1e99;
      VH_CHK(COMP[p](tdy->matprop, n, x, f)); vh_trans(1); vh_state(vh_hi(vh_hi(vh_h0(), o), 1000+n));
      if (st[p].kind >= 0) for (int i = 0; i < n; ++i) for (int c = 0; c < nc; ++c) {
        double e = m_expect(p, &st[p], x+3*i, c);
        if (fabs(f[nc*i+c]-e) > 1e-13*fabs(e)+1e-300) { vh_fail("value", "%s at point %d of %d: %g instead of %g (%s)", PNAME[p], i, n, f[nc*i+c], e, KNAME[st[p].kind]); i = n; break; }
      }
      free(f); free(x);
      VH_CHK(MaterialPropDestroy(tdy->matprop)); tdy->matprop = NULL;
    }
  }
  vh_end();
  if (tdy) { VH_CHK(MaterialPropCreate(3, &tdy->matprop)); VH_CHK(TDyDestroy(&tdy)); }
}

/* ---------------------------------------------------------------------------------------------------------- C05 */
enum { FRC, EFRC, SSRC, BP, BPT, BV, BT, BS, NCOND };
static const char *CNAME[] = {"forcing","energy-forcing","salinity-source","boundary-pressure","boundary-pressure-type","boundary-velocity","boundary-temperature","boundary-salinity"};
enum { CSET, CSEL, CSELBAD, CCONST, CRAW, CRAWDEL };
static const char *CKNAME[] = {"set","select","select-unknown","constant","raw","raw-null"};
typedef struct { int cond, kind, v; } cop;
static cop CO[128]; static int nco;
static PetscErrorCode (*CSETF[NCOND])(TDy, TDyScalarSpatialFunction) = { TDySetForcingFunction, TDySetEnergyForcingFunction, TDySetSalinitySourceFunction,
  TDySetBoundaryPressureFunction, NULL, TDySetBoundaryVelocityFunction, TDySetBoundaryTemperatureFunction, TDySetBoundarySalineConcentrationFunction };
static PetscErrorCode (*CSELF[NCOND])(TDy, const char*) = { TDySelectForcingFunction, TDySelectEnergyForcingFunction, NULL,
  TDySelectBoundaryPressureFunction, NULL, TDySelectBoundaryVelocityFunction, TDySelectBoundaryTemperatureFunction, TDySelectBoundarySalineConcentrationFunction };
typedef PetscErrorCode (*crawset)(Conditions*, void*, PetscErrorCode(*)(void*,PetscInt,PetscReal*,PetscReal*), PetscErrorCode(*)(void*));
static crawset CRAWF[NCOND] = { ConditionsSetForcing, ConditionsSetEnergyForcing, ConditionsSetSalinitySource, ConditionsSetBoundaryPressure, NULL,
  ConditionsSetBoundaryVelocity, ConditionsSetBoundaryTemperature, ConditionsSetBoundarySalineConcentration };
static PetscErrorCode (*CCONSTF[NCOND])(Conditions*, PetscReal) = { NULL, NULL, NULL, ConditionsSetConstantBoundaryPressure, NULL,
  ConditionsSetConstantBoundaryVelocity, ConditionsSetConstantBoundaryTemperature, ConditionsSetConstantBoundarySalineConcentration };
static PetscBool (*CHAS[NCOND])(Conditions*) = { ConditionsHasForcing, ConditionsHasEnergyForcing, ConditionsHasSalinitySource, ConditionsHasBoundaryPressure,
  ConditionsHasBoundaryPressureType, ConditionsHasBoundaryVelocity, ConditionsHasBoundaryTemperature, ConditionsHasBoundarySalineConcentration };
static PetscErrorCode (*CCOMP[NCOND])(Conditions*, PetscInt, PetscReal*, PetscReal*) = { ConditionsComputeForcing, ConditionsComputeEnergyForcing, ConditionsComputeSalinitySource,
  ConditionsComputeBoundaryPressure, NULL, ConditionsComputeBoundaryVelocity, ConditionsComputeBoundaryTemperature, ConditionsComputeBoundarySalineConcentration };
static void gen_cops(void) {
  nco = 0;
  for (int c = 0; c < NCOND; ++c) {
    for (int v = 0; v < 2; ++v) CO[nco++] = (cop){c,CSET,v};
    if (CSELF[c]) { for (int v = 0; v < 2; ++v) CO[nco++] = (cop){c,CSEL,v}; CO[nco++] = (cop){c,CSELBAD,0}; }
    if (CCONSTF[c]) for (int v = 0; v < 2; ++v) CO[nco++] = (cop){c,CCONST,v};
    CO[nco++] = (cop){c,CRAW,0}; CO[nco++] = (cop){c,CRAWDEL,0};
  }
}
typedef struct { int kind, v, rc; } cstate;
static void c_apply(TDy tdy, cstate *st, const cop *o, const char *hist) {
  int c = o->cond;
  switch (o->kind) {
    case CSET: if (c == BPT) VH_CHK(TDySetBoundaryPressureTypeFunction(tdy, o->v ? ifun_1 : ifun_0)); else VH_CHK(CSETF[c](tdy, FS[o->v])); break;
    case CSEL: { char nm[16]; snprintf(nm, sizeof nm, "fun%d", o->v); VH_CHK(CSELF[c](tdy, nm)); break; }
    case CSELBAD: { static const char *bad[] = {"fun", "fun00", "", "FUN0", "fun0 "};
      for (int k = 0; k < 5; ++k) { PetscErrorCode r = CSELF[c](tdy, bad[k]); if (!r) vh_fail("unknown-name", "%s: selecting \"%s\" was accepted; history %s", CNAME[c], bad[k], hist); }
      return; }
    case CCONST: VH_CHK(CCONSTF[c](tdy->conditions, cval(c,o->v,0))); break;
    case CRAW: RC[nrc] = (rawctx){nrc, 1, 0};
      if (c == BPT) VH_CHK(ConditionsSetBoundaryPressureType(tdy->conditions, &RC[nrc], raw_ieval, raw_dtor)); else VH_CHK(CRAWF[c](tdy->conditions, &RC[nrc], raw_eval, raw_dtor)); break;
    case CRAWDEL: if (c == BPT) VH_CHK(ConditionsSetBoundaryPressureType(tdy->conditions, NULL, NULL, NULL)); else VH_CHK(CRAWF[c](tdy->conditions, NULL, NULL, NULL)); break;
  }
  st[c].kind = o->kind == CRAWDEL ? -1 : o->kind; st[c].v = o->v; st[c].rc = -1;
  if (o->kind == CRAW) st[c].rc = nrc++;
}
static double c_expect(int c, const cstate *s, const double *x) {
  double v = s->kind == CCONST ? cval(c,s->v,0) : s->kind == CRAW ? refv(10+s->rc,x,0) : refv(s->v,x,0);
  return c == BPT ? 3+(int)floor(10*v) : v;
}
static void c_observe(TDy tdy, const cstate *st, const char *hist) {
  for (int c = 0; c < NCOND; ++c) {
    if ((CHAS[c](tdy->conditions) != 0) != (st[c].kind >= 0)) vh_fail("has", "%s reported %s; history %s", CNAME[c], st[c].kind >= 0 ? "absent" : "present", hist);
    if (st[c].kind < 0) continue;
    for (int n = 0; n <= 3; n += (n ? 2 : 1)) {
      double *f = malloc(8*(n+1)), *x = malloc(8*(3*n+1)); PetscInt *fi = malloc(sizeof(PetscInt)*(n+1));
      for (int i = 0; i <= n; ++i) { f[i] = 1e77; fi[i] = -4444; }
      memcpy(x, X, 24*n); wrong_ctx = 0;
      if (c == BPT) VH_CHK(ConditionsAssignBoundaryPressureType(tdy->conditions, n, x, fi)); else VH_CHK(CCOMP[c](tdy->conditions, n, x, f));
      vh_trans(1);
      if (wrong_ctx) vh_fail("context", "%s evaluated with a foreign or released context; history %s", CNAME[c], hist);
      if (f[n] != 1e77 || fi[n] != -4444) vh_fail("overrun", "%s writes behind its output; history %s", CNAME[c], hist);
      for (int i = 0; i < n; ++i) {
        double e = c_expect(c, &st[c], X+3*i), g = c == BPT ? fi[i] : f[i];
        if (fabs(g-e) > 1e-13*fabs(e)) { vh_fail("value", "%s at point %d is %g, last set (%s %d) to %g; history %s", CNAME[c], i, g, CKNAME[st[c].kind], st[c].v, e, hist); break; }
      }
      free(f); free(x); free(fi);
    }
  }
}
static uint64_t c_hash(const cstate *st) { uint64_t h = vh_h0(); for (int c = 0; c < NCOND; ++c) { h = vh_hi(h, st[c].kind); h = vh_hi(h, st[c].v); } return h; }
static void c_history(TDy tdy, const int *seq, int n) {
  cstate st[NCOND]; for (int c = 0; c < NCOND; ++c) st[c] = (cstate){-1,0,-1};
  char hist[512] = ""; nrc = 0; m_hists++;
  PetscLogDouble m0, m1; PetscMallocGetCurrentUsage(&m0);
  VH_CHK(ConditionsCreate(&tdy->conditions));
  for (int k = 0; k < n; ++k) {
    const cop *o = &CO[seq[k]];
    snprintf(hist+strlen(hist), sizeof hist-strlen(hist), "%s%s:%s:%d", k ? " " : "", CNAME[o->cond], CKNAME[o->kind], o->v);
    c_apply(tdy, st, o, hist); vh_trans(1); vh_state(c_hash(st));
    for (int r = 0; r < nrc; ++r) {
      int live = 0; for (int c = 0; c < NCOND; ++c) live |= st[c].rc == r;
      if (RC[r].dead != !live) vh_fail("context", "context %d released %d times while %s; history %s", r, RC[r].dead, live ? "in use" : "replaced", hist);
    }
  }
  c_observe(tdy, st, hist); vh_outcome(c_hash(st));
  VH_CHK(ConditionsDestroy(tdy->conditions)); tdy->conditions = NULL;
  for (int r = 0; r < nrc; ++r) if (RC[r].dead != 1) vh_fail("context", "context %d released %d times in all; history %s", r, RC[r].dead, hist);
  PetscMallocGetCurrentUsage(&m1);
  if (m0 != m1) vh_fail("leak", "%g bytes left; history %s", m1-m0, hist);
  vh_sample("%s", hist);
}
static void group_cond(void) {
  gen_cops();
  TDyRegisterFunction("fun0", FS[0]); TDyRegisterFunction("fun1", FS[1]);
  TDy tdy = NULL;
  for (int i = 0; i < nco; ++i) {
    if (!vh_case("first=%s:%s:%d", CNAME[CO[i].cond], CKNAME[CO[i].kind], CO[i].v)) continue;
    if (!tdy) { tdy = make_tdy(); VH_CHK(ConditionsDestroy(tdy->conditions)); tdy->conditions = NULL; }
    int s[3] = {i,0,0}; m_hists = 0;
    c_history(tdy, s, 1);
    for (int j = 0; j < nco; ++j) { s[1] = j; c_history(tdy, s, 2);
      for (int k = 0; k < nco; ++k) if (vh_thorough || CO[k].cond == CO[i].cond || CO[k].cond == CO[j].cond) { s[2] = k; c_history(tdy, s, 3); } }
    vh_count("histories", m_hists);
  }
  vh_end();
  if (tdy) { VH_CHK(ConditionsCreate(&tdy->conditions)); VH_CHK(TDyDestroy(&tdy)); }
}

/* ---------------------------------------------------------------------------------------------------------- C06 */
enum { O_INIT, O_INIT0, O_FIN, O_REG, O_REG2, O_REG3, O_REG4, O_CB1, O_CB2, O_TIMERS, O_DYCORE, NOPS };
static const char *ONAME[] = {"init","init-no-args","finalize","reg(a,f)","reg(a,g)","reg(ab,g)","reg(long,f)","cb1","cb2","init-timers","dycore"};
static char LONG[301];
static int cblog[512], ncb;
static void cb1(void) { if (ncb < 512) cblog[ncb++] = 1; }
static void cb2(void) { if (ncb < 512) cblog[ncb++] = 2; }
static const char *RN[4] = {"a", "ab", LONG, "b"};
static void p_lookup(const TDySpatialFunction *reg, const char *hist) {
  for (int k = 0; k < 4; ++k) {
    TDySpatialFunction f = (TDySpatialFunction)0x1; PetscErrorCode r = TDyGetFunction(RN[k], &f); vh_trans(1);
    if (reg[k]) { if (r || f != reg[k]) vh_fail("lookup", "name %.20s: code %d, function %s; history %s", RN[k], (int)r, f == reg[k] ? "right" : "wrong", hist); }
    else if (!r) vh_fail("lookup", "name %.20s was never registered but is found; history %s", RN[k], hist);
  }
}
static char *argv0;
static void p_history(const int *seq, int n) {
  int init = 0, expect[512], ne = 0; TDySpatialFunction reg[4] = {0,0,0,0};
  char hist[1024] = "", nm[400]; ncb = 0; m_hists++;
  for (int k = 0; k < n; ++k) {
    int o = seq[k];
    snprintf(hist+strlen(hist), sizeof hist-strlen(hist), "%s%s", k ? " " : "", ONAME[o]);
    if (o == O_TIMERS && !init) setenv("PETSC_OPTIONS", "-no_signal_handler -malloc_debug 0 -dm_plex_dim 3 -dm_plex_simplex 0 -dm_plex_box_faces 1,1,1 -tdy_timers", 1);
    switch (o) {
      case O_INIT: case O_TIMERS: { int ac = 1; char *av[] = {argv0, NULL}; VH_CHK(TDyInit(ac, av)); break; }
      case O_INIT0: VH_CHK(TDyInitNoArguments()); break;
      case O_FIN: VH_CHK(TDyFinalize()); break;
      case O_REG: case O_REG2: case O_REG3: case O_REG4: {
        int idx = o <= O_REG2 ? 0 : o == O_REG3 ? 1 : 2; TDySpatialFunction f = (o == O_REG || o == O_REG4) ? FS[0] : FS[1];
        /* the caller's string lives only during the call */
        snprintf(nm, sizeof nm, "%s", RN[idx]); VH_CHK(TDyRegisterFunction(nm, f)); memset(nm, 'z', sizeof nm-1); reg[idx] = f; break; }
      case O_CB1: VH_CHK(TDyOnFinalize(cb1)); expect[ne++] = 1; break;
      case O_CB2: VH_CHK(TDyOnFinalize(cb2)); expect[ne++] = 2; break;
      case O_DYCORE: { TDy tdy = make_tdy(); VH_CHK(TDySetConstantPorosity(tdy, 0.2)); VH_CHK(TDySetConstantIsotropicPermeability(tdy, 1e-12)); VH_CHK(TDySetConstantResidualSaturation(tdy, 0.1));
        VH_CHK(TDySetup(tdy)); VH_CHK(TDyDestroy(&tdy)); break; }
    }
    vh_trans(1);
    if (o == O_INIT || o == O_INIT0 || o == O_TIMERS) {
      if (!init) PetscPushErrorHandler(vh_errh, NULL);
      init = 1; setenv("PETSC_OPTIONS", "-no_signal_handler -malloc_debug 0 -dm_plex_dim 3 -dm_plex_simplex 0 -dm_plex_box_faces 1,1,1", 1);
    }
    PetscBool pi; PetscInitialized(&pi);
    if (o == O_FIN) {
      int bad = ncb != ne; for (int i = 0; !bad && i < ne; ++i) bad = cblog[i] != expect[ne-1-i];
      if (bad) vh_fail("callbacks", "%d shutdown callbacks ran, %d were registered since initialization (or in a wrong order); history %s", ncb, ne, hist);
      ncb = ne = 0; memset(reg, 0, sizeof reg); init = 0;
    } else if (ncb) vh_fail("callbacks", "a shutdown callback ran outside finalization; history %s", hist);
    if ((pi != 0) != init) vh_fail("initialized", "PETSc is %sinitialized; history %s", pi ? "" : "not ", hist);
    if (init) p_lookup(reg, hist);
    uint64_t h = vh_hi(vh_h0(), init); for (int i = 0; i < 4; ++i) h = vh_hi(h, reg[i] == FS[0] ? 1 : reg[i] == FS[1] ? 2 : 0);
    for (int i = 0; i < ne; ++i) h = vh_hi(h, expect[i]);
    vh_state(h); vh_outcome(vh_hi(h, o));
  }
  if (init) { VH_CHK(TDyFinalize()); if (ncb != ne) vh_fail("callbacks", "%d of %d callbacks; history %s then finalize", ncb, ne, hist); }
  vh_sample("%s", hist);
}
static int p_enabled(int init, int o) { return init ? (o != O_TIMERS) : (o == O_INIT || o == O_INIT0 || o == O_FIN || o == O_TIMERS); }
static void p_rec(int *seq, int n, int init, int depth, int nd) {
  if (n) p_history(seq, n);
  if (n == depth) return;
  for (int o = 0; o < NOPS; ++o) if (p_enabled(init, o) && !(o == O_DYCORE && nd)) {
    seq[n] = o; p_rec(seq, n+1, o == O_FIN ? 0 : (o == O_INIT || o == O_INIT0 || o == O_TIMERS) ? 1 : init, depth, nd || o == O_DYCORE);
  }
}
static void group_process(void) {
  memset(LONG, 'q', 300);
  int depth = vh_thorough ? 6 : 4, seq[8];
  for (int a = 0; a < NOPS; ++a) if (p_enabled(0, a)) for (int b = 0; b < NOPS; ++b) {
    int ia = a != O_FIN; if (!p_enabled(ia, b)) continue;
    for (int c = 0; c < NOPS; ++c) {
      int ib = b == O_FIN ? 0 : 1; if (!p_enabled(ib, c) || (b == O_DYCORE && c == O_DYCORE)) continue;
      if (!vh_case("%s %s %s ...", ONAME[a], ONAME[b], ONAME[c])) continue;
      m_hists = 0; seq[0] = a; seq[1] = b; seq[2] = c;
      p_rec(seq, 3, c == O_FIN ? 0 : (c == O_INIT || c == O_INIT0 || c == O_TIMERS) ? 1 : ib, depth, b == O_DYCORE || c == O_DYCORE);
      vh_count("histories", m_hists);
    }
  }
  /* any number of callbacks and names, over two cycles */
  for (int n = 0; n <= (vh_thorough ? 300 : 130); ++n) {
    if (!vh_case("many=%d", n)) continue;
    for (int cyc = 0; cyc < 2; ++cyc) {
      int ac = 1; char *av[] = {argv0, NULL}; VH_CHK(TDyInit(ac, av)); PetscPushErrorHandler(vh_errh, NULL);
      ncb = 0;
      for (int i = 0; i < n; ++i) VH_CHK(TDyOnFinalize(i%3 ? cb1 : cb2));
      for (int i = 0; i < n; ++i) { char nm[32]; snprintf(nm, sizeof nm, "name-%d", i); VH_CHK(TDyRegisterFunction(nm, (TDySpatialFunction)(uintptr_t)(0x1000+16*i+cyc))); }
      for (int i = 0; i <= n; ++i) { char nm[32]; snprintf(nm, sizeof nm, "name-%d", i); TDySpatialFunction f = NULL; PetscErrorCode r = TDyGetFunction(nm, &f);
        vh_trans(3);
        if (i < n ? (r || f != (TDySpatialFunction)(uintptr_t)(0x1000+16*i+cyc)) : !r) vh_fail("lookup", "%s of %d names: code %d", nm, n, (int)r); }
      VH_CHK(TDyFinalize());
      int bad = ncb != n; for (int i = 0; !bad && i < n; ++i) bad = cblog[i] != ((n-1-i)%3 ? 1 : 2);
      if (bad) vh_fail("callbacks", "%d of %d callbacks ran, or in a wrong order", ncb, n);
      vh_state(vh_hi(vh_hi(vh_h0(), 7000+n), cyc));
    }
  }
}

int main(int argc, char **argv) {
  vh_parse(argc, argv);
  argv0 = argv[0];
  setenv("PETSC_OPTIONS", vh_grp("process") ? "-no_signal_handler -malloc_debug 0 -dm_plex_dim 3 -dm_plex_simplex 0 -dm_plex_box_faces 1,1,1" : "-no_signal_handler -malloc_debug -dm_plex_dim 3 -dm_plex_simplex 0 -dm_plex_box_faces 1,1,1", 1);
  if (vh_grp("process")) {
    MPI_Init(NULL, NULL);      /* MPI cannot be initialized twice in a process; PETSc then leaves it alone */
    group_process();
    vh_finish(); MPI_Finalize();
    return 0;
  }
  int ac = 1; char *av[] = {argv[0], NULL};
  if (TDyInit(ac, av)) return 98;
  PetscPushErrorHandler(vh_errh, NULL);
  if (vh_grp("matprop")) group_matprop(); else if (vh_grp("cond")) group_cond(); else return 98;
  vh_finish();
  PetscPopErrorHandler();
  TDyFinalize();
  return 0;
}
