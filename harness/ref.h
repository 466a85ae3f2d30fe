#ifndef REF_H
#define REF_H
#include <math.h>
/* ------------------------------------------------------------------ reference curves, written from the literature */
static void ref_vg(double m, double a, double Sr, double Pc, double *S, double *d1, double *d2) {
  if (Pc <= 0) { *S = 1; *d1 = 0; *d2 = 0; return; }
  long double n = 1.0L/(1.0L-m), u = powl((long double)a*Pc, n), q = 1+u;
  long double Se = powl(q, -m);
  *S = (double)(Sr + (1-Sr)*Se);
  /* dSe/dPc = -m q^{-m-1} n u / Pc */
  *d1 = (double)((1-Sr)*m*n*u/Pc*powl(q,-m-1));                      /* dS/dP = -dS/dPc */
  *d2 = (double)((1-Sr)*m*n/((long double)Pc*Pc)*(-(n-1)*u*powl(q,-m-1) + (m+1)*n*u*u*powl(q,-m-2)));
}
static void ref_gardner(double m, double a, double Sr, double Pc, double *S, double *d1, double *d2) {
  if (Pc < 0) { *S = 1; *d1 = 0; *d2 = 0; return; }
  double e = exp(-a*Pc/m);
  *S = Sr + (1-Sr)*e; *d1 = (1-Sr)*a/m*e; *d2 = (1-Sr)*(a/m)*(a/m)*e;
}
static void ref_irmay(double m, double Se, double *K, double *d) {
  if (Se >= 1) { *K = 1; *d = 0; } else { *K = pow(Se, m); *d = m*pow(Se, m-1); }
}
static void ref_mualem_raw(double m, double Se, double *K, double *d) {
  if (Se >= 1) { *K = 1; *d = 0; return; }
  if (Se <= 0) { *K = 0; *d = 0; return; }
  long double w = powl(Se, 1.0L/m), t = powl(1-w, m), s = sqrtl(Se);
  *K = (double)(s*(1-t)*(1-t));
  *d = (double)(0.5L/s*(1-t)*(1-t) + s*2*(1-t)*powl(1-w, m-1)*w/Se);
}
static void ref_mualem(double m, double x1, double x2, double Se, double *K, double *d) {
  if (Se <= x1) { ref_mualem_raw(m, Se, K, d); return; }
  /* cubic Hermite between (x1, K1, s1) and (x2, 1, 0) */
  double K1, s1, h = x2-x1, t = (Se-x1)/h;
  ref_mualem_raw(m, x1, &K1, &s1);
  double h00 = 2*t*t*t-3*t*t+1, h10 = t*t*t-2*t*t+t, h01 = -2*t*t*t+3*t*t;
  *K = h00*K1 + h10*h*s1 + h01;
  *d = ((6*t*t-6*t)*K1 + (3*t*t-4*t+1)*h*s1 + (-6*t*t+6*t))/h;
}
static int close_rel(double a, double b, double rtol, double atol) { return fabs(a-b) <= atol + rtol*fmax(fabs(a), fabs(b)); }

#endif
