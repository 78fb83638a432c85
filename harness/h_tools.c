/* Tabulated functions and statistics (src/tools.c): real code against direct evaluation. */
#include "common.h"
#include <gsl/gsl_sf.h>
#include "tools.h"
static void c18(void){
  int size = 1 + rnd(rnd(3) ? 12 : 120), kind = rnd(5), q = 30; double x = rnd(3) ? 0.5 + rnd(8) * 0.25 : 1.0 + rnd(4); h_nontrivial++;
  if (kind == 0) { double *t = InitializeFastLog(size); note("FastLog, table of %d:", size); while (q--) { int r = rnd(4) ? rnd(2 * size + 3) : size - 1 + rnd(3); note(" %d", r); double g = FastLog(r, t, size), w = log((double)r); if (!(near_(g, w) || (isinf(g) && isinf(w)))) bug("FastLog(%d) is %.15g, the logarithm is %.15g", r, g, w); } FreeFastLog(t); }
  else if (kind == 1) { double *t = InitializeFastLogFact(size); note("FastLogFact, table of %d:", size); while (q--) { int r = rnd(4) ? rnd(2 * size + 3) : size - 1 + rnd(3); note(" %d", r); double g = FastLogFact(r, t, size), w = lgamma(r + 1.0); if (!near_(g, w)) bug("FastLogFact(%d) is %.15g, the value is %.15g", r, g, w); } FreeFastLogFact(t); }
  else if (kind == 2) { double *t = InitializeFastLogGamma(size, x); note("FastLogGamma, table of %d, shift %g:", size, x); while (q--) { int r = rnd(4) ? rnd(2 * size + 3) : size - 1 + rnd(3); note(" %d", r); double g = FastLogGamma(r, t, size, x), w = lgamma(r + x); if (!near_(g, w)) bug("FastLogGamma(%d) is %.15g, the value is %.15g", r, g, w); } FreeFastLogGamma(t); }
  else if (kind == 3) { double **t = InitializeFastLogChoose(size); note("FastLogChoose, table of %d:", size); q = 80; while (q--) { int r = rnd(4) ? rnd(2 * size + 3) : size - 1 + rnd(3); if (r < 0) r = 0; int l = rnd(r + 1); if (rnd(6) == 0) l = rnd(2) ? r : 0; note(" (%d,%d)", r, l); double g = FastLogChoose(r, l, t, size), w = lgamma(r + 1.0) - lgamma(l + 1.0) - lgamma(r - l + 1.0); if (!near_(g, w)) bug("FastLogChoose(%d,%d) is %.15g, the value is %.15g", r, l, g, w); g = LogChoose(r, l); if (!near_(g, w)) bug("LogChoose(%d,%d) is %.15g, the value is %.15g", r, l, g, w); } FreeFastLogChoose(t, size); }
  else { double *t = InitializeHarmonicList(size), s = 0; note("harmonic numbers, table of %d", size); for (int i = 1; i < size; i++) { s += 1.0 / i; if (!near_(t[i], s)) bug("harmonic number %d is %.15g, expected %.15g", i, t[i], s); } if (t[0] != 0) bug("harmonic number 0 is %g", t[0]); FreeHarmonicList(t); }
}
static void c19(void){
  int n = 1 + rnd(rnd(3) ? 6 : 40); double *d = malloc(n * sizeof *d), *c = malloc(n * sizeof *c); int kind = rnd(5), sc = rnd(2) ? 0 : rnd(60) - 40; double s = 0, s2 = 0, mx, mn;
  note("data:"); for (int i = 0; i < n; i++) { d[i] = kind == 0 ? rnd(11) - 5 : kind == 1 ? -1 - rnd(20) : kind == 2 ? 3 : kind == 3 ? (rndu() - .5) * 20 : 100000 + rnd(1000) * 0.25; d[i] = ldexp(d[i], sc); note(" %.17g", d[i]); c[i] = d[i]; s += d[i]; s2 += d[i] * d[i]; }
  h_nontrivial++; mx = mn = d[0]; for (int i = 1; i < n; i++) { if (d[i] > mx) mx = d[i]; if (d[i] < mn) mn = d[i]; }
  double m = s / n, v = 0; for (int i = 0; i < n; i++) v += (d[i] - m) * (d[i] - m); v /= n; (void)s2;
  double g = mean(d, n); if (fabs(g - m) > 1e-9 * (sqrt(v) + fabs(m))) bug("mean is %.15g, expected %.15g", g, m);
  g = stddev(d, n); if (!(fabs(g * g - v) <= 1e-9 * (m * m + v))) bug("stddev is %.15g, expected %.15g", g, sqrt(v));
  g = max(d, n); if (g != mx) bug("max is %.15g, expected %.15g", g, mx);
  g = min(d, n); if (g != mn) bug("min is %.15g, expected %.15g", g, mn);
  for (int i = 0; i < n; i++) if (d[i] != c[i]) bug("element %d was changed", i);
  free(d); free(c);
  int a = rnd(21); long f = 1; for (int i = 2; i <= a; i++) f *= i; note(" fact %d", a); if (fact(a) != f) bug("fact(%d) is %ld, expected %ld", a, fact(a), f);
  int N = rnd(rnd(2) ? 12 : 60), K = rnd(N + 3); note(" choose %d %d", N, K); long double w = K > N ? 0 : 1; if (K <= N) for (int i = 1; i <= K; i++) w = w * (N - K + i) / i;
  long double ch = Choose(N, K); if (fabsl(ch - w) > 1e-12L * (1 + w)) bug("Choose(%d,%d) is %.20Lg, expected %.20Lg", N, K, ch, w);
}
int main(int argc, char **argv){ return h_main(argc, argv, !strcmp(argv[1], "C18") ? c18 : c19); }
