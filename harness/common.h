/* Shared by all replay harnesses: reproducible cases, case marker for crashes, failure report. */
#ifndef H_COMMON
#define H_COMMON
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <gsl/gsl_rng.h>
static uint64_t h_state; static int h_verbose, h_markfd = -1; static uint64_t h_case; static const char *h_mode = "";
static char h_in[1 << 16]; static size_t h_inlen;
static uint64_t rnd64(void){ uint64_t z = (h_state += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static int rnd(int n){ return n <= 0 ? 0 : (int)(rnd64() % (uint64_t)n); }
static double rndu(void){ return (rnd64() >> 11) * (1.0 / 9007199254740992.0); }
/* note(): describes the input of the current case */
static void note(const char *f, ...){ va_list a; va_start(a, f); if (h_inlen < sizeof h_in - 300) { int k = vsnprintf(h_in + h_inlen, 280, f, a); if (k > 279) k = 279; h_inlen += k; } va_end(a); }
static void bug(const char *f, ...){ va_list a; va_start(a, f); printf("BUG mode=%s case=%llu: ", h_mode, (unsigned long long)h_case); vprintf(f, a); printf("\nINPUT %s\n", h_in); fflush(stdout); va_end(a); _exit(7); }
static int near_(double a, double b){ double s = fabs(a) + fabs(b); if (isnan(a) || isnan(b)) return isnan(a) && isnan(b); if (a == b) return 1; return fabs(a - b) <= 1e-9 * (s > 1 ? s : 1); }
static void h_alarm(int s){ (void)s; static const char m[] = "\nBUG the call does not come back (no result within the time limit for one case)\n"; ssize_t r = write(1, m, sizeof m - 1); (void)r; r = write(1, "INPUT ", 6); r = write(1, h_in, h_inlen); r = write(1, "\n", 1); _exit(8); }
typedef void (*casefn)(void);
static long h_count, h_nontrivial; static int h_limit = 20;
/* usage: prog MODE SEED SECONDS MARKFILE | prog MODE --case N */
static void h_one(casefn f, uint64_t c){
  h_case = c; h_state = c * 0xD1342543DE82EF95ULL + 12345; h_inlen = 0; h_in[0] = 0; rnd64();
  if (h_markfd >= 0) { char b[32]; int k = snprintf(b, sizeof b, "%020llu", (unsigned long long)c); ssize_t r = pwrite(h_markfd, b, k, 0); (void)r; }
  alarm(h_limit); f(); h_count++;
}
static int h_main(int argc, char **argv, casefn f){
  h_mode = argv[1]; signal(SIGALRM, h_alarm);
  if (argc >= 4 && !strcmp(argv[2], "--case")) { h_verbose = 1; h_one(f, strtoull(argv[3], 0, 10)); printf("case passed\nINPUT %s\n", h_in); return 0; }
  uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
  h_markfd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600);
  struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (uint64_t i = 0;; i++) {
    h_one(f, seed * 1000000007ULL + i);
    clock_gettime(CLOCK_MONOTONIC, &t);
    if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break;
  }
  alarm(0);
  printf("CASES %ld NONTRIVIAL %ld\nLAST %s\n", h_count, h_nontrivial, h_in);
  return 0;
}
/* gsl generator driven by the harness generator (reproducible per case) */
static gsl_rng *h_gsl(void){ gsl_rng *g = gsl_rng_alloc(gsl_rng_mt19937); gsl_rng_set(g, (unsigned long)(rnd64() & 0x7fffffff) | 1); return g; }
#endif
