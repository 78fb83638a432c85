/* src/sannealing.c as it is, compiled with three of its outward calls observed:
   what it reports (fprintf), which partition it evaluates moves on, and which states it copies. */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <stdarg.h>
#include <gsl/gsl_rng.h>
#include "partition.h"
#include "movements.h"
#include "sannealing.h"
void (*sa_report)(double E); void (*sa_final)(double E); void (*sa_saved)(Partition *);
Partition *sa_cur;
static int sa_printf(FILE *f, const char *m, ...){
  va_list a; va_start(a, m); (void)f;
  if (!strcmp(m, "%e\t%e\t%d\n")) { (void)va_arg(a, double); double E = va_arg(a, double); if (sa_report) sa_report(E); }
  else if (!strcmp(m, "# End of SA, best partition so far: %e\n")) { double E = va_arg(a, double); if (sa_final) sa_final(E); }
  va_end(a); return 0;
}
static double sa_dE(unsigned n, unsigned g, Partition *p, AdjaArray *j){ sa_cur = p; return dEChangeModule(n, g, p, j); }
static Partition *sa_copy(Partition *p){ if (sa_saved) sa_saved(p); Partition *r = CopyPartitionStruct(p); if (!sa_cur) sa_cur = r; return r; }
static void sa_free(Partition *p){ if (p == sa_cur) sa_cur = NULL; FreePartition(p); }
#define fprintf sa_printf
#define dEChangeModule sa_dE
#define CopyPartitionStruct sa_copy
#define FreePartition sa_free
#include "sannealing.c"
