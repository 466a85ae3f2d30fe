/* Enumeration runtime shared by all harnesses: numbers the cases of an exhaustive enumeration, runs the ones this
   process is responsible for, and reports what was visited and what failed on a result file, line by line:
     B <index> <name>      case begins          E <index>             case ends
     F <index> <kind>\t<m> failure in the case  H <hex>               a distinct state was visited
     O <hex>               a distinct outcome   N <key> <count>       a counter (summed over processes)
     S <text>              a sample, for the evidence file            X <cases>   the enumeration is complete */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <math.h>
#include <time.h>
#include <petsc.h>

static FILE *vh_out;
static long vh_index = -1, vh_from = 0, vh_to = -1, vh_only = -1, vh_shard = 0, vh_nshards = 1, vh_ncases = 0;
static int vh_active = 0, vh_thorough = 0, vh_verbose = 0, vh_rank = 0, vh_case_open = 0, vh_nsamples = 0;
static int vh_case_secs = 60;
static char vh_name[1024], vh_group[256], vh_onlyname[1024];
static long vh_transitions = 0, vh_evals = 0, vh_nfail_case = 0;

static uint64_t vh_h0(void) { return 1469598103934665603ULL; }
static uint64_t vh_hb(uint64_t h, const void *p, size_t n) {
  const unsigned char *c = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
  return h;
}
static uint64_t vh_hs(uint64_t h, const char *s) { return vh_hb(h, s, strlen(s)); }
static uint64_t vh_hi(uint64_t h, long i) { return vh_hb(h, &i, sizeof(i)); }
/* rounded to 9 significant digits, so that last-bit noise does not count as a new outcome */
static uint64_t vh_hd(uint64_t h, double d) { char b[64]; snprintf(b, sizeof b, "%.9g", d == 0 ? 0.0 : d); return vh_hs(h, b); }

typedef struct { uint64_t *t; size_t cap, n; } vh_set;
static int vh_set_add(vh_set *s, uint64_t k) {
  if (!k) k = 1;
  if (2*(s->n+1) > s->cap) {
    size_t oc = s->cap; uint64_t *o = s->t;
    s->cap = oc ? 2*oc : 1024; s->t = (uint64_t*)calloc(s->cap, sizeof(uint64_t)); s->n = 0;
    for (size_t i = 0; i < oc; ++i) if (o[i]) vh_set_add(s, o[i]);
    free(o);
  }
  size_t i = (size_t)(k * 0x9e3779b97f4a7c15ULL) & (s->cap-1);
  while (s->t[i]) { if (s->t[i] == k) return 0; i = (i+1) & (s->cap-1); }
  s->t[i] = k; s->n++; return 1;
}
static vh_set vh_states, vh_outs;

static void vh_line(const char *fmt, ...) {
  if (!vh_out || vh_rank) return;
  va_list a; va_start(a, fmt); vfprintf(vh_out, fmt, a); va_end(a);
  fputc('\n', vh_out);
}
static void vh_state(uint64_t h) { if (vh_active && vh_set_add(&vh_states, h)) vh_line("H %llx", (unsigned long long)h); }
static void vh_outcome(uint64_t h) { if (vh_active && vh_set_add(&vh_outs, h)) vh_line("O %llx", (unsigned long long)h); }
static void vh_trans(long n) { if (vh_active) vh_transitions += n; }
static void vh_count(const char *key, long n) { if (vh_active) vh_line("N %s %ld", key, n); }
static void vh_sample(const char *fmt, ...) {
  if (!vh_active || vh_nsamples >= 3 || !vh_out || vh_rank) return;
  vh_nsamples++;
  fputs("S ", vh_out); va_list a; va_start(a, fmt); vfprintf(vh_out, fmt, a); va_end(a); fputc('\n', vh_out);
}
static char vh_pend[6][1024]; static int vh_npend = 0, vh_size = 1;
/* at most 6 failures are recorded per case, to keep the output readable */
static void vh_fail(const char *kind, const char *fmt, ...) {
  if (!vh_active) return;
  if (vh_nfail_case++ >= 6) return;
  char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  for (char *c = b; *c; ++c) if (*c == '\n' || *c == '\t') *c = ' ';
  if (vh_rank) {     /* told to the first process when the case ends */
    if (vh_npend < 6) { snprintf(vh_pend[vh_npend], sizeof vh_pend[0], "%s\t[process %d] %.900s", kind, vh_rank, b); vh_npend++; }
    if (vh_verbose) fprintf(stderr, "FAIL[%d] %s: %s: %s\n", vh_rank, vh_name, kind, b);
    return;
  }
  if (vh_out) { fprintf(vh_out, "F %ld %s\t%s\n", vh_index, kind, b); fflush(vh_out); }
  if (vh_verbose) fprintf(stderr, "FAIL %s: %s: %s\n", vh_name, kind, b);
}
static void vh_alarm(int s) {
  static const char m[] = "\nT timeout\n";
  if (vh_out && !vh_rank) { int fd = fileno(vh_out); ssize_t r = write(fd, m, sizeof m - 1); (void)r; }
  (void)s; _exit(97);
}
static void vh_end(void) {
  if (vh_case_open && vh_size > 1) {      /* all processes run the same cases in step */
    if (vh_rank) { MPI_Send(&vh_npend, 1, MPI_INT, 0, 9901, MPI_COMM_WORLD); MPI_Send(vh_pend, (int)sizeof vh_pend, MPI_CHAR, 0, 9902, MPI_COMM_WORLD); vh_npend = 0; }
    else for (int r = 1; r < vh_size; ++r) {
      int n; static char b[6][1024];
      MPI_Recv(&n, 1, MPI_INT, r, 9901, MPI_COMM_WORLD, MPI_STATUS_IGNORE); MPI_Recv(b, (int)sizeof b, MPI_CHAR, r, 9902, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
      for (int i = 0; i < n; ++i) vh_line("F %ld %s", vh_index, b[i]);
    }
  }
  if (vh_case_open) { vh_line("E %ld", vh_index); if (vh_out) fflush(vh_out); vh_case_open = 0; }
  vh_active = 0;
}
/* begins the next case of the enumeration; true if this process runs it */
static int vh_case(const char *fmt, ...) {
  vh_end();
  vh_index++; vh_ncases = vh_index + 1;
  va_list a; va_start(a, fmt); vsnprintf(vh_name, sizeof vh_name, fmt, a); va_end(a);
  if (vh_onlyname[0]) { if (strcmp(vh_onlyname, vh_name)) return 0; }
  else if (vh_only >= 0) { if (vh_index != vh_only) return 0; }
  else if (vh_index < vh_from || (vh_to >= 0 && vh_index >= vh_to) || vh_index % vh_nshards != vh_shard) return 0;
  vh_active = 1; vh_case_open = 1; vh_nfail_case = 0; vh_evals++;
  vh_line("B %ld %s", vh_index, vh_name);
  if (vh_out) fflush(vh_out);
  alarm(vh_case_secs);
  return 1;
}

/* errors raised by the code under test come back as return codes; the first message is kept */
static char vh_errmsg[512];
static PetscErrorCode vh_errh(MPI_Comm c, int line, const char *fun, const char *file, PetscErrorCode n, PetscErrorType p, const char *mess, void *ctx) {
  if (p == PETSC_ERROR_INITIAL) {
    snprintf(vh_errmsg, sizeof vh_errmsg, "%s: %s", fun ? fun : "?", mess ? mess : "");
  }
  if (vh_verbose) fprintf(stderr, "  [petsc error %d in %s (%s:%d)] %s\n", n, fun, file, line, mess ? mess : "");
  return n;
}

static void vh_parallel(void) { MPI_Comm_rank(MPI_COMM_WORLD, &vh_rank); MPI_Comm_size(MPI_COMM_WORLD, &vh_size); }
static void vh_parse(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--out")) { vh_out = fopen(argv[++i], "w"); if (!vh_out) { perror(argv[i]); exit(98);} }
    else if (!strcmp(argv[i], "--from")) vh_from = atol(argv[++i]);
    else if (!strcmp(argv[i], "--to")) vh_to = atol(argv[++i]);
    else if (!strcmp(argv[i], "--only")) vh_only = atol(argv[++i]);
    else if (!strcmp(argv[i], "--only-name")) snprintf(vh_onlyname, sizeof vh_onlyname, "%s", argv[++i]);
    else if (!strcmp(argv[i], "--shard")) { sscanf(argv[++i], "%ld/%ld", &vh_shard, &vh_nshards); }
    else if (!strcmp(argv[i], "--thorough")) vh_thorough = 1;
    else if (!strcmp(argv[i], "--verbose")) vh_verbose = 1;
    else if (!strcmp(argv[i], "--secs")) vh_case_secs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--group")) snprintf(vh_group, sizeof vh_group, "%s", argv[++i]);
    else { fprintf(stderr, "unknown argument %s\n", argv[i]); exit(98); }
  }
  signal(SIGALRM, vh_alarm);
}
static int vh_grp(const char *g) { return !strcmp(vh_group, g); }
static void vh_finish(void) {
  vh_end();
  alarm(0);
  vh_line("N transitions %ld", vh_transitions);
  vh_line("N evaluations %ld", vh_evals);
  vh_line("X %ld", vh_ncases);
  if (vh_out) fclose(vh_out);
  vh_out = NULL;
  if (vh_size > 1) { MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); }
}
#define VH_CHK(e) do { PetscErrorCode e_ = (e); if (e_) { vh_fail("error", "%s returned %d (%s)", #e, (int)e_, vh_errmsg); } } while (0)
#endif
