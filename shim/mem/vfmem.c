/* Preloaded into mpb: an allocation monitor.
   - fresh memory (malloc, the grown part of realloc) and released memory of the mpb executable itself are filled with a pattern chosen by VF_FILL,
     so that a result depending on memory nobody wrote differs between two patterns;
   - the clock is constant, so that runs differ in nothing else;
   - allocations made by the mpb executable itself (not by the libraries it uses) are counted by call site. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

#define NT (1 << 20)
#define HERE __builtin_return_address(0)
typedef struct { uintptr_t p, site; size_t n; } ent;
static ent *T; static int ready; static unsigned fill; static int dofill;
static uintptr_t lo, hi;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static int cb(struct dl_phdr_info *i, size_t s, void *d)
{ /* the first entry is the main program */
     int j; (void) s; (void) d;
     for (j = 0; j < i->dlpi_phnum; ++j)
	  if (i->dlpi_phdr[j].p_type == PT_LOAD && (i->dlpi_phdr[j].p_flags & PF_X)) {
	       lo = i->dlpi_addr + i->dlpi_phdr[j].p_vaddr;
	       hi = lo + i->dlpi_phdr[j].p_memsz;
	  }
     return 1;
}
__attribute__((constructor)) static void init(void)
{
     const char *f = getenv("VF_FILL");
     dl_iterate_phdr(cb, 0);
     T = __libc_calloc(NT, sizeof(ent));
     if (f && *f) { fill = (unsigned) strtoul(f, 0, 0); dofill = 1; }
     ready = 1;
}
static void pat(void *p, size_t n)
{
     if (!dofill || !ready || !p) return;
     if (fill < 256) memset(p, (int) fill, n);
     else { /* finite doubles of moderate size, different at each place */
	  size_t i; double *d = p;
	  for (i = 0; i < n / 8; ++i) d[i] = 0.5 + (double) ((i * 2654435761u + fill) % 1000) / 999.0;
     }
}
static size_t slot(uintptr_t p) { return (p >> 4) * 11400714819323198485ull >> 44; }
static int ours(void *site) { uintptr_t s = (uintptr_t) site; return ready && s >= lo && s < hi; }
static void rec(void *p, size_t n, void *site)
{
     uintptr_t s = (uintptr_t) site; size_t i; int c;
     if (!ready || !p || s < lo || s >= hi) return;
     pthread_mutex_lock(&mu);
     for (i = slot((uintptr_t) p), c = 0; c < NT - 1 && T[i].p > 1; i = (i + 1) % NT, ++c);
     T[i].p = (uintptr_t) p; T[i].site = s - lo; T[i].n = n;
     pthread_mutex_unlock(&mu);
}
static int unrec(void *p)
{
     size_t i; int c, f = 0;
     if (!ready || !p) return 0;
     pthread_mutex_lock(&mu);
     for (i = slot((uintptr_t) p), c = 0; c < NT - 1 && T[i].p; i = (i + 1) % NT, ++c)
	  if (T[i].p == (uintptr_t) p) { T[i].p = 1; f = 1; break; }
     pthread_mutex_unlock(&mu);
     return f;
}
#define HERE __builtin_return_address(0)
void *malloc(size_t n) { void *p = __libc_malloc(n); if (p && ours(HERE)) pat(p, malloc_usable_size(p)); rec(p, n, HERE); return p; }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); rec(p, a * b, HERE); return p; }
void free(void *p) { if (p && unrec(p)) pat(p, malloc_usable_size(p)); __libc_free(p); }
void *realloc(void *q, size_t n)
{
     size_t o = q ? malloc_usable_size(q) : 0; void *p;
     if (q) unrec(q);
     p = __libc_realloc(q, n);
     if (p) { size_t m = malloc_usable_size(p); if (m > o) { size_t r = (o + 7) / 8 * 8; if (m > r && ours(HERE)) pat((char *) p + r, m - r); } rec(p, n, HERE); }
     return p;
}
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && ours(HERE)) pat(p, malloc_usable_size(p)); rec(p, n, HERE); return p; }
void *aligned_alloc(size_t a, size_t n) { void *p = __libc_memalign(a, n); if (p && ours(HERE)) pat(p, malloc_usable_size(p)); rec(p, n, HERE); return p; }
int posix_memalign(void **q, size_t a, size_t n) { void *p = __libc_memalign(a, n); if (!p) return ENOMEM; if (ours(HERE)) pat(p, malloc_usable_size(p)); rec(p, n, HERE); *q = p; return 0; }

clock_t clock(void) { return 1000; }
double MPI_Wtime(void) { return 1.0; }

/* print what the program itself holds: one line per call site and size */
static int cmp(const void *a, const void *b) { const ent *x = a, *y = b; return x->site != y->site ? (x->site < y->site ? -1 : 1) : x->n != y->n ? (x->n < y->n ? -1 : 1) : 0; }
long vf_live(long tag)
{
     ent *L = __libc_malloc(NT * sizeof(ent)); size_t i, j, n = 0;
     pthread_mutex_lock(&mu);
     for (i = 0; i < NT; ++i) if (T[i].p > 1) L[n++] = T[i];
     pthread_mutex_unlock(&mu);
     qsort(L, n, sizeof(ent), cmp);
     for (i = 0; i < n; i = j) {
	  char b[200];
	  for (j = i; j < n && !cmp(L + i, L + j); ++j);
	  snprintf(b, sizeof b, "\n@LIVE %ld %lx %zu %zu\n", tag, (unsigned long) L[i].site, L[i].n, j - i);
	  if (write(2, b, strlen(b)) < 0) break;
     }
     __libc_free(L);
     return (long) n;
}
