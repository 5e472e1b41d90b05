/* Entry points for the linear-algebra check: the block eigensolvers driven with dense operators. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "config.h"
#include <mpi_utils.h>
#include <check.h>
#include "scalar.h"
#include "matrices.h"
#include "eigensolver.h"
#include "linmin.h"

int vf_scalar_size(void) { return sizeof(scalar); }
int vf_real_size(void) { return sizeof(real); }

static int vf_use_scratch = 1;
typedef struct { int n; scalar *M; int calls, bad; } dense;

/* Xout = M Xin (row-major n x n times n x p) */
static void apply(evectmatrix Xin, evectmatrix Xout, dense *d)
{
     int i, j, k, n = d->n, p = Xin.p;
     d->calls++;
     if (Xin.p != Xout.p || Xin.n != n || Xout.n != n || Xin.data == Xout.data) d->bad++;
     for (i = 0; i < n; ++i) for (j = 0; j < p; ++j) {
	  scalar s = SCALAR_INIT_ZERO;
	  for (k = 0; k < n; ++k) ACCUMULATE_SUM_MULT(s, d->M[i*n + k], Xin.data[k*p + j]);
	  Xout.data[i*p + j] = s;
     }
}

static void op(evectmatrix Xin, evectmatrix Xout, void *data, int cur, evectmatrix W)
{
     (void) cur;
     /* the caller offers W as scratch space: use it up, unless it is the input or the output */
     if (vf_use_scratch && W.data && W.data != Xin.data && W.data != Xout.data) {
	  int i;
	  for (i = 0; i < W.n * W.p; ++i) ASSIGN_REAL(W.data[i], 1e3 + i);
     }
     if (Xin.data == Xout.data) { /* in place */
	  evectmatrix T = Xin;
	  T.data = (scalar *) malloc(sizeof(scalar) * (Xin.n * Xin.p + 1));
	  memcpy(T.data, Xin.data, sizeof(scalar) * Xin.n * Xin.p);
	  apply(T, Xout, (dense *) data);
	  free(T.data);
     }
     else apply(Xin, Xout, (dense *) data);
}

static void pre(evectmatrix Xin, evectmatrix Xout, void *data, evectmatrix Y, real *ev, sqmatrix YtY)
{
     (void) Y; (void) ev; (void) YtY;
     op(Xin, Xout, data, 0, Xin);
}

static void cons(evectmatrix X, void *data)
{
     evectmatrix none = X;
     op(X, X, data, 0, none);
}

/* A, B, K, C1, C2: n x n dense operators or NULL; Y: n x p start and result.  Returns the number of badly formed operator calls */
int vf_eig(int n, int p, scalar *A, scalar *B, scalar *K, scalar *C1, scalar *C2, scalar *Y, real *evals,
	   int nwork, real tol, int flags, int davidson, real target, int *iters, int *calls)
{
     dense dA = {0}, dB = {0}, dK = {0}, dC1 = {0}, dC2 = {0};
     evectmatrix y = create_evectmatrix(n, 1, p, n, 0, n), W[12];
     evectconstraint_chain *ch = NULL;
     int i;
     dA.n = dB.n = dK.n = dC1.n = dC2.n = n;
     dA.M = A; dB.M = B; dK.M = K; dC1.M = C1; dC2.M = C2;
     memcpy(y.data, Y, sizeof(scalar) * n * p);
     for (i = 0; i < nwork; ++i) {
	  int j;
	  W[i] = create_evectmatrix(n, 1, p, n, 0, n);
	  for (j = 0; j < n * p; ++j) ASSIGN_REAL(W[i].data[j], 7.0 + i);
     }
     if (C1) ch = evect_add_constraint(ch, cons, &dC1);
     if (C2) ch = evect_add_constraint(ch, cons, &dC2);
     *iters = -1;
     vf_use_scratch = davidson || nwork >= 3 + (B != NULL); /* the minimal workspace has no scratch to spare (the library's own scratch-using operator refuses it) */
     if (davidson)
	  eigensolver_davidson(y, evals, op, &dA, K ? pre : NULL, &dK, ch ? evectconstraint_chain_func : NULL, ch,
			       W, nwork, tol, iters, flags, target);
     else
	  eigensolver(y, evals, op, &dA, B ? op : NULL, &dB, K ? pre : NULL, &dK,
		      ch ? evectconstraint_chain_func : NULL, ch, W, nwork, tol, iters, flags);
     memcpy(Y, y.data, sizeof(scalar) * n * p);
     evect_destroy_constraints(ch);
     for (i = 0; i < nwork; ++i) destroy_evectmatrix(W[i]);
     destroy_evectmatrix(y);
     *calls = dA.calls;
     return dA.bad + dB.bad + dK.bad + dC1.bad + dC2.bad;
}

/* Ritz vectors and values of the space spanned by Y */
void vf_ritz(int n, int p, scalar *A, scalar *Y, real *evals)
{
     dense dA = {0};
     evectmatrix y = create_evectmatrix(n, 1, p, n, 0, n), w1 = create_evectmatrix(n, 1, p, n, 0, n), w2 = create_evectmatrix(n, 1, p, n, 0, n);
     dA.n = n; dA.M = A;
     memcpy(y.data, Y, sizeof(scalar) * n * p);
     eigensolver_get_eigenvals(y, evals, op, &dA, w1, w2);
     memcpy(Y, y.data, sizeof(scalar) * n * p);
     destroy_evectmatrix(y); destroy_evectmatrix(w1); destroy_evectmatrix(w2);
}

/* line minimisation of sum_k a_k cos(k x) + b_k sin(k x) */
typedef struct { int n; double *a, *b; int calls; double lo, hi; } trig;
static linmin_real tf(linmin_real x, linmin_real *df, void *data)
{
     trig *t = (trig *) data;
     double s = 0, d = 0;
     int k;
     t->calls++;
     if (x < t->lo) t->lo = x;
     if (x > t->hi) t->hi = x;
     for (k = 0; k < t->n; ++k) {
	  s += t->a[k] * cos(k * x) + t->b[k] * sin(k * x);
	  d += k * (t->b[k] * cos(k * x) - t->a[k] * sin(k * x));
     }
     if (df) *df = d;
     return s;
}
double vf_linmin(int n, double *a, double *b, double guess, double ftol, double dftol, double xtol, double xmin, double xmax, double *out)
{
     trig t;
     linmin_real f, df, f0, df0, x;
     t.n = n; t.a = a; t.b = b; t.calls = 0; t.lo = t.hi = 0;
     f0 = tf(0, &df0, &t);
     t.calls = 0;
     x = linmin(&f, &df, guess, f0, df0, ftol, dftol, xtol, xmin, xmax, tf, &t, 0);
     out[0] = f; out[1] = df; out[2] = f0; out[3] = df0; out[4] = t.calls; out[5] = t.lo; out[6] = t.hi;
     return x;
}
