# technique: property-based testing: random operation histories over a pool of matrices against a numpy mirror (real and complex libraries, guard words, poisoned scratch), random eigenproblems against dense diagonalisation, random line searches against their defining conditions
import ctypes as ct, os, json, signal, math, traceback
import numpy as np, scipy.linalg as sl
import mpbrun
from mpbrun import need, Fail, Skip
from pbt import Check

class EV(ct.Structure): _fields_ = [(k, ct.c_int) for k in ('N', 'localN', 'Nstart', 'allocN', 'c', 'n', 'p', 'alloc_p')] + [('data', ct.c_void_p)]
class SQ(ct.Structure): _fields_ = [('p', ct.c_int), ('alloc_p', ct.c_int), ('data', ct.c_void_p)]
class CX(ct.Structure): _fields_ = [('re', ct.c_double), ('im', ct.c_double)]
GUARD = 8
LIBS = {}

class Bad(Exception): pass

def load(variant):
    if variant in LIBS: return LIBS[variant]
    L = ct.CDLL(os.path.join(mpbrun.BIN[variant], 'libshim.so'))
    ct.c_int.in_dll(L, 'mpb_verbosity').value = 0
    sc = CX if variant == 'complex' else ct.c_double
    for f in ('sqmatrix_trace', 'sqmatrix_traceAtB', 'evectmatrix_traceXtY', 'blasglue_dotc', 'matrix_diag_trace'): getattr(L, f).restype = sc
    for f in ('matrix_re_trace_A_diag_real', 'matrix_diag_real_trace', 'vf_linmin'): getattr(L, f).restype = ct.c_double
    LIBS[variant] = L
    return L

class M:
    """state of one case: pool of matrices in the library's layout, with guard words, and their mirror"""
    def __init__(self, c):
        self.c = c; self.L = load(c['variant']); self.cx = c['variant'] == 'complex'; self.dt = complex if self.cx else float
        self.rng = np.random.default_rng(c['seed']); self.n = c['n']
        self.X = [self.newx(p) for p in c['xp']]; self.S = [self.news(p) for p in c['sp']]
    def rnd(self, *sh):
        a = self.rng.standard_normal(sh)
        return a + 1j * self.rng.standard_normal(sh) if self.cx else a
    def val(self, z): return complex(z.re, z.im) if self.cx else z
    def buf(self, count, fill=None):
        b = np.full(count + 2 * GUARD, 12345.678, self.dt)
        b[GUARD:GUARD + count] = self.rnd(count) if fill is None else np.asarray(fill, self.dt).ravel()
        return b
    def ptr(self, b, off=0): return ct.c_void_p(b.ctypes.data + (GUARD + off) * b.itemsize)
    def check_guard(self, b, what):
        if (b[:GUARD] != 12345.678).any() or (b[-GUARD:] != 12345.678).any(): raise Bad('%s: memory around the array was overwritten' % what)
    def newx(self, p): return dict(alloc=p, p=p, b=self.buf(self.n * p))
    def news(self, p): return dict(alloc=p, p=p, b=self.buf(p * p))
    def ev(self, x): return EV(self.n, self.n, 0, self.n, 1, self.n, x['p'], x['alloc'], x['b'].ctypes.data + GUARD * x['b'].itemsize)
    def sq(self, s): return SQ(s['p'], s['alloc'], s['b'].ctypes.data + GUARD * s['b'].itemsize)
    def get(self, x, rows=None): r = self.n if rows is None else rows; return x['b'][GUARD:GUARD + r * x['p']].reshape(r, x['p']).copy()
    def gx(self, x): return self.get(x)
    def gs(self, s): return self.get(s, s['p'])
    def put(self, s, A): s['b'][GUARD:GUARD + A.size] = A.ravel()
    def poison(self, s):
        """scratch: contents are anybody's"""
        s['b'][GUARD:-GUARD] = np.nan
    def close(self, a, b, what, scale=1.0):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape: raise Bad('%s: shape' % what)
        if a.size and not (np.abs(a - b).max() <= 1e-10 * max(scale, np.abs(b).max(), 1e-300)): raise Bad('%s: got %s expected %s' % (what, a.ravel()[:6].tolist(), b.ravel()[:6].tolist()))
    def herm(self, p, pd=True, cond=3.0):
        Q, _ = np.linalg.qr(self.rnd(p, p)) if p else (np.zeros((0, 0), self.dt), 0)
        w = self.rng.uniform(1, cond, p) * (1 if pd else self.rng.choice([-1, 1], p))
        A = (Q * w) @ Q.conj().T
        return (A + A.conj().T) / 2
    # ---- operations: each picks its operands from integers in the op record
    def px(self, k): return self.X[k % len(self.X)]
    def run_op(self, o):
        name, a = o['op'], o['a']; L = self.L; n = self.n; f = getattr(self, 'op_' + name)
        beforeX = [x['b'].copy() for x in self.X]; beforeS = [s['b'].copy() for s in self.S]
        touched = f(a) or []
        for k, x in enumerate(self.X):
            self.check_guard(x['b'], name)
            if ('x', k) not in touched and not np.array_equal(x['b'], beforeX[k], equal_nan=True): raise Bad('%s changed an unrelated block %d' % (name, k))
        for k, s in enumerate(self.S):
            self.check_guard(s['b'], name)
            if ('s', k) not in touched and not np.array_equal(s['b'], beforeS[k], equal_nan=True): raise Bad('%s changed an unrelated matrix %d' % (name, k))
        for x in self.X + self.S:
            v = x['b'][GUARD:-GUARD]
            if not np.isfinite(v).all() or (v.size and np.abs(v).max() > 1e3): x['b'][GUARD:-GUARD] = self.rnd(v.size)
    def ix(self, a, j): return a[j] % len(self.X)
    def is_(self, a, j): return a[j] % len(self.S)
    def same_p(self, k, p, kind='x'):
        """a pool element other than k, brought to p columns without preserving data (plain bookkeeping)"""
        pool = self.X if kind == 'x' else self.S
        for d in range(1, len(pool)):
            j = (k + d) % len(pool)
            if pool[j]['alloc'] >= p: pool[j]['p'] = p; return j
        return None
    def sp(self, p, notin=()):
        for j, s in enumerate(self.S):
            if j not in notin and s['alloc'] >= p: s['p'] = p; return j
        return None
    def op_resize_x(self, a):
        k = self.ix(a, 0); x = self.X[k]; p = a[1] % (x['alloc'] + 1); keep = a[2] % 2; old = self.gx(x); e = self.ev(x)
        self.L.evectmatrix_resize(ct.byref(e), p, keep)
        if e.p != p: raise Bad('evectmatrix_resize: p'); 
        x['p'] = p; q = min(p, old.shape[1])
        if keep: self.close(self.gx(x)[:, :q], old[:, :q], 'evectmatrix_resize %d->%d' % (old.shape[1], p))
        return [('x', k)]
    def op_resize_s(self, a):
        k = self.is_(a, 0); s = self.S[k]; p = a[1] % (s['alloc'] + 1); keep = a[2] % 2; old = self.gs(s); e = self.sq(s)
        self.L.sqmatrix_resize(ct.byref(e), p, keep); s['p'] = e.p; q = min(p, old.shape[0])
        if e.p != p: raise Bad('sqmatrix_resize: p')
        if keep: self.close(self.gs(s)[:q, :q], old[:q, :q], 'sqmatrix_resize %d->%d' % (old.shape[0], p))
        return [('s', k)]
    def op_copy_x(self, a):
        k = self.ix(a, 0); j = self.same_p(k, self.X[k]['p'])
        if j is None: return
        self.X[j]['b'][GUARD:-GUARD] = np.nan; self.L.evectmatrix_copy(self.ev(self.X[j]), self.ev(self.X[k])); self.close(self.gx(self.X[j]), self.gx(self.X[k]), 'evectmatrix_copy'); return [('x', j)]
    def op_copy_slice(self, a):
        k, j = self.ix(a, 0), self.ix(a, 1)
        if k == j: return
        X, Y = self.X[k], self.X[j]; p = a[2] % (min(X['p'], Y['p']) + 1); ix = a[3] % (X['p'] - p + 1); iy = a[4] % (Y['p'] - p + 1); e = self.gx(X); e[:, ix:ix + p] = self.gx(Y)[:, iy:iy + p]
        self.L.evectmatrix_copy_slice(self.ev(X), self.ev(Y), ix, iy, p); self.close(self.gx(X), e, 'evectmatrix_copy_slice %d %d %d' % (ix, iy, p)); return [('x', k)]
    def two(self, a):
        k = self.ix(a, 0); j = self.same_p(k, self.X[k]['p']); return k, j
    def real(self, v): return [0.0, 1.0, -1.0, 0.5, -2.0, 3.25, 1.0, 2.0][v % 8]
    def op_axpby_x(self, a):
        k, j = self.two(a)
        if a[3] % 5 == 0: j = k    # documented: may be equal
        if j is None: return
        al, be = self.real(a[1]), self.real(a[2]); e = al * self.gx(self.X[k]) + be * self.gx(self.X[j])
        self.L.evectmatrix_aXpbY(ct.c_double(al), self.ev(self.X[k]), ct.c_double(be), self.ev(self.X[j])); self.close(self.gx(self.X[k]), e, 'evectmatrix_aXpbY a=%g b=%g %s' % (al, be, 'same' if j == k else '')); return [('x', k)]
    def op_axpby_s(self, a):
        k = self.is_(a, 0); j = k if a[3] % 5 == 0 else self.same_p(k, self.S[k]['p'], 's')
        if j is None: return
        al, be = self.real(a[1]), self.real(a[2]); e = al * self.gs(self.S[k]) + be * self.gs(self.S[j])
        self.L.sqmatrix_aApbB(ct.c_double(al), self.sq(self.S[k]), ct.c_double(be), self.sq(self.S[j])); self.close(self.gs(self.S[k]), e, 'sqmatrix_aApbB a=%g b=%g %s' % (al, be, 'same' if j == k else '')); return [('s', k)]
    def op_axpbys_sub(self, a):
        k, j = self.two(a)
        if j is None: return
        X, Y = self.X[k], self.X[j]; p = X['p']; m = self.is_(a, 1); S = self.S[m]; dag = a[2] % 2
        al, be = self.real(a[3]), self.real(a[4])
        if S['p'] and S['p'] < p: return
        if S['p'] == 0: e = al * self.gx(X) + be * self.gx(Y); off = 0
        else:
            r = a[5] % (S['p'] - p + 1); q = a[6] % (S['p'] - p + 1); off = r * S['p'] + q if p else 0; sub = self.gs(S)[r:r + p, q:q + p]; sub = sub.conj().T if dag else sub; e = al * self.gx(X) + be * self.gx(Y) @ sub
        if p == 0 and S['p']: return
        if al == 0 and S['p']: self.poison(X)
        self.L.evectmatrix_aXpbYS_sub(ct.c_double(al), self.ev(X), ct.c_double(be), self.ev(Y), self.sq(S), off, dag); self.close(self.gx(X), e, 'evectmatrix_aXpbYS_sub a=%g b=%g S %d offset %d adjoint %d' % (al, be, S['p'], off, dag)); return [('x', k)]
    def op_xeys(self, a):
        k, j = self.two(a)
        if j is None: return
        X, Y = self.X[k], self.X[j]; p = X['p']; m = self.sp(p); h = a[2] % 2
        if m is None or p == 0: return
        S = self.S[m]
        if h: self.put(S, self.herm(p, False))
        e = self.gx(Y) @ self.gs(S); self.poison(X)
        self.L.evectmatrix_XeYS(self.ev(X), self.ev(Y), self.sq(S), h); self.close(self.gx(X), e, 'evectmatrix_XeYS'); return [('x', k), ('s', m)]
    def op_xeys_identity(self, a):
        k, j = self.two(a)
        if j is None: return
        X, Y = self.X[k], self.X[j]; e = self.gx(Y); self.L.evectmatrix_XeYS(self.ev(X), self.ev(Y), SQ(0, 0, None), 0); self.close(self.gx(X), e, 'evectmatrix_XeYS with the empty matrix'); return [('x', k)]
    def op_xpays(self, a):
        k, j = self.two(a)
        if j is None: return
        X, Y = self.X[k], self.X[j]; p = X['p']; m = self.sp(p); dag = a[2] % 2; al = self.real(a[3])
        if m is None or p == 0: return
        S = self.gs(self.S[m]); e = self.gx(X) + al * self.gx(Y) @ (S.conj().T if dag else S)
        self.L.evectmatrix_XpaYS(self.ev(X), ct.c_double(al), self.ev(Y), self.sq(self.S[m]), dag); self.close(self.gx(X), e, 'evectmatrix_XpaYS adjoint %d' % dag); return [('x', k), ('s', m)]
    def op_xtx(self, a):
        k = self.ix(a, 0); X = self.X[k]; m = self.sp(X['p']); w = self.sp(X['p'], (m,))
        if m is None or w is None: return
        self.poison(self.S[m]); self.poison(self.S[w]); self.L.evectmatrix_XtX(self.sq(self.S[m]), self.ev(X), self.sq(self.S[w])); x = self.gx(X)
        self.close(self.gs(self.S[m]), x.conj().T @ x, 'evectmatrix_XtX'); return [('s', m), ('s', w)]
    def op_xty(self, a):
        k, j = self.two(a)
        if j is None: return
        p = self.X[k]['p']; m = self.sp(p); w = self.sp(p, (m,))
        if m is None or w is None: return
        self.poison(self.S[m]); self.poison(self.S[w]); self.L.evectmatrix_XtY(self.sq(self.S[m]), self.ev(self.X[k]), self.ev(self.X[j]), self.sq(self.S[w]))
        self.close(self.gs(self.S[m]), self.gx(self.X[k]).conj().T @ self.gx(self.X[j]), 'evectmatrix_XtY'); return [('s', m), ('s', w)]
    def op_xty_slice(self, a):
        k, j = self.ix(a, 0), self.ix(a, 1); X, Y = self.X[k], self.X[j]; p = a[2] % (min(X['p'], Y['p']) + 1); m = self.sp(p); w = self.sp(p, (m,))
        if m is None or w is None: return
        ix = a[3] % (X['p'] - p + 1); iy = a[4] % (Y['p'] - p + 1); self.poison(self.S[m]); self.poison(self.S[w])
        self.L.evectmatrix_XtY_slice(self.sq(self.S[m]), self.ev(X), self.ev(Y), ix, iy, p, self.sq(self.S[w]))
        self.close(self.gs(self.S[m]), self.gx(X)[:, ix:ix + p].conj().T @ self.gx(Y)[:, iy:iy + p], 'evectmatrix_XtY_slice'); return [('s', m), ('s', w)]
    def op_xty_slice2(self, a):
        k, j = self.ix(a, 0), self.ix(a, 1); X, Y = self.X[k], self.X[j]; p = a[2] % (X['p'] + 1); q = a[5] % (min(p, Y['p']) + 1); m = self.sp(p); w = self.sp(p, (m,)); v = self.sp(p, (m, w))
        if None in (m, w, v): return
        ix = a[3] % (X['p'] - p + 1); iy = a[4] % (Y['p'] - q + 1); iu = a[6] % (p - q + 1); e = self.gs(self.S[m]); e[:, iu:iu + q] = self.gx(X)[:, ix:ix + p].conj().T @ self.gx(Y)[:, iy:iy + q]
        self.poison(self.S[w]); self.poison(self.S[v])
        self.L.evectmatrix_XtY_slice2(self.sq(self.S[m]), self.ev(X), self.ev(Y), ix, iy, p, q, iu, self.sq(self.S[w]), self.sq(self.S[v])); self.close(self.gs(self.S[m]), e, 'evectmatrix_XtY_slice2 ix %d iy %d p %d q %d iu %d' % (ix, iy, p, q, iu)); return [('s', m), ('s', w), ('s', v)]
    def op_xty_sub(self, a):
        k, j = self.two(a)
        if j is None: return
        p = self.X[k]['p']; m = self.is_(a, 1); U = self.S[m]; w = self.sp(p, (m,))
        if w is None or U['p'] < p or p == 0: return
        r = a[2] % (U['p'] - p + 1); q = a[3] % (U['p'] - p + 1); e = self.gs(U); e[r:r + p, q:q + p] = self.gx(self.X[k]).conj().T @ self.gx(self.X[j]); self.poison(self.S[w])
        self.L.evectmatrixXtY_sub(self.sq(U), r * U['p'] + q, self.ev(self.X[k]), self.ev(self.X[j]), self.sq(self.S[w])); self.close(self.gs(U), e, 'evectmatrixXtY_sub'); return [('s', m), ('s', w)]
    def op_diag(self, a):
        k, j = self.two(a)
        if j is None: return
        X, Y = self.X[k], self.X[j]; p = X['p']; x, y = self.gx(X), self.gx(Y); d, s = self.buf(p), self.buf(p); r, q = np.full(p + 2, 9.0), np.full(p + 2, 9.0)
        self.L.evectmatrix_XtY_diag(self.ev(X), self.ev(Y), self.ptr(d), self.ptr(s)); self.close(d[GUARD:GUARD + p], (x.conj() * y).sum(0), 'evectmatrix_XtY_diag'); self.check_guard(d, 'diag'); self.check_guard(s, 'diag')
        rp = lambda z: ct.c_void_p(z.ctypes.data + 8)
        self.L.evectmatrix_XtY_diag_real(self.ev(X), self.ev(Y), rp(r), rp(q)); self.close(r[1:-1], (x.conj() * y).sum(0).real, 'evectmatrix_XtY_diag_real')
        self.L.evectmatrix_XtX_diag_real(self.ev(X), rp(r), rp(q)); self.close(r[1:-1], (np.abs(x) ** 2).sum(0), 'evectmatrix_XtX_diag_real')
        if r[0] != 9 or r[-1] != 9: raise Bad('diag_real guard')
        self.close(self.val(self.L.evectmatrix_traceXtY(self.ev(X), self.ev(Y))), (x.conj() * y).sum(), 'evectmatrix_traceXtY', np.abs(x * y).sum())
        dd = self.rnd(p); dr = self.rng.standard_normal(p); al = self.real(a[1]); b = self.buf(p, dd); e = x + al * y * dd
        self.L.matrix_XpaY_diag(self.ptr(X['b']), ct.c_double(al), self.ptr(Y['b']), self.ptr(b), self.n, p); self.close(self.gx(X), e, 'matrix_XpaY_diag')
        e = e + al * y * dr; self.L.matrix_XpaY_diag_real(self.ptr(X['b']), ct.c_double(al), self.ptr(Y['b']), ct.c_void_p(dr.ctypes.data), self.n, p); self.close(self.gx(X), e, 'matrix_XpaY_diag_real')
        d2 = self.rng.standard_normal(p); e = e * dr + y * d2; self.L.matrix_X_diag_real_pY_diag_real(self.ptr(X['b']), ct.c_void_p(dr.ctypes.data), self.ptr(Y['b']), ct.c_void_p(d2.ctypes.data), self.n, p); self.close(self.gx(X), e, 'matrix_X_diag_real_pY_diag_real')
        self.close(self.val(self.L.matrix_diag_trace(self.ptr(b), p)), dd.sum(), 'matrix_diag_trace', np.abs(dd).sum()); self.close(self.L.matrix_diag_real_trace(ct.c_void_p(dr.ctypes.data), p), dr.sum(), 'matrix_diag_real_trace', np.abs(dr).sum())
        return [('x', k)]
    def op_sq(self, a):
        m = self.is_(a, 0); A = self.S[m]; p = A['p']; w = self.sp(p, (m,)); v = self.sp(p, (m, w))
        if w is None or v is None: return
        B, C = self.S[w], self.S[v]; x, y, z = self.gs(A), self.gs(B), self.gs(C); L = self.L; k = a[1] % 8; T = lambda q, d: q.conj().T if d else q
        out = [('s', m), ('s', w), ('s', v)]
        if k == 0: L.sqmatrix_copy(self.sq(B), self.sq(A)); self.close(self.gs(B), x, 'sqmatrix_copy'); return out
        if k == 1:
            e = np.triu(x) + np.triu(x, 1).conj().T; 
            if self.cx and p: self.put(A, x - 1j * np.diag(np.diag(x).imag)); e = np.triu(self.gs(A)) + np.triu(x, 1).conj().T
            L.sqmatrix_copy_upper2full(self.sq(B), self.sq(A)); self.close(self.gs(B), e, 'sqmatrix_copy_upper2full'); return out
        if k == 2: self.poison(B); L.sqmatrix_symmetrize(self.sq(B), self.sq(A)); self.close(self.gs(B), (x + x.conj().T) / 2, 'sqmatrix_symmetrize'); return out
        if k == 3:
            self.close(self.val(L.sqmatrix_trace(self.sq(A))), np.trace(x) if p else 0, 'sqmatrix_trace', np.abs(x).sum()); self.close(self.val(L.sqmatrix_traceAtB(self.sq(A), self.sq(B))), np.trace(x.conj().T @ y) if p else 0, 'sqmatrix_traceAtB', np.abs(x * y).sum())
            d = self.rng.standard_normal(p); self.close(L.matrix_re_trace_A_diag_real(self.ptr(A['b']), ct.c_void_p(d.ctypes.data), p), float((np.diag(x).real * d).sum()), 'matrix_re_trace_A_diag_real', np.abs(x).sum()); return out
        bd, cd, al = a[2] % 2, a[3] % 2, self.real(a[4])
        if k == 4: self.poison(A); L.sqmatrix_AeBC(self.sq(A), self.sq(B), bd, self.sq(C), cd); self.close(self.gs(A), T(y, bd) @ T(z, cd), 'sqmatrix_AeBC %d %d' % (bd, cd)); return out
        if k == 5: L.sqmatrix_ApaBC(self.sq(A), ct.c_double(al), self.sq(B), bd, self.sq(C), cd); self.close(self.gs(A), x + al * T(y, bd) @ T(z, cd), 'sqmatrix_ApaBC'); return out
        if k == 6: L.sqmatrix_ApaB(self.sq(A), ct.c_double(al), self.sq(B)); self.close(self.gs(A), x + al * y, 'sqmatrix_ApaB'); return out
        L.sqmatrix_ApaBC(self.sq(A), ct.c_double(al), self.sq(B), bd, self.sq(B), cd); self.close(self.gs(A), x + al * T(y, bd) @ T(y, cd), 'sqmatrix_ApaBC of one matrix twice'); return out
    def op_factor(self, a):
        m = self.is_(a, 0); A = self.S[m]; p = A['p']; w = self.sp(p, (m,)); v = self.sp(p, (m, w))
        if w is None or v is None or p == 0: return
        B, C = self.S[w], self.S[v]; L = self.L; k = a[1] % 7; out = [('s', m), ('s', w), ('s', v)]; self.poison(B)
        ev = np.full(p + 2, 9.0); ep = ct.c_void_p(ev.ctypes.data + 8)
        if k == 0:
            H = self.herm(p, cond=[3, 1e4][a[2] % 2]); self.put(A, H)
            if L.sqmatrix_invert(self.sq(A), 1, self.sq(B)) != 1: raise Bad('invert of a positive matrix refused')
            self.close(self.gs(A) @ H, np.eye(p), 'sqmatrix_invert', 1e4)
        elif k == 1:
            H = self.herm(p, False); self.put(A, H)
            if L.sqmatrix_invert(self.sq(A), 0, self.sq(B)) != 1: raise Bad('invert of a regular matrix refused')
            self.close(self.gs(A) @ H, np.eye(p), 'sqmatrix_invert indefinite', 1e2)
        elif k == 2:   # not positive: refused
            H = self.herm(p, False); w_ = np.linalg.eigvalsh(H)
            if w_[0] > 0: H = H - np.eye(p) * (w_[-1] + 1)
            self.put(A, H)
            if L.sqmatrix_invert(self.sq(A), 1, self.sq(B)) != 0: raise Bad('positive-definite inversion of an indefinite matrix was not refused')
        elif k == 3:
            H = self.herm(p, False, 10); self.put(A, H); L.sqmatrix_eigensolve(self.sq(A), ep, self.sq(B)); U = self.gs(A); e = ev[1:-1]
            self.close(e, np.linalg.eigvalsh(H), 'sqmatrix_eigensolve eigenvalues', 10); self.close(U.conj().T @ np.diag(e) @ U, H, 'sqmatrix_eigensolve: U^+ D U', 10); self.close(U @ U.conj().T, np.eye(p), 'sqmatrix_eigensolve orthonormality')
        elif k == 4:
            H, G = self.herm(p, False, 10), self.herm(p); self.put(A, H); self.put(C, G); L.sqmatrix_gen_eigensolve(self.sq(A), self.sq(C), ep, self.sq(B)); e = ev[1:-1]; V = self.gs(A).conj().T
            self.close(e, sl.eigh(H, G, eigvals_only=True), 'sqmatrix_gen_eigensolve eigenvalues', 100); self.close(H @ V, G @ V * e, 'sqmatrix_gen_eigensolve eigenvectors', 100); self.close(V.conj().T @ G @ V, np.eye(p), 'sqmatrix_gen_eigensolve normalisation', 10)
        elif k == 5:
            H = self.herm(p, cond=50); self.put(A, H); self.poison(C); L.sqmatrix_sqrt(self.sq(C), self.sq(A), self.sq(B)); R = self.gs(C)
            self.close(R @ R, H, 'sqmatrix_sqrt squared', 50); self.close(R, R.conj().T, 'sqmatrix_sqrt Hermitian', 10)
            if np.linalg.eigvalsh(R)[0] <= 0: raise Bad('sqmatrix_sqrt is not the positive root')
        else:
            x = self.rnd(p, p); self.put(A, x); z = np.full(2 * p + 2, 9.0); L.sqmatrix_eigenvalues(self.sq(A), ct.c_void_p(z.ctypes.data + 8)); got = z[1:-1:2] + 1j * z[2:-1:2]; ref = np.linalg.eigvals(x)
            for g in ref:
                j = int(np.argmin(np.abs(got - g)))
                if abs(got[j] - g) > 1e-6 * (1 + abs(g)): raise Bad('sqmatrix_eigenvalues %s, expected %s' % (np.sort_complex(z[1:-1:2] + 1j * z[2:-1:2]).tolist(), np.sort_complex(ref).tolist()))
                got[j] = 1e9
            if not np.array_equal(self.gs(A), x): raise Bad('sqmatrix_eigenvalues changed its argument')
            if z[0] != 9 or z[-1] != 9: raise Bad('sqmatrix_eigenvalues guard')
        if ev[0] != 9 or ev[-1] != 9: raise Bad('eigenvalue array guard')
        return out
    def op_blas(self, a):
        L = self.L; k = a[0] % 7; n = a[1] % 7; ix, iy = 1 + a[2] % 3, 1 + a[3] % 3; al, be = self.real(a[4]), self.real(a[5]); d = ct.c_double
        if k < 4:
            x, y = self.buf(n * ix + 1), self.buf(n * iy + 1); xs, ys = x[GUARD:GUARD + n * ix:ix][:n].copy(), y[GUARD:GUARD + n * iy:iy][:n].copy(); y0 = y.copy(); x0 = x.copy()
            def chk(b, b0, inc, val, what):
                e = b0.copy(); e[GUARD:GUARD + n * inc:inc] = val; self.close(b, e, what)
            if k == 0: L.blasglue_axpy(n, d(al), self.ptr(x), ix, self.ptr(y), iy); chk(y, y0, iy, ys + al * xs, 'blasglue_axpy'); self.close(x, x0, 'axpy input')
            elif k == 1: L.blasglue_copy(n, self.ptr(x), ix, self.ptr(y), iy); chk(y, y0, iy, xs, 'blasglue_copy')
            elif k == 2: self.close(self.val(L.blasglue_dotc(n, self.ptr(x), ix, self.ptr(y), iy)), (xs.conj() * ys).sum(), 'blasglue_dotc', 10)
            else:
                L.blasglue_rscal(n, d(al), self.ptr(x), ix); chk(x, x0, ix, al * xs, 'blasglue_rscal')
                s = CX(al, be) if self.cx else d(al); f = complex(al, be) if self.cx else al; x1 = x.copy(); L.blasglue_scal(n, s, self.ptr(x), ix); chk(x, x1, ix, f * al * xs, 'blasglue_scal')
            return
        if k in (4, 5):
            m, kk = a[6] % 6, a[7] % 6; ta, tb = 'NC'[a[8] % 2], 'NC'[a[9] % 2]; sa, sb = ((m, kk) if ta == 'N' else (kk, m)), ((kk, n) if tb == 'N' else (n, kk))
            fa, fb, fc = sa[1] + a[2] % 3, sb[1] + a[3] % 3, n + a[5] % 3
            fa, fb, fc = max(fa, 1), max(fb, 1), max(fc, 1); A, B, C = self.buf(max(1, sa[0] * fa)), self.buf(max(1, sb[0] * fb)), self.buf(max(1, m * fc))
            g = lambda b, r, q, f: b[GUARD:GUARD + r * f].reshape(r, f)[:, :q].copy()
            Am, Bm, Cm = g(A, *sa, fa), g(B, *sb, fb), g(C, m, n, fc); T = lambda q, t: q.conj().T if t == 'C' else q
            if be == 0 and m * n: C[GUARD:GUARD + m * fc].reshape(m, fc)[:, :n] = np.nan; Cm[:] = 0
            L.blasglue_gemm(ct.c_char(ta.encode()), ct.c_char(tb.encode()), m, n, kk, d(al), self.ptr(A), fa, self.ptr(B), fb, d(be), self.ptr(C), fc)
            self.close(g(C, m, n, fc), al * T(Am, ta) @ T(Bm, tb) + be * Cm, 'blasglue_gemm %s%s %d %d %d a=%g b=%g' % (ta, tb, m, n, kk, al, be)); self.check_guard(C, 'gemm'); return
        kk = a[7] % 6; f = n + a[2] % 3; f = max(f, 1)
        tr = 'NC'[a[8] % 2]; sh = (n, kk) if tr == 'N' else (kk, n); fa = max(1, sh[1] + a[3] % 3); A, C = self.buf(max(1, sh[0] * fa)), self.buf(max(1, n * f)); up = 'UL'[a[9] % 2]
        Am = A[GUARD:GUARD + sh[0] * fa].reshape(sh[0], fa)[:, :sh[1]].copy(); Cv = C[GUARD:GUARD + n * f].reshape(n, f); C0 = Cv[:, :n].copy()
        e = al * (Am @ Am.conj().T if tr == 'N' else Am.conj().T @ Am)
        L.blasglue_herk(ct.c_char(up.encode()), ct.c_char(tr.encode()), n, kk, d(al), self.ptr(A), fa, d(0), self.ptr(C), f)
        tri = np.triu if up == 'U' else np.tril; self.close(tri(Cv[:, :n]), tri(e), 'blasglue_herk %s%s' % (up, tr)); self.check_guard(C, 'herk')

OPS = ['resize_x', 'resize_s', 'copy_x', 'copy_slice', 'axpby_x', 'axpby_s', 'axpbys_sub', 'xeys', 'xeys_identity', 'xpays', 'xtx', 'xty', 'xty_slice', 'xty_slice2', 'xty_sub', 'diag', 'sq', 'sq', 'factor', 'factor', 'blas', 'blas']

def history(c):
    m = M(c); done = []
    for k, o in enumerate(c['ops']):
        try: m.run_op(o)
        except Bad as e: raise Fail('%s library, operation %d (%s), n=%d: %s' % (c['variant'], k, o['op'], m.n, e), 'operation:' + o['op'])
        done.append(o['op'])
    return len(done) >= 3, ['history', c['variant']] + sorted(set('op:' + o for o in done))

def eigen(c):
    L = load(c['variant']); cx = c['variant'] == 'complex'; rng = np.random.default_rng(c['seed']); n, p = c['n'], c['p']
    r = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s) if cx else rng.standard_normal(s)
    def herm(w): Q, _ = np.linalg.qr(r(n, n)); A = (Q * w) @ Q.conj().T; return (A + A.conj().T) / 2
    if c['dav'] and n < 12: raise Skip('Davidson exhausts tiny spaces')
    nc = c['cons']; w = np.sort(rng.uniform(0.1, 1, n)) ** 2 * 10
    if c['deg']: k = max(0, p - 1); w[k:k + 2] = w[k]     # degeneracy inside or at the edge of the wanted set
    C1 = C2 = None
    if nc:   # constraints: two commuting projectors; the operators commute with them
        Q, _ = np.linalg.qr(r(n, n)); j1, j2 = sorted(int(v) for v in rng.choice(n, 2, replace=False)); D1, D2 = np.ones(n), np.ones(n); D1[j1] = 0; D2[j2] = 0
        C1 = (Q * D1) @ Q.conj().T; C2 = (Q * D2) @ Q.conj().T if nc > 1 else None; A = (Q * w) @ Q.conj().T; A = (A + A.conj().T) / 2; keep = np.ones(n, bool); keep[j1] = False
        if nc > 1: keep[j2] = False
        ref = w[keep]; B = None
    else:
        A = herm(w); B = None
        if c['B']: B = herm(rng.uniform(0.5, 2, n))
        ref = sl.eigh(A, B, eigvals_only=True) if B is not None else np.linalg.eigvalsh(A)
    if p + 1 >= len(ref): raise Skip('too few states')
    if not c['deg'] and ref[p] - ref[p - 1] < 0.03 * ref[p]: raise Skip('no gap')
    K = None
    if c['K']:
        K = np.linalg.inv(A + 0.3 * herm(rng.uniform(0.2, 1, n))) if not nc else np.linalg.inv(A + 0.1 * np.eye(n)); K = (K + K.conj().T) / 2
    Y = np.ascontiguousarray(r(n, p)); ev = np.full(p + 2, 9.0); it, calls = ct.c_int(0), ct.c_int(0)
    ptr = lambda M_: None if M_ is None else ct.c_void_p(M_.ctypes.data); A = np.ascontiguousarray(A); K, B, C1, C2 = [None if q is None else np.ascontiguousarray(q) for q in (K, B, C1, C2)]
    dav = c['dav']; nw = max(c['nwork'], 4 if dav else 2 + (B is not None)); desc = '%s library n=%d p=%d%s%s%s nwork %d flags %d%s: ' % (c['variant'], n, p, ' metric' if B is not None else '', ' preconditioner' if K is not None else '', ' %d constraints' % nc if nc else '', nw, c['flags'], ' Davidson' if dav else '')
    bad = L.vf_eig(n, p, ptr(A), None if dav else ptr(B), ptr(K), ptr(C1), ptr(C2), ptr(Y), ct.c_void_p(ev.ctypes.data + 8), nw, ct.c_double(c['tol']), c['flags'], int(dav), ct.c_double(0), ct.byref(it), ct.byref(calls))
    if dav and B is not None: raise Skip('no metric in Davidson')
    need(bad == 0, desc + 'operators were called with aliased or misshapen arguments', 'calls')
    e = ev[1:-1]; need(ev[0] == 9 and ev[-1] == 9, desc + 'eigenvalue array overrun', 'guard'); need((np.diff(e) >= -1e-12).all(), desc + 'eigenvalues not ascending', 'order')
    G = B if B is not None else np.eye(n); need(np.abs(Y.conj().T @ G @ Y - np.eye(p)).max() < 1e-6, desc + 'eigenvectors are not orthonormal in the metric: %s' % np.abs(Y.conj().T @ G @ Y - np.eye(p)).max(), 'orthonormal')
    for C in (C1, C2):
        if C is not None: need(np.abs(C @ Y - Y).max() < 1e-6, desc + 'constraint violated', 'constraint')
    need(np.abs(np.einsum('ij,ik,kj->j', Y.conj(), A, Y).real - e).max() < 1e-7 * 10, desc + 'eigenvalues are not the Rayleigh quotients', 'rayleigh')
    slack = 1e-4 if c['tol'] <= 1e-9 else 3e-2
    need((e > ref[:p] - 1e-7).all(), desc + 'eigenvalues %s below the exact ones %s' % (e.tolist(), ref[:p].tolist()), 'variational')
    conv = np.abs(e.sum() - ref[:p].sum()) < slack * ref[:p].sum()
    need(conv, desc + 'eigenvalues %s, exact %s (%d iterations)' % (e.tolist(), ref[:p + 1].tolist(), it.value), 'eigenvalues')
    return it.value > 1, ['eigen', c['variant'], 'dav' if dav else 'cg', 'B' if B is not None else 'noB', 'K' if K is not None else 'noK', 'cons%d' % nc, 'p%d' % p]

def ritz(c):
    L = load(c['variant']); cx = c['variant'] == 'complex'; rng = np.random.default_rng(c['seed']); n, p = c['n'], min(c['p'], c['n'])
    r = lambda *s: rng.standard_normal(s) + 1j * rng.standard_normal(s) if cx else rng.standard_normal(s)
    A = r(n, n); A = np.ascontiguousarray(A + A.conj().T); Y = np.ascontiguousarray(r(n, p)); Q, _ = np.linalg.qr(Y); ref = np.linalg.eigvalsh(Q.conj().T @ A @ Q); ev = np.zeros(p)
    if np.linalg.cond(Y) > 1e3: raise Skip('cond')
    L.vf_ritz(n, p, ct.c_void_p(A.ctypes.data), ct.c_void_p(Y.ctypes.data), ct.c_void_p(ev.ctypes.data))
    need(np.abs(ev - ref).max() < 1e-7 * (1 + np.abs(ref).max()), 'Ritz values %s expected %s' % (ev.tolist(), ref.tolist()), 'ritz')
    need(np.abs(Y.conj().T @ Y - np.eye(p)).max() < 1e-7 and np.abs(Y.conj().T @ A @ Y - np.diag(ev)).max() < 1e-6 * (1 + np.abs(ref).max()) and np.abs(Q @ (Q.conj().T @ Y) - Y).max() < 1e-7, 'Ritz vectors wrong', 'ritz')
    return p > 1, ['ritz', c['variant']]

def line(c):
    L = load('complex'); rng = np.random.default_rng(c['seed']); k = c['k']; a, b = rng.standard_normal(k) / (1 + np.arange(k)), rng.standard_normal(k) / (1 + np.arange(k)); out = np.zeros(8)
    df0 = float((np.arange(k) * b).sum())
    if abs(df0) < 1e-6: raise Skip('flat')
    s = -1 if df0 > 0 else 1
    ftol, dftol = c['ftol'], c['dftol']; xmax = c['xmax']
    x = L.vf_linmin(k, ct.c_void_p(a.ctypes.data), ct.c_void_p(b.ctypes.data), ct.c_double(s * c['guess'] * xmax), ct.c_double(ftol), ct.c_double(dftol), ct.c_double(1e-14), ct.c_double(0), ct.c_double(s * xmax), ct.c_void_p(out.ctypes.data))
    f, df, f0, d0, calls, lo, hi = out[:7]; desc = 'line search of a %d-term series, f0=%g df0=%g guess %g in [0,%g]: ' % (k, f0, d0, s * c['guess'] * xmax, s * xmax)
    need(0 <= s * x <= xmax * (1 + 1e-12), desc + 'result %g out of bounds' % x, 'linmin-bounds')
    need(lo >= min(0, s * xmax) - 1e-9 and hi <= max(0, s * xmax) + 1e-9, desc + 'evaluated outside the bounds: %g %g' % (lo, hi), 'linmin-bounds')
    K = np.arange(k); ft = float((a * np.cos(K * x) + b * np.sin(K * x)).sum()); dt = float((K * (b * np.cos(K * x) - a * np.sin(K * x))).sum())
    need(abs(f - ft) < 1e-10 and abs(df - dt) < 1e-9, desc + 'reported f=%g df=%g at %g, really %g %g' % (f, df, x, ft, dt), 'linmin-value')
    need(ft <= f0 + ftol * x * d0 + 1e-12, desc + 'no sufficient decrease: %g' % ft, 'linmin-decrease')
    edge = abs(abs(x) - xmax) < 1e-12
    need(edge or abs(dt) <= dftol * abs(d0) * 1.0001 + 1e-7, desc + 'derivative %g at the result' % dt, 'linmin-curvature')
    if edge: need(dt * s <= 1e-9, desc + 'stopped at the bound where the function rises', 'linmin-curvature')
    return calls > 1, ['line']

KIND = dict(history=history, eigen=eigen, ritz=ritz, line=line)

class P24(Check):
    id = 'P24'
    wants = ('complex:shim', 'inv:shim')
    n_quick, n_thorough = 6000, 200000
    rule = ('60%: 5-60 random library operations over a pool of 3-4 blocks and 4-5 square matrices (0-7 columns, 0-9 rows, sub-block offsets, strides, adjoints, aliasing where documented, poisoned outputs and scratch, guard words) with a numpy mirror; '
            '25%: eigenproblems of 4-24 unknowns, 1-4 wanted, with metric, preconditioner, constraint chain, degeneracies, all flags, Davidson; 5% Ritz problems; 10% line searches; non-trivial: at least 3 operations / more than one iteration')
    assumptions = ['the eigensolvers are used with positive operators, as the library uses them', 'Davidson refusing to go on ("non-independent subspace") is a refusal, not a wrong answer']
    def gen(self, rng, i, tier):
        v = rng.choice(['complex', 'inv']); u = rng.random(); s = rng.randrange(1 << 30)
        if u < 0.6: return dict(kind='history', variant=v, seed=s, n=rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 9]), xp=[rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(rng.choice([3, 4]))], sp=[rng.choice([3, 5, 7, 8]) for _ in range(rng.choice([4, 5]))],
                                ops=[dict(op=rng.choice(OPS), a=[rng.randrange(1000) for _ in range(10)]) for _ in range(rng.randint(5, 60))])
        if u < 0.85:
            dav = rng.random() < 0.25; appr = rng.random() < 0.1
            return dict(kind='eigen', variant=v, seed=s, n=rng.randint(4, 24), p=1 if dav else rng.randint(1, 4), cons=rng.choice([0, 0, 0, 1, 2]), B=not dav and rng.random() < 0.3, K=rng.random() < 0.5, deg=rng.random() < 0.2, dav=dav, nwork=rng.choice([2, 3, 4, 5, 6, 8]),
                        flags=(rng.choice([0, 4, 68, 68, 64, 128 | 4, 2 | 68, 32 | 68, 8 | 68]) if not appr else 68), tol=1e-9 if dav else rng.choice([1e-9, 1e-11, 1e-11, 1e-12]))
        if u < 0.9: return dict(kind='ritz', variant=v, seed=s, n=rng.randint(1, 12), p=rng.randint(1, 5))
        per = rng.random() < 0.6   # as the eigensolver uses it: over a full period, or with the curvature condition no sharper than the decrease condition
        return dict(kind='line', seed=s, k=rng.randint(2, 6), guess=rng.choice([1e-6, 1e-3, 0.05, 0.3, 1.0]), ftol=rng.choice([0.1, 0.01, 1e-4] if per else [1e-4]), dftol=rng.choice([1e-6, 1e-3, 1e-9] if per else [1e-3]), xmax=2 * math.pi if per else rng.choice([1.0, 3.0, 6.0]))
    def valid(self, c):
        if c['kind'] == 'history': return c['n'] >= 0 and len(c['xp']) >= 2 and len(c['sp']) >= 3 and all(p >= 0 for p in c['xp'] + c['sp']) and all(len(o['a']) == 10 for o in c['ops'])
        if c['kind'] == 'eigen': return c['n'] >= 4 and c['p'] >= 1 and c['nwork'] >= 2 and c['tol'] in (1e-9, 1e-11, 1e-12)
        if c['kind'] == 'ritz': return c['n'] >= 1 and c['p'] >= 1
        return c['k'] >= 2 and 0 < c['guess'] <= 1 and c['xmax'] > 0.5 and c['ftol'] in (0.1, 0.01, 1e-4) and c['dftol'] in (1e-6, 1e-3, 1e-9) and (c['xmax'] > 6.2 or c['ftol'] < c['dftol'])
    def run(self, c):
        r, w = os.pipe(); re_, we = os.pipe(); pid = os.fork()
        if pid == 0:
            try:
                os.close(r); os.dup2(we, 2); os.dup2(we, 1); signal.alarm(10)
                try: nt, tags = KIND[c['kind']](c); o = dict(ok=bool(nt), tags=tags)
                except Fail as e: o = dict(fail=e.msg, key=e.key)
                except Skip as e: o = dict(skip=str(e))
                except BaseException: o = dict(exc=traceback.format_exc())
                os.write(w, json.dumps(o).encode())
            finally: os._exit(0)
        os.close(w); os.close(we)
        def rd(fd):
            b = b''
            while 1:
                x = os.read(fd, 65536)
                if not x: break
                b += x
            os.close(fd); return b
        out = rd(r); err = rd(re_).decode(errors='replace'); _, st = os.waitpid(pid, 0)
        if not out:
            if c['kind'] == 'eigen' and c['dav'] and 'CHECK' in err: raise Skip('Davidson gave up')
            if c['kind'] == 'eigen' and 'failure to converge' in err and c['tol'] < 1e-9: return self.run(dict(c, tol=1e-9))   # stagnation at round-off, honestly reported: must converge at a looser tolerance
            if c['kind'] == 'eigen': desc = 'eigenproblem n=%d p=%d' % (c['n'], c['p'])
            else: desc = c['kind']
            raise Fail('%s: the library ended the process (status %d): %s' % (desc, st, err[-500:]), 'died')
        o = json.loads(out)
        if 'exc' in o: raise RuntimeError(o['exc'])
        if 'skip' in o: raise Skip(o['skip'])
        if 'fail' in o: raise Fail(o['fail'], o['key'])
        return o['ok'], o['tags']
CHECK = P24()
