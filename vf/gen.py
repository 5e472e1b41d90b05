"""Generated problems: lattices, grids, material tables, geometries; as JSON, as control files, as numpy data."""
import math, random
import numpy as np
from mpbrun import scheme_num as sn, v3, cv3

NOSIZE = 'no-size'

def rnd(rng, a, b, nd=3): return round(rng.uniform(a, b), nd)

def gen_lattice(rng, dim, skew=None):
    """size/basis/basis-size; lengths within a factor of about two"""
    L = {'size': [1.0, 1.0, 1.0], 'basis': [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'bsize': [1.0, 1.0, 1.0]}
    kind = skew if skew is not None else rng.choice(['cubic', 'ortho', 'skew', 'hex', 'skew'])
    if kind != 'cubic':
        for i in range(dim): L['size'][i] = rnd(rng, 0.7, 1.5, 2)
    if rng.random() < 0.3:
        for i in range(dim): L['bsize'][i] = rnd(rng, 0.7, 1.4, 2)
    if kind == 'hex' and dim >= 2:
        L['basis'][0] = [math.sqrt(3) / 2, 0.5, 0]; L['basis'][1] = [math.sqrt(3) / 2, -0.5, 0]
        L['size'][0] = L['size'][1] = 1.0; L['bsize'][0] = L['bsize'][1] = 1.0
    elif kind == 'skew' and dim == 2:
        L['basis'][1] = [rnd(rng, -0.6, 0.6, 2), 1.0, 0]
        L['basis'][0] = [1.0, rnd(rng, -0.3, 0.3, 2), 0]
    elif kind == 'skew' and dim == 3:
        L['basis'] = [[(1.0 if a == b else rnd(rng, -0.35, 0.35, 2)) for b in range(3)] for a in range(3)]
        if rng.random() < 0.3: L['basis'] = [[0, 1, 1], [1, 0, 1], [1, 1, 0]]; L['bsize'] = [math.sqrt(0.5)] * 3; L['size'] = [1.0] * 3
    elif kind == 'skew' and dim == 1 and rng.random() < 0.3:
        L['basis'] = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    L['dim'] = dim
    if rng.random() < 0.12: L['scale'] = rng.choice([0.04, 0.25, 6.0, 40.0])   # overall length unit
    return L

def gen_grid(rng, dim, tier='quick', odd=True, maxn=None):
    if dim == 1: lo, hi = 4, 24
    elif dim == 2: lo, hi = 3, 9
    else: lo, hi = 2, 5
    n = [1, 1, 1]
    for i in range(dim):
        n[i] = rng.randint(lo, hi)
        if not odd and n[i] % 2: n[i] += 1
    return n

def rows(L):
    """lattice vectors as rows (Cartesian), no-size dimensions of unit length"""
    R = np.zeros((3, 3))
    for i in range(3):
        b = np.array(L['basis'][i], float); b = b / np.linalg.norm(b) * L['bsize'][i] * L.get('scale', 1.0)
        R[i] = b * (L['size'][i] if i < L['dim'] else 1.0)
    return R
def recip(L): return np.linalg.inv(rows(L)).T

def ctl_lattice(L):
    size = [sn(L['size'][i]) if i < L['dim'] else NOSIZE for i in range(3)]
    s = '(set! geometry-lattice (make lattice (size %s) (basis-size %s)' % (' '.join(size), ' '.join(sn(x * L.get('scale', 1.0)) for x in L['bsize']))
    for i in range(3): s += ' (basis%d %s)' % (i + 1, ' '.join(sn(x) for x in L['basis'][i]))
    return s + '))\n'

# ---------------------------------------------------------------- material tables
# table spec: {'t': iso|diag|sym|herm|block|const, 's': seed, 'hi': float, 'inv': bool, 'mir': 'y'/'z'/'' }
def table(spec, n):
    """(nx,ny,nz,3,3) complex Hermitian positive definite"""
    N = n[0] * n[1] * n[2]
    g = np.random.default_rng([spec['s'], 77])
    hi = float(spec.get('hi', 12.0)); t = spec['t']
    K = spec.get('levels', 0)
    def draw(cnt):
        out = np.zeros((cnt, 3, 3), complex)
        if t in ('iso', 'const'):
            e = 1 + (hi - 1) * g.random(cnt)
            if t == 'const': e[:] = e[0]
            for a in range(3): out[:, a, a] = e
        elif t == 'diag':
            for a in range(3): out[:, a, a] = 1 + (hi - 1) * g.random(cnt)
        else:
            A = g.normal(size=(cnt, 3, 3)) + (1j * g.normal(size=(cnt, 3, 3)) if t in ('herm', 'hblock') else 0)
            Q = np.linalg.qr(A)[0]
            if t in ('block', 'hblock'):
                A = g.normal(size=(cnt, 2, 2)) + (1j * g.normal(size=(cnt, 2, 2)) if t == 'hblock' else 0)
                q2 = np.linalg.qr(A)[0]; Q = np.zeros((cnt, 3, 3), complex); Q[:, :2, :2] = q2; Q[:, 2, 2] = 1
            ev = 1 + (hi - 1) * g.random((cnt, 3))
            out = np.einsum('nij,nj,nkj->nik', Q, ev, Q.conj())
            out = (out + out.conj().transpose(0, 2, 1)) / 2
            if t not in ('herm', 'hblock'): out = out.real.astype(complex)
        return np.round(out, 6)
    if K:
        base = draw(K); T = base[g.integers(0, K, N)]
    else: T = draw(N)
    T = T.reshape(n[0], n[1], n[2], 3, 3).copy()
    if spec.get('neg'):   # some of the points (inversion-symmetric choice before symmetrisation) are metallic
        m_ = np.random.default_rng([spec['s'], 78]).random(tuple(n)) < spec['neg']; f_ = m_
        for ax in range(3): f_ = np.take(f_, (-np.arange(n[ax])) % n[ax], axis=ax)
        T[m_ & f_ if spec.get('inv') else m_] *= -1
    if spec.get('blob'):   # confining high-index blob [x,y,z,radius,eps,squeeze of x] in fractions of the cell
        b = spec['blob']; ix = [np.arange(m) / m for m in n]
        d2 = sum(((b[5] if i == 0 else 1) * ((x - b[i] + 0.5) % 1 - 0.5)) ** 2 for i, x in enumerate(np.meshgrid(*ix, indexing='ij')) if n[i] > 1)
        T[d2 < b[3] ** 2] += (b[4] - 1) * np.eye(3)
    def flip(T, ax):
        idx = (-np.arange(n[ax])) % n[ax]
        return np.take(T, idx, axis=ax)
    if spec.get('inv'):
        F = flip(flip(flip(T, 0), 1), 2)   # T(-r) = T(r)
        T = pick_sym(T, F)
    for ax, ch in ((0, 'x'), (1, 'y'), (2, 'z')):
        if ch in spec.get('mir', ''):
            F = flip(T, ax).copy()
            S = np.ones(3); S[ax] = -1
            F = F * S[:, None] * S[None, :]
            T = np.round((T + F) / 2, 6)
    return T

def pick_sym(T, F): return np.round((T + F) / 2, 6)

def scm_tensor(E, M=None):
    def off(E): return cv3([E[0, 1], E[0, 2], E[1, 2]])
    def offr(E): return '(vector3 %s)' % ' '.join(sn(float(x.real)) for x in (E[0, 1], E[0, 2], E[1, 2]))
    herm = np.abs(E.imag).max() > 0 or (M is not None and np.abs(M.imag).max() > 0)
    iso = lambda A: np.allclose(A, A[0, 0] * np.eye(3), atol=0)
    if iso(E) and (M is None or iso(M)):
        return '(make medium (epsilon %s)%s)' % (sn(float(E[0, 0].real)), '' if M is None else ' (mu %s)' % sn(float(M[0, 0].real)))
    s = '(make medium-anisotropic (epsilon-diag %s) (epsilon-offdiag %s)' % (v3([float(E[i, i].real) for i in range(3)]), off(E) if herm else offr(E))
    if M is not None: s += ' (mu-diag %s) (mu-offdiag %s)' % (v3([float(M[i, i].real) for i in range(3)]), off(M) if herm else offr(M))
    return s + ')'

def ctl_table(L, n, E, M=None, name='vf'):
    """default material = lookup of the table at the grid points"""
    Ef = E.reshape(-1, 3, 3); Mf = None if M is None else M.reshape(-1, 3, 3)
    mats = [scm_tensor(Ef[i], None if Mf is None else Mf[i]) for i in range(len(Ef))]
    s = '(define %s-tab (vector\n%s))\n' % (name, '\n'.join(mats))
    idx = []
    for a, c in enumerate('xyz'):
        if a < L['dim']:
            idx.append('(modulo (inexact->exact (round (* %d (+ 0.5 (/ (vector3-%s p) %s))))) %d)' % (n[a], c, sn(L['size'][a]), n[a]))
        else: idx.append('0')
    s += '(define (%s-f p) (vector-ref %s-tab (+ (* %d %s) (* %d %s) %s)))\n' % (name, name, n[1] * n[2], idx[0], n[2], idx[1], idx[2])
    return s

def ctl_grid(n): return '(set! grid-size (vector3 %d %d %d))\n' % tuple(n)

def ctl_common(nb, tol=1e-11, det=True, mesh=None, extra=''):
    return '(set! num-bands %d)\n(set! tolerance %s)\n(set! deterministic? %s)\n%s%s' % (
        nb, sn(tol), 'true' if det else 'false', '' if mesh is None else '(set! mesh-size %d)\n' % mesh, extra)

def gen_k(rng, dim, special=True, L=None, kmin=0.08):
    """k in the reciprocal basis: exactly zero, or with every |k+G| at least kmin (the band solver converges
    falsely closer to, but not at, the zone centre: see known_findings.json)"""
    r = rng.random()
    if special and r < 0.15: return [0.0, 0.0, 0.0]
    for _ in range(200):
        if special and r < 0.3: k = [rng.choice([0.0, 0.5, 0.25]) if i < dim else 0.0 for i in range(3)]
        else: k = [rnd(rng, -0.5, 0.5) if i < dim else 0.0 for i in range(3)]
        if dim < 3 and rng.random() < 0.2:
            for i in range(dim, 3): k[i] = rnd(rng, -0.7, 0.7, 2)
        if special and rng.random() < 0.08: k[rng.randrange(dim)] += rng.choice([-1.0, 1.0])
        if special and sum(map(bool, k)) > 1 and rng.random() < 0.1:   # almost, but not exactly, along an axis or on a symmetry plane
            keep = rng.choice([i for i in range(3) if k[i]]); both = rng.random() < 0.6
            for i in range(3):
                if i != keep and k[i] and (both or rng.random() < 0.5): k[i] = rng.choice([1e-4, -1e-4, 2e-4, -3e-4]) + (rng.choice([0, 0, 0.5]) if i < dim else 0)
        if kdist(k, L) >= kmin: return [round(x, 4) for x in k]
        r = 1
    return [0.25 if i < dim else 0.0 for i in range(3)]

def kdist(k, L=None):
    """distance of k from the nearest reciprocal lattice vector, Cartesian"""
    G = np.eye(3) if L is None else recip(L)
    dim = 3 if L is None else L['dim']
    best = 9.0
    k = np.asarray(k, float)
    k0 = k.copy(); k0[:dim] -= np.round(k0[:dim])
    for a in (-1, 0, 1):
        for b in ((-1, 0, 1) if dim > 1 else (0,)):
            for c in ((-1, 0, 1) if dim > 2 else (0,)):
                best = min(best, float(np.linalg.norm((k0 + [a, b, c]) @ G)))
    return best * (1.0 if L is None else L.get('scale', 1.0))

def kok(k, L, kmin=0.08):
    return not any(k) or kdist(k, L) >= kmin
