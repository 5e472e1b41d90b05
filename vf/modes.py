"""Shared machinery: a generated problem (crystal + grid + material tables + k + solver), its control file, and field readers."""
import os
import numpy as np
import gen, h5, refmax
from gen import *
from mpbrun import need, Fail, Skip, v3, scheme_num as sn

def gen_problem(rng, variant=None, dims=(1, 2, 2, 3, 3), mu_p=0.3, pol_p=0.3, inv=False, mir='', nbmax=6, kzero=0.12, variants=('complex', 'complex', 'inv', 'herm'),
                uniform=False, maxn=None, odd=True, herm_ok=True):
    """JSON description of a random problem with random tensors at every grid point"""
    variant = variant or rng.choice(list(variants))
    inv = inv or variant == 'inv'
    dim = rng.choice(list(dims))
    L = gen_lattice(rng, dim); n = gen_grid(rng, dim, odd=odd)
    if maxn:
        for i in range(dim): n[i] = min(n[i], maxn[dim - 1])
    herm = variant == 'herm' and herm_ok
    t = rng.choice(['iso', 'iso', 'diag', 'sym'] if not herm else ['iso', 'sym', 'herm', 'herm'])
    pol = ''
    k = gen_k(rng, dim, L=L)
    if not any(k) and rng.random() > kzero / 0.15:
        k = [0.0, 0.0, 0.0]
        for i in range(dim): k[i] = round(rng.uniform(0.15, 0.5), 3)
    mu = None
    if rng.random() < mu_p:
        mu = {'t': rng.choice(['iso', 'diag', 'sym'] + (['herm'] if herm else [])), 's': rng.randrange(10 ** 6), 'hi': rng.choice([2.0, 4.0]), 'inv': inv, 'mir': mir}
    if dim == 2 and rng.random() < pol_p:
        pol = rng.choice(['te', 'tm']); k[2] = 0.0
        if not kok(k, L): k = [0.3 if i < dim else 0.0 for i in range(3)]
        t = rng.choice(['iso', 'diag', 'block'] + (['hblock'] if herm else []))
        if mu: mu['t'] = rng.choice(['iso', 'diag', 'block'])
    eps = {'t': t, 's': rng.randrange(10 ** 6), 'hi': rng.choice([2.0, 5.0, 13.0]), 'inv': inv, 'mir': mir}
    if rng.random() < 0.3: eps['levels'] = rng.choice([2, 3, 4])
    N = n[0] * n[1] * n[2]
    nb = rng.randint(1, max(1, min(nbmax, N // 2 if pol else N)))
    return dict(variant=variant, lat=L, n=n, eps=eps, mu=mu, nb=nb, k=k, pol=pol)

def valid_problem(c):
    L = c['lat']
    return (len(c['k']) == 3 and kok(c['k'], L) and len(c['n']) == 3 and 1 <= L['dim'] <= 3 and all(x >= 2 for x in c['n'][:L['dim']]) and all(c['n'][i] == 1 for i in range(L['dim'], 3))
            and 1 <= c['nb'] <= (c['n'][0] * c['n'][1] * c['n'][2]) // (2 if c['pol'] else 1) and len(L['size']) == 3 and all(s > 0.3 for s in L['size']) and len(L['basis']) == 3
            and all(len(b) == 3 for b in L['basis']) and len(L['bsize']) == 3 and all(0.6 < b < 1.5 for b in L['bsize']) and abs(np.linalg.det(rows(L))) > 0.2 * L.get('scale', 1.0) ** 3 and L.get('scale', 1.0) in (0.04, 0.25, 1.0, 6.0, 40.0)
            and c['eps']['hi'] > 1 and (not c['mu'] or c['mu']['hi'] > 1) and (not c['pol'] or (L['dim'] == 2 and c['k'][2] == 0)))

PARITY = {'': 'NO-PARITY', 'te': 'TE', 'tm': 'TM'}
class Prob:
    def __init__(self, c):
        self.c = c; self.L = c['lat']; self.n = c['n']; self.variant = c['variant']
        self.N = int(np.prod(self.n)); self.nb = c['nb']; self.k = c['k']; self.pol = c.get('pol', '')
        self.E = table(c['eps'], self.n); self.M = table(c['mu'], self.n) if c.get('mu') else None
        self.R = rows(self.L); self.G = recip(self.L); self.vol = abs(np.linalg.det(self.R))
        self.parity = PARITY[self.pol]
        self.suffix = ('.' + self.pol) if self.pol else ''
    def head(self, tol=1e-11, nb=None, det=True, extra=''):
        s = ctl_lattice(self.L) + ctl_grid(self.n) + ctl_common(nb or self.nb, tol=tol, mesh=1, det=det) + ctl_table(self.L, self.n, self.E, self.M)
        s += '(set! default-material (make material-function (material-func vf-f)))\n'
        if self.M is not None: s += '(set! force-mu? true)\n'
        return s + extra
    def init(self, reset=True, par=None): return '(init-params %s %s)\n' % (par or self.parity, 'true' if reset else 'false')
    def solve(self, k=None, times=3): return ('(solve-kpoint %s)\n' % v3(k or self.k)) * times
    def q(self, k=None):
        """k+G (Cartesian) at the FFT bins, shape n+(3,)"""
        g = refmax.gvec(self.n)
        return ((np.asarray(k or self.k, float)[None] + g) @ self.G).reshape(*self.n, 3)
    def phase(self, k=None):
        return np.exp(2j * np.pi * (refmax.gridfrac(self.n) @ np.asarray(k or self.k, float))).reshape(*self.n)
    def pts(self):
        """lattice coordinates of the grid points as mpb counts them (centre of the cell at the origin)"""
        f = refmax.gridfrac(self.n).reshape(*self.n, 3) - 0.5
        for i in range(self.L['dim'], 3): f[..., i] = 0
        return f * np.array([self.L['size'][i] if i < self.L['dim'] else 1.0 for i in range(3)])
    def fft(self, F): return np.fft.fftn(F, axes=(0, 1, 2)) / self.N
    def einv(self): return np.linalg.inv(self.E)
    def minv(self): return None if self.M is None else np.linalg.inv(self.M)
    def integ(self, a): return a.sum() * self.vol / self.N
    def dense(self, k=None): return refmax.Dense(self.n, self.G, k or self.k, self.E, self.M, pol=self.pol)

def path(d, stem): 
    p = os.path.join(d, stem if stem.endswith('.h5') else stem + '.h5')
    need(os.path.exists(p), 'output file %s missing; present: %s' % (os.path.basename(p), sorted(os.listdir(d))), 'nofile')
    return p

def read_vec(d, stem, n, tp=False):
    """(nx,ny,nz,3) complex, with the phase as written"""
    r = h5.read(path(d, stem))['data']
    out = np.zeros(tuple(n) + (3,), complex)
    for a, c in enumerate('xyz'):
        z = r[c + '.r'] + 1j * r[c + '.i']
        out[..., a] = shape_to(z, n, tp)
    return out

def shape_to(z, n, tp=False):
    if tp:
        z = np.asarray(z).reshape(n[1], n[0], n[2]).transpose(1, 0, 2)
    z = np.asarray(z)
    need(z.size == int(np.prod(n)), 'dataset has shape %s for grid %s' % (z.shape, n), 'shape')
    sq = tuple(m for m in n if m > 1)
    need(tp or tuple(m for m in z.shape if m > 1) == sq, 'dataset has shape %s for grid %s' % (z.shape, n), 'shape')
    return z.reshape(n)

def read_scl(d, stem, n, tp=False, name='data'):
    r = h5.read(path(d, stem))['data']
    need(name in r, 'no dataset %s in %s' % (name, sorted(r)), 'nodata')
    return shape_to(r[name], n, tp)

def read_csc(d, stem, n, tp=False):
    r = h5.read(path(d, stem))['data']
    names = sorted(r)
    re = [x for x in names if x == 'c.r']
    im = [x for x in names if x == 'c.i']
    need(re and im, 'complex scalar datasets: %s' % names, 'nodata')
    return shape_to(r[re[0]] + 1j * r[im[0]], n, tp)

def relerr(a, b, floor=0.0):
    a = np.asarray(a); b = np.asarray(b)
    return float(np.abs(a - b).max() / max(np.abs(b).max(), floor, 1e-300))
