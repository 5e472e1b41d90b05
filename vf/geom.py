"""Generated geometries: JSON description, control-file text, and a numpy model (which object is at a point)."""
import numpy as np
from gen import *
from gen import scm_tensor

# object: {'k': sphere|cyl|block|ellip|cone, 'c': [3] lattice coords, 'm': material index (-1 = nothing), 's': [3] sizes, 'e': [[3],[3],[3]] axes (lattice coords), 'r','r2','h','a'}
# material: {'t': iso|diag|sym|herm|block, 'e': [...], 'm': [...] or None}
def gen_mat(rng, herm=False, aniso=True, mu=False, lo=1.5, hi=13.0, two_d=False):
    t = rng.choice(['iso', 'iso', 'diag', 'sym'] + (['herm', 'herm'] if herm else [])) if aniso else 'iso'
    return {'t': t, 's': rng.randrange(10 ** 6), 'lo': lo, 'hi': hi, 'blk': bool(two_d), 'mu': (rng.choice(['iso', 'diag', 'sym']) if aniso else 'iso') if mu and rng.random() < 0.7 else ''}

def _tens(t, seed, lo, hi, blk):
    g = np.random.default_rng([seed, 5])
    if t == 'iso': return np.eye(3) * round(float(lo + (hi - lo) * g.random()), 4) + 0j
    ev = lo + (hi - lo) * g.random(3)
    if t == 'diag': return np.diag(np.round(ev, 4)).astype(complex)
    A = g.normal(size=(3, 3)) + (1j * g.normal(size=(3, 3)) if t == 'herm' else 0)
    if blk: A[2, :2] = A[:2, 2] = 0
    Q = np.linalg.qr(A)[0]
    T = (Q * ev) @ Q.conj().T
    if t != 'herm': T = T.real + 0j
    if blk: T[2, :2] = T[:2, 2] = 0
    T = np.round(T, 4)
    return (T + T.conj().T) / 2

def mat_eps(m): return _tens(m['t'], m['s'], m['lo'], m['hi'], m['blk'])
def mat_mu(m): return _tens(m['mu'], m['s'] + 1, 1.2, 3.0, m['blk']) if m['mu'] else np.eye(3) + 0j

def scm_mat(m): return scm_tensor(mat_eps(m), mat_mu(m) if m['mu'] else None)

def unit_basis(L):
    """columns: the lattice *unit* basis (basis vectors scaled to basis-size)"""
    B = np.zeros((3, 3))
    for i in range(3):
        b = np.array(L['basis'][i], float); B[:, i] = b / np.linalg.norm(b) * L['bsize'][i]
    return B

class Obj:
    def __init__(self, o, L):
        self.o = o; self.B = unit_basis(L); self.c = self.B @ np.array(o['c'], float); self.k = o['k']
        if 'e' in o:
            E = self.B @ np.array(o['e'], float).T
            E = E / np.linalg.norm(E, axis=0); self.E = E; self.P = np.linalg.inv(E)
        if 'a' in o:
            a = self.B @ np.array(o['a'], float); self.ax = a / np.linalg.norm(a)
    def inside(self, X):
        """X: (..., 3) Cartesian"""
        d = X - self.c; o = self.o
        if self.k == 'sphere': return (d ** 2).sum(-1) <= o['r'] ** 2
        if self.k in ('cyl', 'cone'):
            t = d @ self.ax; rr = np.sqrt(np.maximum((d ** 2).sum(-1) - t * t, 0)); h = o['h']
            ok = np.abs(t) <= h / 2
            r = o['r'] if self.k == 'cyl' else o['r'] + (o['r2'] - o['r']) * (t / h + 0.5)
            return ok & (rr <= np.abs(r))
        p = d @ self.P.T
        s = np.array(o['s']) / 2
        if self.k == 'block': return np.all(np.abs(p) <= s, axis=-1)
        return ((p / s) ** 2).sum(-1) <= 1
    def scm(self, mats):
        o = self.o
        m = mats[o['m']] if o['m'] >= 0 else 'nothing'
        s = '(center %s) (material %s)' % (' '.join(sn(x) for x in o['c']), m)
        if self.k == 'sphere': return '(make sphere %s (radius %s))' % (s, sn(o['r']))
        num = lambda x: 'infinity' if x >= 1e6 else sn(x)
        if self.k == 'cyl': return '(make cylinder %s (radius %s) (height %s) (axis %s))' % (s, sn(o['r']), num(o['h']), ' '.join(sn(x) for x in o['a']))
        if self.k == 'cone': return '(make cone %s (radius %s) (radius2 %s) (height %s) (axis %s))' % (s, sn(o['r']), sn(o['r2']), num(o['h']), ' '.join(sn(x) for x in o['a']))
        e = ' '.join('(e%d %s)' % (i + 1, ' '.join(sn(x) for x in o['e'][i])) for i in range(3))
        return '(make %s %s (size %s) %s)' % ('block' if self.k == 'block' else 'ellipsoid', s, ' '.join(num(x) for x in o['s']), e)

def extent(o, L):
    """half extents of the bounding box in units of the lattice vectors; infinite sizes must be along a lattice direction and count as zero"""
    O = Obj(o, L); Ri = np.linalg.inv(rows(L)).T
    if o['k'] == 'sphere': return o['r'] * np.linalg.norm(Ri, axis=1)
    if o['k'] in ('cyl', 'cone'):
        r = max(o['r'], o.get('r2', 0))
        return r * np.linalg.norm(Ri, axis=1) + (np.abs(Ri @ O.ax) * o['h'] / 2 if o['h'] < 10 else 0)
    return sum((np.abs(Ri @ O.E[:, j]) * o['s'][j] / 2 if o['s'][j] < 10 else 0) for j in range(3))

class Geo:
    """objects (in order), materials, default material index"""
    def __init__(self, L, objs, mats, default):
        self.L = L; self.dim = L['dim']; self.objs = [Obj(o, L) for o in objs]; self.mats = mats; self.default = default
        self.R = rows(L)
        self.shifts = [s for s in np.ndindex(*(3 if i < self.dim else 1 for i in range(3)))]   # one period: objects must lie near the cell (extent())
        self.shifts = np.array([[s[i] - 1 if i < self.dim else 0 for i in range(3)] for s in self.shifts], float)
    def which(self, X):
        """index of the top object (with periodic copies) at Cartesian points X (...,3); -1 = none"""
        sh = X.shape[:-1]; X = X.reshape(-1, 3)
        F = X @ np.linalg.inv(self.R); F[:, :self.dim] -= np.floor(F[:, :self.dim] + 0.5); X = F @ self.R
        out = np.full(len(X), -1)
        for i, o in enumerate(self.objs):
            hit = np.zeros(len(X), bool)
            for s in self.shifts: hit |= o.inside(X - s @ self.R)
            out[hit] = i
        return out.reshape(sh)
    def matidx(self, X):
        w = self.which(X)
        table = np.array([o.o['m'] if o.o['m'] >= 0 else self.default for o in self.objs] + [self.default])
        return table[w]
    def ctl(self, order=None, funcs=(), extra_objs=()):
        names = []
        s = ''
        for i, m in enumerate(self.mats):
            s += '(define mat%d %s)\n' % (i, scm_mat(m))
            if i in funcs:
                s += '(define fmat%d (make material-function (material-func (lambda (p) mat%d))))\n' % (i, i); names.append('fmat%d' % i)
            else: names.append('mat%d' % i)
        s += '(set! default-material %s)\n' % names[self.default]
        idx = range(len(self.objs)) if order is None else order
        s += '(set! geometry (list %s))\n' % '\n'.join([self.objs[i].scm(names) for i in idx] + list(extra_objs))
        return s

def gen_geo(rng, L, herm=False, mu=False, nobj=None, aniso=True, nothing=True, inv=False):
    dim = L['dim']; two_d = False
    nm = rng.randint(2, 3)
    mats = [gen_mat(rng, herm, aniso, mu) for _ in range(nm)]
    if rng.random() < 0.4: mats[0] = {'t': 'iso', 's': 0, 'lo': 1.0, 'hi': 1.0, 'blk': False, 'mu': ''}
    objs = []
    size = L['size']
    for _ in range(nobj if nobj is not None else rng.randint(1, 4)):
        k = rng.choice(['sphere', 'cyl', 'block', 'block', 'block', 'ellip', 'cone'])
        o = {'k': k, 'c': [rnd(rng, -0.5, 0.5, 3) * size[i] if i < dim else (rng.choice([0.0, 0.0, 0.1])) for i in range(3)], 'm': rng.choice([-1] + list(range(nm)) * 3) if nothing else rng.randrange(nm)}
        o['c'] = [round(x, 4) for x in o['c']]
        big = lambda: round(rng.uniform(0.25, 1.1), 3)
        if k == 'sphere': o['r'] = rnd(rng, 0.2, 0.55)
        elif k in ('cyl', 'cone'):
            o['r'] = rnd(rng, 0.2, 0.5); o['h'] = big() if dim == 3 or rng.random() < 0.3 else 1e20
            if k == 'cone': o['h'] = big(); o['r2'] = rnd(rng, 0.0, 0.4)
            o['a'] = [0, 0, 1] if rng.random() < 0.5 else [rnd(rng, -1, 1, 2), rnd(rng, -1, 1, 2), rnd(rng, 0.2, 1, 2)]
            if o['h'] > 10: o['a'] = [0, 0, 1]
        else:
            o['s'] = [big() for _ in range(3)]
            if dim < 3: o['s'][2] = 1e20 if k == 'block' and rng.random() < 0.8 else 0.9
            if dim < 2: o['s'][1] = 1e20 if k == 'block' and rng.random() < 0.8 else 0.9
            strip = dim == 2 and k == 'block' and rng.random() < 0.2
            if strip: o['s'][0] = 1e20
            r = rng.random()
            if r < 0.5 or strip: o['e'] = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            else:
                o['e'] = [[(1.0 if a == b else rnd(rng, -0.45, 0.45, 2)) for b in range(3)] for a in range(3)]
                if dim < 3:
                    o['e'][2] = [0, 0, 1]; o['e'][0][2] = o['e'][1][2] = 0.0
                if dim < 2: o['e'] = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for _ in range(8):
            if max(extent(o, L)[:dim]) <= 0.9: break
            for key in ('r', 'r2', 'h'):
                if key in o and o[key] < 10: o[key] = max(0.2 if key == 'h' else 0.15 if key == 'r' else 0, round(o[key] * 0.8, 3))
            if 's' in o: o['s'] = [max(0.2, round(x * 0.8, 3)) if x < 10 else x for x in o['s']]
        objs.append(o)
    if inv:   # inversion-symmetric about the origin: every object followed by its image (same material), or centred
        out = []
        for o in objs:
            if rng.random() < 0.4 and o['k'] != 'cone': o['c'] = [0.0, 0.0, 0.0]; out.append(o)
            else:
                q = dict(o); q['c'] = [-x for x in o['c']]
                if o['k'] == 'cone': q['a'] = [-x for x in o['a']]
                out += [o, q]
        objs = out
    return {'objs': objs, 'mats': mats, 'default': rng.randrange(nm) if rng.random() < 0.5 else 0}

def valid_geo(g, L):
    nm = len(g['mats'])
    if nm < 1 or not (0 <= g['default'] < nm): return False
    for m in g['mats']:
        if not (m['lo'] >= 1 and m['hi'] >= m['lo']): return False
    for o in g['objs']:
        if not (-1 <= o['m'] < nm) or len(o['c']) != 3: return False
        if 'r' in o and o['r'] < 0.15: return False
        if 'h' in o and o['h'] < 0.2: return False
        if 's' in o and (len(o['s']) != 3 or min(o['s']) < 0.2): return False
        if 'e' in o and (len(o['e']) != 3 or any(len(x) != 3 for x in o['e']) or abs(np.linalg.det(np.array(o['e'], float))) < 0.15): return False
        if max(extent(o, L)[:L['dim']]) > 0.91 or any(abs(o['c'][a]) > 0.51 * L['size'][a] for a in range(L['dim'])): return False
        if 's' in o:
            for a in range(3):
                if o['s'][a] > 10 and (np.count_nonzero(o['e'][a]) != 1 or not o['e'][a][a]): return False
        if 'a' in o and o['h'] > 10 and (L['dim'] == 3 or o['a'][0] or o['a'][1]): return False
        if 'a' in o and (len(o['a']) != 3 or np.linalg.norm(o['a']) < 0.1): return False
    return True

def kottke(e1, e2, f, nrm):
    """anisotropic smoothing of a flat interface: f = fraction of e1, unit normal nrm"""
    a = np.array([0, 0, 1.]) if abs(nrm[2]) < 0.9 else np.array([1., 0, 0])
    t1 = np.cross(nrm, a); t1 /= np.linalg.norm(t1); t2 = np.cross(nrm, t1)
    Q = np.stack([nrm, t1, t2], 1)
    def tau(e):
        e = Q.T @ e @ Q; t = np.zeros((3, 3), complex)
        t[0, 0] = -1 / e[0, 0]; t[0, 1:] = e[0, 1:] / e[0, 0]; t[1:, 0] = e[1:, 0] / e[0, 0]
        t[1:, 1:] = e[1:, 1:] - np.outer(e[1:, 0], e[0, 1:]) / e[0, 0]
        return t
    t = f * tau(e1) + (1 - f) * tau(e2)
    e = np.zeros((3, 3), complex)
    e[0, 0] = -1 / t[0, 0]; e[0, 1:] = -t[0, 1:] / t[0, 0]; e[1:, 0] = -t[1:, 0] / t[0, 0]
    e[1:, 1:] = t[1:, 1:] - np.outer(t[1:, 0], t[0, 1:]) / t[0, 0]
    return Q @ e @ Q.T

def read_eps(r, n, variant, tp=False):
    """(nx,ny,nz,3,3) epsilon and inverse from the h5 data of an epsilon output"""
    from modes import shape_to
    out = []
    for nm in ('epsilon', 'epsilon_inverse'):
        T = np.zeros(tuple(n) + (3, 3), complex)
        for a in range(3):
            for b in range(a, 3):
                z = shape_to(r['%s.%s%s' % (nm, 'xyz'[a], 'xyz'[b])], n, tp).astype(complex)
                key = '%s.%s%s.i' % (nm, 'xyz'[a], 'xyz'[b])
                if a != b and key in r: z = z + 1j * shape_to(r[key], n, tp)
                T[..., a, b] = z; T[..., b, a] = z.conj()
        out.append(T)
    return out
