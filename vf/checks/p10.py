# technique: property-based testing: metamorphic relations between runs on generated crystals and generated chains of exact symmetry transformations
# level_note: exploration; exact relations compared to solver accuracy, reciprocal-vector shifts and even-grid reversals on smooth crystals to discretisation accuracy
import numpy as np
from modes import *
from checks.p01 import spectrum_close
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

class Cry:
    """crystal in general position: lattice rows R, active axes, grid, tables at the grid points, k in the reciprocal basis"""
    def __init__(self, R, act, n, E, M, k, f=1.0):
        self.R, self.act, self.n, self.E, self.M, self.k, self.f = np.array(R, float), list(act), list(n), E, M, np.array(k, float), f
    def copy(self): return Cry(self.R.copy(), self.act, self.n, self.E.copy(), None if self.M is None else self.M.copy(), self.k.copy(), self.f)
    def ctl(self, nb):
        ln = np.linalg.norm(self.R, axis=1)
        s = '(set! geometry-lattice (make lattice (size %s) (basis-size %s)' % (' '.join('1' if a else 'no-size' for a in self.act), ' '.join(sn(float(x)) for x in ln))
        for i in range(3): s += ' (basis%d %s)' % (i + 1, ' '.join(sn(float(x / ln[i])) for x in self.R[i]))
        s += '))\n' + ctl_grid(self.n) + ctl_common(nb, tol=1e-11, mesh=1)
        Ef = self.E.reshape(-1, 3, 3); Mf = None if self.M is None else self.M.reshape(-1, 3, 3)
        s += '(define vf-tab (vector\n%s))\n' % '\n'.join(scm_tensor(Ef[i], None if Mf is None else Mf[i]) for i in range(len(Ef)))
        ix = ['(modulo (inexact->exact (round (* %d (+ 0.5 (vector3-%s p))))) %d)' % (self.n[i], 'xyz'[i], self.n[i]) if self.act[i] else '0' for i in range(3)]
        s += '(define (vf-f p) (vector-ref vf-tab (+ (* %d %s) (* %d %s) %s)))\n(set! default-material (make material-function (material-func vf-f)))\n' % (self.n[1] * self.n[2], ix[0], self.n[2], ix[1], ix[2])
        if self.M is not None: s += '(set! force-mu? true)\n'
        return s
    def run(self, variant, nb, times=3):
        with Scratch() as d:
            r = run_ctl(self.ctl(nb) + '(init-params NO-PARITY true)\n' + ('(solve-kpoint %s)\n' % v3([float(x) for x in self.k])) * times + '(vp "f" freqs)\n', d, variant).ok('session')
            f = r.arr('f')
        need(len(f) == nb, '%d frequencies for %d bands' % (len(f), nb), 'count')
        return f

def tens(T, Q): return None if T is None else np.einsum('ab,...bc,dc->...ad', Q, T, Q)

def apply(c, C, t):
    """C transformed; returns False when the transformation does not apply"""
    op = t['op']
    if op == 'trans':
        sh = [s % n for s, n in zip(t['s'], C.n)]
        C.E = np.roll(C.E, sh, (0, 1, 2))
        if C.M is not None: C.M = np.roll(C.M, sh, (0, 1, 2))
    elif op == 'perm':
        p = t['p']
        C.R = C.R[p]; C.act = [C.act[i] for i in p]; C.n = [C.n[i] for i in p]; C.k = C.k[p]
        C.E = C.E.transpose(p + [3, 4])
        if C.M is not None: C.M = C.M.transpose(p + [3, 4])
    elif op in ('flip', 'neg'):
        ax = [i for i in range(3) if (op == 'neg' or t['a'][i])]
        if not c['smooth'] and any(C.n[i] % 2 == 0 for i in ax): return False
        if op == 'neg' and (np.abs(C.E.imag).max() > 0 or (C.M is not None and np.abs(C.M.imag).max() > 0)):
            C.E = C.E.conj(); C.M = None if C.M is None else C.M.conj()
        for i in ax:
            C.k[i] = -C.k[i]
            if op == 'flip':
                C.R[i] = -C.R[i]
                C.E = np.take(C.E, (-np.arange(C.n[i])) % C.n[i], axis=i)
                if C.M is not None: C.M = np.take(C.M, (-np.arange(C.n[i])) % C.n[i], axis=i)
    elif op == 'rot':
        g = np.random.default_rng(t['s']); Q = np.linalg.qr(g.normal(size=(3, 3)))[0]
        if t['ax']: a = g.random() * 6.28; Q = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        if t['swap']: Q = np.eye(3)[g.permutation(3)] * g.choice([-1.0, 1.0], 3)
        C.R = C.R @ Q.T; C.E = tens(C.E, Q); C.M = tens(C.M, Q)
        # round the tables so that symmetric stays symmetric
        C.E = (C.E + C.E.conj().swapaxes(-1, -2)) / 2
        if C.M is not None: C.M = (C.M + C.M.conj().swapaxes(-1, -2)) / 2
    elif op == 'em':
        one = np.broadcast_to(np.eye(3, dtype=complex), C.E.shape).copy()
        C.E, C.M = (one if C.M is None else C.M), C.E
    elif op == 'L': C.R = C.R * t['x']; C.f /= t['x']
    elif op == 'eps': C.E = C.E * t['x']; C.f /= np.sqrt(t['x'])
    elif op == 'mu':
        C.M = (np.broadcast_to(np.eye(3, dtype=complex), C.E.shape) if C.M is None else C.M) * t['x']; C.f /= np.sqrt(t['x'])
    elif op == 'G':
        if not c['smooth']: return False
        C.k = C.k + np.array([g if a else 0 for g, a in zip(t['g'], C.act)])
    return True

def smooth_table(seed, n, hi):
    g = np.random.default_rng([seed, 5]); f = refmax.gridfrac(n); e = np.ones(len(f)) * 3.0
    for _ in range(4):
        q = np.array([g.integers(-1, 2) if m > 1 else 0 for m in n]); e = e + g.uniform(0.1, 0.4) * np.cos(2 * np.pi * (f @ q + g.random()))
    return np.round(e.reshape(*n)[..., None, None] * np.eye(3), 6).astype(complex)

class P10(Check):
    id = 'P10'
    wants = ('complex', 'herm')
    n_quick, n_thorough = 420, 9000
    rule = ('random crystal (1-3D, skewed, odd/even, anisotropic, magnetic, Hermitian) and a random chain of 1-4 transformations among grid translation, axis relabelling (periodic axes anywhere, also in 1D and 2D), axis reversal, '
            'time reversal, rigid rotation or reflection of the frame, electric-magnetic duality, length / epsilon / mu scaling, reciprocal-vector shift; or a 2- or 3-fold supercell against the folded bands; '
            'non-trivial: the crystal is not uniform and the transformed problem differs from the original one')
    assumptions = ['axis and time reversal are exact for odd grids only (the planewave set of an even grid is not symmetric): on even grids and for reciprocal-vector shifts smooth crystals are compared to 3e-3']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, variants=('complex', 'herm', 'herm'), dims=(1, 2, 2, 3, 3), mu_p=0.35, pol_p=0, nbmax=6, kzero=0.05, maxn=(16, 7, 4))
        c['lat'].pop('scale', None); d = c['lat']['dim']
        for j in range(d, 3): c['k'][j] = 0.0
        if not kok(c['k'], c['lat']) or not any(c['k']): c['k'] = [0.31, 0.17, 0.23][:d] + [0.0] * (3 - d)
        c['smooth'] = rng.random() < 0.12 and d < 3
        if c['smooth']: c['n'] = ([rng.randint(16, 24), 1, 1] if d == 1 else [rng.randint(10, 13), rng.randint(10, 13), 1]); c['mu'] = None; c['nb'] = min(c['nb'], 4); c['lat']['basis'][0][1] *= 0.5; c['lat']['basis'][1][0] *= 0.5
        if rng.random() < 0.22:
            ax = rng.randrange(d); m = rng.choice([2, 3, 3])
            for j in range(d): c['n'][j] = [rng.choice([5, 7, 9]), rng.choice([3, 5]), 3][d - 1]
            c['nb'] = min(c['nb'], 4); c['smooth'] = False
            c['super'] = {'ax': ax, 'm': 3}
            k = [0.0] * 3
            for j in range(d): k[j] = rnd(rng, 0.1, 0.45)
            c['k'] = k; c['ch'] = []
            return c
        c['super'] = None
        ops = ['trans', 'perm', 'rot', 'em', 'L', 'eps', 'mu', 'flip', 'neg'] + (['G'] * 4 if c['smooth'] else [])
        if rng.random() < 0.45 and not c['smooth']: c['n'] = [x - 1 if x % 2 == 0 and x > 1 else x for x in c['n']]; c['n'] = [max(x, 3) if j < d else 1 for j, x in enumerate(c['n'])]
        c['ch'] = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            op = rng.choice(ops); t = {'op': op}
            if op == 'trans': t['s'] = [rng.randint(0, 12) for _ in range(3)]
            if op == 'perm': t['p'] = rng.sample(range(3), 3)
            if op == 'flip': t['a'] = [rng.randint(0, 1) for _ in range(3)]
            if op == 'rot': t.update(s=rng.randrange(10 ** 6), ax=rng.random() < 0.3, swap=rng.random() < 0.3)
            if op in ('L', 'eps', 'mu'): t['x'] = rng.choice([0.05, 0.5, 2.0, 3.7, 11.0] if op == 'L' else [0.5, 2.0, 5.5])
            if op == 'G': t['g'] = [rng.randint(-1, 1) for _ in range(3)]
            c['ch'].append(t)
        N = c['n'][0] * c['n'][1] * c['n'][2]; c['nb'] = max(1, min(c['nb'], N))
        return c
    def valid(self, c):
        return valid_problem(c) and not any(c['k'][c['lat']['dim']:]) and any(c['k']) and (c['super'] or c['ch']) and (not c['super'] or (c['super']['m'] == 3 and c['super']['ax'] < c['lat']['dim'] and all(x % 2 for x in c['n'])))
    def run(self, c):
        P = Prob(c); d = P.L['dim']
        E = smooth_table(c['eps']['s'], c['n'], c['eps']['hi']) if c['smooth'] else P.E
        C = Cry(P.R, [j < d for j in range(3)], c['n'], E, P.M, c['k'])
        nb = c['nb']
        if c['super']: return self.supercell(c, C, nb)
        D = C.copy(); tags = []
        for t in c['ch']:
            if apply(c, D, t): tags.append(t['op'])
        if not tags: raise Skip('no applicable transformation')
        f = C.run(c['variant'], nb); g = D.run(c['variant'], nb) / D.f
        loose = c['smooth'] and any(t in ('flip', 'neg', 'G') for t in tags)
        ok = spectrum_close(g, f ** 2, rtol=6e-3 if loose else 3e-5)
        need(ok.all(), '%s after %s: frequencies %s, expected %s (ratio %s)' % (c['variant'], ' '.join(tags), g.tolist(), f.tolist(), (g / np.maximum(f, 1e-12)).tolist()), tags[-1] if len(tags) == 1 else 'chain')
        return c['eps']['t'] != 'const' and f.max() > 1e-6, tags + ['%dD' % d, 'smooth' if c['smooth'] else 'rough', 'mu' if P.M is not None else 'nomu']
    def supercell(self, c, C, nb):
        ax, m = c['super']['ax'], c['super']['m']
        S = C.copy(); S.n[ax] *= m; S.R[ax] = S.R[ax] * m
        S.E = np.concatenate([C.E] * m, ax); S.M = None if C.M is None else np.concatenate([C.M] * m, ax)
        fs = []
        for j in range(-(m // 2), m // 2 + 1):
            A = C.copy(); A.k[ax] = (C.k[ax] + j) / m
            fs.append(A.run(c['variant'], nb))
        ref = np.sort(np.concatenate(fs)); top = min(f[-1] for f in fs)
        ref = ref[ref <= top * (1 + 1e-9)]
        g = S.run(c['variant'], len(ref), times=4)
        need(spectrum_close(g, ref ** 2, rtol=3e-5).all(), '%s: %d-fold supercell along axis %d: frequencies %s, folded bands of the primitive cell %s' % (c['variant'], m, ax, g.tolist(), ref.tolist()), 'supercell')
        return c['eps']['t'] != 'const', ['supercell', '%dD' % c['lat']['dim']]
CHECK = P10()
