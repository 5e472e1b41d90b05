# technique: property-based testing: generated crystals, differential against a dense numpy plane-wave eigensolver
# level_note: exploration; the dense reference diagonalises the same plane-wave operator independently; zone-centre neighbourhood 0<|k+G|<0.08 excluded (known finding)
import random
import numpy as np
import gen, refmax
from gen import *
from mpbrun import session, need, Fail, Skip
from pbt import Check

def spectrum_close(f, ref2, rtol=2e-5, atol=1e-9):
    """compare squared frequencies"""
    f2 = np.asarray(f) ** 2
    return np.abs(f2 - ref2) <= rtol * np.maximum(ref2, 0.02 * max(ref2.max(), 1e-12)) + atol

class P01(Check):
    id = 'P01'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 700, 12000
    rule = ('random lattice (cubic/ortho/hex/skewed, 1-3D), grid (odd and even), k (general, special, Gamma, near Gamma, out of plane), '
            'random permittivity/permeability tensor at every grid point, build in {complex, inversion, hermitian}; '
            'frequencies compared with a dense numpy diagonalisation of the plane-wave operator; '
            'non-trivial: the medium is not uniform and at least one compared frequency is non-zero')
    assumptions = ['numpy/LAPACK dense eigenvalues are taken as truth', 'mesh-size 1 makes the material function exact at grid points']
    def gen(self, rng, i, tier):
        variant = rng.choice(['complex', 'complex', 'inv', 'herm', 'herm'])
        dim = rng.choice([1, 2, 2, 3, 3])
        L = gen_lattice(rng, dim); n = gen_grid(rng, dim)
        t = rng.choice(['iso', 'iso', 'diag', 'sym', 'const'] if variant != 'herm' else ['iso', 'sym', 'herm', 'herm', 'herm'])
        eps = {'t': t, 's': rng.randrange(10 ** 6), 'hi': rng.choice([2.0, 5.0, 13.0]), 'inv': variant == 'inv', 'mir': ''}
        mu = None
        if rng.random() < 0.35:
            mu = {'t': rng.choice(['iso', 'diag', 'sym'] + (['herm'] if variant == 'herm' else [])), 's': rng.randrange(10 ** 6), 'hi': rng.choice([2.0, 4.0]), 'inv': variant == 'inv', 'mir': ''}
        N = n[0] * n[1] * n[2]
        nb = rng.randint(1, min(8, max(1, N)))
        k = gen_k(rng, dim, L=L)
        pol = ''
        if dim == 2 and rng.random() < 0.35:
            pol = rng.choice(['te', 'tm']); k[2] = 0.0
            if not kok(k, L): k = [0.3 if i < dim else 0.0 for i in range(3)]
            eps['t'] = rng.choice(['iso', 'diag', 'block'] + (['hblock'] if variant == 'herm' else []))
            if mu: mu['t'] = rng.choice(['iso', 'diag', 'block'])
            nb = min(nb, max(1, N // 2))
        return dict(variant=variant, lat=L, n=n, eps=eps, mu=mu, nb=nb, k=k, pol=pol, viarun=rng.random() < 0.4)
    def fixed(self):
        return [dict(variant='complex', lat={'size': [1.0, 1.0, 1.0], 'basis': [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'bsize': [1.0, 1.0, 1.0], 'dim': 1}, n=[19, 1, 1],
                     eps={'t': 'const', 's': 1, 'hi': 13.0}, mu=None, nb=5, k=[-0.0006, 0.0, 0.0], pol='', viarun=False, known='near-gamma-uniform-1d'),
                dict(variant='complex', lat={'size': [0.97, 1.0, 1.0], 'basis': [[1, 0, 0], [0, 1, 0], [0, 0, 1]], 'bsize': [1.0, 1.0, 1.0], 'dim': 1, 'scale': 0.04}, n=[9, 1, 1],
                     eps={'t': 'iso', 's': 791177, 'hi': 13.0, 'inv': False, 'mir': ''}, mu={'t': 'iso', 's': 2, 'hi': 2.0, 'inv': False, 'mir': ''}, nb=8, k=[0.0, 0.0, 0.0], pol='', viarun=True)]
    def valid(self, c):
        return kok(c['k'], c['lat']) and all(x >= 2 for x in c['n'][:c['lat']['dim']]) and all(x >= 1 for x in c['n']) and len(c['n']) == 3 and c['nb'] >= 1 and c['nb'] <= c['n'][0] * c['n'][1] * c['n'][2] and len(c['k']) == 3 \
            and c['lat']['dim'] >= 1 and all(c['n'][i] == 1 for i in range(c['lat']['dim'], 3)) and all(s > 0.3 for s in c['lat']['size']) \
            and len(c['lat']['size']) == 3 and all(len(b) == 3 for b in c['lat']['basis']) and len(c['lat']['basis']) == 3 and len(c['lat']['bsize']) == 3 and abs(np.linalg.det(rows(c['lat']))) > 0.2 * c['lat'].get('scale', 1.0) ** 3 and c['eps']['hi'] > 1 and all(0.6 < b < 1.5 for b in c['lat']['bsize'])
    def run(self, c):
        L, n = c['lat'], c['n']
        E = table(c['eps'], n); M = table(c['mu'], n) if c['mu'] else None
        s = ctl_lattice(L) + ctl_grid(n) + ctl_common(c['nb'], mesh=1) + ctl_table(L, n, E, M)
        s += '(set! default-material (make material-function (material-func vf-f)))\n'
        if M is not None: s += '(set! force-mu? true)\n'
        par = {'': 'NO-PARITY', 'te': 'TE', 'tm': 'TM'}[c['pol']]
        if c['viarun']:
            s += '(set! k-points (list %s %s))\n(%s)\n(vp "f" freqs)\n' % (v3(c['k']), v3(c['k']), {'': 'run', 'te': 'run-te', 'tm': 'run-tm'}[c['pol']])
        else:
            s += '(init-params %s true)\n(solve-kpoint %s)\n(solve-kpoint %s)\n(vp "f" freqs)\n' % (par, v3(c['k']), v3(c['k']))
        r = session(s, c['variant']).ok()
        f = r.arr('f')
        need(f.shape == (c['nb'],), 'wrong number of frequencies', 'count')
        need(np.isfinite(f).all() and (f >= 0).all(), 'bad frequencies %s' % f, 'nan')
        D = refmax.Dense(n, recip(L), c['k'], E, M, pol=c['pol'])
        w = np.maximum(D.eig()[0][:c['nb']], 0)
        ok = spectrum_close(f, w)
        if not ok.all() and c.get('known'): raise Fail('frequencies %s, reference %s' % (f.tolist(), np.sqrt(w).tolist()), c['known'])
        need(ok.all(), 'frequencies %s differ from the reference %s' % (f.tolist(), np.sqrt(w).tolist()), 'spectrum')
        need((np.diff(f) >= -1e-7 * f.max()).all(), 'not ascending', 'order')
        # the printed line is the same list
        pre = {'': '', 'te': 'te', 'tm': 'tm'}[c['pol']]
        lines = [l for l in r.stdout.split('\n') if l.startswith(pre + 'freqs:, 2,')]
        need(len(lines) == 1, 'no freqs line', 'line')
        vals = [float(x) for x in lines[0].split(',')[2:]]
        kc = np.asarray(c['k']) @ recip(L)
        need(np.allclose(vals[:3], c['k'], rtol=1e-5, atol=1e-9) and abs(vals[3] - np.linalg.norm(kc)) <= 1e-5 * (1 + np.linalg.norm(kc)), 'k in freqs line', 'line')
        need(np.allclose(vals[4:], f, rtol=2e-5, atol=1e-12), 'freqs line differs from freqs', 'line')
        tags = [c['variant'], '%dD' % L['dim'], 'mu' if c['mu'] else 'nomu', 'odd' if any(x % 2 and x > 1 for x in n) else 'even', c['pol'] or 'all', 'eps-' + c['eps']['t'],
                'gamma' if not any(c['k']) else 'k']
        return (c['eps']['t'] != 'const' or c['mu'] is not None) and f.max() > 1e-4, tags
CHECK = P01()
