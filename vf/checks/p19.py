# technique: property-based testing: generated epsilon / mu input files of any size, differential against an independent periodic interpolation, a dense reference eigensolver and a write-read round trip
# level_note: exploration; with mesh-size > 1 the eigenvalues of each averaged tensor are compared with the mesh means (its orientation is left to P02)
import os
import numpy as np
import h5, refmax, geom
from modes import *
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check
from checks.p01 import spectrum_close

class P19(Check):
    id = 'P19'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 420, 9000
    rule = ('random lattices, grids, mesh sizes; an HDF5 file with random (constant, smooth, piecewise constant, random) data of rank 1-3 and any size (equal to the grid in half of the cases) as epsilon-input-file and sometimes as mu-input-file, '
            'extra datasets beside it, objects and "nothing" objects on top; epsilon and mu at every grid point against a numpy model of the interpolation (and mesh average), frequencies against a dense reference, '
            'and a second session part reading the file written by the first; non-trivial: the file is not constant')
    assumptions = ['the lattice coordinates of grid point i of n are i/n in the file as in the grid']
    def gen(self, rng, i, tier):
        mpi = i % 9 == 4
        v = 'herm' if mpi else rng.choice(['complex', 'complex', 'inv', 'herm']); inv = v == 'inv'
        dim = rng.choice([2, 3] if mpi else [1, 2, 2, 3])
        L = gen_lattice(rng, dim); n = gen_grid(rng, dim)
        if mpi: n = [max(x, 4) if a < dim else 1 for a, x in enumerate(n)]
        def file(same):
            rank = dim if rng.random() < 0.85 else rng.randint(1, 3)
            f = {'dims': n[:dim] if same else [rng.randint(1, (20, 9, 6)[rank - 1]) for _ in range(rank)], 's': rng.randrange(10 ** 6), 'kind': rng.choice(['rand', 'rand', 'smooth', 'levels', 'const']), 'hi': rng.choice([3.0, 12.0]), 'ext': rng.random() < .5, 'extra': rng.random() < .3}
            return f
        c = dict(variant=v, np=rng.randint(1, 4) if mpi else 0, lat=L, n=n, eps=file(rng.random() < 0.5), mu=file(rng.random() < 0.5) if rng.random() < 0.3 else None, mesh=rng.choice([1, 1, 1, 2, 3, 4]), geo=None,
                 k=gen_k(rng, dim, L=L), nb=rng.randint(1, 4), shift=rng.randrange(1000))
        if c['mu']: c['mu']['hi'] = 3.0
        if rng.random() < 0.3:
            c['geo'] = geom.gen_geo(rng, L, v == 'herm', False, nobj=rng.randint(1, 3), inv=inv); c['mesh'] = 1 if rng.random() < .8 else c['mesh']
            c['lat'].pop('scale', None)
        c['nb'] = min(c['nb'], n[0] * n[1] * n[2])
        return c
    def valid(self, c):
        if not valid_problem(dict(c, eps={'hi': 2}, mu=None, pol='')) or not 1 <= c['mesh'] <= 6: return False
        if c['variant'] == 'inv' and c['geo'] and not all(any(np.allclose(np.array(o['c']), -np.array(p['c'])) and all(o[t] == p[t] for t in ('k', 'm', 'r', 'h', 's', 'e') if t in o) for p in c['geo']['objs']) for o in c['geo']['objs']): return False
        if c['geo'] and (not geom.valid_geo(c['geo'], c['lat']) or c['lat'].get('scale', 1) != 1): return False
        for f in (c['eps'], c['mu']):
            if f and (not 1 <= len(f['dims']) <= 3 or min(f['dims']) < 1 or f['hi'] <= 1.5 or np.prod(f['dims']) > 4000): return False
        return not c['np'] or (c['lat']['dim'] > 1)
    def data(self, f, inv):
        g = np.random.default_rng(f['s']); d = f['dims']; A = g.random(d)
        if f['kind'] == 'smooth':
            X = np.meshgrid(*[np.arange(m) / m for m in d], indexing='ij'); A = .5 + .5 * np.cos(2 * np.pi * (sum(x * int(g.integers(0, 3)) for x in X) + (0 if inv else g.random())))
        elif f['kind'] == 'levels': A = np.round(A)
        elif f['kind'] == 'const': A = A * 0 + .3
        A = np.round(1.2 + (f['hi'] - 1.2) * A, 5)
        if inv: A = np.maximum(A, np.roll(A[tuple([slice(None, None, -1)] * A.ndim)], 1, tuple(range(A.ndim))))
        return A
    def interp(self, A, r):
        """r: (..., 3) lattice coordinates; periodic, nodes at i/n"""
        A = A.reshape(list(A.shape) + [1] * (3 - A.ndim)); m = np.array(A.shape); g = r * m; i0 = np.floor(g + 1e-12).astype(int); w = np.maximum(g - i0, 0); s = 0
        for o in np.ndindex(2, 2, 2):
            ii = (i0 + np.array(o)) % m
            s = s + np.prod([w[..., a] if o[a] else 1 - w[..., a] for a in range(3)], 0) * A[ii[..., 0], ii[..., 1], ii[..., 2]]
        return s
    def run(self, c):
        L, n, dim = c['lat'], c['n'], c['lat']['dim']; inv = c['variant'] == 'inv'; vn = 'mpi' if c['np'] else c['variant']; tp = bool(c['np']); P = Prob(dict(c, eps={'t': 'const', 's': 1}, mu=None, pol=''))
        A = self.data(c['eps'], inv); M = self.data(c['mu'], inv) if c['mu'] else None
        r = refmax.gridfrac(n).reshape(*n, 3)
        with Scratch() as d:
            s = ctl_lattice(L) + ctl_grid(n) + ctl_common(c['nb'], tol=1e-11, mesh=c['mesh'])
            for nm, f, D in (('epsilon', c['eps'], A), ('mu', c['mu'], M)):
                if not f: continue
                W = {'data': D}
                if f['extra']: W['zz'] = np.arange(5.0) + 1; W['lattice vectors'] = np.eye(3) * 7; W['epsilon.xx'] = D * 0 + 2
                h5.write(os.path.join(d, 'F%s.h5' % nm), W); s += '(set! %s-input-file "F%s%s")\n' % (nm, nm, '.h5' if f['ext'] else '')
            if c['geo']: g = geom.Geo(L, c['geo']['objs'], c['geo']['mats'], c['geo']['default']); s += g.ctl()
            else: s += '(set! default-material (make dielectric (epsilon 77)))\n'
            s += '(init-params NO-PARITY true)(output-epsilon)\n' + ('(output-mu)' if M is not None else '') + P.solve(times=4) + '(vp "f" freqs)\n'
            q = c['shift']; pt = [rnd(__import__('random').Random(q + a), -.5, .5) * L['size'][a] if a < dim else 0.0 for a in range(3)]
            again = not c['np'] and not c['geo'] and c['mesh'] == 1
            if again: s += '(set! epsilon-input-file "t-epsilon%s")\n' % ('.h5' if c['shift'] % 2 else '') + ('(set! mu-input-file "t-mu")' if M is not None else '') + '(set! filename-prefix "n-")(init-params NO-PARITY true)(output-epsilon)' + ('(output-mu)' if M is not None else '') + P.solve(times=4) + '(vp "f" freqs)\n'
            res = run_ctl(s, d, vn, np_=c['np'] or None).ok()
            full = {}
            for nm, F in (('epsilon', A), ('mu', M)):
                if F is None: continue
                D = h5.read(path(d, 't-' + nm))['data']; got = shape_to(D['data'], n, tp); ref = self.interp(F, r)
                w = None
                if c['geo']:
                    X = P.pts() @ geom.unit_basis(L).T; w = g.which(X); amb = np.zeros(n, bool)
                    for dx in [[1e-6 * (1 if a == b else 0) * sg for b in range(3)] for a in range(3) for sg in (1, -1)] + [[1e-6, 1e-6, 0], [-1e-6, 1e-6, 0], [1e-6, -1e-6, 0], [-1e-6, -1e-6, 0]]: amb |= g.which(X + np.array(dx)) != w
                if c['mesh'] == 1:
                    if c['geo']:
                        for j, o in enumerate(c['geo']['objs']):
                            if o['m'] >= 0:
                                if nm == 'epsilon':
                                    ev = np.linalg.eigvalsh(geom.mat_eps(c['geo']['mats'][o['m']])); x = 2 / (1 / ev[2] + 1 / ev[1]); ref = np.where(w == j, x, ref)
                                else: ref = np.where(w == j, 1.0, ref)
                        ref = np.where(amb, got, ref)
                    e = np.abs(got - ref) / ref; ix = np.unravel_index(np.argmax(e), e.shape)
                    need(e[ix] < 1e-9, '%s at grid point %s is %.10g; the file (%s on grid %s) gives %.10g' % (nm, tuple(int(x) for x in ix), got[ix], list(F.shape), n, ref[ix]), 'values')
                    full[nm] = ref
                elif not c['geo']:
                    ms = [c['mesh'] if a < dim else 1 for a in range(3)]; sa = si = 0
                    for o in np.ndindex(*ms):
                        f = self.interp(F, r + np.array([((o[a] - (ms[a] - 1) / 2) / ms[a] / n[a]) for a in range(3)])); sa = sa + f; si = si + 1 / f
                    K = np.prod(ms); sa = sa / K; si = K / si; mid = ref; dev = 0
                    for o in np.ndindex(*[2] * dim): dev = np.maximum(dev, np.abs(self.interp(F, r + np.array([((o[a] - .5) / n[a] if a < dim else 0) for a in range(3)])) - mid))
                    if nm == 'mu':      # only the mean is written: 2 / (sum of the two smallest eigenvalues of the inverse)
                        err = np.minimum(np.minimum(np.abs(got - sa), np.abs(got - si)), np.abs(got - mid)); ix = np.unravel_index(np.argmax(err), err.shape)
                        need(err[ix] < 1e-6 * mid.max(), 'mu at grid point %s is %.9g; mesh averages %.9g (harmonic), %.9g (arithmetic), centre %.9g' % (tuple(int(x) for x in ix), got[ix], si[ix], sa[ix], mid[ix]), 'mesh'); continue
                    Z = np.zeros(tuple(n) + (3, 3), complex)
                    for a in range(3):
                        for b in range(a, 3):
                            cn = nm + '.' + 'xyz'[a] + 'xyz'[b]; need(cn in D, 'component %s missing: %s' % (cn, sorted(D)), 'component'); z = shape_to(D[cn], n, tp) + (1j * shape_to(D[cn + '.i'], n, tp) if cn + '.i' in D else 0); Z[..., a, b] = z; Z[..., b, a] = np.conj(z)
                    ev = np.linalg.eigvalsh(Z); T = lambda *x: np.stack(np.broadcast_arrays(*x), -1)
                    opts = [np.abs(ev - T(si, sa, sa)).max(-1), np.abs(ev - T(si, si, si)).max(-1)]; err = np.minimum(*opts)
                    ce = np.abs(ev - T(mid, mid, mid)).max(-1); err = np.where(dev < 0.5e-6, ce, np.where(dev < 2e-6, np.minimum(err, ce), err))
                    ix = np.unravel_index(np.argmax(err), err.shape)
                    need(err[ix] < 1e-6 * mid.max(), '%s tensor at grid point %s has eigenvalues %s; mesh averages %.9g (harmonic), %.9g (arithmetic), centre %.9g' % (nm, tuple(int(x) for x in ix), ev[ix].tolist(), si[ix], sa[ix], mid[ix]), 'mesh')
                    far = (dev > .1) & (sa - si > 1e-3 * sa)
                    if far.sum() >= 20 and not inv and c['eps']['kind'] == 'rand' and np.prod(F.shape) > 8: need((opts[0] < 1e-6 * mid.max())[far].mean() > .3, 'no interface averaging in most pixels', 'mesh')
            f = res.arr('f')
            if c['mesh'] == 1 and not c['geo']:
                T = lambda e: e[..., None, None] * np.eye(3)
                w = np.maximum(refmax.Dense(n, recip(L), c['k'], T(full['epsilon']), T(full['mu']) if M is not None else None).eig()[0][:c['nb']], 0)
                need(spectrum_close(f, w, 5e-5).all(), 'frequencies %s, reference with the medium of the file %s' % (f.tolist(), np.sqrt(w).tolist()), 'freqs')
            if again:
                for nm in full:
                    got = shape_to(h5.read(path(d, 'n-' + nm))['data']['data'], n, tp); e = np.abs(got - full[nm]).max()
                    need(e < 1e-9 * full[nm].max(), 'reading the written %s back changes it by %g' % (nm, e), 'roundtrip')
                f2 = res.arr('f', 1); need(spectrum_close(f2, f ** 2, 5e-5).all(), 'frequencies with the re-read medium %s, before %s' % (f2.tolist(), f.tolist()), 'roundtrip')
        return float(np.ptp(A)) > .2, [vn, '%dD' % dim, 'mesh%d' % c['mesh'], c['eps']['kind'], 'same' if list(A.shape) == n[:dim] else 'other'] + ['geo'] * bool(c['geo']) + ['mu'] * bool(M is not None)
CHECK = P19()
