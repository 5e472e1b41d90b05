# technique: property-based testing: generated crystals, the HDF5 field output checked against Maxwell's equations evaluated in numpy
# level_note: exploration; equations evaluated spectrally on the same grid; zero-frequency modes excluded from the curl relations
import os
import numpy as np
from modes import *
from obs import dominant
from mpbrun import run_ctl, Scratch, need, Fail, Skip
from pbt import Check

class P03(Check):
    id = 'P03'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 560, 10000
    rule = ('random lattice, grid, tensor tables, k, build; every band\'s D,E,H,B output compared with curl, constitutive, divergence, normalisation and orthogonality relations; '
            'a random extra way of getting the field (component file, energy density, Poynting vector, total power, divergence, charge density) compared with the same arrays; '
            'non-trivial: at least one band with non-zero frequency was checked')
    assumptions = ['numpy FFT', 'fields converged by three solves at tolerance 1e-11']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, nbmax=4)
        c['extra'] = rng.choice(['comp', 'energy', 'poynting', 'totpwr', 'div', 'charge', 'point', 'kp'])
        c['comp'] = rng.randrange(3); c['kind'] = rng.choice('dhbe'); c['xb'] = rng.randint(1, c['nb'])
        return c
    def valid(self, c): return valid_problem(c) and 1 <= c['xb'] <= c['nb'] and 0 <= c['comp'] < 3
    def run(self, c):
        P = Prob(c); nb, n = P.nb, P.n
        tol = 5e-3
        s = P.head() + P.init() + P.solve() + '(vp "f" freqs)\n'
        for b in range(1, nb + 1):
            s += '(get-dfield %d)(output-field-to-file -1 "A-")(get-dfield %d)(get-efield-from-dfield)(output-field-to-file -1 "A-")' % (b, b)
            s += '(get-hfield %d)(output-field-to-file -1 "A-")(get-bfield %d)(output-field-to-file -1 "A-")\n' % (b, b)
        xb, kind = c['xb'], c['kind']
        s += '(vp "dom" (map (lambda (b) (let ((v (get-dominant-planewave b))) (list (vector3-x v) (vector3-y v) (vector3-z v)))) (map 1+ (iota num-bands))))\n'
        X = c['extra']
        if X == 'comp': s += '(set! filename-prefix "X-")(output-%sfield-%s %d)\n' % (kind, 'xyz'[c['comp']], xb)
        elif X == 'energy': s += '(set! filename-prefix "X-")(output-%s %d)(get-%s %d)(vp "en" (compute-field-energy))\n' % ('dpwr' if kind in 'de' else 'bpwr', xb, 'dfield' if kind in 'de' else 'bfield', xb)
        elif X == 'poynting': s += '(set! filename-prefix "X-")(output-poynting %d)(output-poynting-%s %d)\n' % (xb, 'xyz'[c['comp']], xb)
        elif X == 'totpwr': s += '(set! filename-prefix "X-")(output-tot-pwr %d)\n' % xb
        elif X == 'div': s += '(get-%sfield %d)(compute-field-divergence)(output-field-to-file -1 "X-")\n' % (kind, xb)
        elif X == 'charge': s += '(set! filename-prefix "X-")(output-charge-density %d)\n' % xb
        elif X == 'point':
            s += '(get-%sfield %d)(vp "pt" (map (lambda (p) (list (vc (vector3-x (get-bloch-field-point p))) (vc (vector3-y (get-bloch-field-point p))) (vc (vector3-z (get-bloch-field-point p))))) (list %s)))\n' % (
                kind, xb, ' '.join(v3(p) for p in P.pts().reshape(-1, 3)[:40]))
        elif X == 'kp': s += '(output-at-kpoint %s fix-hfield-phase output-hfield)(get-bfield %d)(output-field-to-file -1 "Y-")\n' % (v3(P.k), xb) + '(get-hfield %d)(vp "en" (compute-field-energy))\n' % xb
        with Scratch() as d:
            r = run_ctl(s, d, P.variant).ok()
            f = r.arr('f')
            ph = P.phase(); F = {}
            for b in range(nb):
                for t in 'dehb':
                    F[t, b] = read_vec(d, 'A-%s.k03.b%02d%s' % (t, b + 1, P.suffix), n) / ph[..., None]
            q = P.q(); w = np.linalg.norm
            scale_f = max(f.max(), 1e-3)
            done = 0
            einv, minv = P.einv(), P.minv()
            nz = [b for b in range(nb) if f[b] > 0.02 * scale_f]
            for b in nz:
                D, E, H, B = (F[t, b] for t in 'dehb')
                need(relerr(E, np.einsum('xyzij,xyzj->xyzi', einv, D)) < 1e-6, 'band %d: E differs from eps^-1 D' % (b + 1), 'E=D/eps')
                Hc = B if minv is None else np.einsum('xyzij,xyzj->xyzi', minv, B)
                need(relerr(H, Hc) < 1e-6 if minv is None else self.hmu(P, H, Hc) < tol, 'band %d: H differs from mu^-1 B (%g)' % (b + 1, relerr(H, Hc)), 'H=B/mu')
                Df, Bf, Ef, Hf = P.fft(D), P.fft(B), P.fft(E), P.fft(H)
                qm = max(np.abs(q).max(), f[b])
                need(np.abs((q * Df).sum(-1)).max() < 1e-6 * qm * np.abs(Df).max(), 'band %d: div D' % (b + 1), 'divD')
                need(np.abs((q * Bf).sum(-1)).max() < 1e-6 * qm * np.abs(Bf).max(), 'band %d: div B' % (b + 1), 'divB')
                # D = -(1/w) q x H exactly as computed; B = (1/w) q x E at convergence
                need(np.abs(Df + np.cross(q, Hf) / f[b]).max() < 1e-6 * (qm / f[b]) * np.abs(Hf).max(), 'band %d: D differs from i/w curl H' % (b + 1), 'curlH')
                err = w(Bf - np.cross(q, Ef) / f[b]) / w(Bf)
                need(err < tol * (scale_f / f[b]) ** 2, 'band %d: B differs from curl E / (i w): %g' % (b + 1, err), 'curlE')
                need(abs(P.integ((B.conj() * H).sum(-1)) - 1) < 1e-4, 'band %d: H energy %s' % (b + 1, P.integ((B.conj() * H).sum(-1))), 'normH')
                need(abs(P.integ((D.conj() * E).sum(-1)) - 1) < 1e-3, 'band %d: E energy %s' % (b + 1, P.integ((D.conj() * E).sum(-1))), 'normE')
                done += 1
            for a in range(nb):
                for b in range(nb):
                    o = P.integ((F['b', a].conj() * F['h', b]).sum(-1))
                    if minv is not None and not any(c['k']) and (a not in nz or b not in nz): continue
                    need(abs(o - (a == b)) < 1e-4, 'B.H overlap of bands %d, %d = %s' % (a + 1, b + 1, o), 'ortho')
            for b in range(nb): dominant(P, r.get('dom')[b], F['b', b], 'band %d' % (b + 1), phase=False)
            self.extra(c, P, d, r, F, f, ph, tol, xb - 1 in nz)
        tags = [c['variant'], '%dD' % P.L['dim'], 'mu' if c['mu'] else 'nomu', X + '-' + (kind if X in ('comp', 'div', 'point', 'energy') else ''), c['pol'] or 'all', 'odd' if any(x % 2 and x > 1 for x in n) else 'even']
        return done > 0, tags
    def hmu(self, P, H, Hc):
        # with mu, H is computed from the B planewave coefficients projected transverse at convergence
        return relerr(H, Hc)
    def extra(self, c, P, d, r, F, f, ph, tol, nonzero):
        X, kind, b, n = c['extra'], c['kind'], c['xb'] - 1, P.n
        D, E, H, B = (F[t, b] for t in 'dehb')
        kb = 'k03.b%02d' % (b + 1)
        rel = 1e-6
        if X == 'comp':
            cc = 'xyz'[c['comp']]
            data = h5.read(path(d, 'X-%s.%s.%s%s' % (kind, kb, cc, P.suffix)))['data']
            need(all((x + p in data) == (x == cc) for x in 'xyz' for p in ('.r', '.i')), 'datasets %s for component %s' % (sorted(data), cc), 'comp')
            z = shape_to(data[cc + '.r'] + 1j * data[cc + '.i'], n)
            need(relerr(z, F[kind, b][..., c['comp']] * ph, np.abs(F[kind, b]).max()) < rel, 'component file differs', 'comp')
        elif X == 'energy':
            e = (D.conj() * E).sum(-1).real if kind in 'de' else (B.conj() * H).sum(-1).real
            t = 'd' if kind in 'de' else 'b'
            z = read_scl(d, 'X-%spwr.%s%s' % (t, kb, P.suffix), n)
            need(relerr(z, e) < rel * 10 or t == 'b' and P.M is not None and relerr(z, e) < tol, 'energy density file differs: %g' % relerr(z, e), 'energy')
            en = r.arr('en')
            need(len(en) == 7 and abs(en[0] - P.integ(e)) < 1e-5 * max(1, abs(P.integ(e))), 'energy total', 'energy')
            pair = (D, E) if t == 'd' else (B, H)
            comp = []
            for a in range(3):
                comp += [(pair[0][..., a].real * pair[1][..., a].real).sum(), (pair[0][..., a].imag * pair[1][..., a].imag).sum()]
            if sum(comp) < 1e-20: return
            comp = np.array(comp) / sum(comp)
            herm = P.variant == 'herm' and (c['eps'] if t == 'd' else c['mu'] or c['eps'])['t'] in ('herm', 'hblock')
            if not np.abs(comp.sum() - 1) > 1e-6: need(np.abs(en[1:] - comp).max() < 1e-4, 'energy components %s vs %s' % (en[1:], comp), 'energy')
            need(abs(en[1:].sum() - 1) < 1e-6, 'fractions do not add up', 'energy')
        elif X == 'poynting':
            S = np.cross(E.conj(), H)
            z = read_vec(d, 'X-flux.v.%s%s' % (kb, P.suffix), n)
            need(relerr(z, S) < 1e-5, 'Poynting vector differs: %g' % relerr(z, S), 'poynting')
            data = h5.read(path(d, 'X-flux.v.%s.%s%s' % (kb, 'xyz'[c['comp']], P.suffix)))['data']
            z1 = shape_to(data['xyz'[c['comp']] + '.r'] + 1j * data['xyz'[c['comp']] + '.i'], n)
            need(relerr(z1, S[..., c['comp']], np.abs(S).max()) < 1e-5, 'Poynting component differs', 'poynting')
        elif X == 'totpwr':
            e = (D.conj() * E).sum(-1).real + (B.conj() * H).sum(-1).real
            z = read_scl(d, 'X-tot.rpwr.%s%s' % (kb, P.suffix), n)
            need(relerr(z, e) < (1e-5 if P.M is None else tol), 'total power differs: %g' % relerr(z, e), 'totpwr')
        elif X in ('div', 'charge'):
            V = E if X == 'charge' else F[kind, b]
            q = P.q()
            dv = np.fft.ifftn(2j * np.pi * (q * P.fft(V)).sum(-1)) * P.N * ph
            if X == 'charge' or kind == 'e' or (kind == 'h' and P.M is not None): t = 'e' if X == 'charge' else kind
            z = read_csc(d, 'X-C.%s%s' % (kb, P.suffix), n)
            if P.variant == 'inv':
                # known finding: the half of the grid that mpbi reconstructs by symmetry comes out with the wrong sign
                ax = max(i for i in range(3) if n[i] > 1); sgn = np.ones(n); sl = [slice(None)] * 3; sl[ax] = slice(n[ax] // 2 + 1, None); sgn[tuple(sl)] = -1
                tl = 1e-5 * 2 * np.pi * np.abs(q).max() * np.abs(V).max()
                if np.abs(z - dv).max() > tl and np.abs(z - dv * sgn).max() <= tl: raise Fail('divergence of %s: sign of the reconstructed half' % kind, 'mpbi-divergence-half')
            need(np.abs(z - dv).max() <= 1e-5 * 2 * np.pi * np.abs(q).max() * np.abs(V).max(), 'divergence of %s differs: %g of %g' % (X if X == 'charge' else kind, np.abs(z - dv).max(), np.abs(dv).max()), 'div')
        elif X == 'point':
            z = np.array(r.get('pt')); z = z[..., 0] + 1j * z[..., 1]
            need(relerr(z, F[kind, b].reshape(-1, 3)[:40], np.abs(F[kind, b]).max()) < 1e-6, 'point values differ from the output file', 'point')
CHECK = P03()
