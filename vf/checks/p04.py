# technique: property-based testing: random crystals x random solver settings; differential against a dense reference, orthonormality and the min-max bound as oracles
# level_note: exploration; small grids, k = 0 or |k+G| away from zero, combinations the documentation allows (no Davidson with mu)
import numpy as np
from modes import *
from mpbrun import session, need, Fail, Skip
from pbt import Check
from checks.p01 import spectrum_close

FL = dict(verbose=1, project=2, reset=4, exact=8, approx=16, orth1=32, reorth=64, dynreset=128, orthprec=256)

class P04(Check):
    id = 'P04'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 520, 9000
    rule = ('random crystal, k, polarisation, build x random block size, number of work arrays, preconditioner, Davidson, line-search / reset / reorthonormalisation flags, random or deterministic start, '
            'extra bands, tolerance; frequencies against the dense reference, ascending, eigenvectors orthonormal in the (1/mu) metric, loose tolerances respect the min-max bound from above; '
            'non-trivial: inhomogeneous or magnetic medium and a setting that differs from the default')
    assumptions = ['numpy dense eigenvalues', 'four solves at tolerance 1e-11 (12 for steepest descent)']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, nbmax=8, mu_p=0.3, maxn=(16, 6, 3))
        N = c['n'][0] * c['n'][1] * c['n'][2]
        s = {}
        if rng.random() < 0.7: s['block'] = rng.choice([1, 2, 3, 4, -1, -2, -3, 0])
        if rng.random() < 0.5: s['nwork'] = rng.choice([2, 3, 4, 5, 7, 10, 13])
        if rng.random() < 0.3: s['simple'] = True
        if rng.random() < 0.25 and not c['mu']: s['davidson'] = True; s['nwork'] = rng.choice([4, 5, 6, 8, 10])
        if rng.random() < 0.6:
            f = ['reset'] if rng.random() < 0.7 else []
            f += [x for x in ('orth1', 'reorth', 'dynreset', 'project') if rng.random() < 0.35]
            if rng.random() < 0.2 and s.get('nwork', 3) == 3: f.append('orthprec')   # the library itself warns about it with Polak-Ribiere
            if rng.random() < 0.5: f.append(rng.choice(['exact', 'approx']))
            if not {'reorth', 'orth1'} & set(f): f.append('reorth')
            s['flags'] = f
        if rng.random() < 0.35: s['random'] = True
        if rng.random() < 0.3: s['extra'] = rng.randint(1, max(1, min(6, N // 2 - c['nb'])))
        if rng.random() < 0.2: s['loose'] = rng.choice([0.3, 1e-2, 1e-3, 1e-4])
        c['set'] = s
        return c
    def valid(self, c):
        s = c['set']; N = c['n'][0] * c['n'][1] * c['n'][2]
        if 'orthprec' in s.get('flags', []) and s.get('nwork', 3) != 3: return False
        return (valid_problem(c) and s.get('nwork', 3) >= (4 if s.get('davidson') else 2) and not (s.get('davidson') and c['mu']) and c['nb'] + s.get('extra', 0) <= N // (2 if c['pol'] else 1)
                and (set(s.get('flags', ['reorth'])) & {'reorth', 'orth1'}) and s.get('loose', 1e-3) >= 1e-5)
    def run(self, c):
        P = Prob(c); s = c['set']; nb = c['nb'] + s.get('extra', 0)
        fl = sum(FL[x] for x in s['flags']) if 'flags' in s else None
        tol = 1e-11
        h = P.head(nb=nb, det=not s.get('random'))
        if 'block' in s: h += '(set! eigensolver-block-size %d)\n' % s['block']
        if 'nwork' in s: h += '(set! eigensolver-nwork %d)\n' % s['nwork']
        if s.get('simple'): h += '(set! simple-preconditioner? true)\n'
        if s.get('davidson'): h += '(set! eigensolver-davidson? true)\n'
        if fl is not None: h += '(set! eigensolver-flags %d)\n' % fl
        q = h
        if 'loose' in s: q += '(set! tolerance %g)\n' % s['loose'] + P.init() + P.solve(times=1) + '(vp "l" freqs)(set! tolerance 1e-11)\n' + P.init(reset=False)
        else: q += P.init()
        sd = s.get('nwork', 3) == 2
        q += P.solve(times=12 if sd else 4) + '(vp "f" freqs)(vp "it" iterations)\n'
        q += '(define ev (get-eigenvectors 1 num-bands))(define dd (dot-eigenvectors ev 1))(vp "o" (map (lambda (i) (map (lambda (j) (vc (sqmatrix-ref dd i j))) (iota num-bands))) (iota num-bands)))\n' if not c.get('noort') else ''
        r = session(q, P.variant, timeout=240)
        if r.rc and 'non-independent initial Y' in r.stderr: raise Skip('random start singular')
        if r.rc and s.get('davidson') and ('non-independent A' in r.stderr or 'non-positive eigenvalue' in r.stderr): raise Skip('Davidson gave up with an error')
        r.ok()
        f = r.arr('f')
        ref = np.maximum(P.dense().eig()[0][:nb], 0)
        need(len(f) == nb, 'number of frequencies', 'shape')
        need(not np.isnan(f).any(), 'nan in %s' % f, 'nan')
        need((np.diff(f) >= -1e-7 * f.max()).all(), 'not ascending: %s' % f.tolist(), 'order')
        need(isinstance(r.get('it'), int) and r.get('it') >= 0, 'iterations', 'iterations')
        if 'o' in r.out:
            O = np.array(r.get('o')); O = O[..., 0] + 1j * O[..., 1]
            nz = 0
            zero = not any(c['k']) and P.M is not None
            if zero: nz = {'': 3 if P.L['dim'] == 0 else 2, 'te': 1, 'tm': 1}[c['pol']]   # constant fields are not exact modes with mu
            O2 = O[nz:, nz:]
            if len(O2): need(np.abs(O2 - np.eye(len(O2))).max() < 1e-6, 'eigenvectors not orthonormal: %g' % np.abs(O2 - np.eye(len(O2))).max(), 'ortho')
        sl = 'l' in r.out
        if sl:
            l = r.arr('l')
            if nb <= 10 and not 'block' in s: need((l ** 2 >= ref * (1 - 1e-9) - 1e-9 * ref.max()).all(), 'at tolerance %g the frequencies %s are below the exact ones %s' % (s['loose'], l.tolist(), np.sqrt(ref).tolist()), 'minmax')
        e = spectrum_close(f, ref, rtol=2e-4 if sd else 2e-5)
        need(e.all(), 'settings %s: frequencies %s differ from the reference %s' % (s, f.tolist(), np.sqrt(ref).tolist()), 'spectrum')
        tags = [c['variant'], 'mu' if c['mu'] else 'nomu'] + ['%s' % k for k in s] + list(s.get('flags', []))
        return bool(s) and (c['eps']['t'] != 'const'), tags
CHECK = P04()
