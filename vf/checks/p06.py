# technique: property-based testing: generated crystals, reported group velocities against finite differences of a dense numpy reference, and agreement between all query forms
# level_note: exploration; non-degenerate, non-zero-frequency modes only; finite differences of an independent plane-wave eigensolver
import numpy as np
from modes import *
from mpbrun import session, need, Fail, Skip
from pbt import Check

class P06(Check):
    id = 'P06'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 560, 10000
    rule = ('random crystal, k, build, block size; group velocity of every non-degenerate band compared with central differences (in three Cartesian directions) of the dense reference; '
            'component, single-band, reciprocal and band-function forms compared with the vector form; in-session finite differences at k +- dk on some cases; '
            'solution unchanged by the queries; non-trivial: at least one non-degenerate band with |v| > 1e-3 checked')
    assumptions = ['numpy dense eigenvalues', 'three solves at tolerance 1e-11']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, nbmax=6, kzero=0.02)
        c['d'] = [rnd(rng, -1, 1, 2) for _ in range(3)]
        if not any(c['d']): c['d'] = [1.0, 0.0, 0.0]
        c['b'] = rng.randint(1, c['nb']); c['block'] = rng.choice([-11, -11, 1, 2, 3])
        if c['mu'] is None and rng.random() < 0.15: c['unitmu'] = True
        return c
    def valid(self, c): return valid_problem(c) and 1 <= c['b'] <= c['nb'] and len(c['d']) == 3 and any(c['d']) and c['block'] != 0
    def run(self, c):
        P = Prob(c); nb, b = P.nb, c['b']
        s = P.head(extra='(set! eigensolver-block-size %d)\n' % c['block'] + ('(set! force-mu? true)\n' if c.get('unitmu') else ''))
        s += P.init() + P.solve(times=4) + '(vp "f" freqs)(get-bfield %d)(fix-field-phase)(vp "h0" (vc (vector3-x (get-field-point (vector3 0.1 0.2 0.1)))))\n' % b
        s += '(define (vl l) (map vector->list l))\n(vp "v" (vl (compute-group-velocities)))(display-group-velocities)\n'
        s += '(vp "vc" (compute-group-velocity-component %s))(vp "v1c" (compute-1-group-velocity-component %s %d))(vp "v1" (vector->list (compute-1-group-velocity %d)))(vp "v1r" (vector->list (compute-1-group-velocity-reciprocal %d)))\n' % (v3(c['d']), v3(c['d']), b, b, b)
        s += '(vp "v" (vl (compute-group-velocities)))(get-bfield %d)(vp "h1" (vc (vector3-x (get-field-point (vector3 0.1 0.2 0.1)))))(vp "f" freqs)\n' % b
        r = session(s, P.variant).ok()
        f = r.arr('f'); v = r.arr('v')
        need(v.shape == (nb, 3), 'shape of velocities', 'shape')
        vmax = max(np.abs(v).max(), 1e-3)
        need(np.abs(v - r.arr('v', 1)).max() <= 1e-9 * vmax, 'velocities change when asked again', 'repeat')
        need(np.array_equal(f, r.arr('f', 1)), 'frequencies changed', 'repeat')
        h0, h1 = r.arr('h0'), r.arr('h1')
        need(np.abs(h0 - h1).max() <= 1e-7 * (1 + np.abs(h0).max()), 'the query changed the field: %s %s' % (h0, h1), 'field')
        u = np.asarray(c['d']) @ P.G; u = u / np.linalg.norm(u)
        need(np.abs(r.arr('vc') - v @ u).max() <= 1e-7 * vmax, 'component along a direction differs: %s vs %s' % (r.arr('vc'), v @ u), 'component')
        need(abs(r.get('v1c') - v[b - 1] @ u) <= 1e-7 * vmax, 'single-band component differs', 'single')
        need(np.abs(r.arr('v1') - v[b - 1]).max() <= 1e-7 * vmax, 'single-band velocity differs', 'single')
        need(np.abs(r.arr('v1r') - P.G @ v[b - 1]).max() <= 1e-7 * vmax * np.abs(P.G).max(), 'reciprocal velocity differs', 'recip')
        line = [l for l in r.stdout.split('\n') if l.startswith((c['pol'] or '') + 'velocity:,')]
        need(len(line) == 1, 'velocity line', 'line')
        vals = np.array([[float(x) for x in t.replace('#(', ' ').replace(')', ' ').replace('#', ' ').split()] for t in line[0].split(',')[2:]])
        need(np.allclose(vals, v, rtol=1e-5, atol=1e-7), 'velocity line differs', 'line')
        # reference
        K = np.asarray(c['k'], float); dl = 2e-4 / P.L.get('scale', 1.0)
        w0 = np.sqrt(np.maximum(P.dense().eig()[0], 0))
        w2 = w0 ** 2; wm = w2[:nb].max()
        ok = []
        for i in range(nb):
            gap = min([abs(w2[i] - w2[j]) for j in (i - 1, i + 1) if 0 <= j < len(w2)] or [1])
            if w2[i] > 0.02 * w2[min(nb, len(w2) - 1)] and gap > 0.03 * max(w2[i], 0.2 * wm): ok.append(i)
        if ok:
            ref = np.zeros((nb, 3)); 
            dirs = [a for a in range(3)]
            if P.pol: dirs = [0, 1]
            for a in dirs:
                dk = np.zeros(3); dk[a] = dl
                dk = dk @ np.linalg.inv(P.G)
                wp, wq = (np.sqrt(np.maximum(P.dense(list(K + sg * dk)).eig()[0][:nb], 0)) for sg in (1, -1))
                ref[:, a] = (wp - wq) / (2 * dl)
            for i in ok:
                e = np.abs(v[i] - ref[i]).max()
                need(e <= 1e-3 * max(1, (wm / w2[i]) ** 0.5) + 5e-3 * np.abs(ref[i]).max(), 'band %d: velocity %s, derivative of the band %s' % (i + 1, v[i].tolist(), ref[i].tolist()), 'derivative')
        z = [i for i in range(nb) if f[i] == 0]
        need(not np.isnan(v).any(), 'nan', 'nan')
        tags = [c['variant'], '%dD' % P.L['dim'], 'mu' if c['mu'] else 'nomu', c['pol'] or 'all', 'block%d' % c['block']]
        return bool(ok) and np.abs(v[ok]).max() > 1e-3, tags
CHECK = P06()
