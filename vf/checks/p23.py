# technique: property-based testing: generated problems and targets; the targeted states against the dense spectrum and against an ordinary solve of the same session
import numpy as np
from modes import *
from gen import *
from mpbrun import run_ctl, Scratch, need, Fail, Skip, slist
from pbt import Check

class P23(Check):
    id = 'P23'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 500, 10000
    rule = ('random problem without mu (all builds, dimensions, polarisations), target inside or beyond the spectrum, close to or between eigenvalues, 1-5 bands, block sizes, preconditioners, alternating with ordinary solves in the session; '
            'frequencies = the nearest ones of the dense spectrum, ascending within a block, group velocities and mode energies as in the ordinary solve; non-trivial: the nearest set is not the lowest bands and is separated from the rest')
    assumptions = ['nearest is decided by the squared frequency; targets for which distance in frequency and in squared frequency select different sets are not used']
    def gen(self, rng, i, tier):
        while 1:
            c = gen_problem(rng, dims=(1, 1, 2, 2, 3), mu_p=0, pol_p=0.4, nbmax=5, maxn=(10, 5, 3), kzero=0.06)
            if kdist(c['k'], c['lat']) > 0: break
        c['lat'].pop('scale', None)
        c['tsel'] = rng.random(); c['toff'] = rng.choice([0.0, rnd(rng, 0, 1), rnd(rng, 0, 1), 0.5]); c['beyond'] = rng.random() < 0.05
        c['block'] = rng.choice([-11, -11, -11, 1, 2]); c['simple'] = rng.random() < 0.25; c['nwork'] = rng.choice([3, 3, 3, 4, 5])
        c['seq'] = rng.random() < 0.5
        if rng.random() < 0.22:   # metallic points: the states with squared frequency nearest zero
            c['neg'] = True; c['eps']['neg'] = rng.choice([0.08, 0.2, 0.4]); c['seq'] = False
        return c
    def valid(self, c): return valid_problem(c) and not c['mu'] and 0 <= c['tsel'] < 1 and 0 <= c['toff'] <= 1 and c['block'] in (-11, 1, 2) and c['nwork'] in (3, 4, 5, 6) and bool(c['eps'].get('neg')) == bool(c.get('neg'))
    def run(self, c): return self.run_neg(c) if c.get('neg') else self.run_t(c)
    def run_neg(self, c):
        P = Prob(c); n = P.n; nb = P.nb
        w = P.dense().eig()[0]; o = np.argsort(np.abs(w), kind='stable'); near = np.sort(w[o[:nb]]); a = np.abs(w)[o]
        if nb < len(w) and a[nb] - a[nb - 1] < 0.02 * a[nb]: raise Skip('set not separated')
        if a[0] < 1e-4 * a[-1] or a[0] < 1e-3: raise Skip('state too near zero for the solver')
        if c['block'] != -11 and (np.diff(a[:nb]) < 0.05 * a[1:nb]).any(): raise Skip('equidistant states')
        par = '(set! eigensolver-block-size %d)(set! simple-preconditioner? %s)(set! eigensolver-nwork %d)\n' % (c['block'], 'true' if c['simple'] else 'false', c['nwork'])
        s = P.head() + par + '(allow-negative-epsilon)\n' + P.init() + P.solve(times=8)
        s += ''.join('(vp "%s" %s)' % x for x in (('f', 'freqs'), ('v', '(map (lambda (v) (list (vector3-x v) (vector3-y v) (vector3-z v))) (compute-group-velocities))'),
              ('v1', '(map (lambda (b) (let ((v (compute-1-group-velocity b))) (list (vector3-x v) (vector3-y v) (vector3-z v)))) (map 1+ (iota num-bands)))'),
              ('e', '(map (lambda (b) (get-dfield b) (car (compute-field-energy))) (map 1+ (iota num-bands)))'), ('h', '(map (lambda (b) (get-bfield b) (car (compute-field-energy))) (map 1+ (iota num-bands)))')))
        with Scratch() as d: r = run_ctl(s, d, P.variant, timeout=300).ok('session')
        desc = '%s %s %s k=%s with metallic points, block %d%s: ' % (P.variant, 'x'.join(map(str, n)), P.pol or 'all', P.k, c['block'], ' simple' if c['simple'] else '')
        got = np.array(r.get('f'), float); g = np.sort(got)
        need(len(got) == nb, desc + '%d frequencies for %d bands' % (len(got), nb), 'count')
        need((np.abs(g - near) < 2e-3 * np.maximum(np.abs(near), 0.02 * np.abs(near).max())).all(), desc + 'squared frequencies %s, the ones nearest zero are %s' % (g.tolist(), near.tolist()), 'frequencies')
        need(np.allclose(r.get('h'), 1, atol=1e-6), desc + 'magnetic energies %s' % r.get('h'), 'energy')
        need(np.allclose(r.get('e'), np.sign(got), atol=2e-3), desc + 'integrals of D*E are %s for squared frequencies %s: not of unit magnitude' % (r.get('e'), got.tolist()), 'negnorm')
        v = np.array(r.get('v'), float); v1 = np.array(r.get('v1'), float); h = 1e-4
        need(np.allclose(v, v1, atol=1e-9 * (1 + np.abs(v).max())), desc + 'group velocities %s one by one, %s together' % (v1.tolist(), v.tolist()), 'velocity')
        W = []
        Gi = np.linalg.inv(P.G)   # Cartesian step -> reciprocal coordinates
        for a_ in range(3):
            if a_ == 2 and P.pol: W.append(None); continue
            e = np.eye(3)[a_] * h
            W.append((P.dense((np.array(P.k) + e @ Gi).tolist()).eig()[0] - P.dense((np.array(P.k) - e @ Gi).tolist()).eig()[0]) / (2 * h))
        for i, x in enumerate(got):
            m = int(np.argmin(np.abs(w - x)))
            if len(w) > 1 and np.abs(np.delete(w, m) - w[m]).min() < 0.05 * abs(w[m]): continue
            for a_ in range(3):
                if W[a_] is None: continue
                ex = W[a_][m] / (2 * np.sqrt(abs(w[m])))
                need(abs(v[i, a_] - ex) < 2e-2 * (1 + abs(ex)), desc + 'group velocity %s of the state with squared frequency %g, derivative of the dense spectrum %g (component %d)' % (v[i].tolist(), x, ex, a_), 'velocity')
        return bool(w[0] < 0), ['%dD' % P.L['dim'], P.variant, 'block%d' % c['block'], 'metallic', 'negative' if got.min() < 0 else 'positive']
    def run_t(self, c):
        P = Prob(c); n = P.n
        w = np.maximum(P.dense().eig()[0], 0); f = np.sqrt(w); nb = P.nb
        top = max(1, len(f) - nb); j = int(c['tsel'] * min(top, 8)) if not c['beyond'] else len(f) - 1
        t = f[j] + c['toff'] * (f[j + 1] - f[j]) if j + 1 < len(f) else f[j] * 1.05
        t = float(t)
        if t < 0.02 * f.max(): t = float(0.3 * f[min(len(f) - 1, 3)])
        if t <= 1e-3: raise Skip('target zero')
        d1 = np.abs(w - t * t); o1 = np.argsort(d1, kind='stable'); near = np.sort(w[o1[:nb]])
        o2 = np.argsort(np.abs(f - t), kind='stable')
        if nb < len(f):
            cut = d1[o1[nb]] - d1[o1[nb - 1]]
            if cut < 0.02 * max(d1[o1[nb]], 1e-3 * t * t): raise Skip('set not separated')
        if not np.allclose(np.sort(w[o2[:nb]]), near): raise Skip('metric')
        if not any(c['k']) and near[0] < 1e-6: raise Skip('constant bands')
        if c['block'] != -11:   # states at equal distance on the two sides are degenerate for the squared operator: a block that holds one of them mixes them
            dd = d1[o1[:nb]]
            if (np.diff(dd) < 0.05 * dd[1:] + 1e-3 * t * t).any(): raise Skip('equidistant states')
        lo = int(np.searchsorted(w, near[-1] * (1 + 1e-9) + 1e-12)); no = min(len(f), lo)
        par = '(set! eigensolver-block-size %d)(set! simple-preconditioner? %s)(set! eigensolver-nwork %d)\n' % (c['block'], 'true' if c['simple'] else 'false', c['nwork'])
        obs = lambda s: '(vp "f%s" freqs)(vp "v%s" (map (lambda (v) (list (vector3-x v) (vector3-y v) (vector3-z v))) (compute-group-velocities)))(vp "e%s" (map (lambda (b) (get-dfield b) (car (compute-field-energy))) (map 1+ (iota num-bands))))(vp "h%s" (map (lambda (b) (get-bfield b) (car (compute-field-energy))) (map 1+ (iota num-bands))))\n' % (s, s, s, s)
        s = P.head() + par
        if c['seq']: s += P.init() + P.solve(times=2)
        s += '(set! target-freq %s)\n' % sn(t) + P.init() + P.solve(times=8) + obs('t')
        ordinary = no <= min(24, 0.7 * len(f))   # an ordinary solve for nearly all states of a tiny grid may break down at convergence
        if ordinary: s += '(set! target-freq 0)(set! num-bands %d)\n' % no + P.init() + P.solve(times=4) + obs('o')
        with Scratch() as d:
            r = run_ctl(s, d, P.variant, timeout=300).ok('session')
        got = np.array(r.get('ft'), float); desc = '%s %s %s k=%s target %.6f block %d%s: ' % (P.variant, 'x'.join(map(str, n)), P.pol or 'all', P.k, t, c['block'], ' simple' if c['simple'] else '')
        need(len(got) == nb, desc + '%d frequencies for %d bands' % (len(got), nb), 'count')
        if nb <= 11 and c['block'] == -11: need((np.diff(got) >= -1e-9).all(), desc + 'frequencies %s are not in order' % got.tolist(), 'order')
        g2 = np.sort(got ** 2)
        sc = np.maximum(near, 0.02 * near.max())
        bad = np.abs(g2 - near) > 2e-3 * sc
        need(not bad.any(), desc + 'frequencies %s, the nearest ones are %s (spectrum %s)' % (np.sort(got).tolist(), np.sqrt(near).tolist(), f[:lo + 3].tolist()), 'frequencies')
        fo = np.array(r.get('fo'), float) if ordinary else []
        for key in 'eh': need(np.allclose(r.get(key + 't'), 1, atol=1e-6), desc + 'mode energies %s' % r.get(key + 't'), 'energy')
        vt = np.array(r.get('vt'), float); vo = np.array(r.get('vo'), float) if ordinary else []
        if len(fo) and np.abs(fo ** 2 - w[:no]).max() < 1e-4 * w[no - 1]:
            for i, x in enumerate(got):
                m = int(np.argmin(np.abs(f - x))); gap = np.abs(np.delete(w, m) - w[m]).min() if len(w) > 1 else 9
                if gap > 0.05 * w[m] and m < no and x > 0.05 * f[min(len(f) - 1, 3)] and abs(x * x - w[m]) < 1e-5 * w[m]:
                    need(np.abs(vt[i] - vo[m]).max() < 2e-2, desc + 'group velocity of the state at %s is %s, in the ordinary solve %s' % (x, vt[i].tolist(), vo[m].tolist()), 'velocity')
        return bool(near[0] > w[0] * (1 + 1e-6) + 1e-9), ['%dD' % P.L['dim'], P.variant, 'block%d' % c['block'], 'acc%d' % int(np.clip(-np.log10(np.max(np.abs(g2 - near) / sc) + 1e-16), 0, 16))]
CHECK = P23()
