# technique: property-based testing: generated crystals, directions, band ranges, brackets and guesses; every returned wavevector is put into a dense reference operator
import re
import numpy as np
from modes import *
from gen import *
from mpbrun import run_ctl, Scratch, need, Fail, Skip, slist
from pbt import Check

class P22(Check):
    id = 'P22'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 260, 5000
    rule = ('random problem (tables, all builds, dimensions, polarisations, mu), random origin and direction (also out of plane), bracket of k magnitudes, one to three bands and a frequency strictly between their end-point frequencies; single and list guesses inside the bracket, pair and list form of the direction, tolerances 1e-3..1e-6, band functions and thunks; '
            'each root: inside the bracket, dense band frequency equal to the requested one within 2 tol k; where the bands are monotonic: same root for another guess and for each band alone; session variables restored; kvals line = returned list; non-trivial: a root whose frequency differs from the end points and at least two band solves')
    assumptions = ['numpy dense eigenvalues; a search repeated with other random starting fields before a failure is believed (an iterative solve can miss a band)']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, dims=(1, 1, 2, 2, 2, 3), mu_p=0.2, pol_p=0.45, nbmax=5, maxn=(12, 6, 3))
        d = c['lat']['dim']; c['lat'].pop('scale', None)
        c['orig'] = [rnd(rng, -0.3, 0.3, 2) if a < d and rng.random() < 0.5 else 0.0 for a in range(3)] if rng.random() < 0.5 else None
        if c['orig'] and d < 3 and not c['pol'] and rng.random() < 0.3: c['orig'][d] = rnd(rng, -0.5, 0.5, 2)
        c['dir'] = [rnd(rng, -1, 1, 2) if a < d else 0.0 for a in range(3)]
        if d < 3 and not c['pol'] and rng.random() < 0.25: c['dir'][d] = rnd(rng, -1, 1, 2)
        if not any(c['dir']): c['dir'][0] = 1.0
        c['kmin'] = rnd(rng, 0.08, 0.2); c['kmax'] = round(c['kmin'] + rnd(rng, 0.1, 0.35), 3)
        c['sel'] = rng.random(); c['frac'] = rnd(rng, 0.1, 0.9); c['tol'] = rng.choice([1e-3, 1e-4, 1e-4, 1e-6])
        c['guess'] = [rnd(rng, 0, 1, 2) for _ in range(8)]; c['list'] = rng.random() < 0.4; c['form'] = rng.choice(['pair', 'list']); c['funcs'] = rng.random() < 0.5; c['kscale'] = rng.choice([1.0, 3.0, 0.2])
        return c
    def valid(self, c): return valid_problem(c) and any(c['dir']) and 0.05 < c['kmin'] < c['kmax'] < 0.7 and c['tol'] in (1e-3, 1e-4, 1e-6) and 0 < c['frac'] < 1 and len(c['guess']) == 8 and c['kscale'] > 0 and len(c['dir']) == 3 and (c['orig'] is None or len(c['orig']) == 3) and not (c['pol'] and (c['dir'][2] or c['orig'] and c['orig'][2]))
    def run(self, c):
        P = Prob(c); d = P.L['dim']; lo, hi = c['kmin'], c['kmax']
        orig = np.array(c['orig'] or [0, 0, 0], float); kd = np.array(c['dir'], float) @ P.G; kd = kd / np.linalg.norm(kd) @ np.linalg.inv(P.G)
        at = lambda m: orig + m * kd
        for m in np.linspace(lo, hi, 9):
            if kdist(at(m), P.L) < 0.08: raise Skip('passes near the zone centre')
        memo = {}
        def f(m):
            if m not in memo: memo[m] = np.sqrt(np.maximum(P.dense(list(at(m))).eig()[0][:P.nb], 0))
            return memo[m]
        a, b = f(lo), f(hi); w = []
        for b0 in range(P.nb):
            for b1 in range(b0, min(b0 + 3, P.nb)):
                L = max(min(a[j], b[j]) for j in range(b0, b1 + 1)); H = min(max(a[j], b[j]) for j in range(b0, b1 + 1))
                if H - L > 0.01 * b.max(): w.append((b0, b1, L, H))
        if not w: raise Skip('no band spans a frequency range')
        w.sort(key=lambda x: x[1] - x[0]); 
        multi = [x for x in w if x[1] > x[0]]
        w = multi if multi and c['sel'] < 0.5 else w
        b0, b1, L, H = w[int(c['sel'] * 2 % 1 * len(w))]
        om = float(L + c['frac'] * (H - L)); nb = b1 - b0 + 1
        grid = np.linspace(lo, hi, 25); F = np.array([f(m) for m in grid])[:, b0:b1 + 1]
        mono = [bool((np.diff(F[:, j]) > 1e-5).all() or (np.diff(F[:, j]) < -1e-5).all()) for j in range(nb)]
        slope = [float(np.abs(np.diff(F[:, j])).min() / (grid[1] - grid[0])) for j in range(nb)]
        G = [round(lo + x * (hi - lo), 6) for x in c['guess']]
        kdir = v3([x * c['kscale'] for x in c['dir']])
        od = kdir if c['orig'] is None else ('(cons %s %s)' if c['form'] == 'pair' else '(list %s %s)') % (v3(c['orig']), kdir)
        ods = kdir if c['orig'] is None else '(cons %s %s)' % (v3(c['orig']), kdir)
        def fk(x, y, gs, tol=c['tol'], funcs='', od=od): return '(find-k %s %s %d %d %s %s %s %s %s %s)' % (P.parity, sn(om), x + 1, y + 1, od, sn(tol), gs, sn(lo), sn(hi), funcs)
        s = lambda det: (P.head(det=det) + '(set! k-points (list (vector3 0.11 0 0)))(set! num-bands %d)(define log (list))(define nrun 0)\n' % P.nb
             + '(vp "r" %s)\n' % fk(b0, b1, slist([sn(x) for x in G[:nb]]) if c['list'] else sn(G[0]), funcs='(lambda () (set! log (cons (list "t" freqs) log))) (lambda (b) (set! log (cons (list b freqs (list (vector3-x current-k) (vector3-y current-k) (vector3-z current-k))) log)))' if c['funcs'] else '')
             + '(vp "log" (reverse log))(vp "nb" num-bands)(vp "kp" (map (lambda (v) (list (vector3-x v) (vector3-y v) (vector3-z v))) k-points))\n'
             + '(vp "r2" %s)\n' % fk(b0, b1, sn(G[4]), od=ods)
             + ''.join('(vp "s%d" %s)\n' % (j, fk(b0 + j, b0 + j, sn(G[5]), od=ods)) for j in range(nb) if nb > 1))
        def attempt(det):
            with Scratch() as dd:
                r = run_ctl(s(det), dd, P.variant, timeout=400).ok('session')
            desc = '%s %s %s dim %d find-k of bands %d-%d at %s, origin %s direction %s in [%s, %s]: ' % (P.variant, 'x'.join(map(str, P.n)), P.pol or 'all', d, b0 + 1, b1 + 1, om, c['orig'], c['dir'], lo, hi)
            lists = [('first', r.get('r'))] + [('second', r.get('r2'))] + ([('alone', [r.get('s%d' % j)[0] for j in range(nb)])] if nb > 1 else [])
            for nm, ks in lists:
                need(len(ks) == nb, desc + 'returned %s' % ks, 'count')
                for j, k in enumerate(ks):
                    need(isinstance(k, (int, float)) and lo * (1 - 1e-9) <= k <= hi * (1 + 1e-9), desc + '%s search: band %d at k = %s' % (nm, b0 + j + 1, k), 'range')
                    fr = f(float(k))[b0 + j]
                    near = [x for x in f(float(k)) if abs(x - fr) < 5e-3 * fr]      # solving for one of a nearly degenerate set may return another of it
                    need(min(abs(x - om) for x in near) < 2.5 * c['tol'] * k + 2e-5 * om, desc + '%s search: band %d at k = %s has frequency %s (bands there: %s)' % (nm, b0 + j + 1, k, fr, f(float(k)).tolist()), 'frequency')
                    if mono[j] and slope[j] > 0.02 and len(near) == 1:
                        k0 = lists[0][1][j]
                        need(abs(k - k0) < 5 * c['tol'] * k0 / min(1, slope[j]) + 1e-4, desc + 'band %d: k = %s from the first search, %s from the %s' % (b0 + j + 1, k0, k, nm), 'guess')
            need(r.get('nb') == P.nb and np.allclose(r.get('kp'), [[0.11, 0, 0]]), desc + 'num-bands %s and k-points %s afterwards' % (r.get('nb'), r.get('kp')), 'restore')
            if c['funcs']:
                log = r.get('log')
                need([x[0] for x in log] == sum([['t', b + 1] for b in range(b1, b0 - 1, -1)], []), desc + 'band functions called as %s' % [x[0] for x in log], 'functions')
                for x in log:
                    if x[0] != 't':
                        j = x[0] - 1 - b0
                        need(np.allclose(x[2], at(r.get('r')[j]), atol=1e-9) and len(x[1]) == x[0] and abs(x[1][-1] - om) < 5e-3 * om + 2.5 * c['tol'] * lists[0][1][j] + 2e-5 * om, desc + 'band function of band %d called at k %s with frequencies %s' % (x[0], x[2], x[1]), 'functions')
            lines = [l for l in r.stdout.split('\n') if 'kvals:, ' in l]
            need(len(lines) == len(lists) - (nb > 1) + (nb if nb > 1 else 0), desc + '%d kvals lines' % len(lines), 'kvals')
            v = [float(x) for x in lines[0].split(',')[1:]]
            ref = [om, b0 + 1, b1 + 1] + orig.tolist() + kd.tolist() + lists[0][1]
            need(lines[0].startswith((P.pol or '') + 'kvals:') and len(v) == len(ref) and np.allclose(v, ref, rtol=1e-9, atol=1e-9), desc + 'line %s, expected %s' % (lines[0], ref), 'kvals')
            return len(re.findall(r'freqs:, \d', r.stdout))
        try: n = attempt(True)
        except Fail as e:
            if e.key not in ('frequency', 'guess', 'functions', 'died'): raise
            attempt(False); n = attempt(False); raise Skip('a band was missed by an iterative solve')
        return n >= 2, ['%dD' % d, P.variant, 'bands%d' % nb, 'mono' if all(mono) else 'nonmono']
CHECK = P22()
