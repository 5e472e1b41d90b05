# technique: property-based testing: generated modes given random prior phases, phase-fixed fields against a numpy evaluation of the documented criterion
# level_note: exploration; cases where the criterion itself is within 1e-3 of a tie are skipped
import numpy as np
from modes import *
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

class P14(Check):
    id = 'P14'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 420, 9000
    rule = ('random crystal in the serial builds (and 5 of 25 cases in the MPI build with 2-4 processes against one), one band, the eigenvector multiplied by random unit factors (sign in the inversion build) before each fix; '
            'the D/E/H/B field is fixed by the user-level command, all four fields written; checks: same mode up to one unit factor in all four fields, result independent of the prior factor, idempotent, '
            'maximal real part (up to the sign) and positive at the documented point; non-trivial: non-degenerate prior phases and a field with both parts')
    assumptions = ['ties of the criterion (sum of squares near zero, |real part| within 1e-3 of half the maximum) are skipped']
    def gen(self, rng, i, tier):
        mpi = i % 25 in (2, 7, 8, 13, 16)
        c = gen_problem(rng, variants=('complex', 'complex', 'inv', 'herm'), dims=(2, 2, 3) if mpi else (1, 2, 2, 3, 3), nbmax=4, kzero=0.05, variant='herm' if mpi else None)
        c['np'] = rng.randint(2, 4) if mpi else 0
        if mpi and i % 25 != 16:   # mode confined near one boundary of the slabs, odd across it
            c = gen_problem(rng, variant='herm', dims=(2,), nbmax=3, mu_p=0, kzero=0.05); c['np'] = 2; c['nb'] = max(c['nb'], 3)
            c['n'] = [rng.randint(6, 9), rng.choice([12, 14, 16, 18]), 1]; c['pol'] = 'tm'; c['k'] = [rnd(rng, .05, .45), rnd(rng, .05, .45), 0.0]
            c['eps'] = {'t': 'iso', 's': rng.randrange(10 ** 6), 'hi': 1.5, 'blob': [rnd(rng, 0, 1), 0.5 - rnd(rng, 0, 1.0) / c['n'][1], 0.5, rnd(rng, .16, .25), 40.0, 1.7]}
        c['b'] = 2 if mpi and i % 25 != 16 else rng.randint(1, c['nb']); c['t'] = rng.choice('dehb' if 'blob' not in c['eps'] else 'dddh'); c['ph'] = [rnd(rng, -3.1, 3.1), rnd(rng, -3.1, 3.1)]
        return c
    def valid(self, c): return valid_problem(c) and 1 <= c['b'] <= c['nb'] and len(c['ph']) == 2 and (not c['np'] or c['lat']['dim'] > 1)
    def session(self, P, c, variant, np_=None):
        b, t = c['b'], c['t']
        s = P.head() + P.init() + P.solve() + '(vp "f" freqs)\n'
        outs = lambda tag: ''.join('(get-%sfield %d)(output-field-to-file -1 "%s%s-")' % (u, b, tag, u) for u in 'dehb') + '\n'
        s += outs('A')
        for k, a in enumerate(c['ph']):
            z = '(make-polar 1 %s)' % sn(a) if variant != 'inv' else ('1' if a > 0 else '-1')
            s += '(scale-eigenvector %d %s)(fix-%sfield-phase %d)(output-field-to-file -1 "F%d-")\n' % (b, z, t, b, k) + outs('B%d' % k)
        s += '(fix-%sfield-phase %d)(output-field-to-file -1 "F2-")\n' % (t, b)
        with Scratch() as d:
            r = run_ctl(s, d, variant, np_=np_).ok('session'); n = P.n; tp = variant == 'mpi'
            f = r.arr('f'); files = os.listdir(d)
            one = lambda p: [x for x in files if x.startswith(p)][0]
            ph = P.phase()[..., None]
            R = {x: read_vec(d, one(x + '-'), n, tp) / ph for x in ['F0', 'F1', 'F2'] + [p + u for p in ('A', 'B0', 'B1') for u in 'dehb']}
        return f, R
    def run(self, c):
        P = Prob(c); b, t = c['b'], c['t']; n = P.n
        if c['np']:
            f1, R1 = self.session(P, c, 'mpi', 1); f, R = self.session(P, c, 'mpi', c['np'])
            deg = min([abs(f1[b - 1] - x) for j, x in enumerate(f1) if j != b - 1] + [9]) < 0.02 * f1.max()
            full = np.sqrt(np.abs(P.dense().eig()[0])); deg = deg or np.sort(np.abs(full - f1[b - 1]))[1] < 0.02 * full.max()
        else: f, R = self.session(P, c, c['variant'])
        if f[b - 1] < 1e-4: raise Skip('zero-frequency mode')
        m = np.abs(R['A' + t]).max()
        F = R['F0']
        # one unit factor for all four fields
        for k in (0, 1):
            z = (R['A' + t].conj() * R['B%d%s' % (k, t)]).sum(); z /= abs(z)
            for u in 'dehb':
                A, B = R['A' + u], R['B%d%s' % (k, u)]
                need(np.abs(A * z - B).max() < 1e-5 * np.abs(A).max() + 1e-9, 'after fixing the %s phase the %s field is not the previous one times the factor %s' % (t, u, z), 'mode')
            need(np.abs(R['F%d' % k] - R['B%d%s' % (k, t)]).max() < 1e-5 * m, 'the fixed current field differs from the field loaded afterwards', 'stored')
        N = n if c['variant'] != 'inv' else None
        G = F
        if c['variant'] == 'inv':   # stored half along the last dimension
            ax = max([i for i in range(3) if n[i] > 1] or [0]); G = np.take(F, range(n[ax] // 2 + 1), axis=ax)
        sq = (G * G).sum(); tot = (np.abs(G) ** 2).sum()
        r = (G.real - G.imag) if c['variant'] == 'inv' else G.real
        if c['np']: r = r.transpose(1, 0, 2, 3)
        r = r.reshape(-1); mx = np.abs(r).max()
        tie = bool(((np.abs(np.abs(r) / mx - 0.5)) < 1e-3).any()) or (c['variant'] != 'inv' and abs(sq) < 1e-3 * tot)
        if tie: raise Skip('tie of the criterion')
        for k in ('F1', 'F2'): need(np.abs(R[k] - F).max() < 2e-4 * m, 'field after a %s differs by %g of %g' % ({'F1': 'different prior phase', 'F2': 'second fix'}[k], np.abs(R[k] - F).max(), m), 'canonical' if k == 'F1' else 'idempotent')
        if c['variant'] != 'inv': need(abs(np.angle(sq)) < 2e-4, 'sum of squares of the fixed field has phase %g: the real part is not the largest possible' % np.angle(sq), 'maximal')
        last = np.nonzero(np.abs(r) >= 0.5 * mx)[0][-1]
        if not c['np']: need(r[last] > 0, 'the real part is %g (maximum %g) at the last point with at least half the maximum' % (r[last], mx), 'sign')
        elif not deg and np.abs(R1['F0']).max() > 0:
            need(np.abs(np.abs(R1['F0']) - np.abs(F)).max() > 2e-3 * m or np.abs(R1['F0'] - F).max() < 5e-3 * m, '%d processes: phase-fixed field differs from that of one process by a factor' % c['np'], 'processes')
            need(r[last] > 0, '%d processes: the real part is %g (maximum %g) at the last point with at least half the maximum' % (c['np'], r[last], mx), 'sign-mpi')
        return True, [c['variant'] + ('-mpi' if c['np'] else ''), t, '%dD' % P.L['dim']]
CHECK = P14()
