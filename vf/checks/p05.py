# technique: stateful property-based testing: random session histories ending in a probe, compared with a fresh session (differential), and probes repeated around random queries (invariant)
# level_note: exploration; histories of up to ~14 operations over two or three configurations of the same build
import numpy as np
from modes import *
from modes import PARITY
from mpbrun import session, need, Fail, Skip
from pbt import Check
from checks.p01 import spectrum_close

QUERIES = ['load', 'output', 'eps', 'mu', 'poynting', 'totpwr', 'vel', 'par', 'copy', 'getev', 'setev', 'save', 'fail', 'div', 'efd', 'fix', 'point', 'onevel', 'comp', 'sq', 'seteps', 'parity', 'dotev', 'kidx']

class P05(Check):
    id = 'P05'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 420, 9000
    rule = ('random history: configuration changes (materials, mu on/off, grid, lattice, bands, block size, work arrays, polarisation), init-params with or without reset, solves at several k, field loads and outputs, '
            'velocities, parities, eigenvector get/set/save/load, targeted runs, failing queries; then a probe run in the final configuration compared with a fresh session, and probed again after random queries; '
            'non-trivial: at least three history operations before the probe, one of them a solve')
    assumptions = ['four solves at tolerance 1e-11 in the probe']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, nbmax=5, mu_p=0.35, pol_p=0.4, maxn=(14, 6, 3))
        def cfg(c):
            return {x: c[x] for x in ('lat', 'n', 'eps', 'mu', 'nb', 'k', 'pol')}
        cfgs = [cfg(c)]
        for _ in range(rng.randint(1, 2)):
            for _ in range(20):
                d = gen_problem(rng, variant=c['variant'], dims=[c['lat']['dim']] if rng.random() < 0.8 else (1, 2, 3), nbmax=5, mu_p=0.4, pol_p=0.4, maxn=(14, 6, 3))
                e = cfg(d)
                # mostly share the grid and band count so that arrays are reused
                if d['lat']['dim'] == c['lat']['dim']:
                    if rng.random() < 0.75: e['n'] = list(c['n'])
                    if rng.random() < 0.75: e['nb'] = c['nb']
                    if rng.random() < 0.6: e['lat'] = c['lat']
                    if rng.random() < 0.3: e['k'] = list(c['k'])
                if valid_problem(dict(e, variant=c['variant'])): cfgs.append(e); break
        for e in cfgs:
            if rng.random() < 0.45: e['block'] = rng.choice([1, 2, 3, -1, -2])
            if rng.random() < 0.3: e['nwork'] = rng.choice([2, 3, 4, 5])
        ops = []; nc = len(cfgs)
        cur = rng.randrange(nc); ops.append(['run', cur, True])
        for _ in range(rng.randint(1, 10 if tier == 'quick' else 24)):
            r = rng.random()
            if r < 0.25: cur = rng.randrange(nc); ops.append(['run', cur, rng.random() < 0.6])
            elif r < 0.37: ops.append(['solve', gen_k(rng, cfgs[cur]['lat']['dim'], L=cfgs[cur]['lat'])])
            elif r < 0.43: ops.append(['target', cur])
            elif r < 0.46: ops.append(['cfgonly', rng.randrange(nc)])
            else: ops.append([rng.choice(QUERIES), rng.randrange(1000)])
        return dict(variant=c['variant'], cfgs=cfgs, ops=ops, fin=rng.randrange(nc), reset=rng.random() < 0.7, noise=[[rng.choice(QUERIES), rng.randrange(1000)] for _ in range(rng.randint(0, 5))])
    def valid(self, c):
        return (c["cfgs"] and c["ops"] and c["ops"][0][0] == "run" and all(valid_problem(dict(e, variant=c['variant'])) and e.get('block', 1) != 0 and e.get('nwork', 2) >= 2 for e in c['cfgs']) and 0 <= c['fin'] < len(c['cfgs'])
                and all(len(o) >= 2 and (o[0] not in ('run', 'target', 'cfgonly') or 0 <= o[1] < len(c['cfgs'])) and (o[0] != 'run' or len(o) == 3) for o in c['ops'] + c['noise']) and all(o[0] != 'solve' or len(o[1]) == 3 for o in c['ops'])
                and all(o[0] in QUERIES for o in c['noise']))
    def kok(self, k, e):
        return (not e['pol'] or k[2] == 0) and kok(k, e['lat'])
    # -- control-file text
    def setcfg(self, c, j):
        e = c['cfgs'][j]; P = self.P[j]
        s = ctl_lattice(e['lat']) + ctl_grid(e['n']) + '(set! num-bands %d)\n(set! default-material (make material-function (material-func vf%d-f)))\n(set! force-mu? %s)\n' % (e['nb'], j, 'true' if e['mu'] else 'false')
        s += '(set! eigensolver-block-size %d)(set! eigensolver-nwork %d)(set! target-freq 0)\n' % (e.get('block', -11), e.get('nwork', 3))
        return s
    def op(self, c, o, cur):
        """text of one operation, new current configuration"""
        e = c['cfgs'][cur]; P = self.P[cur]; nb = e['nb']
        t = o[0]
        if t == 'run':
            j = o[1]; e = c['cfgs'][j]
            reset = o[2] or any(x['pol'] for x in c['cfgs'])
            return self.setcfg(c, j) + '(init-params %s %s)\n(solve-kpoint %s)\n' % (PARITY[e['pol']], 'true' if reset else 'false', v3(e['k'])), j
        if t == 'solve':
            k = list(o[1])
            if e['pol']: k[2] = 0.0
            if not kok(k, e['lat']): return '', cur
            return '(solve-kpoint %s)\n' % v3(k), cur
        if t == 'target':
            if e['mu'] or nb < 1: return '', cur
            return '(set! target-freq 0.3)(set! eigensolver-nwork 3)(set! eigensolver-block-size 0)(set! tolerance 1e-4)(init-params %s true)(solve-kpoint %s)(set! target-freq 0)(set! tolerance 1e-11)\n' % (PARITY[e['pol']], v3([0.31, 0.2 if e['lat']['dim'] > 1 else 0, 0])) + self.setcfg(c, cur), cur
        if t == 'cfgonly':
            j = o[1]
            if c['cfgs'][j]['nb'] != nb or j == cur: return '', cur
            return '(set! default-material (make material-function (material-func vf%d-f)))(set! grid-size (vector3 %d %d %d))\n' % ((j,) + tuple(c['cfgs'][j]['n'])) + self.setcfg(c, cur), cur
        b = 1 + o[1] % nb; v = o[1] // 7
        if t == 'load': return '(get-%sfield %d)(compute-field-energy)\n' % ('dhbe'[v % 4], b), cur
        if t == 'output': return '(output-%s %d)\n' % (['efield', 'hfield', 'dfield-x', 'bpwr', 'dpwr', 'bfield-z'][v % 6], b), cur
        if t == 'eps': return '(output-epsilon)\n', cur
        if t == 'seteps': return '(get-epsilon)(get-epsilon-point (vector3 0.1 0.2 0))\n', cur
        if t == 'mu': return '(output-mu)\n' if v % 2 else '(get-mu)\n', cur
        if t == 'poynting': return '(get-poynting %d)\n' % b, cur
        if t == 'totpwr': return '(get-tot-pwr %d)(compute-field-energy)\n' % b, cur
        if t == 'vel': return '(compute-group-velocities)(display-group-velocities)\n', cur
        if t == 'onevel': return '(compute-1-group-velocity %d)\n' % b, cur
        if t == 'comp': return '(compute-1-group-velocity-component (vector3 1 0.5 0) %d)\n' % b, cur
        if t == 'par': return '(compute-zparities)(compute-yparities)\n', cur
        if t == 'parity': return '(display-zparities)(display-yparities)\n', cur
        if t == 'copy': return '(get-%sfield %d)(define cf%d (field-copy cur-field))(get-hfield %d)(field-load cf%d)(compute-field-energy)\n' % ('dhb'[v % 3], b, v, nb, v), cur
        if t == 'getev': return '(set! vf-ev (list (get-eigenvectors %d %d)))\n' % (b, nb - b + 1), cur
        if t == 'setev': return '(let ((e (get-eigenvectors 1 num-bands))) (set-eigenvectors e 1))\n', cur
        if t == 'save': return '(save-eigenvectors "ev%d.h5")(load-eigenvectors "ev%d.h5")\n' % (v, v), cur
        if t == 'fail': return ['(get-dfield 99)\n', '(get-hfield 0)\n', '(get-bfield -3)\n', '(compute-1-group-velocity 99)\n' if 0 else '(get-hfield 77)(get-efield-from-dfield)\n', '(get-hfield 1)(get-efield-from-dfield)\n', '(get-epsilon)(compute-field-energy)\n', '(get-dfield 55)(compute-energy-in-dielectric 1 2)\n'][v % 7], cur
        if t == 'div': return '(get-bfield %d)(compute-field-divergence)\n' % b, cur
        if t == 'efd': return '(get-dfield %d)(get-efield-from-dfield)(compute-field-energy)(compute-energy-in-dielectric 1 3)\n' % b, cur
        if t == 'fix': return '(fix-%sfield-phase %d)\n' % ('edhb'[v % 4], b), cur
        if t == 'point': return '(get-hfield %d)(get-field-point (vector3 0.1 -0.2 0))(get-dfield %d)(compute-field-energy)(get-energy-point (vector3 0.3 0.1 0))\n' % (b, b), cur
        if t == 'sq': return '(let ((d (dot-eigenvectors (get-eigenvectors 1 num-bands) 1))) (sqmatrix-eigvals d) (sqmatrix-mult d d))\n', cur
        if t == 'dotev': return '(dot-eigenvectors (get-eigenvectors %d 1) 1)\n' % b, cur
        if t == 'kidx': return '(set-kpoint-index %d)\n' % (1 + v % 5), cur
        raise AssertionError(t)
    def probe(self, c, tag):
        e = c['cfgs'][c['fin']]; nb = e['nb']; P = self.P[c['fin']]
        s = '(vp "%sf" freqs)' % tag
        s += '(vp "%sv" (map (lambda (v) (list (vector3-x v) (vector3-y v) (vector3-z v))) (map (lambda (b) (compute-1-group-velocity b)) (map 1+ (iota num-bands)))))\n' % tag
        s += '(vp "%sp" (map (lambda (b) (append (begin (get-dfield b) (compute-field-energy)) (list (compute-energy-in-dielectric 2 6)) (begin (get-bfield b) (compute-field-energy)) (begin (get-efield b) (list (compute-energy-in-dielectric 1 3))))) (map 1+ (iota num-bands))))\n' % tag
        s += '(vp "%sz" (compute-zparities))\n' % tag
        s += '(get-bfield %d)(compute-field-energy)(vp "%se" (map get-energy-point (list %s)))\n' % (nb, tag, ' '.join(v3(p) for p in P.pts().reshape(-1, 3)[:: max(1, P.N // 7)][:7]))
        return s
    def run(self, c):
        self.P = [Prob(dict(e, variant=c['variant'])) for e in c['cfgs']]
        fin = c['fin']; e = c['cfgs'][fin]
        base = ctl_common(1, mesh=1) + '(define vf-ev (list))\n' + ''.join(ctl_table(P.L, P.n, P.E, P.M, name='vf%d' % j) for j, P in enumerate(self.P))
        hist = ''; cur = 0; nsolve = 0
        for o in c['ops']:
            t, cur = self.op(c, o, cur); hist += t; nsolve += 'solve-kpoint' in t
        pol = any(x['pol'] for x in c['cfgs'])
        reset = c['reset'] or pol or not any(o[0] == 'run' for o in c['ops']) or any(o[0] == 'target' for o in c['ops'])
        # a solve started from vectors confined to an invariant subspace (decoupled polarisations, inversion parity) stays in it by design
        if any(x['lat']['dim'] < 3 for x in c['cfgs']) or (c['variant'] == 'inv' and all(abs(2 * x - round(2 * x)) < 1e-9 for x in e['k'])): reset = True
        # keep old fields only if they are not eigenvectors of the same operator already (false convergence is then inherent)
        last = self.setcfg(c, fin)
        end = '(solve-kpoint %s)\n' % v3(e['k']) * 4 + self.probe(c, 'a')
        noise = ''.join(self.op(c, o, fin)[0] for o in c['noise'])
        full = base + hist + last + '(init-params %s %s)\n' % (PARITY[e['pol']], 'true' if reset else 'false') + end + noise + self.probe(c, 'b')
        fresh = base + last + '(init-params %s true)\n' % PARITY[e['pol']] + end
        r = session(full, c['variant']).ok('history'); q = session(fresh, c['variant']).ok('fresh session')
        f, g = r.arr('af'), q.arr('af')
        need(len(f) == len(g) == e['nb'], 'number of frequencies', 'shape')
        need(spectrum_close(f, np.maximum(g, 0) ** 2, rtol=2e-5).all(), 'frequencies after the history %s, fresh session %s' % (f.tolist(), g.tolist()), 'freqs')
        w = np.append(g ** 2, np.nan)
        full_w = self.P[fin].dense().eig()[0]
        wm = full_w[:e['nb']].max()
        for b in range(e['nb']):
            if g[b] ** 2 < 0.01 * wm: continue
            gap = min(abs(full_w[m] - g[b] ** 2) for m in range(len(full_w)) if m != b) if len(full_w) > 1 else 1
            if gap < 0.03 * wm: continue
            A, B = np.array(r.get('ap')[b]), np.array(q.get('ap')[b])
            ph = [0, 7, 8, 15]    # totals and energy in dielectric (component splits into re/im are phase dependent: use their sums)
            comp = lambda x: np.concatenate([x[ph], x[1:7].reshape(3, 2).sum(1), x[9:15].reshape(3, 2).sum(1)])
            herm = c['variant'] == 'herm' and any(m and m['t'] in ('herm', 'hblock') for m in (e['eps'], e['mu']))
            x, y = comp(A), comp(B)
            if herm: x, y = x[:4], y[:4]
            need(np.abs(x - y).max() < 2e-3, 'band %d: energies %s, fresh session %s' % (b + 1, x.tolist(), y.tolist()), 'energy')
            vs = max(1, np.abs(np.array(q.get('av'))).max())
            need(np.abs(np.array(r.get('av')[b]) - np.array(q.get('av')[b])).max() < 2e-3 * vs, 'band %d: velocity %s, fresh session %s' % (b + 1, r.get('av')[b], q.get('av')[b]), 'velocity')
            if e['pol']: need(abs(r.get('az')[b] - q.get('az')[b]) < 1e-6, 'band %d: z parity' % (b + 1), 'parity')
            if b == e['nb'] - 1: need(relerr(r.arr('ae'), q.arr('ae')) < 1e-2 or np.abs(r.arr('ae') - q.arr('ae')).max() < 1e-2, 'energy density %s, fresh session %s' % (r.arr('ae').tolist(), q.arr('ae').tolist()), 'density')
        for t in 'fvpze':
            A, B = np.array(r.get('a' + t), float), np.array(r.get('b' + t), float)
            if t == 'p':
                if any(o[0] == 'fix' for o in c['noise']): A, B = A[:, [0, 7, 8, 15]], B[:, [0, 7, 8, 15]]
            lim = 1e-6 * max(1, np.abs(A).max()) if any(o[0] in ('setev', 'save', 'fix') for o in c['noise']) else 1e-9 * max(1, np.abs(A).max())
            need(A.shape == B.shape and np.abs(A - B).max() <= lim, 'probe %s changed by the queries %s: %s -> %s' % (t, c['noise'], A.tolist(), B.tolist()), 'noise')
        return len(c['ops']) >= 3 and nsolve >= 1, [c['variant'], 'reset' if reset else 'keep', 'mu' if any(x['mu'] for x in c['cfgs']) else 'nomu'] + sorted({o[0] for o in c['ops'] + c['noise']})
CHECK = P05()
