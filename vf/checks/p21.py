# technique: property-based testing: generated runs over k lists, synthetic band histories and wavevectors, against a Python model of ranges, gaps, tables, conversions and paths
import re, math
import numpy as np
from modes import *
from mpbrun import run_ctl, Scratch, need, Fail, Skip
from pbt import Check

RUNS = {'': 'run', 'te': 'run-te', 'tm': 'run-tm'}
SCM = r'''
(define (vf-v3 v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
(define (vf-br br) (map (lambda (b) (list (caar b) (vf-v3 (cdar b)) (cadr b) (vf-v3 (cddr b)))) br))
(define (vf-gap) (map (lambda (i) (retrieve-gap i)) (map 1+ (iota (max 0 (- (length band-range-data) 1))))))
(define log '())
(define (note . x) (set! log (cons x log)))
'''
NUM = r'[-+]?(?:inf|nan|\d+\.?\d*(?:e[-+]?\d+)?)'

def model_ranges(hist):
    """hist: list of (freqs, k); rows [min, kmin, max, kmax]"""
    br = []
    for f, k in hist:
        for b, x in enumerate(f):
            if b == len(br): br.append([1e20, None, -1e20, None])
            if x < br[b][0]: br[b][0], br[b][1] = x, k
            if x > br[b][2]: br[b][2], br[b][3] = x, k
    return br
def model_gaps(br):
    return [(i + 1, 200 * (br[i + 1][0] - br[i][2]) / (br[i + 1][0] + br[i][2]), br[i][2], br[i + 1][0]) for i in range(len(br) - 1) if br[i][2] < br[i + 1][0]]

def close(a, b, t=1e-9): return abs(a - b) <= t * max(1e-12, abs(a), abs(b)) + 1e-300

class P21(Check):
    id = 'P21'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 560, 9000
    rule = ('(a) 1-3 consecutive runs in one session over 0-7 k points (repeats, order, out-of-zone points, one or no point, zero bands, all polarisations, thunks, band functions, combined, restricted to a k point): frequency lines, all-freqs, ranges, gaps, retrieve-gap against a model of what was computed, and the dense lower bounds at the last k; '
            '(b) synthetic histories with ties, crossing and touching bands and varying numbers of bands; (c) random lattices incl. strongly skewed: reciprocal/Cartesian/lattice conversions and their inverses, first-Brillouin-zone points against a brute-force nearest-lattice-point search, interpolated paths, grid sizes; '
            'non-trivial: (a) at least two k points with distinct frequencies, (b) a gap and an overlap in the history, (c) a k outside the zone')
    assumptions = ['libctl vector arithmetic']
    def gen(self, rng, i, tier):
        fam = rng.choice('aabbbccc')
        if fam == 'a':
            c = gen_problem(rng, dims=(1, 1, 2, 2, 3), mu_p=0.15, pol_p=0.4, nbmax=5, maxn=(10, 5, 3)); c['fam'] = 'a'
            d = c['lat']['dim']; runs = []
            for _ in range(rng.randint(1, 3)):
                ks = []
                for _ in range(rng.choice([0, 1, 1, 2, 3, 3, 4, 5])):
                    if ks and rng.random() < 0.2: ks.append(rng.choice(ks)); continue
                    k = gen_k(rng, d, L=c['lat'])
                    if c['pol']: k[2] = 0.0
                    if not kok(k, c['lat']): k = [0.3 if a < d else 0.0 for a in range(3)]
                    ks.append(k)
                runs.append({'ks': ks, 'nb': rng.choice([c['nb']] * 5 + [0]), 'at': rng.randrange(6), 'par': rng.random() < 0.8, 'ip': rng.choice([0, 0, 1, 2])})
            c['runs'] = runs
            return c
        if fam == 'b':
            hs = []
            for _ in range(12):
                h = []; nb = rng.randint(1, 6)
                mode = rng.choice(['grid', 'ladder', 'any'])
                for _ in range(rng.randint(1, 7)):
                    if rng.random() < 0.1: nb = rng.randint(1, 6)
                    if mode == 'grid': f = sorted(rng.randrange(0, 9) / 8 for _ in range(nb))
                    elif mode == 'ladder': f = [b * 0.3 + rng.choice([0, 0.1, 0.2, 0.3, rnd(rng, 0, 0.4)]) for b in range(nb)]
                    else: f = sorted(rnd(rng, 0, 2, 5) for _ in range(nb))
                    h.append([[float(round(x, 6)) for x in f], [rnd(rng, -1, 1) for _ in range(3)]])
                hs.append(h)
            return {'fam': 'b', 'h': hs}
        dim = rng.choice([1, 2, 2, 3, 3, 3])
        L = gen_lattice(rng, dim)
        L.pop('scale', None)
        if dim >= 2 and rng.random() < 0.5:     # far from reduced
            for _ in range(20):
                B = [[(1.0 if a == b else rnd(rng, -2.5, 2.5, 2)) if a < dim and b < dim else float(a == b) for b in range(3)] for a in range(3)]
                if abs(np.linalg.det(B)) > 0.3: L['basis'] = B; break
        ks = [[rnd(rng, -3, 3) if a < dim or rng.random() < 0.5 else 0.0 for a in range(3)] for _ in range(8)]
        ks += [[rng.choice([0.0, 0.5, -0.5, 1.0, 1.5, 0.25]) if a < dim else 0.0 for a in range(3)] for _ in range(4)]
        return {'fam': 'c', 'lat': L, 'ks': ks, 'n': rng.randint(0, 6), 'res': rng.choice([rnd(rng, 3, 40, 1), rng.randint(2, 40)]), 'rv': [rnd(rng, 2, 30, 1) for _ in range(3)] if rng.random() < 0.3 else None, 'ang': rnd(rng, 0, 6)}
    def valid(self, c):
        if c['fam'] == 'a': return valid_problem(c) and c['runs'] and all(kok(k, c['lat']) and len(k) == 3 and not (c['pol'] and k[2]) for r in c['runs'] for k in r['ks']) and all(r['nb'] in (0, c['nb']) for r in c['runs'])
        if c['fam'] == 'b': return c['h'] and all(h and all(len(x) == 2 and x[0] and len(x[1]) == 3 for x in h) for h in c['h'])
        L = c['lat']; B = np.array(L['basis'], float)
        return c['ks'] and all(len(k) == 3 for k in c['ks']) and B.shape == (3, 3) and abs(np.linalg.det(rows(L))) > 0.05 and all(s > 0.3 for s in L['size']) and c['res'] > 1 and (not c['rv'] or len(c['rv']) == 3 and min(c['rv']) > 1)
    def run(self, c): return getattr(self, 'run_' + c['fam'])(c)

    def run_a(self, c):
        P = Prob(c); s = SCM + P.head()
        for i, r in enumerate(c['runs']):
            s += '(set! num-bands %d)(set! k-points (list %s))\n' % (r['nb'], ' '.join(v3(k) for k in r['ks']))
            if r['ip'] and len(r['ks']) > 1: s += '(set! k-points (interpolate %d k-points))\n' % r['ip']
            at = r['ks'][r['at'] % len(r['ks'])] if r['ks'] else [0.0, 0.0, 0.0]
            s += '(vp "k%d" (map vf-v3 k-points))(set! log \'())\n(print "\\n@run %d\\n")\n' % (i, i)
            s += ('(%s (lambda () (note "t" freqs (get-kpoint-index) (vf-v3 current-k))) (lambda (b) (note "b" b (list-ref freqs (- b 1)))) '
                  '(combine-band-functions (lambda (b) (note "c" b)) (lambda () (note "ct"))) (output-at-kpoint %s (lambda (b) (note "at" b (vf-v3 current-k)))))\n') % (RUNS[P.pol] if r['par'] else 'run-parity %s true' % P.parity, v3(at))
            s += '(print "\\n@end\\n")(vp "a%d" all-freqs)(vp "br%d" (vf-br band-range-data))(vp "g%d" gap-list)(vp "rg%d" (vf-gap))(vp "l%d" (reverse log))(vp "ki%d" (get-kpoint-index))\n' % ((i,) * 6)
        with Scratch() as d:
            r = run_ctl(s, d, P.variant).ok('session')
        nt = False
        fl = lambda x: [float(y) for y in x]
        for i, q in enumerate(c['runs']):
            ks = [fl(k) for k in r.get('k%d' % i)]; nb = q['nb']
            if not q['ip']: need(np.allclose(np.reshape(ks, (-1, 3)), np.reshape(q['ks'], (-1, 3)), atol=1e-12), 'k-points changed', 'kpoints')
            elif len(q['ks']) > 1:
                ref = []
                for a, b in zip(q['ks'], q['ks'][1:]): ref += [[x + (y - x) * j / (q['ip'] + 1) for x, y in zip(a, b)] for j in range(q['ip'] + 1)]
                ref.append(q['ks'][-1])
                need(np.shape(ref) == np.shape(ks) and np.allclose(ref, ks, atol=1e-12), 'interpolate %d of %s gives %s' % (q['ip'], q['ks'], ks), 'interpolate')
            A = [fl(x) for x in r.get('a%d' % i)]; log = r.get('l%d' % i)
            m = re.search(r'@run %d\n(.*?)@end' % i, r.stdout, re.S); txt = m.group(1)
            pre = {'': '', 'te': 'te', 'tm': 'tm'}[P.pol]
            lines = [l for l in txt.split('\n') if 'freqs:, ' in l]
            if not nb:
                need(not A and not r.get('br%d' % i) and not lines and not log and not r.get('g%d' % i), 'run with no bands: all-freqs %s ranges %s gaps %s lines %s functions %s' % (A, r.get('br%d' % i), r.get('g%d' % i), lines, log), 'nobands')
                continue
            need(len(A) == len(ks) and all(len(x) == nb for x in A), 'all-freqs has %s entries for %d k points and %d bands' % ([len(x) for x in A], len(ks), nb), 'allfreqs')
            # frequency lines: a header before the first, then each k point once, in order
            if ks:
                need(all(l.startswith(pre + 'freqs:, ') for l in lines), 'frequency lines %s' % lines, 'lines')
                need('k index' in lines[0] and len(lines) == len(ks) + 1, '%d frequency lines for %d k points: %s' % (len(lines), len(ks), lines), 'lines')
                need(lines[0] == pre + 'freqs:, k index, k1, k2, k3, kmag/2pi' + ''.join(', %s%sband %d' % (pre, ' ' if pre else '', b + 1) for b in range(nb)), 'header: ' + lines[0], 'header')
            for j, (k, f) in enumerate(zip(ks, A)):
                v = [float(x) for x in lines[j + 1].split(',')[1:]]
                ref = [j + 1] + k + [float(np.linalg.norm(np.array(k) @ P.G))] + f
                need(len(v) == len(ref) and np.allclose(v, ref, rtol=2e-5, atol=1e-9), 'frequency line %s for k point %d %s with frequencies %s' % (lines[j + 1], j + 1, k, f), 'line')
            # band functions: once per k (thunks) or per k and band, in order
            ref = []
            at = q['ks'][q['at'] % len(q['ks'])] if q['ks'] else [0, 0, 0]; ls = []
            for j, (k, f) in enumerate(zip(ks, A)):
                ref.append(['t', f, j + 1, k]); ref += [['b', b + 1, f[b]] for b in range(nb)]
                for b in range(nb): ref.append(['c', b + 1]); ref += [['ct']] if b == 0 else []
                if all(abs(x - y) <= 1e-8 * np.linalg.norm(at) for x, y in zip(k, at)): ref += [['at', b + 1, k] for b in range(nb)]
            need(len(ref) == len(log) and all(a == b for a, b in zip(log, ref)), 'band functions were called as %s, expected %s' % (log[:40], ref[:40]), 'functions')
            need(r.get('ki%d' % i) == len(ks), 'k-point index after the run %s' % r.get('ki%d' % i), 'kindex')
            br = model_ranges(list(zip(A, ks))); self.cmp(br, r.get('br%d' % i), 'run %d' % i)
            gaps = model_gaps(br) if len(ks) > 1 else []
            self.cmpgaps(gaps, r.get('g%d' % i), 'run %d' % i); self.cmptext(br if len(ks) > 1 else [], gaps, txt, 'run %d' % i)
            need(np.allclose(r.get('rg%d' % i), [(br[b + 1][0] - br[b][2]) / (0.005 * (br[b + 1][0] + br[b][2])) if br[b + 1][0] + br[b][2] else np.nan for b in range(len(br) - 1)], rtol=1e-9, equal_nan=True) if all(br[b + 1][0] + br[b][2] for b in range(len(br) - 1)) else True, 'retrieve-gap %s for ranges %s' % (r.get('rg%d' % i), br), 'retrieve')
            nt |= len(set(map(tuple, ks))) > 1
            self.seen = True
        # the same frequencies as one solve at that k alone
        q = [q for q in c['runs'] if q['nb'] and q['ks']]
        if q and nt:
            j = len(q[-1]['ks']) - 1; i = len(c['runs']) - 1 - c['runs'][::-1].index(q[-1])
            k = q[-1]['ks'][j]; f = np.array(r.get('a%d' % i)[-1], float)
            w = np.maximum(P.dense(k).eig()[0][:len(f)], 0)      # one solve may miss a band (P01 iterates), never undercut one
            need((f ** 2 > w * (1 - 1e-6) - 1e-9).all(), 'last k point %s: frequencies %s, dense reference %s' % (k, f.tolist(), np.sqrt(w).tolist()), 'freqs')
        return nt, ['a', P.variant, 'runs%d' % len(c['runs'])]
    def cmp(self, br, got, what):
        need(len(got) == len(br), '%s: %d band ranges for %d bands' % (what, len(got), len(br)), 'ranges')
        for b, (x, y) in enumerate(zip(br, got)):
            need(close(x[0], y[0]) and close(x[2], y[2]), '%s: range of band %d is %s, computed frequencies give %s' % (what, b + 1, y, x), 'range')
            need(np.allclose(x[1], y[1], atol=1e-12) and np.allclose(x[3], y[3], atol=1e-12), '%s: extremes of band %d reported at %s, are at %s' % (what, b + 1, y, x), 'rangek')
    def cmpgaps(self, gaps, got, what):
        need(len(got) == len(gaps) and all(np.allclose(a[1:], b, rtol=1e-9) for a, b in zip(gaps, got)), '%s: gaps %s, expected %s' % (what, got, gaps), 'gaps')
    def cmptext(self, br, gaps, txt, what):
        R = re.findall(r'^Band (\d+) range: (%s) at #\((.*?)\) to (%s) at #\((.*?)\)$' % (NUM, NUM), txt, re.M)
        need(len(R) == len(br) and len(re.findall('^Band ', txt, re.M)) == len(br), '%s: %d range lines for %d bands: %s' % (what, len(R), len(br), R), 'rangelines')
        for b, (x, y) in enumerate(zip(br, R)):
            need(int(y[0]) == b + 1 and close(float(y[1]), x[0]) and close(float(y[3]), x[2]) and np.allclose([float(z) for z in y[2].split()], x[1], atol=1e-9) and np.allclose([float(z) for z in y[4].split()], x[3], atol=1e-9), '%s: range line %s for %s' % (what, y, x), 'rangeline')
        G = re.findall(r'^Gap from band (\d+) \((%s)\) to band (\d+) \((%s)\), (%s)%%$' % (NUM, NUM, NUM), txt, re.M)
        need(len(G) == len(gaps) == len(re.findall('^Gap ', txt, re.M)) and all(int(y[0]) == x[0] and int(y[2]) == x[0] + 1 and np.allclose([float(y[4]), float(y[1]), float(y[3])], x[1:], rtol=1e-9) for x, y in zip(gaps, G)), '%s: gap lines %s, expected %s' % (what, G, gaps), 'gaplines')
    def run_b(self, c):
        s = SCM
        for i, h in enumerate(c['h']):
            s += "(set! band-range-data '())\n" + ''.join('(set! band-range-data (update-band-range-data band-range-data (list %s) %s))\n' % (' '.join(map(sn, f)), v3(k)) for f, k in h)
            s += '(vp "br%d" (vf-br band-range-data))(print "\\n@run %d\\n")(output-band-range-data band-range-data)(define g (output-gaps band-range-data))(print "\\n@end\\n")(vp "g%d" g)(vp "rg%d" (map (lambda (i) (let ((a (cadr (list-ref band-range-data (- i 1)))) (b (caar (list-ref band-range-data i)))) (if (zero? (+ a b)) 0 (retrieve-gap i)))) (map 1+ (iota (- (length band-range-data) 1)))))\n' % (i, i, i, i)
        with Scratch() as d:
            r = run_ctl(s, d, 'complex').ok('session')
        nt = False
        for i, h in enumerate(c['h']):
            br = model_ranges(h); gaps = model_gaps(br); what = 'history %s' % h
            self.cmp(br, r.get('br%d' % i), what); self.cmpgaps(gaps, r.get('g%d' % i), what)
            self.cmptext(br, gaps, re.search(r'@run %d\n(.*?)@end' % i, r.stdout, re.S).group(1), what)
            ref = [(br[b + 1][0] - br[b][2]) / (0.005 * (br[b + 1][0] + br[b][2])) if br[b + 1][0] + br[b][2] else 0 for b in range(len(br) - 1)]
            need(np.allclose(ref, r.get('rg%d' % i), rtol=1e-9, atol=1e-9), '%s: retrieve-gap %s, expected %s' % (what, r.get('rg%d' % i), ref), 'retrieve')
            nt |= 0 < len(gaps) < len(br) - 1
        return nt, ['b']
    def run_c(self, c):
        L = c['lat']; d = L['dim']; R = rows(L); G = np.linalg.inv(R).T
        B = R / np.array([L['size'][a] if a < d else 1.0 for a in range(3)])[:, None]
        ks = c['ks']
        s = SCM + ctl_lattice(L) + '(define ks (list %s))\n' % ' '.join(v3(k) for k in ks)
        for nm, f in (('rc', 'reciprocal->cartesian'), ('cr', 'cartesian->reciprocal'), ('lc', 'lattice->cartesian'), ('cl', 'cartesian->lattice'), ('lr', 'lattice->reciprocal'), ('rl', 'reciprocal->lattice'), ('bz', 'first-brillouin-zone')):
            s += '(vp "%s" (map vf-v3 (map %s ks)))\n' % (nm, f)
        s += '(vp "bz2" (map vf-v3 (map first-brillouin-zone (map first-brillouin-zone ks))))\n'
        s += '(vp "rot" (map vf-v3 (map (lambda (k) (rotate-reciprocal-vector3 (vector3 0.2 1 0.5) %s k)) ks)))\n' % sn(c['ang'])
        path = [k for j, k in enumerate(ks) if j == 0 or k != ks[j - 1]]
        s += '(define path (list %s))(vp "ip" (map vf-v3 (interpolate %d path)))(vp "iu" (map vf-v3 (kinterpolate-uniform %d path)))\n' % (' '.join(v3(k) for k in path), c['n'], c['n'])
        res = c['rv'] or [c['res']] * 3
        s += '(set! resolution %s)(define vf-g (get-grid-size))(vp "gs" (vf-v3 vf-g))(optimize-grid-size!)(vp "og" (vf-v3 grid-size))\n' % (v3(c['rv']) if c['rv'] else sn(c['res']))
        with Scratch() as dd:
            r = run_ctl(s, dd, 'complex').ok('session')
        K = np.array(ks, float)
        ref = {'rc': K @ G, 'cr': K @ np.linalg.inv(G), 'lc': K @ B, 'cl': K @ np.linalg.inv(B), 'lr': K @ B @ np.linalg.inv(G), 'rl': K @ G @ np.linalg.inv(B)}
        for nm, x in ref.items():
            need(np.allclose(r.arr(nm, 0) if 0 else np.array(r.get(nm), float), x, rtol=1e-9, atol=1e-9 * np.abs(x).max()), '%s of %s: %s, expected %s (lattice %s)' % (nm, ks, r.get(nm), x.tolist(), L), 'convert')
        ax = np.array([0.2, 1, 0.5]) @ G; ax /= np.linalg.norm(ax); C = K @ G; th = c['ang']
        rot = C * np.cos(th) + np.cross(ax, C) * np.sin(th) + np.outer(C @ ax, ax) * (1 - np.cos(th))
        need(np.allclose(np.array(r.get('rot'), float), rot @ np.linalg.inv(G), atol=1e-8 * np.abs(rot @ np.linalg.inv(G)).max()), 'rotate-reciprocal-vector3 of %s by %s' % (ks, th), 'rotate')
        bz = np.array(r.get('bz'), float); nt = False
        # Minkowski-free brute force over a generous box of the reduced Gram matrix
        for k, z, z2 in zip(K, bz, np.array(r.get('bz2'), float)):
            df = z - k
            need(np.allclose(df[:d], np.round(df[:d]), atol=1e-9) and np.allclose(df[d:], 0, atol=1e-12), 'first-brillouin-zone of %s is %s: not equivalent in %d dimensions (lattice %s)' % (k.tolist(), z.tolist(), d, L), 'bz-equivalent')
            best = self.nearest(z, G, d); ln = np.linalg.norm(z @ G)
            need(ln <= best * (1 + 1e-9) + 1e-12, 'first-brillouin-zone of %s is %s with |k| %g, an equivalent point has %g (lattice %s)' % (k.tolist(), z.tolist(), ln, best, L), 'bz')
            need(abs(np.linalg.norm(z2 @ G) - ln) < 1e-9, 'first-brillouin-zone is not idempotent', 'bz')
            nt |= np.abs(df).max() > 0.5
        # interpolation
        ref = []
        for a, b in zip(path, path[1:]): ref += [[x + (y - x) * j / (c['n'] + 1) for x, y in zip(a, b)] for j in range(c['n'] + 1)]
        ref.append(path[-1]); ip = np.array(r.get('ip'), float)
        need(ip.shape == np.shape(ref) and np.allclose(ip, ref, atol=1e-9), 'interpolate', 'interpolate')
        iu = np.array(r.get('iu'), float) @ G; pc = np.array(path, float) @ G
        if len(path) > 1:
            j = 0; dist = [np.linalg.norm(b - a) for a, b in zip(pc, pc[1:])]; mean = np.mean(dist); tot = 0
            need(np.allclose(iu[0], pc[0], atol=1e-9), 'kinterpolate-uniform starts at %s, not at %s' % (iu[0], pc[0]), 'uniform')
            for a, b, ds in zip(pc, pc[1:], dist):
                m = j + 1
                while m < len(iu) and not np.allclose(iu[m], b, atol=1e-8): m += 1
                need(m < len(iu), 'kinterpolate-uniform %d of %s misses the point %s' % (c['n'], path, b), 'uniform')
                need(np.allclose(iu[j:m + 1], a + np.outer(np.arange(m - j + 1) / (m - j), b - a), atol=1e-8), 'kinterpolate-uniform: points between %s and %s are not evenly spaced: %s' % (a, b, iu[j:m + 1]), 'uniform')
                want = (c['n'] + 1) * ds / mean
                need(abs((m - j) - want) <= 1.0 + 1e-9 if c['n'] else m - j == 1, 'kinterpolate-uniform %d: %d steps on a segment of %g of the mean length' % (c['n'], m - j, ds / mean), 'uniform')
                j = m
            need(j == len(iu) - 1, 'kinterpolate-uniform has extra points', 'uniform')
        gs = [int(max(1, math.ceil(round(res[a] * L['size'][a], 12)))) if a < d else 1 for a in range(3)]
        gg = [int(x) for x in r.get('gs')]
        need(all(abs(a - b) == 0 or abs(res[i] * L['size'][i] - round(res[i] * L['size'][i])) < 1e-9 for i, (a, b) in enumerate(zip(gs, gg))), 'grid size %s for resolution %s, size %s' % (gg, res, L['size']), 'grid')
        def nf(x):
            while True:
                y = x
                for p in (2, 3, 5, 7):
                    while y % p == 0: y //= p
                if y == 1: return x
                x += 1
        og = [int(x) for x in r.get('og')]
        need(og == [nf(x) for x in gg], 'optimize-grid-size! %s -> %s' % (gg, og), 'optgrid')
        return nt, ['c', '%dD' % d]
    def nearest(self, k, G, d):
        """length of the shortest vector equivalent to k: enumerate all lattice points within the covering sphere"""
        A = G[:d]; k = np.array(k, float)
        # LLL-free: bound integer offsets through the dual basis
        base = k @ G; r = np.linalg.norm(base)
        Gi = np.linalg.pinv(A)         # offsets n with |base + n A| <= r  ->  |n| <= 2 r |columns|
        bound = [int(math.floor(2 * r * np.linalg.norm(Gi[:, a]) + 1e-9)) for a in range(d)]
        if np.prod([2 * b + 1 for b in bound]) > 3e6: raise Skip('enumeration too large')
        M = np.stack(np.meshgrid(*[np.arange(-b, b + 1) for b in bound], indexing='ij'), -1).reshape(-1, d)
        return float(np.sqrt(((base + M @ A) ** 2).sum(1).min()))
CHECK = P21()
