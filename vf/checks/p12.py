# technique: property-based testing: generated modes and points, point queries against numpy interpolation of the fields the same session wrote
# level_note: exploration; in the inversion-symmetric build complex scalar fields are left to P03 (known finding)
import numpy as np
from obs import *
import geom
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

KINDS = ['eps', 'einv', 'd', 'e', 'h', 'b', 'v', 'D', 'B', 'T', 'C']

class P12(Check):
    id = 'P12'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 520, 9000
    rule = ('random table or geometry problem in the three builds, then 3-6 queries over 8-14 points each: points exactly at grid nodes, at nodes shifted by lattice vectors, on cell boundaries and just beside them, random inside, up to several periods outside; '
            'epsilon, inverse tensor, D/B energy and total power density, D/E/H/B fields, Poynting vector, divergence; with and without Bloch phase; current field and field variable; '
            'non-trivial: at least two queries with values varying over the points')
    assumptions = ['the files hold the grid fields (decided by P03 and P15)']
    def gen(self, rng, i, tier):
        v = rng.choice(['complex', 'complex', 'inv', 'inv', 'herm'])
        c = gen_obs_problem(rng, (v,), (1, 2, 2, 3, 3), v == 'inv')
        c['lat'].pop('scale', None); d = c['lat']['dim']; n = c['n']
        c['qs'] = []
        for _ in range(rng.randint(3, 6)):
            pts = []
            for _ in range(rng.randint(8, 14)):
                p = []
                for a in range(3):
                    if a >= d: p.append(rng.choice([0.0, 0.0, 0.0, rnd(rng, -1, 1, 2)])); continue
                    r = rng.random(); far = rng.choice([0, 0, 0, -1, 1, 2, -3])
                    if r < 0.35: p.append((rng.randrange(n[a]) / n[a] - 0.5 + far))
                    elif r < 0.5: p.append(rng.choice([-0.5, 0.5, 0.0, 1.5, -0.5 + 1e-9, 0.5 - 1e-9, -0.5 - 1e-9, -0.5000000000000001, 0.49999999999999994]) + 0 * far)
                    else: p.append(rnd(rng, -0.5, 0.5, 4) + far)
                pts.append(p)
            c['qs'].append({'t': rng.choice(KINDS), 'b': rng.randint(1, c['nb']), 'p': pts, 'var': rng.random() < 0.3})
        return c
    def valid(self, c):
        if not valid_obs(c) or not c['qs'] or c['lat'].get('scale', 1) != 1: return False
        if c['variant'] == 'inv' and not (c['geo'] or (c['eps']['inv'] and (not c['mu'] or c['mu']['inv']))): return False
        return all(1 <= q['b'] <= c['nb'] and q['p'] and all(len(p) == 3 for p in q['p']) for q in c['qs'])
    def run(self, c):
        P = ObsProb(c); n = P.n; d_ = P.L['dim']; size = np.array([P.L['size'][a] if a < d_ else 1.0 for a in range(3)])
        s = P.head() + P.init() + '(output-epsilon)\n' + P.solve() + '(vp "f" freqs)\n'
        get = lambda q: {'d': '(get-dfield %d)', 'e': '(get-efield %d)', 'h': '(get-hfield %d)', 'b': '(get-bfield %d)', 'v': '(get-poynting %d)', 'T': '(get-tot-pwr %d)', 'D': '(get-dfield %d)(compute-field-energy)', 'B': '(get-bfield %d)(compute-field-energy)',
                         'C': '(get-dfield %d)(compute-field-divergence)', 'eps': '(get-epsilon)', 'einv': '(get-hfield %d)'}[q['t']] % (() if q['t'] == 'eps' else q['b'])
        PT = [[[float(x) * size[a] for a, x in enumerate(p)] for p in q['p']] for q in c['qs']]
        vec = lambda e: '(let ((F %s)) (list (vc (vector3-x F)) (vc (vector3-y F)) (vc (vector3-z F))))' % e
        for i, q in enumerate(c['qs']):
            t = q['t']
            if t == 'C' and P.variant == 'inv': continue
            if t not in ('eps', 'einv'): s += get(q) + '(output-field-to-file -1 "Q%d-")\n' % i
            s += get(q) + '(define pts%d (list %s))\n' % (i, ' '.join(v3(p) for p in PT[i]))
            if q['var'] and t not in ('eps', 'einv'):
                s += '(define fv%d (field-copy cur-field))(get-hfield 1)\n' % i
                if t in 'dehbv': s += '(vp "a%d" (map (lambda (p) %s) pts%d))(vp "b%d" (map (lambda (p) %s) pts%d))\n' % (i, vec('(cvector-field-get-point fv%d p)' % i), i, i, vec('(cvector-field-get-point-bloch fv%d p)' % i), i)
                elif t == 'C': s += '(vp "a%d" (map (lambda (p) (vc (cscalar-field-get-point fv%d p))) pts%d))\n' % (i, i, i)
                else: s += '(vp "a%d" (map (lambda (p) (rscalar-field-get-point fv%d p)) pts%d))\n' % (i, i, i)
            elif t == 'eps': s += '(vp "a%d" (map get-epsilon-point pts%d))\n' % (i, i)
            elif t == 'einv': s += '(vp "a%d" (map (lambda (p) (let ((m (get-epsilon-inverse-tensor-point p))) (map (lambda (v) (list (vc (vector3-x v)) (vc (vector3-y v)) (vc (vector3-z v)))) (list (vector-ref m 0) (vector-ref m 1) (vector-ref m 2))))) pts%d))\n' % (i, i)
            elif t in 'dehbv': s += '(vp "a%d" (map (lambda (p) %s) pts%d))(vp "b%d" (map (lambda (p) %s) pts%d))\n' % (i, vec('(get-field-point p)'), i, i, vec('(get-bloch-field-point p)'), i)
            elif t == 'C': s += '(vp "a%d" (map (lambda (p) (vc (get-cscalar-point p))) pts%d))(vp "b%d" (map (lambda (p) (vc (get-bloch-cscalar-point p))) pts%d))\n' % (i, i, i, i)
            else: s += '(vp "a%d" (map get-energy-point pts%d))\n' % (i, i)
        with Scratch() as d:
            r = run_ctl(s, d, P.variant).ok('session')
            EI = geom.read_eps(h5.read(path(d, 't-epsilon'))['data'], n, P.variant)[1]
            files = os.listdir(d); ph = P.phase(); nt = 0; tags = []
            for i, q in enumerate(c['qs']):
                t = q['t']
                if t == 'C' and P.variant == 'inv': continue
                frac = np.array(q['p'], float); frac[:, d_:] = 0
                real = frac.copy(); frac[:, :d_] = (frac[:, :d_] + 0.5) % 1.0
                full = np.array(q['p'], float)
                phase = np.exp(2j * np.pi * (full @ np.array(P.k)))
                def interp(A):
                    out = 0
                    g = frac * n; g0 = np.floor(g).astype(int); w = g - g0
                    for o in np.ndindex(2, 2, 2):
                        ww = np.prod([w[:, a] if o[a] else 1 - w[:, a] for a in range(3)], 0)
                        idx = tuple((g0[:, a] + o[a]) % n[a] for a in range(3))
                        out = out + ww.reshape((-1,) + (1,) * (A.ndim - 3)) * A[idx]
                    return out
                a = np.array(r.get('a%d' % i), float)
                blo = None
                if t in ('eps', 'einv'):
                    T = interp(EI)
                    if t == 'einv': ref, got = T, (a[..., 0] + 1j * a[..., 1]).swapaxes(-1, -2)   # the vectors are the columns
                    else: ev = np.linalg.eigvalsh(T); ref, got = 2 / (ev[:, 0] + ev[:, 1]), a
                    sc = np.abs(EI).max() if t == 'einv' else ref.max()
                else:
                    fn = [x for x in files if x.startswith('Q%d-' % i)]
                    need(len(fn) == 1, 'files %s' % fn, 'files')
                    if t in 'dehbv':
                        V = read_vec(d, fn[0], n)
                        if t == 'v': phase = np.ones(len(full))
                        else: V = V / ph[..., None]
                        blo = interp(V); ref = blo * phase[:, None]; got = a[..., 0] + 1j * a[..., 1]
                    elif t == 'C':
                        V = read_csc(d, fn[0], n) / ph; blo = interp(V); ref = blo * phase; got = a[..., 0] + 1j * a[..., 1]
                    else: V = read_scl(d, fn[0], n); ref, got = interp(V), a
                    sc = np.abs(V).max()
                need(got.shape == ref.shape, '%s: %d values for %d points' % (t, len(got), len(ref)), 'count')
                tol = 1e-6 * sc + (1e-11 if blo is not None else 0) + 1e-12
                err = np.abs(got - ref).reshape(len(ref), -1).max(1); j = int(np.argmax(err))
                need(err[j] < tol, '%s (%s): %s%s at %s: %s, interpolated grid field %s' % (P.variant, 'x'.join(map(str, n)), t, ' variable' if q['var'] else '', PT[i][j], got[j], ref[j]), t if t in ('eps', 'einv') else 'field')
                if blo is not None and ('b%d' % i) in r.out:
                    b = np.array(r.get('b%d' % i), float); b = b[..., 0] + 1j * b[..., 1]
                    err = np.abs(b - blo).reshape(len(ref), -1).max(1); j = int(np.argmax(err))
                    need(err[j] < tol, '%s: periodic part of %s%s at %s: %s, interpolated grid field %s' % (P.variant, t, ' variable' if q['var'] else '', PT[i][j], b[j], blo[j]), 'bloch')
                if np.abs(ref - ref[:1]).max() > 1e-6 * sc: nt += 1
                tags.append(t)
        return nt >= 2, sorted(set(tags)) + ['%dD' % d_, P.variant]
CHECK = P12()
