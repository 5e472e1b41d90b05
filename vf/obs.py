"""A battery of observations of one solved problem, taken in any build, and their comparison up to what is not determined
(overall phase of a mode, basis of a degenerate set)."""
import re
import numpy as np
from modes import *
import geom, refmax
from mpbrun import run_ctl, Scratch

SCM = r'''
(define (vf-v3 v) (list (vector3-x v) (vector3-y v) (vector3-z v)))
(define (vf-cv v) (list (vc (vector3-x v)) (vc (vector3-y v)) (vc (vector3-z v))))
(define (vf-n2 v) (real-part (vector3-cdot v v)))
'''

def gen_obs_problem(rng, variants, dims, inv, mu_p=0.35, geo_p=0.45, pol_p=0.3):
    """a table problem or a geometry with smoothing; inv: symmetric under inversion"""
    if rng.random() > geo_p:
        c = gen_problem(rng, variants=variants, dims=dims, inv=inv, mu_p=mu_p, pol_p=pol_p, nbmax=4, maxn=(16, 7, 4))
        c['geo'] = None
    else:
        c = gen_problem(rng, variants=variants, dims=dims, inv=inv, mu_p=0, pol_p=0, nbmax=4, maxn=(16, 7, 4))
        c['lat'].pop('scale', None)
        L = c['lat']
        c['geo'] = geom.gen_geo(rng, L, herm=c['variant'] == 'herm', mu=rng.random() < mu_p, inv=inv)
        c['mesh'] = rng.choice([1, 3, 3, 4])
    c['xb'] = rng.randint(1, c['nb'])
    c['pts'] = [[rnd(rng, -1.2, 1.2) for _ in range(3)] for _ in range(6)]
    c['dir'] = [rnd(rng, -1, 1, 2), rnd(rng, -1, 1, 2), rnd(rng, 0.2, 1, 2)]
    c['rng'] = sorted([rnd(rng, 1, 6, 2), rnd(rng, 2, 12, 2)])
    c['iobj'] = [rng.choice(['block', 'cyl', 'sphere', 'shift']), rnd(rng, 0.35, 0.8), rnd(rng, -0.3, 0.3)]
    c['io'] = rng.choice(['block', 'sphere', 'two'])
    return c

def valid_obs(c):
    if not valid_problem(c) or not 1 <= c['xb'] <= c['nb'] or len(c['pts']) < 1 or any(len(p) != 3 for p in c['pts']) or len(c['dir']) != 3 or not any(c['dir']) or len(c['rng']) != 2: return False
    if c['geo']: return geom.valid_geo(c['geo'], c['lat']) and 1 <= c['mesh'] <= 5 and c['lat'].get('scale', 1) == 1
    return True

def points(c):
    """off the grid-point midplanes; lattice units of the cell"""
    return [[x * (c['lat']['size'][i] if i < c['lat']['dim'] else 1.0) for i, x in enumerate(p)] for p in c['pts']]

class ObsProb(Prob):
    def head(self, tol=1e-11, nb=None, det=True, extra=''):
        c = self.c
        if not c['geo']: return super().head(tol, nb, det, extra)
        s = ctl_lattice(self.L) + ctl_grid(self.n) + ctl_common(nb or self.nb, tol=tol, mesh=c['mesh'], det=det)
        g = geom.Geo(self.L, c['geo']['objs'], c['geo']['mats'], c['geo']['default'])
        s += g.ctl()
        return s + extra

def text(P, c):
    b = c['xb']; nb = P.nb
    pts = '(list %s)' % ' '.join(v3(p) for p in points(c))
    s = SCM + P.head() + P.init() + '(define vf-pts %s)\n' % pts
    s += '(set! output-epsilon-done 0)\n' if 0 else ''
    s += '(output-epsilon)(get-epsilon)(vp "epspt" (map get-epsilon-point vf-pts))\n'
    s += '(vp "einv" (map (lambda (p) (let ((m (get-epsilon-inverse-tensor-point p))) (map vf-cv (list (vector-ref m 0) (vector-ref m 1) (vector-ref m 2))))) vf-pts))\n'
    if using_mu(c): s += '(output-mu)\n'
    s += P.solve(times=4) + '(vp "f" freqs)\n'
    s += '(vp "v" (map vf-v3 (compute-group-velocities)))(vp "vd" (compute-group-velocity-component %s))\n' % v3(c['dir'])
    s += '(vp "zp" (compute-zparities))(vp "yp" (compute-yparities))\n'
    # integrals
    sz = [P.L['size'][i] if i < P.L['dim'] else 1.0 for i in range(3)]
    u = c['iobj']
    obj = {'block': '(make block (center 0 0 0) (material air) (size %s %s %s))' % (sn(u[1] * sz[0]), sn(u[1] * sz[1]), 'infinity' if P.L['dim'] < 3 else sn(u[1] * sz[2])),
           'cyl': '(make cylinder (center 0 0 0) (material air) (radius %s) (height infinity))' % sn(u[1] / 2),
           'sphere': '(make sphere (center 0 0 0) (material air) (radius %s))' % sn(u[1] / 2),
           'shift': '(make block (center %s 0.013 0) (material air) (size %s %s infinity))' % (sn(u[2]), sn(u[1] * sz[0]), sn(u[1] * sz[1]))}[u[0]]
    s += '(define vf-obj (list %s))\n' % obj
    fn = '(lambda (u eps p) (* u (+ 1 (* 0.3 eps) (sin (vector3-x p)) (* 0.5 (vector3-y p)) (cos (* 2 (vector3-z p))))))'
    for t in 'db':
        s += '(vp "i%s" (map (lambda (b) (get-%sfield b) (let* ((e (compute-field-energy)) (r (list (compute-energy-in-dielectric %s %s) (compute-energy-integral %s) (compute-energy-in-objects (car vf-obj))))) (append e r (map get-energy-point vf-pts)))) (map 1+ (iota num-bands))))\n' % (t, t, sn(c['rng'][0]), sn(c['rng'][1]), fn)
    # field integrals: |F.a|^2-like (phase independent) and linear with phase (normalised below through its modulus)
    for t in 'ehdb':
        s += '(vp "j%s" (begin (get-%sfield %d) (vc (compute-field-integral (lambda (F eps p) (* (+ 1 (* 0.2 (vector3-x p))) (+ eps (vf-n2 F) (* +0.4i (vector3-cdot F (vector3* (vector3 1 2 -0.5) (vector3-x F)))))))))))\n' % (t, t, b)
        s += '(vp "l%s" (vc (compute-field-integral (lambda (F eps p) (* (exp (* +0.7i (vector3-y p))) (+ (vector3-x F) (* 2 (vector3-y F)) (* eps (vector3-z F))))))))\n' % t
        s += '(vp "p%s" (map vf-cv (map get-field-point vf-pts)))(vp "q%s" (map vf-cv (map get-bloch-field-point vf-pts)))\n' % (t, t)
        s += '(output-field-to-file -1 "O-")\n'
    s += '(get-poynting %d)(output-field-to-file -1 "S-")(vp "js" (vc (compute-field-integral (lambda (F eps p) (+ (vector3-x F) (* 2 (vector3-y F)) (* eps (vector3-z F)))))))\n' % b
    s += '(get-tot-pwr %d)(output-field-to-file -1 "T-")(vp "jt" (vc (compute-field-integral (lambda (u eps p) (* u eps (+ 2 (vector3-x p)))))))\n' % b
    s += '(get-hfield %d)(compute-field-divergence)(vp "cs" (map vc (map get-cscalar-point vf-pts)))\n' % b
    s += '(output-dpwr %d)(output-bpwr %d)(vp "dom" (vf-v3 (get-dominant-planewave %d)))\n' % (b, b, b)
    # field variables
    s += '(get-dfield %d)(define fd (field-copy cur-field))(get-efield %d)(define fe (field-copy cur-field))(define fu (rscalar-field-make fd))(field-map! fu (lambda (a c) (real-part (vector3-cdot a c))) fd fe)\n' % (b, b)
    s += '(vp "fi" (map vc (list (integrate-fields (lambda (r a c) (* (vector3-cdot a c) (+ 1 (vector3-x r)))) fd fe) (integrate-fields (lambda (r u) (* u (+ 1 (vector3-y r)))) fu))))\n'
    s += '(vp "fp" (map (lambda (p) (rscalar-field-get-point fu p)) vf-pts))\n'
    return s

def using_mu(c): return bool(c.get('mu')) or bool(c.get('geo') and any(m['mu'] for m in c['geo']['mats']))

def collect(c, variant, np_=None, mpi=False, timeout=240):
    """dictionary of observations; fields with the phase as written"""
    P = ObsProb(c); n = P.n; o = {}; kb = 'k04.b%02d' % c['xb']
    tp = mpi and P.L['dim'] > 1
    with Scratch() as d:
        r = run_ctl(text(P, c), d, variant, np_=np_, timeout=timeout).ok('%s session' % variant)
        for k in r.out:
            if k == 'END': continue
            need(len(r.all(k)) == 1, '%s: %d copies of one value' % (variant, len(r.all(k))), 'copies')
            o[k] = np.array(r.get(k), float)
        files = sorted(x for x in os.listdir(d) if x.endswith('.h5'))
        o['files'] = files
        E = h5.read(path(d, 't-epsilon'))['data']
        e, ei = geom.read_eps(E, n, variant, tp)
        o['eps'], o['epsinv'] = e, ei
        if using_mu(c):
            o['mu'] = read_scl(d, 't-mu', n, tp)
        sfx = P.suffix
        for t in 'ehdb': o['F' + t] = read_vec(d, 'O-%s.%s%s' % (t, kb, sfx), n, tp)
        o['FS'] = read_vec(d, 'S-v.%s%s' % (kb, sfx), n, tp) if any(x.startswith('S-v.') for x in files) else read_vec(d, [x for x in files if x.startswith('S-')][0], n, tp)
        o['RT'] = read_scl(d, [x for x in files if x.startswith('T-')][0], n, tp)
        o['Rd'] = read_scl(d, 't-dpwr.%s%s' % (kb, sfx), n, tp); o['Rb'] = read_scl(d, 't-bpwr.%s%s' % (kb, sfx), n, tp)
        ln = [l for l in r.stdout.split('\n') if l.startswith('epsilon: ')]
        need(len(ln) >= 1, 'no epsilon: line', 'noout')
        o['epstext'] = ln[0]
        fl = [l for l in r.stdout.split('\n') if 'freqs:, ' in l and 'band' not in l]
        o['nfl'] = np.array(len(fl))
    return P, o

def dominant(P, v, B, what, phase=True):
    """v: the reported dominant planewave; B: the field as written"""
    A = np.linalg.norm(P.fft(B / P.phase()[..., None] if phase else B), axis=-1); q = P.q()
    hit = np.abs(q - np.asarray(v)).max(-1) < 1e-6 * (1 + np.abs(q).max())
    if any(m % 2 == 0 for m in P.n) and not hit.any():   # unpaired planewaves of an even grid: the bin of -N/2 may be labelled N/2
        g = np.round(np.linalg.solve(P.G.T, np.asarray(v)) - np.array(P.k), 6)
        need(np.abs(g - np.round(g)).max() < 1e-5 and all(abs(x) <= m / 2 for x, m in zip(g, P.n)), '%s: dominant planewave %s is not a planewave k+G of the grid' % (what, list(v)), 'dominant')
        hit[tuple(int(x) % m for x, m in zip(g, P.n))] = True
    need(hit.any(), '%s: dominant planewave %s is not a planewave k+G of the grid' % (what, list(v)), 'dominant')
    need(A[hit].max() > 0.995 * A.max(), '%s: reported dominant planewave %s has amplitude %g in the field, the largest is %g at %s' % (what, list(v), A[hit].max(), A.max(), q[np.unravel_index(int(np.argmax(A)), A.shape)].tolist()), 'dominant')

def compare(c, P, a, b, what, kinds=None, divsign=False):
    """a: reference observations, b: observations under test"""
    rel = lambda x, y, fl=0: float(np.abs(np.asarray(x) - np.asarray(y)).max() / max(np.abs(np.asarray(x)).max(), fl, 1e-30))
    need(a['files'] == b['files'], '%s: output files %s, expected %s' % (what, b['files'], a['files']), 'files')
    # 3e-5: the fill fractions of the adaptive cubature may shift by that much when a pixel corner moves by one rounding error
    for k in ('eps', 'epsinv', 'mu'):
        if k in a: need(k in b and rel(a[k], b[k]) < 3e-5, '%s: %s grid differs: %g' % (what, k, rel(a[k], b[k])), 'epsilon')
    num = lambda t: np.array([float(x) for x in re.findall(r'\d+\.?\d*(?:e[-+]?\d+)?', t)])
    need(re.sub(r'[\d.]+(e[-+]?\d+)?', '#', a['epstext']) == re.sub(r'[\d.]+(e[-+]?\d+)?', '#', b['epstext']) and (np.abs(num(a['epstext']) - num(b['epstext'])) < 1e-9 + 2e-5 * num(a['epstext'])).all(), '%s: "%s", expected "%s"' % (what, b['epstext'], a['epstext']), 'epsline')
    need(rel(a['epspt'], b['epspt']) < 3e-5, '%s: epsilon at points %s: %s, expected %s' % (what, c['pts'], b['epspt'], a['epspt']), 'epspoint')
    need(rel(a['einv'], b['einv']) < 3e-5, '%s: inverse tensor at points %s: %s, expected %s' % (what, c['pts'], b['einv'].tolist(), a['einv'].tolist()), 'epspoint')
    for o in (a, b): dominant(P, o['dom'], o['Fb'], what)
    fa, fb = a['f'], b['f']
    need(len(fa) == len(fb), 'number of bands', 'freqs')
    wm = max(fa.max(), 1e-9)
    need((np.abs(fa ** 2 - fb ** 2) / np.maximum(fa ** 2, 0.02 * wm ** 2) < 1e-4).all(), '%s: frequencies %s, expected %s' % (what, fb.tolist(), fa.tolist()), 'freqs')
    need(a['nfl'] == b['nfl'], '%s: frequency lines printed %d times' % (what, b['nfl']), 'lines')
    # which bands are non-degenerate
    geomu = c['geo'] and using_mu(c)
    full = np.append(fa, fa[-1]) ** 2 if geomu else refmax.Dense(P.n, P.G, P.k, einv=a['epsinv'], minv=P.minv() if c.get('mu') and not c['geo'] else None, pol=P.pol).eig()[0]
    ok = []
    for i, f in enumerate(fa):
        j = i if geomu else int(np.argmin(np.abs(full - f * f)))
        gap = min([abs(full[m] - f ** 2) for m in range(len(full)) if m != j] or [9])
        ok.append(bool(f > 0.05 * wm and gap > 0.03 * wm ** 2))
    tol = 4e-3
    vs = max(1.0, np.abs(a['v']).max())
    for i in range(len(fa)):
        if not ok[i]: continue
        need(np.abs(a['v'][i] - b['v'][i]).max() < tol * vs, '%s: group velocity of band %d %s, expected %s' % (what, i + 1, b['v'][i], a['v'][i]), 'velocity')
        need(abs(a['vd'][i] - b['vd'][i]) < tol * vs, '%s: group velocity component of band %d %s, expected %s' % (what, i + 1, b['vd'][i], a['vd'][i]), 'velocity')
        for z in ('zp', 'yp'): need(abs(a[z][i] - b[z][i]) < tol, '%s: %s of band %d %s, expected %s' % (what, z, i + 1, b[z][i], a[z][i]), 'parity')
        for t in 'db':
            x, y = a['i' + t][i], b['i' + t][i]
            X = np.concatenate([x[:1], x[1:7].reshape(3, 2).sum(1), x[7:]]); Y = np.concatenate([y[:1], y[1:7].reshape(3, 2).sum(1), y[7:]])
            es = np.concatenate([np.ones(5), [max(1, np.abs(X[5]))], [1], np.full(len(X) - 7, max(1, np.abs(X[7:]).max()))])
            bad = np.abs(X - Y) > tol * 2 * es
            need(not bad.any(), '%s: band %d %s energy: [total, components x y z, in dielectric range, integral, in object, point values...] = %s, expected %s' % (what, i + 1, t, Y.tolist(), X.tolist()), 'energy' if bad[:4].any() else 'dielectric' if bad[4] else 'integral' if bad[5] else 'objects' if bad[6] else 'energypoint')
    i = c['xb'] - 1
    if not ok[i]: return ok
    ph = (a['Fd'].conj() * b['Fd']).sum(); ph = ph / abs(ph)
    for t in 'ehdb':
        x, y = a['F' + t] * ph, b['F' + t]
        need(rel(x, y) < tol, '%s: output %s field of band %d differs beyond an overall phase: %g' % (what, t, i + 1, rel(x, y)), 'field')
        M = np.abs(x).max()
        for u in ('p', 'q'):
            X = (a[u + t][..., 0] + 1j * a[u + t][..., 1]) * ph; Y = b[u + t][..., 0] + 1j * b[u + t][..., 1]
            need(np.abs(X - Y).max() < tol * M, '%s: %s-field point values (%s) %s, expected %s' % (what, t, 'with phase' if u == 'p' else 'periodic', Y.tolist(), X.tolist()), 'point')
        # the integrand contains |F|^2 and F*.F.x^... phase-independent by construction only for the first two terms
        X = a['l' + t] @ [1, 1j] * ph; Y = b['l' + t] @ [1, 1j]
        need(abs(X - Y) < tol * max(1, M, abs(X)), '%s: linear integral of the %s field %s, expected %s' % (what, t, Y, X), 'fieldintegral')
        X, Y = a['j' + t], b['j' + t]
        need(np.abs(X - Y).max() < tol * max(1, np.abs(X).max()), '%s: integral of a function of the %s field %s, expected %s' % (what, t, Y, X), 'fieldintegral')
    for k in ('FS', 'RT', 'Rd', 'Rb'): need(rel(a[k], b[k]) < 2 * tol, '%s: %s differs: %g' % (what, {'FS': 'Poynting vector', 'RT': 'total energy density', 'Rd': 'D energy density', 'Rb': 'B energy density'}[k], rel(a[k], b[k])), 'pwr')
    for k in ('js', 'jt', 'fi', 'fp'): need(np.abs(a[k] - b[k]).max() < 2 * tol * max(1, np.abs(a[k]).max()), '%s: %s = %s, expected %s' % (what, {'js': 'Poynting integral', 'jt': 'total power integral', 'fi': 'field-variable integrals', 'fp': 'field-variable point values'}[k], b[k].tolist(), a[k].tolist()), k)
    if divsign: return ok        # mpbi stores the divergence for half the cell only (known finding of P03, decided there)
    X = a['cs'] @ [1, 1j] * ph; Y = b['cs'] @ [1, 1j]
    q = np.abs(P.q()).max() * 7 * np.abs(a['Fh']).max()
    need(np.abs(X - Y).max() < tol * q, '%s: divergence of H at points %s, expected %s' % (what, Y.tolist(), X.tolist()), 'divpoint')
    return ok
