# technique: property-based testing: generated modes, ranges, objects and integrands (random syntax trees) against numpy sums over the fields the same session wrote
# level_note: exploration; grid points within 1e-6 of an object surface or range limit may count either way
import re
import numpy as np
from obs import *
import expr, geom
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

RV_E, RV_F = ('u', 'e', 'x', 'y', 'z'), ('e', 'x', 'y', 'z')
CV_F = ('fx', 'fy', 'fz')
PN = {'e': 'eps', 'x': '(vector3-x p)', 'y': '(vector3-y p)', 'z': '(vector3-z p)', 'u': 'u', 'fx': '(vector3-x F)', 'fy': '(vector3-y F)', 'fz': '(vector3-z F)'}

class P11(Check):
    id = 'P11'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 520, 9000
    rule = ('random table or geometry problem (1-3D, magnetic, Hermitian, both symmetric and general builds), then 3-6 random integral queries: total and component energies (return value and printed line), energy in a dielectric range, '
            'complementary ranges, energy in a random object list (with precedence, nothing objects, periodic images), integrals of random expressions of the energy density or of the complex field, epsilon and position, for D/B/H energies, total power, '
            'D/E/H/B fields and the Poynting vector; non-trivial: at least two queries on a non-uniform medium with a non-zero reference value')
    assumptions = ['the field files hold the fields (decided by P03 and P15)']
    def gen(self, rng, i, tier):
        c = gen_obs_problem(rng, ('complex', 'complex', 'inv', 'inv', 'herm'), (1, 2, 2, 3, 3), False)
        if c['variant'] == 'inv':
            c = gen_obs_problem(rng, ('inv',), (1, 2, 2, 3, 3), True)
        c['qs'] = []
        for _ in range(rng.randint(3, 6)):
            q = {'q': rng.choice(['total', 'diel', 'objs', 'objs', 'eint', 'eint', 'fint', 'fint', 'part']), 'b': rng.randint(1, c['nb'])}
            if q['q'] == 'fint': q['f'] = rng.choice('dehbv'); q['x'] = expr.gen(rng, RV_F, CV_F, 4)
            else: q['f'] = rng.choice('dbhR' if q['q'] != 'total' else 'dbh')
            if q['q'] == 'eint': q['x'] = expr.gen(rng, RV_E, (), 4)
            if q['q'] in ('diel', 'part'): q['r'] = sorted([rnd(rng, 0.5, 8, 3), rnd(rng, 2, 14, 3)])
            if q['q'] == 'objs': q['g'] = geom.gen_geo(rng, c['lat'], nobj=rng.randint(1, 4), aniso=False)
            c['qs'].append(q)
        if c['lat'].get('scale', 1) != 1: c['lat'].pop('scale')
        return c
    def valid(self, c):
        if not valid_obs(c) or not c['qs'] or c['lat'].get('scale', 1) != 1: return False
        if c['variant'] == 'inv' and not (c['geo'] or (c['eps']['inv'] and (not c['mu'] or c['mu']['inv']))): return False
        for q in c['qs']:
            if not 1 <= q['b'] <= c['nb']: return False
            if q['q'] == 'fint' and not expr.ok(q['x'], RV_F, CV_F): return False
            if q['q'] == 'eint' and not expr.ok(q['x'], RV_E, ()): return False
            if q['q'] in ('diel', 'part') and len(q['r']) != 2: return False
            if q['q'] == 'objs' and not geom.valid_geo(q['g'], c['lat']): return False
        return True
    def run(self, c):
        P = ObsProb(c); mu = using_mu(c); n = P.n
        s = P.head() + P.init() + '(output-epsilon)\n' + P.solve() + '(vp "f" freqs)\n'
        get = lambda q: {'d': '(get-dfield %d)', 'e': '(get-efield %d)', 'h': '(get-hfield %d)', 'b': '(get-bfield %d)', 'v': '(get-poynting %d)', 'R': '(get-tot-pwr %d)'}[q['f']] % q['b']
        for i, q in enumerate(c['qs']):
            if q['f'] == 'h' and mu and q['q'] != 'fint': q['f'] = 'b'
            f = q['f']; en = q['q'] != 'fint'
            s += '%s(output-field-to-file -1 "Q%d-")\n' % (get(q), i)
            if f in 'dhb' and en: s += '(get-%sfield %d)(output-field-to-file -1 "C%d-")\n' % ({'d': 'e', 'h': 'b', 'b': 'h'}[f], q['b'], i)
            s += get(q)
            if en and f != 'R': s += '(vp "t%d" (compute-field-energy))' % i
            if q['q'] == 'diel': s += '(vp "q%d" (compute-energy-in-dielectric %s %s))\n' % (i, sn(q['r'][0]), sn(q['r'][1]))
            elif q['q'] == 'part': s += '(vp "q%d" (list (compute-energy-in-dielectric 0 %s) (compute-energy-in-dielectric %s %s) (compute-energy-in-dielectric %s infinity)))\n' % (i, sn(q['r'][0]), sn(q['r'][0]), sn(q['r'][1]), sn(q['r'][1]))
            elif q['q'] == 'objs':
                g = geom.Geo(P.L, q['g']['objs'], [], 0)
                s += '(vp "q%d" (compute-energy-in-objects %s))\n' % (i, ' '.join(o.scm(['(make medium (epsilon 2))'] * 9) for o in g.objs))
            elif q['q'] == 'eint': s += '(vp "q%d" (compute-energy-integral (lambda (u eps p) %s)))\n' % (i, expr.scm(q['x'], PN))
            elif q['q'] == 'fint': s += '(vp "q%d" (vc (compute-field-integral (lambda (F eps p) %s))))\n' % (i, expr.scm(q['x'], PN))
        with Scratch() as d:
            r = run_ctl(s, d, P.variant).ok('session')
            einv = geom.read_eps(h5.read(path(d, 't-epsilon'))['data'], n, P.variant)[1]
            ev = np.linalg.eigvalsh(einv); eps = 2 / (ev[..., 0] + ev[..., 1])
            pts = P.pts(); X, Y, Z = pts[..., 0], pts[..., 1], pts[..., 2]
            fr = refmax.gridfrac(n).reshape(*n, 3) - [0.5 if m > 1 or j < P.L['dim'] else 0 for j, m in enumerate(n)]
            phc = np.exp(2j * np.pi * ((fr * [1 if j < P.L['dim'] else 0 for j in range(3)]) @ np.array(P.k)))
            ph = P.phase(); f = r.arr('f'); files = os.listdir(d); nt = 0
            cells = [l for l in r.stdout.split('\n') if '-energy-components:' in l]
            ci = 0
            for i, q in enumerate(c['qs']):
                t = q['f']; en = q['q'] != 'fint'; what = '%s of %s field, band %d' % (q['q'], t, q['b'])
                F = [x for x in files if x.startswith('Q%d-' % i)]
                need(len(F) == 1, '%s: files %s' % (what, F), 'files')
                if t == 'R': U = read_scl(d, F[0], n); ci += 4
                else:
                    V = read_vec(d, F[0], n)
                    if t != 'v': V = V / ph[..., None]
                if en and t != 'R':
                    W = read_vec(d, [x for x in files if x.startswith('C%d-' % i)][0], n) / ph[..., None]
                    comp = np.stack([W[..., a].real * V[..., a].real if j == 0 else W[..., a].imag * V[..., a].imag for a in range(3) for j in range(2)], -1)
                    U = comp.sum(-1); T = np.array(r.get('t%d' % i), float)
                    tot = P.integ(U); cs = comp.reshape(-1, 6).sum(0) / (U.sum() or 1)
                    need(len(T) == 7 and abs(T[0] - tot) < 1e-6 * max(1, abs(tot)), '%s: total energy %s, integral of the output fields %g' % (what, T, tot), 'total')
                    need(np.abs(T[1:] - cs).max() < 1e-5, '%s: component fractions %s, from the output fields %s' % (what, T[1:], cs), 'components')
                    ln = [x.strip() for x in cells[ci].split(',')]; ci += 1
                    need(ln[0].upper() == t.upper() + '-ENERGY-COMPONENTS:' and int(ln[2]) == q['b'] and np.abs(np.array([float(x) for x in ln[3:6]]) - cs.reshape(3, 2).sum(1)).max() < 2e-5, '%s: printed %s, expected %s' % (what, ln, cs.reshape(3, 2).sum(1)), 'printed')
                if q['q'] == 'total': nt += 1; continue
                Q = np.array(r.get('q%d' % i), float)
                if en: tot = P.integ(np.abs(U)); tol = 1e-6 * max(tot, 1e-3)
                if q['q'] == 'diel':
                    lo, hi = q['r']; m = (eps >= lo) & (eps <= hi); amb = (np.abs(eps - lo) < 1e-6) | (np.abs(eps - hi) < 1e-6)
                    ref = P.integ(U * (m & ~amb)); sl = P.integ(np.abs(U) * amb)
                    need(abs(Q - ref) < tol + sl, '%s in [%g, %g]: %g, sum over the output grid %g' % (what, lo, hi, Q, ref), 'diel')
                    need(t == 'R' or -1e-9 <= Q <= tot * (1 + 1e-9) + 1e-9, '%s: fraction %g out of range' % (what, Q), 'range')
                elif q['q'] == 'part':
                    amb = P.integ(np.abs(U) * ((np.abs(eps - q['r'][0]) < 1e-6) | (np.abs(eps - q['r'][1]) < 1e-6)))
                    need(abs(Q.sum() - P.integ(U)) < tol + 2 * amb, '%s: dielectric partition %s sums to %g, not %g' % (what, Q, Q.sum(), P.integ(U)), 'part')
                elif q['q'] == 'objs':
                    g = geom.Geo(P.L, q['g']['objs'], [], 0); B = geom.unit_basis(P.L)
                    cart = pts @ B.T; cnt = np.array([o.o['m'] >= 0 for o in g.objs] + [False])
                    m = cnt[g.which(cart)]; amb = np.zeros(m.shape, bool)
                    for e in ([1e-6, 1.1e-6, 0.9e-6], [-1e-6, 1e-6, 0.3e-6], [1e-6, -1e-6, -0.3e-6], [-1e-6, -1e-6, 1e-6], [0, 1e-6, -1e-6], [-1e-6, -0.7e-6, -1e-6]): amb |= cnt[g.which(cart + e)] != m
                    ref = P.integ(U * (m & ~amb)); sl = P.integ(np.abs(U) * amb)
                    need(abs(Q - ref) < tol + sl, '%s: energy in objects %g, sum over the output grid %g' % (what, Q, ref), 'objs')
                else:
                    env = dict(e=eps, x=X, y=Y, z=Z)
                    if en: env['u'] = U
                    else:
                        A = V if t == 'v' else V * phc[..., None]
                        env.update(fx=A[..., 0], fy=A[..., 1], fz=A[..., 2])
                    val = np.broadcast_to(expr.ev(q['x'], env), n); ref = P.integ(val) ; mg = max(1e-9, expr.magnitude(q['x'], env)) * P.vol
                    got = complex(*Q) if Q.size == 2 else float(Q)
                    if en: ref = ref.real
                    need(abs(got - ref) < 2e-6 * mg, '%s of %s: %s, sum over the output grid %s' % (what, expr.scm(q['x'], PN), got, ref), q['q'])
                    if not abs(ref): nt -= 1
                nt += 1
        return nt >= 2 and eps.std() > 0, ['%dD' % P.L['dim'], P.variant, 'mu' if mu else 'nomu'] + sorted({q['q'] + '-' + q['f'] for q in c['qs']})
CHECK = P11()
