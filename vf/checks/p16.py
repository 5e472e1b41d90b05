# technique: property-based testing (stateful, model-based): random histories of eigenvector and square-matrix operations against a numpy model of the coefficient algebra, with files carried to a second process
# level_note: exploration over random histories of at most 14 operations; the model is exact linear algebra
import numpy as np
from obs import *
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

class P16(Check):
    id = 'P16'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 420, 9000
    rule = ('random crystal (mu in half of them, several eigensolver block sizes), one solve, then a random history of scale / get / set / dot / save / load / output / input eigenvectors and square-matrix multiply / diagm / set / ref / eigvals; '
            'every overlap matrix, B field at points and matrix compared with the algebra of a numpy model whose basis is the solved (orthonormal) bands; the saved file is loaded by a second process that must hold the same fields and '
            'converge to the same frequencies; non-trivial: at least two overlap matrices that are not the identity, or a changed field')
    assumptions = ['the solved bands are orthonormal (checked: first overlap) and B fields are linear in the eigenvectors']
    def gen(self, rng, i, tier):
        mpi = i % 20 == 11
        v = 'herm' if mpi else rng.choice(['complex', 'complex', 'inv', 'herm'])
        c = gen_problem(rng, variant=v, dims=(2, 2, 3) if mpi else (1, 2, 2, 3, 3), inv=v == 'inv', mu_p=0.5, nbmax=7, kzero=0.05)
        if i % 10 == 3: # many bands: blocks beyond the number of simultaneous transforms
            c = gen_problem(rng, variant=v, dims=(2, 3), inv=v == 'inv', mu_p=0.8, nbmax=7, pol_p=0, kzero=0.0)
            c['nb'] = min(rng.randint(21, 45), c['n'][0] * c['n'][1] * c['n'][2] // 2)
            c['nb'] = max(c['nb'], 1)
        c['np'] = rng.randint(1, 3) if mpi else 0; c['np2'] = rng.randint(1, 4) if mpi else 0
        nb = c['nb']; c['block'] = rng.choice([-11, -11, 1, 2, 3, 5, nb, -4] + ([25, 30, 45] if nb > 20 else []))
        z = lambda: [rnd(rng, -2, 2, 2), 0.0 if v == 'inv' else rnd(rng, -2, 2, 2)]
        ops = []
        for _ in range(rng.randint(6, 14)):
            t = rng.choice(['scale', 'scale', 'get', 'get', 'set', 'set', 'dot', 'dot', 'dot', 'save', 'load', 'out', 'in', 'sq', 'field', 'field', 'resolve', 'overlaps'])
            ops.append({'t': t, 'a': rng.random(), 'b': rng.random(), 'c': rng.random(), 'z': z()})
        if rng.random() < 0.7:
            for t in ('get', 'scale', 'dot', 'field', 'dot'): ops.insert(rng.randint(0, len(ops)), {'t': t, 'a': rng.random(), 'b': rng.random(), 'c': rng.random(), 'z': z()})
        c['ops'] = ops; c['pts'] = [[rnd(rng, -.5, .5) for _ in range(3)] for _ in range(4)]
        c['sq'] = [[[z() for _ in range(3)] for _ in range(3)] for _ in range(2)]
        return c
    def valid(self, c):
        if not valid_problem(c) or not c['ops'] or c['block'] == 0 or len(c['sq']) != 2 or any(len(m) != 3 or any(len(r) != 3 for r in m) for m in c['sq']): return False
        if c['variant'] == 'inv' and not (c['eps']['inv'] and (not c['mu'] or c['mu']['inv'])): return False
        if c['variant'] == 'inv' and any(o['z'][1] for o in c['ops']): return False
        return (not c['np'] or c['lat']['dim'] > 1) and all(abs(o['z'][0]) + abs(o['z'][1]) > 0.01 for o in c['ops'])
    def run(self, c):
        P = Prob(c); nb = P.nb; inv = P.variant == 'inv'
        vn = 'mpi' if c['np'] else P.variant
        cz = lambda z: '(make-rectangular %s %s)' % (sn(z[0]), sn(z[1])) if z[1] else sn(z[0])
        pts = '(list %s)' % ' '.join(v3(p) for p in c['pts'])
        s = SCM + P.head(extra='(set! eigensolver-block-size %d)\n' % c['block']) + P.init() + '(define pts %s)\n' % pts + P.solve(times=4) + '(vp "f" freqs)\n'
        s += '(define (sq m) (let ((p (sqmatrix-size m))) (map (lambda (i) (map (lambda (j) (vc (sqmatrix-ref m i j))) (iota p))) (iota p))))\n'
        s += '(define (bf b) (get-bfield b) (map (lambda (p) (vf-cv (get-bloch-field-point p))) pts))\n'
        s += '(define V (get-eigenvectors 1 num-bands))(vp "id" (sq (dot-eigenvectors V 1)))(vp "F0" (map bf (map 1+ (iota num-bands))))\n'
        T = np.eye(nb, dtype=complex); var = {}; files = {}; exp = []; nv = 0; solved = True
        for j, o in enumerate(c['ops']):
            t = o['t']
            if t == 'scale':
                b = int(o['a'] * nb); z = o['z']; s += '(scale-eigenvector %d %s)\n' % (b + 1, cz(z)); T = T.copy(); T[:, b] *= complex(*z)
            elif t == 'get' or (t in ('set', 'dot', 'out', 'overlaps') and not var):
                b = int(o['a'] * nb); m = 1 + int(o['b'] * (nb - b)); nm = 'v%d' % int(o['c'] * 4)
                s += '(define %s (get-eigenvectors %d %d))\n' % (nm, b + 1, m); var[nm] = T[:, b:b + m].copy()
            elif t in ('set', 'dot', 'out', 'overlaps'):
                nm = sorted(var)[int(o['c'] * len(var))]; m = var[nm].shape[1]; b = int(o['a'] * (nb - m + 1))
                if t == 'set': s += '(set-eigenvectors %s %d)\n' % (nm, b + 1); T = T.copy(); T[:, b:b + m] = var[nm]
                elif t == 'dot': s += '(vp "o%d" (sq (dot-eigenvectors %s %d)))\n' % (j, nm, b + 1); exp.append(('o%d' % j, lambda I, x=var[nm], y=T[:, b:b + m]: x.conj().T @ I @ y, 'overlap'))
                elif t == 'overlaps':
                    s += '(vp "o%d" (map vc (sqmatrix-diag (dot-eigenvectors %s %d))))\n' % (j, nm, b + 1); exp.append(('o%d' % j, lambda I, x=var[nm], y=T[:, b:b + m]: np.diag(x.conj().T @ I @ y), 'overlap'))
                else: s += '(output-eigenvectors %s "w%d.h5")\n' % (nm, int(o['b'] * 2)); files['w%d.h5' % int(o['b'] * 2)] = var[nm].copy()
            elif t == 'save': s += '(save-eigenvectors "s%d")\n' % int(o['b'] * 2); files['s%d' % int(o['b'] * 2)] = T.copy()
            elif t == 'load':
                q = [f for f in sorted(files) if files[f].shape[1] == nb]
                if q: f = q[int(o['a'] * len(q))]; s += '(load-eigenvectors "%s")\n' % f; T = files[f].copy()
            elif t == 'in':
                q = sorted(files)
                if q: f = q[int(o['a'] * len(q))]; nm = 'v%d' % int(o['c'] * 4); s += '(define %s (input-eigenvectors "%s" %d))\n' % (nm, f, files[f].shape[1]); var[nm] = files[f].copy()
            elif t == 'field':
                b = int(o['a'] * nb); s += '(vp "o%d" (bf %d))\n' % (j, b + 1); exp.append(('o%d' % j, T[:, b].copy(), 'field'))
            elif t == 'resolve' and np.linalg.cond(T) < 30:
                s += '(set! k-index-save 0)\n' if 0 else ''
                s += P.solve(times=4) + '(vp "g%d" freqs)(define V2 (get-eigenvectors 1 num-bands))(set-eigenvectors V 1)\n' % j; exp.append(('g%d' % j, None, 'freqs')); T = np.eye(nb, dtype=complex)
            elif t == 'sq':
                A = [np.array([[complex(*z) for z in r] for r in m]) for m in c['sq']]
                lst = lambda v: '(list %s)' % ' '.join(v)
                for q in (0, 1):
                    s += '(define A%d (sqmatrix-diagm (list 0 0 0)))' % q + ''.join('(sqmatrix-set A%d %d %d %s)' % (q, a, b, cz(c['sq'][q][a][b])) for a in range(3) for b in range(3)) + '\n'
                s += '(vp "o%d" (sq (sqmatrix-mult A0 A1)))(vp "p%d" (map vc (sqmatrix-eigvals A0)))(vp "q%d" (sq A0))(vp "r%d" (sq (sqmatrix-diagm (map (lambda (i) (sqmatrix-ref A1 i 0)) (list 0 1 2)))))\n' % (j, j, j, j)
                exp += [('o%d' % j, A[0] @ A[1], 'sqmatrix'), ('p%d' % j, np.linalg.eigvals(A[0]), 'eigvals'), ('q%d' % j, A[0], 'sqmatrix'), ('r%d' % j, np.diag(A[1][:, 0]), 'sqmatrix')]
        s += '(save-eigenvectors "final")(output-eigenvectors V "V0")(vp "Fe" (map bf (map 1+ (iota num-bands))))\n'
        C = lambda a: np.array(a, float)[..., 0] + 1j * np.array(a, float)[..., 1]
        with Scratch() as d:
            r = run_ctl(s, d, vn, np_=c['np'] or None).ok('session')
            f = r.arr('f'); sc = lambda M: max(1.0, np.abs(M).max())
            I = C(r.get('id')); gm = bool(c['mu']) and not any(P.k); J = I - np.eye(nb)
            if gm: m0 = min(nb, 1 if P.pol else 2); J[:m0] = 0; J[:, :m0] = 0   # known finding, raised last
            need(np.abs(J).max() < 1e-6, 'self-overlap of the solution differs from the identity by %g' % np.abs(J).max(), 'identity')
            if gm: J = I - np.eye(nb); exp = [(a, b(I) if callable(b) else b, w) for a, b, w in exp]
            else: exp = [(a, b(np.eye(nb)) if callable(b) else b, w) for a, b, w in exp]
            F0 = C(r.get('F0')); nt = 0    # band, point, component
            for nm, ref, what in exp:
                if what == 'freqs':
                    g = r.arr(nm); need((np.abs(g ** 2 - f ** 2) < 1e-4 * np.maximum(f ** 2, 0.02 * f.max() ** 2 + 1e-9)).all(), 'frequencies from restored and scaled eigenvectors %s, before %s' % (g.tolist(), f.tolist()), 'freqs'); continue
                got = C(r.get(nm))
                if what == 'field':
                    ref = np.tensordot(ref, F0, 1); nt += 1
                if what == 'eigvals':
                    used = []
                    for e in ref:
                        k = min((k for k in range(len(got)) if k not in used), key=lambda k: abs(got[k] - e)); used.append(k)
                        need(abs(got[k] - e) < 1e-4 * sc(ref), 'eigenvalues %s, expected %s' % (got, ref), what)
                    need(len(got) == len(ref), 'eigenvalue count', what); continue
                need(got.shape == ref.shape and np.abs(got - ref).max() < 2e-6 * max(sc(ref), np.abs(F0).max()), '%s %s: %s, expected %s' % (what, nm, got.tolist(), ref.tolist()), what)
                if what == 'overlap' and np.abs(ref).max() > 1e-3 and (ref.ndim < 2 or np.abs(ref - np.eye(len(ref))).max() > 1e-3): nt += 1
            Fe = C(r.get('Fe')); ref = np.tensordot(T.T, F0, 1)
            need(np.abs(Fe - ref).max() < 2e-6 * max(sc(T), 1) * np.abs(F0).max() + 1e-9, 'fields at the end differ from the model by %g' % np.abs(Fe - ref).max(), 'field')
            # second process
            s2 = SCM + P.head(extra='(set! eigensolver-block-size %d)\n' % c['block']) + P.init() + '(define pts %s)\n' % pts + '(set! tolerance 1e3)\n'
            s2 += '(define (sq m) (let ((p (sqmatrix-size m))) (map (lambda (i) (map (lambda (j) (vc (sqmatrix-ref m i j))) (iota p))) (iota p))))\n(define (bf b) (get-bfield b) (map (lambda (p) (vf-cv (get-bloch-field-point p))) pts))\n'
            s2 += P.solve(times=1) + '(load-eigenvectors "final")(define V (input-eigenvectors "V0" num-bands))(vp "F" (map bf (map 1+ (iota num-bands))))(vp "o" (sq (dot-eigenvectors V 1)))(set! tolerance 1e-11)\n'
            s2 += '(set-eigenvectors V 1)' + P.solve(times=4) + '(vp "f" freqs)\n'
            r = run_ctl(s2, d, vn, np_=c['np2'] or None).ok('second session')
            F = C(r.get('F')); need(np.abs(F - Fe).max() < 1e-8 * np.abs(Fe).max() + 1e-12, 'fields of the loaded eigenvectors differ from those saved by %g' % np.abs(F - Fe).max(), 'file')
            o = C(r.get('o')); T = I @ T; need(np.abs(o - T).max() < 2e-6 * sc(T), 'overlap of the saved files %s, expected %s' % (o.tolist(), T.tolist()), 'file')
            g = r.arr('f'); need((np.abs(g ** 2 - f ** 2) < 1e-4 * np.maximum(f ** 2, 0.02 * f.max() ** 2 + 1e-9)).all(), 'frequencies of a session started from the file %s, before %s' % (g.tolist(), f.tolist()), 'freqs')
            if gm: need(np.abs(I - np.eye(nb)).max() < 1e-6, 'constant bands at k=0 with mu: overlap matrix %s' % I.tolist(), 'gamma-mu-constant-bands')
        return nt >= 2, [P.variant + ('-mpi' if c['np'] else ''), 'mu' if c['mu'] else 'nomu', 'many' if nb > 20 else 'few']
CHECK = P16()
