# technique: property-based testing: generated symmetric crystals, wavevectors and space-group operations against a dense reference representation, and arbitrary operations against a numpy overlap of the output fields
import numpy as np, itertools
from obs import *
import geom, refmax
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

def mat(W): return '(matrix3x3 %s)' % ' '.join(v3([float(W[i][j]) for i in range(3)]) for j in range(3))

def signed_perms(L, n):
    """signed permutations that preserve the metric and do not mix axes of different length or grid"""
    R = rows(L); g = R @ R.T; d = L['dim']; out = []
    for p in itertools.permutations(range(3)):
        if any((p[i] >= d) != (i >= d) for i in range(3)): continue
        if any(i >= d and p[i] != i for i in range(3)) or any(n[p[i]] != n[i] for i in range(3)): continue
        for s in itertools.product((1, -1), repeat=3):
            W = np.zeros((3, 3), int)
            for i in range(3): W[i, p[i]] = s[i]
            if np.allclose(W.T @ g @ W, g, atol=1e-12): out.append(W)
    return out

def gpow(W, t, m):
    A, b = np.eye(3, dtype=int), np.zeros(3, int)
    for _ in range(m): A, b = W @ A, W @ b + t
    return A, b

class P20(Check):
    id = 'P20'
    wants = ('complex', 'herm')
    n_quick, n_thorough = 500, 9000
    rule = ('two families. (a) random problem (tables or geometry with smoothing, 1-3D, all polarisations, mu, Hermitian tensors), any operation with |det W| = 1, integer or real, any translation incl. along invariant axes with out-of-plane k: transformed-overlap of D and B and compute-symmetry/-symmetries against a numpy overlap with the interpolated output fields. '
            '(b) a signed-permutation operation that preserves the metric of the lattice (mirrors, rotations, inversion, rotoinversions, diagonal mirrors, screws and glides by grid fractions), material table averaged over the cyclic group, k in the invariant subspace or at a zone edge: each cluster trace equals that of the operation in the dense reference eigenspace, unit modulus of non-degenerate bands, powers multiply, identity one, lattice translations the Bloch phase; D and B agree. '
            'non-trivial: (a) an overlap with modulus above 0.05 and operation not the identity, (b) an operation other than the identity and at least one band decided individually')
    assumptions = ['serial general builds only: the inversion-symmetric and the parallel builds refuse the operation (P25)']
    def gen(self, rng, i, tier):
        c = self.gen_a(rng) if rng.random() < 0.4 else self.gen_b(rng)
        return c
    def gen_a(self, rng):
        c = gen_obs_problem(rng, ('complex', 'complex', 'herm'), (1, 2, 2, 3), False)
        c['fam'] = 'a'; c['ops'] = []
        d = c['lat']['dim']
        for _ in range(rng.randint(2, 4)):
            W = np.eye(3); r = rng.random()
            if r < 0.35:
                p = list(range(3)); rng.shuffle(p); W = np.eye(3)[p] * np.array([rng.choice([1, -1]) for _ in range(3)])[:, None]
            elif r < 0.7:
                for _ in range(rng.randint(1, 3)):
                    a, b = rng.sample(range(3), 2); S = np.eye(3); S[a, b] = rng.choice([1, -1, 1, 2]); W = W @ S
                if rng.random() < 0.5: W[rng.randrange(3)] *= -1
            elif r < 0.9:
                a, b = rng.sample(range(3), 2); th = rnd(rng, 0, 6.28, 2); W[a, a] = W[b, b] = np.cos(th); W[a, b] = -np.sin(th); W[b, a] = np.sin(th)
            w = [rng.choice([0.0, 0.5, 0.25, rnd(rng, -1.5, 1.5), 1.0]) for _ in range(3)]
            if rng.random() < 0.4: w = [w[a] if a < d else 0.0 for a in range(3)]
            c['ops'].append([W.tolist(), w])
        return c
    def gen_b(self, rng):
        for _ in range(200):
            c = gen_problem(rng, variants=('complex', 'complex', 'herm'), dims=(1, 2, 2, 3, 3), mu_p=0.3, pol_p=0.35, nbmax=6, maxn=(13, 7, 4))
            L = c['lat']; d = L['dim']; L.pop('scale', None)
            if rng.random() < 0.6:                      # equal axes
                L['size'] = [L['size'][0]] * d + [1.0] * (3 - d); L['bsize'] = [L['bsize'][0]] * d + [1.0] * (3 - d)
                n0 = c['n'][0]; c['n'] = [min(n0, (13, 7, 4)[d - 1])] * d + [1] * (3 - d)
                if rng.random() < 0.5: L['basis'] = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
            ops = [W for W in signed_perms(L, c['n']) if not np.array_equal(W, np.eye(3))]
            c['nb'] = min(c['nb'], int(np.prod(c['n'])) // (2 if c['pol'] else 1))
            if rng.random() < 0.08: ops = [np.eye(3, dtype=int)]
            if not ops: continue
            W = rng.choice(ops)
            k = self.gen_k(rng, W, c['n'], L, d, c['k'])
            if k is None: continue
            if c['pol']: k[2] = 0.0
            t = [0, 0, 0]
            for a in range(d):
                n = c['n'][a]
                t[a] = rng.choice([0, 0, 1, n // 2, n // 2, rng.randrange(-n, 2 * n)])
            c.update(fam='b', W=W.tolist(), t=t, k=k, geo=None, zs=rnd(rng, -1, 1, 2) if d < 3 else 0.0)
            if self.valid(c): return c
        raise RuntimeError('generator')
    def gen_k(self, rng, W, n, L, d, k0):
        edge = [False] * 3; seen = set()
        for a in range(3):
            if a in seen: continue
            orb = [a]; b = a
            while True:
                b = int(np.nonzero(W[:, b])[0][0])
                if b == a: break
                orb.append(b)
            seen.update(orb)
            neg = any(W[x].min() < 0 for x in orb)
            if a >= d: continue
            if neg and n[a] % 2 == 0:
                for x in orb: edge[x] = True
        k = np.array(k0, float); k[:d] = [rnd(rng, -0.5, 0.5) for _ in range(d)]
        T = np.rint(np.linalg.inv(W).T); S = np.zeros(3); A = np.eye(3)
        for _ in range(12): S += A @ k; A = T @ A
        k = [round(x / 12, 4) + 0.0 for x in S]
        for a in range(3):
            if edge[a]: k[a] = -0.5
        if rng.random() < 0.15: k = [k[a] if edge[a] else 0.0 for a in range(3)]
        k = [float(x) for x in k]; return k if kok(k, L) else None
    def okb(self, c):
        W = np.array(c['W']); n, L, k = c['n'], c['lat'], np.array(c['k'], float)
        if W.shape != (3, 3) or not any(np.array_equal(W, X) for X in signed_perms(L, n)): return False
        k2 = np.linalg.inv(W).T @ k; d = L['dim']
        for a in range(3):
            neg = False; b = a
            while True:
                neg |= W[b].min() < 0; b = int(np.nonzero(W[:, b])[0][0])
                if b == a: break
            if a < d and neg and n[a] % 2 == 0:
                if k[a] != -0.5: return False
            elif abs(k2[a] - k[a]) > 1e-12: return False
        return len(c['t']) == 3 and all(isinstance(x, int) for x in c['t']) and all(c['t'][a] == 0 for a in range(d, 3))
    def valid(self, c):
        if c['fam'] == 'a': return valid_obs(c) and c['ops'] and all(np.shape(W) == (3, 3) and len(w) == 3 and abs(abs(np.linalg.det(W)) - 1) < 1e-13 for W, w in c['ops'])
        return valid_problem(c) and self.okb(c)
    def run(self, c): return self.run_a(c) if c['fam'] == 'a' else self.run_b(c)
    def run_a(self, c):
        P = ObsProb(c); n = P.n; d = P.L['dim']; b = c['xb']
        size = np.array([P.L['size'][a] if a < d else 1.0 for a in range(3)])
        ops = [(np.array(W, float), np.array(w, float) * size) for W, w in c['ops']]
        s = P.head() + P.init() + '(output-epsilon)\n' + ('(output-mu)\n' if using_mu(c) else '') + P.solve(times=3)
        s += ''.join('(get-%sfield %d)(output-field-to-file -1 "Q%s-")\n' % (t, b, t) for t in 'dbhe')
        for t in 'db':
            for i, (W, w) in enumerate(ops): s += '(get-%sfield %d)(vp "%s%d" (vc (transformed-overlap %s %s)))\n' % (t, b, t, i, mat(W), v3(w))
        for i, (W, w) in enumerate(ops): s += '(vp "s%d" (vc (compute-symmetry %d %s %s)))(vp "S%d" (map vc (compute-symmetries %s %s)))\n' % (i, b, mat(W), v3(w), i, mat(W), v3(w))
        with Scratch() as dd:
            r = run_ctl(s, dd, P.variant).ok('session')
            files = os.listdir(dd); ph = P.phase(); F = {}
            for t in 'dbhe':
                fn = [x for x in files if x.startswith('Q%s-' % t)]; need(len(fn) == 1, 'files %s' % fn, 'files')
                F[t] = read_vec(dd, fn[0], n) / ph[..., None]
        nt = False
        B = P.R / size[:, None]; B = B.T        # columns
        pts = refmax.gridfrac(n) - 0.5; pts[:, d:] = 0; pts = pts * size
        for i, (W, w) in enumerate(ops):
            pt = (pts - w) @ np.linalg.inv(W).T
            f = pt / size; g = np.where(np.arange(3) < d, (f + 0.5) % 1.0, 0) * n; g0 = np.floor(g).astype(int); u = g - g0
            Wc = B @ W @ np.linalg.inv(B)
            phase = np.exp(2j * np.pi * ((pt - pts) / size @ np.array(P.k)))
            for t, x in (('d', 'e'), ('b', 'h')):
                Ft = 0
                for o in np.ndindex(2, 2, 2):
                    ww = np.prod([u[:, a] if o[a] else 1 - u[:, a] for a in range(3)], 0)
                    Ft = Ft + ww[:, None] * F[t][tuple((g0[:, a] + o[a]) % n[a] for a in range(3))]
                Ft = Ft @ Wc.T
                loc = (F[x].reshape(-1, 3).conj() * Ft).sum(1) * phase
                ref = loc.sum() * P.vol / P.N * (np.linalg.det(W) if t == 'b' else 1)
                z = np.array(r.get('%s%d' % (t, i)), float) @ [1, 1j]
                tol = 1e-5 * max(1, np.abs(loc).sum() * P.vol / P.N, np.abs(Wc).max())
                need(abs(z - ref) < tol, '%s %s k=%s: overlap of the %s field of band %d under {W=%s|w=%s} is %s, numpy overlap of the output fields %s' % (P.variant, 'x'.join(map(str, n)), P.k, t, b, W.tolist(), w.tolist(), z, ref), 'overlap')
                if t == 'b':
                    for nm, y in (('compute-symmetry', np.array(r.get('s%d' % i), float) @ [1, 1j]), ('compute-symmetries', np.array(r.get('S%d' % i), float)[b - 1] @ [1, 1j])):
                        need(abs(y - ref) < tol, '%s of band %d under {W=%s|w=%s} is %s, numpy overlap of the output fields %s' % (nm, b, W.tolist(), w.tolist(), y, ref), 'symmetry')
                    need(len(r.get('S%d' % i)) == P.nb, 'compute-symmetries returned %d values for %d bands' % (len(r.get('S%d' % i)), P.nb), 'count')
                if abs(ref) > 0.05 and not np.allclose(W, np.eye(3)): nt = True
        return nt, ['a', '%dD' % d, P.variant, 'geo' if c['geo'] else 'table']
    def run_b(self, c):
        P = Prob(c); n = np.array(P.n); d = P.L['dim']; W = np.array(c['W']); t = np.array(c['t'])
        size = np.array([P.L['size'][a] if a < d else 1.0 for a in range(3)])
        Rc = P.R.T @ W @ np.linalg.inv(P.R.T)          # Cartesian rotation (fractions -> Cartesian: rows(R))
        I = np.stack(np.meshgrid(*[np.arange(m) for m in n], indexing='ij'), -1).reshape(-1, 3)
        # symmetrise the tables over the cyclic group
        m = 1
        while m < 400:
            A, b = gpow(W, t, m)
            if np.array_equal(A, np.eye(3)) and not (b % n).any(): break
            m += 1
        def average(T):
            if T is None: return None
            X = T.reshape(*n, 3, 3).copy(); S = np.zeros_like(X)
            for _ in range(m):
                S += X
                Y = np.zeros_like(X); J = (I @ W.T + t) % n
                Y[tuple(J.T)] = Rc @ X[tuple(I.T)] @ Rc.T
                X = Y
            return (S / m).reshape(T.shape)
        P.E = average(P.E); P.M = average(P.M)
        if P.pol:
            for T in (P.E, P.M):
                if T is not None and max(np.abs(T[..., :2, 2]).max(), np.abs(T[..., 2, :2]).max()) > 1e-9: raise Skip('block structure')
        w, v = P.dense().eig(); D = P.dense() if 0 else None
        f2 = w[:P.nb + 1]
        if len(f2) <= P.nb: f2 = np.append(f2, 1e9)
        sc = max(f2[P.nb - 1], 1e-9)
        cl = [[0]]
        for i in range(1, P.nb):
            if f2[i] - f2[i - 1] > 0.02 * sc: cl.append([])
            cl[-1].append(i)
        if f2[P.nb] - f2[P.nb - 1] <= 0.02 * sc: cl.pop()       # the last multiplet may be cut
        clusters = [x for x in cl if f2[x[0]] > 1e-4 * sc or f2[x[0]] > 0.03 * sc]
        clusters = [x for x in clusters if len(x) < 2 or f2[x[-1]] - f2[x[0]] < 10]
        if not clusters: raise Skip('no separated band')
        pw = [1, 2, 3]
        ops = []
        for j in pw:
            A, b = gpow(W, t, j); wv = b / n - 0.5 + A @ np.full(3, 0.5)
            wv[d:] = 0
            ops.append((A, wv))
        T = [1, -1, 2]; T = [T[a] if a < d else 0 for a in range(3)]
        z = np.array([0, 0, c['zs']]) if d == 2 else np.array([0, c['zs'], 0]) if d == 1 else np.zeros(3)
        ops += [(np.eye(3, dtype=int), np.zeros(3)), (np.eye(3, dtype=int), np.array(T) + z)]
        s = P.head() + P.init() + P.solve(times=3)
        for i, (A, wv) in enumerate(ops):
            Wl = np.diag(size) @ A @ np.diag(1 / size)
            s += '(vp "s%d" (map vc (compute-symmetries %s %s)))\n' % (i, mat(Wl), v3(wv * size))
            s += '(vp "d%d" (map (lambda (b) (get-dfield b) (vc (transformed-overlap %s %s))) (map 1+ (iota num-bands))))\n' % (i, mat(Wl), v3(wv * size))
        with Scratch() as dd:
            r = run_ctl(s, dd, P.variant).ok('session')
        # reference representation in the dense eigenspaces: H fields on the grid
        De = P.dense(); k = np.array(P.k, float)
        def apply(A, b, F):
            """(g F)(r) for the field with Bloch phase, periodic parts on the grid (n,3): pseudovector"""
            Ai = np.linalg.inv(A); RA = P.R.T @ A @ np.linalg.inv(P.R.T)
            J = I @ A.T + b                      # image points, not reduced
            G = np.zeros_like(F); Jm = J % n
            # periodic part at the image: e^{-ik r'} F(r) e^{ik r}
            ph = np.exp(2j * np.pi * ((I / n - J / n) @ k))
            ph = ph * np.exp(2j * np.pi * (k @ (np.full(3, -0.5) * 0)))
            G[np.ravel_multi_index(tuple(Jm.T), tuple(n))] = (F[np.ravel_multi_index(tuple(I.T), tuple(n))] @ RA.T) * ph[:, None] * np.linalg.det(A)
            # reducing the image point by lattice vectors leaves the periodic part unchanged
            return G
        def fields(vec):
            F = np.zeros((P.N, 3), complex); 
            for a in range(3): F[:, a] = De.W[:, De.idx] @ (De.V[:, a] * vec)
            return F
        Fs = [fields(v[:, i]) for i in range(P.nb)]
        def inner(F, G):
            if P.M is None: return np.vdot(F, G)
            return np.einsum('ia,iab,ib->', F.conj(), np.linalg.inv(P.M.reshape(-1, 3, 3)), G)
        nrm = [inner(F, F).real for F in Fs]
        got = {}; single = 0
        for i, (A, wv) in enumerate(ops):
            S = np.array(r.get('s%d' % i), float) @ [1, 1j]; Dv = np.array(r.get('d%d' % i), float) @ [1, 1j]
            got[i] = S
            desc = '%s %s dim %d pol %s k=%s operation %s {W=%s|w=%s}' % (P.variant, 'x'.join(map(str, n)), d, P.pol, P.k, i, A.tolist(), wv.tolist())
            need(len(S) == P.nb, 'compute-symmetries returned %d values for %d bands' % (len(S), P.nb), 'count')
            for x in clusters:
                if i < 3:
                    AA, b = gpow(W, t, pw[i]); ref = sum(inner(Fs[j], apply(AA, b, Fs[j])) / nrm[j] for j in x)
                elif i == 3: ref = len(x)
                else: ref = len(x) * np.exp(-2j * np.pi * (k @ (np.array(T) + z)))
                tr = sum(S[j] for j in x); td = sum(Dv[j] for j in x)
                tol = 4e-3 * len(x)
                need(abs(tr - ref) < tol, '%s: sum of the symmetry eigenvalues of bands %s (omega^2 %s) is %s, reference %s' % (desc, [j + 1 for j in x], f2[x].tolist(), tr, ref), 'trace')
                need(abs(td - ref) < tol, '%s: sum of the D-field overlaps of bands %s is %s, reference %s' % (desc, [j + 1 for j in x], td, ref), 'dtrace')
                if len(x) == 1:
                    need(abs(abs(S[x[0]]) - 1) < 4e-3, '%s: symmetry eigenvalue of band %d has modulus %g' % (desc, x[0] + 1, abs(S[x[0]])), 'modulus')
                    if i < 3: single += 1
        for x in clusters:
            if len(x) == 1:
                j = x[0]
                for i in (1, 2): need(abs(got[i][j] - got[0][j] ** pw[i]) < 1e-2, 'operation^%d has eigenvalue %s in band %d, the operation %s' % (pw[i], got[i][j], j + 1, got[0][j]), 'power')
        return bool(single) and not np.array_equal(W, np.eye(3)), ['b', '%dD' % d, P.variant, 'order%d' % m if m < 9 else 'order9+', 'edge' if -0.5 in P.k else 'in', 'glide' if t.any() else 'symmorphic']
CHECK = P20()
