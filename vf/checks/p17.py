# technique: property-based testing: generated data files and option sets for mpb-data, output grids against an independent periodic (Bloch) interpolation model
# level_note: exploration over random files (1D-3D, up to 9 points per side) and option combinations
import math, os
import numpy as np
import h5, mpbrun
from gen import rnd
from mpbrun import need, Fail, Skip, Scratch, run_proc
from pbt import Check

EPS = [e + '.' + a for e in ('epsilon', 'epsilon_inverse') for a in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz')]
KINDS = ['data', 'data', 'eps', 'vec', 'vec', 'vec', 'comp', 'csc', 'mix', 'cdata']

class P17(Check):
    id = 'P17'
    wants = ('complex:data',)
    n_quick, n_thorough = 5000, 150000
    rule = ('1-2 random HDF5 files (real scalar, epsilon tensor incl. imaginary parts, complex scalar, complex vector, single components; rank 1-3; with or without lattice vectors, copies, Bloch wavevector) and a random option set '
            '(-r/-e, -n, -x/-y/-z/-m, -T, -p, -P, -o, -d, file:dataset, run twice); the list of datasets, every output value and the untouched inputs compared with the model; non-trivial: varying data and an option that changes the grid')
    assumptions = ['ties of -p (sample half way between grid points, 1e-6) are skipped point by point', 'output sizes whose rounding is ambiguous in the last bit are skipped']
    def gen(self, rng, i, tier):
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            rank = rng.choice([1, 2, 2, 3, 3])
            R = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
            if rng.random() < 0.85:
                for a in range(3):
                    for b in range(3):
                        if rank == 3 or (a < rank and b < rank) or rng.random() < 0.0: R[a][b] = round(R[a][b] * rng.uniform(0.6, 1.8) + (rng.uniform(-.45, .45) if rng.random() < 0.7 else 0), 3)
                if rng.random() < 0.15: R[0], R[1] = R[1], R[0]     # left-handed
            fs.append({'kind': rng.choice(KINDS), 'n': [rng.randint(1, (12, 9, 6)[rank - 1]) for _ in range(rank)], 'R': R if rng.random() < 0.9 else None, 's': rng.randrange(10 ** 6),
                       'k': [rnd(rng, -.6, .6) if a < rank or rng.random() < 0.3 else 0.0 for a in range(3)] if rng.random() < 0.75 else None, 'copies': [rng.choice([1, 2, 1.5]) for _ in range(3)] if rng.random() < 0.2 else None,
                       'colon': rng.random() < 0.1, 'ext': rng.random() < 0.7})
        o = {}
        if rng.random() < 0.4: o['r'] = True
        elif rng.random() < 0.35: o['e'] = [rnd(rng, -.6, .6, 2) for _ in range(3)]
        if rng.random() < 0.45: o['n'] = rng.choice([1, 2, 3.5, 4, 7, 10])
        if rng.random() < 0.6:
            if rng.random() < 0.4: o['m'] = rng.choice([1, 2, 3, 1.5, 0.5, 2.2])
            else: o['xyz'] = [rng.choice([None, 1, 2, 3, 1.3, 0.6, 0.2]) for _ in range(3)]
        for f, p in (('T', .3), ('p', .2), ('v', .2)):
            if rng.random() < p: o[f] = True
        if rng.random() < 0.3: o['P'] = rng.choice([90, 180, -45, rnd(rng, -360, 360, 2)])
        if rng.random() < 0.35: o['o'] = rng.choice(['out.h5', 'out', 'o.h5.x'])
        if rng.random() < 0.15: o['d'] = True
        if rng.random() < 0.1: o['twice'] = True
        c = {'files': fs, 'o': o, 'long': rng.choice([0] * 6 + [200, 295, 299, 600, 998, 3000])}
        if rng.random() < 0.06: o['o'] = 'o.h5.h5'
        return c
    def valid(self, c):
        o = c['o']
        if not c['files'] or len(c['files']) > 2: return False
        for f in c['files']:
            if f['kind'] not in KINDS or not 1 <= len(f['n']) <= 3 or any(m < 1 or m > 12 for m in f['n']): return False
            if f['R'] and (len(f['R']) != 3 or any(len(r) != 3 for r in f['R']) or abs(np.linalg.det(np.array(f['R']))) < 0.15): return False
            for q in ('k', 'copies'):
                if f[q] is not None and len(f[q]) != 3: return False
            if f['copies'] and any(x < 1 for x in f['copies']): return False
        if 'e' in o and (len(o['e']) != 3): return False
        if 'xyz' in o and (len(o['xyz']) != 3 or any(x is not None and x <= 0.1 for x in o['xyz'])): return False
        return 0 <= c['long'] <= 5000 and o.get('m', 1) > 0.1 and o.get('n', 1) >= 1
    # -- the file as written
    def datasets(self, f, foo='foo'):
        g = np.random.default_rng(f['s']); n = tuple(f['n']); D = {}; a = lambda: np.round(g.normal(size=n), 5)
        k = f['kind']
        if k in ('data', 'mix'): D['data'] = a()
        if k == 'eps':
            D['data'] = a()
            for e in EPS: D[e] = a()
            if f['s'] % 3 == 0:
                for e in EPS:
                    if e[-1] != e[-2]: D[e + '.i'] = a()
        if k == 'vec' or k == 'mix':
            for x in 'xyz': D[x + '.r'] = a(); D[x + '.i'] = a()
        if k == 'comp':
            x = 'xyz'[f['s'] % 3]; D[x + '.r'] = a(); D[x + '.i'] = a()
        if k == 'csc': D['c.r'] = a(); D['c.i'] = a()
        if k == 'cdata': D['data.r'] = a(); D['data.i'] = a()
        D[foo] = a(); D['other'] = np.arange(4.0)
        return D
    def run(self, c):
        o = c['o']; foo = 'foo' + 'x' * c['long']; args = []; ms = [o.get('m', 1)] * 3
        if 'xyz' in o: ms = [x if x is not None else 1 for x in o['xyz']]
        if o.get('r'): args.append('-r')
        if 'e' in o: args += ['-e', ','.join(repr(x) for x in o['e'])]
        if 'n' in o: args += ['-n', str(o['n'])]
        if 'm' in o: args += ['-m', str(o['m'])]
        elif 'xyz' in o:
            for q, x in zip('xyz', o['xyz']):
                if x is not None: args += ['-' + q, str(x)]
        for q in 'Tpv':
            if o.get(q): args.append('-' + q)
        if 'P' in o: args += ['-P', str(o['P'])]
        if 'o' in o: args += ['-o', o['o']]
        if o.get('d'): args += ['-d', foo]
        plans = []
        for f in c['files']:
            R = np.array(f['R'] if f['R'] else np.eye(3), float)
            k = np.array(f['k'], float) if f['k'] else np.zeros(3)
            if f['copies']: R = R * np.array(f['copies'])[:, None]; k = k * np.array(f['copies'])
            Q = R.copy(); rot = np.eye(3); rank = len(f['n'])
            if o.get('r') or 'e' in o:
                ve = np.array(o['e'] if 'e' in o else R[0], float)
                if 'e' in o:
                    if rank < 3: ve[rank:] = 0        # stay in the plane of the data
                    ve = ve + R[0]                    # a direction near the first lattice vector
                    if np.linalg.norm(ve) < 0.2: raise Skip('direction')
                    args[args.index('-e') + 1] = ','.join(repr(float(x)) for x in ve)
                ve = ve / np.linalg.norm(ve)
                V = np.linalg.det(R); den = np.cross(R[1] - R[0], R[2] - R[0]) @ ve
                if abs(den) < 0.15 * abs(V) ** (2 / 3) or V / den < 0: raise Skip('direction nearly in the plane of the cell tips')
                b1 = R[1] - R[0]; b1 = b1 - ve * (ve @ b1); b2 = R[2] - R[0]; b2 = b2 - ve * (ve @ b2); b2 = b2 - b1 * (b1 @ b2) / (b1 @ b1)
                Q = np.array([ve * V / den, b1, b2])
                assert abs(abs(np.linalg.det(Q)) - abs(V)) < 1e-9 * abs(V)
                rot = Q / np.linalg.norm(Q, axis=1)[:, None]     # components along the new axes
            plans.append((f, R, k, Q * np.array(ms, float)[:, None], rot))
            if 'e' in o: break
        files = [p[0] for p in plans]
        with Scratch() as d:
            ins = []
            for q, f in enumerate(files):
                D = self.datasets(f, foo); W = dict(D)
                if f['R']: W['lattice vectors'] = np.array(f['R'], float)
                if f['k']: W['Bloch wavevector'] = np.array(f['k'], float)
                if f['copies']: W['lattice copies'] = np.array(f['copies'], float)
                h5.write(os.path.join(d, 'in%d.h5' % q), W); ins.append((D, W))
                args.append('in%d%s%s' % (q, '.h5' if f['ext'] else '', ':' + foo if f['colon'] else ''))
            out = o.get('o')
            exe = os.path.join(mpbrun.BIN['complex'], 'mpb-data')
            for _ in range(2 if o.get('twice') else 1):
                r = run_proc([exe] + args, d)
                need(r.rc == 0 and not r.timeout, 'mpb-data %s: exit status %s: %s' % (' '.join(args)[:400], r.rc, r.stderr[-300:]), 'status')
            have = sorted(os.listdir(d)); want = sorted(['in%d.h5' % q for q in range(len(files))] + ([out if out.endswith('.h5') else out + '.h5'] if out else []))
            need(have == want, 'files %s, expected %s' % (have, want), 'files')
            nt = False
            for q, (f, R, k, Q, rot) in enumerate(plans):
                D, W = ins[q]; sep = out and q == 0
                X = h5.read(os.path.join(d, 'in%d.h5' % q))['data']
                for nm in W: need(nm in X and X[nm].shape == W[nm].shape and np.array_equal(X[nm], W[nm]), 'input dataset %s of file %d changed' % (nm, q), 'input')
                Y = h5.read(os.path.join(d, want[-1] if want[-1].startswith('o') else [x for x in want if x.startswith('o')][0]))['data'] if sep else {a: b for a, b in X.items() if a not in W}
                sfx = '' if sep else '-new'
                named = f['colon'] or o.get('d')
                jobs = []     # (names, complex array(s), rotate?)
                if named: jobs.append(([foo], None))
                else:
                    for nm in D:
                        if nm in (foo, 'other') or nm[-2:] in ('.r',) : continue
                        if nm.endswith('.i') and nm[:-2] + '.r' in D: continue
                        jobs.append(([nm], None))
                    for nm in ('c', 'data'):
                        if nm + '.r' in D: jobs.append(([nm + '.r', nm + '.i'], None))
                    cs = [x for x in 'xyz' if x + '.r' in D]
                    if len(cs) == 3: jobs.append(([x + t for x in 'xyz' for t in ('.r', '.i')], True))
                    elif cs: jobs.append(([cs[0] + '.r', cs[0] + '.i'], None))
                expn = sorted(x + sfx for j, _ in jobs for x in j)
                need(sorted(Y) == expn, 'datasets written for file %d (%s): %s, expected %s; options %s' % (q, f['kind'], sorted(Y), expn, args), 'datasets')
                n = list(f['n']) + [1] * (3 - len(f['n'])); rank = len(f['n'])
                if 'n' in o: raw = [np.linalg.norm(Q[a]) * o['n'] + 0.5 for a in range(3)]
                else: raw = [n[a] * float(ms[a]) for a in range(3)]
                if any(abs(x - round(x)) < 1e-9 and 'n' in o for x in raw): raise Skip('ambiguous size')
                m = [max(1, int(raw[a])) if a < rank else 1 for a in range(3)]
                I = np.stack(np.meshgrid(*[np.arange(x) for x in m], indexing='ij'), -1).reshape(-1, 3)
                u = (I / np.array(m) - 0.5) @ Q @ np.linalg.inv(R) + 0.5
                def interp(A, ph):
                    g = u * n; g0 = np.floor(g + 1e-9).astype(int); w = g - g0; tie = np.zeros(len(g), bool)
                    if o.get('p'):
                        tie = (np.abs(w - 0.5) < 1e-6).any(1); w = (w > 0.5).astype(float)
                    s = 0
                    for oo in np.ndindex(2, 2, 2):
                        ww = np.prod([w[:, a] if oo[a] else 1 - w[:, a] for a in range(3)], 0)
                        ii = g0 + np.array(oo); cell = ii // np.array(n); ii = ii - cell * np.array(n)
                        v = A[tuple(ii.T)]
                        if ph: v = v * np.exp(2j * np.pi * (cell @ k)) 
                        s = s + ww * v
                    return s, tie
                sh = lambda v: v.reshape(m).transpose(1, 0, 2) if o.get('T') else v.reshape(m)
                shp = [m[1], m[0], m[2]] if o.get('T') else m
                if o.get('T') and rank == 1: raise Skip('transposed 1D data')
                for names, vecq in jobs:
                    if vecq:
                        Z = np.stack([D[x + '.r'] + 1j * D[x + '.i'] for x in 'xyz']).reshape(3, *n)
                        Z = np.einsum('ab,bijk->aijk', rot, Z)
                        if o.get('T'): Z = Z[[1, 0, 2]]
                        refs = []
                        for a in range(3):
                            v, tie = interp(Z[a], True); v = v * np.exp(2j * np.pi * o.get('P', 0) / 360); refs += [v.real, v.imag]
                    elif len(names) == 2:
                        v, tie = interp((D[names[0]] + 1j * D[names[1]]).reshape(n), True); v = v * np.exp(2j * np.pi * o.get('P', 0) / 360); refs = [v.real, v.imag]
                    else: v, tie = interp(D[names[0]].reshape(n), False); refs = [v]
                    for nm, ref in zip(names, refs):
                        got = Y[nm + sfx]
                        need(list(got.shape) == shp[:rank], '%s: shape %s, expected %s; options %s' % (nm, got.shape, shp[:rank], args), 'shape')
                        e = np.abs(got.reshape(shp) - sh(ref)); e[sh(tie)] = 0
                        w = np.unravel_index(np.argmax(e), e.shape)
                        need(e[w] < 1e-7, '%s (%s, grid %s): point %s is %g, interpolated input %g; options %s' % (nm, f['kind'], f['n'], list(w), got.reshape(shp)[w], sh(ref)[w], args), 'values')
                        if np.ptp(D[names[0]]) > 0.01 and (m != n or 'r' in o or 'e' in o or 'P' in o or 'T' in o): nt = True
        return nt, [f['kind'] for f in files] + sorted(o)
CHECK = P17()
