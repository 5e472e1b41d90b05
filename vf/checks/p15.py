# technique: property-based testing (stateful): random sequences of output commands; the directory, dataset names, shapes, values, attributes and unrelated files against a model of what was written when
# level_note: exploration over random sequences of at most 10 outputs in small problems
import hashlib
import numpy as np
from obs import *
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check
PREF = [None, None, False, '', 'x', 'run_a-', 'r.h5-', 'a.b.', 'sub/q-', 'a-rather-long-prefix-for-a-file-name-' * 3]
VEC = 'dehb'

class P15(Check):
    id = 'P15'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 420, 9000
    rule = ('random crystal, 1-3 solved wavevectors (k index set by the session or by set-kpoint-index), random sequence of 3-10 outputs (fields and single components, energy densities, Poynting vector, charge density, epsilon, mu, '
            'copied field variables) under random prefixes into a directory with unrelated files and stale files of the same name; every file name, dataset, shape, value at sampled grid points, description, k vector and lattice attribute '
            'compared with a model; non-trivial: at least two files with varying data')
    assumptions = ['grid values are observed through the point queries of the session (checked by P12)']
    def gen(self, rng, i, tier):
        mpi = i % 20 == 9
        v = 'herm' if mpi else rng.choice(['complex', 'complex', 'inv', 'inv', 'herm'])
        c = gen_obs_problem(rng, (v,), (2, 2, 3) if mpi else (1, 2, 2, 3, 3), v == 'inv', geo_p=0.2)
        c['np'] = rng.randint(1, 3) if mpi else 0
        c['ks'] = [[round(x * rng.uniform(0.5, 1.1), 4) for x in c['k']] for _ in range(rng.randint(0, 2))]
        c['ops'] = []; c['gseed'] = rng.randrange(10 ** 6)
        for _ in range(rng.randint(3, 10)):
            c['ops'].append({'t': rng.choice(['vec'] * 4 + ['pwr', 'pwr', 'flux', 'tot', 'chg', 'eps', 'mu', 'copy', 'copy', 'load']), 'u': rng.choice(VEC), 'b': rng.randint(1, c['nb']), 'comp': rng.choice([-1, -1, 0, 1, 2]),
                             'pre': rng.choice(PREF), 'ki': rng.choice([None, None, None, 1, 3, 12, 99, 123, 1000]), 'again': rng.random() < 0.15, 'stale': rng.random() < 0.2})
        return c
    def valid(self, c):
        if not valid_obs(c) or not c['ops'] or any(len(k) != 3 or not kok(k, c['lat']) for k in c['ks']): return False
        if c['variant'] == 'inv' and not (c['geo'] or (c['eps']['inv'] and (not c['mu'] or c['mu']['inv']))): return False
        if c['pol'] and any(k[2] for k in c['ks']): return False
        return (not c['np'] or c['lat']['dim'] > 1) and all(1 <= o['b'] <= c['nb'] and o['comp'] in (-1, 0, 1, 2) for o in c['ops'])
    def run(self, c):
        P = ObsProb(c); n = P.n; mpi = c['np'] > 0; d_ = P.L['dim']
        g = np.random.default_rng(c['gseed'])
        idx = np.stack([g.integers(0, m, 10) for m in n], 1); idx[0] = [m - 1 for m in n]; idx[1] = [m // 2 for m in n]; idx[2] = [(m + 1) // 2 if m > 1 else 0 for m in n]
        idx = np.minimum(idx, np.array(n) - 1)
        pt = P.pts()[tuple(idx.T)]
        s = P.head() + P.init() + '(define pts (list %s))\n' % ' '.join(v3(p) for p in pt)
        ki = 0; ks = [P.k] + c['ks']
        for k in reversed(ks): s += P.solve(k, times=2); ki += 2
        s += '(vp "f" freqs)(vp "R" (map vf-v3 (list (matrix3x3* R0 (vector3 1 0 0)))))\n' if 0 else '(vp "f" freqs)\n'
        s = SCM + s
        cv = '(vp "s%d" (map (lambda (p) (vf-cv (get-bloch-field-point p))) pts))'; cs = '(vp "s%d" (map (lambda (p) (vc (get-bloch-cscalar-point p))) pts))'; sc = '(vp "s%d" (map get-energy-point pts))'
        files = {}; k_at = P.k; pre_now = None; has_field = False; lastb = None; lastk = None
        mu = using_mu(c); ops = []
        for j, o in enumerate(c['ops']):
            t, u, b, comp = o['t'], o['u'], o['b'], o['comp']
            if t == 'mu' and not mu: t = 'eps'
            if t == 'load' and not has_field: t = 'vec'
            if t == 'chg' and P.variant == 'inv': t = 'pwr'
            if o['ki'] is not None: s += '(set-kpoint-index %d)\n' % o['ki']; ki = o['ki']
            p = o['pre']
            s += '(set! filename-prefix %s)\n' % ('""' if p is None else '#f' if p is False else '"%s"' % p)
            p = {None: 't-', False: '', '': 't-'}.get(p, p)
            cx = '' if comp < 0 else '-' + 'xyz'[comp]; fx = '' if comp < 0 else '.' + 'xyz'[comp]
            kb = '.k%02d.b%02d' % (ki, b)
            if t == 'vec':
                s += '(get-%sfield %d)' % (u, b) + cv % j; out = '(output-%sfield%s %d)' % (u, cx, b); name = p + u + kb + fx + P.suffix; desc = '%s field, kpoint %d, band %d, freq=' % (u, ki, b); kind = ('v', comp, True)
            elif t == 'pwr':
                u = 'd' if u in 'de' else 'b'; w = 'h' if o['u'] == 'h' else u
                if mu and w == 'h': w = 'b'
                s += '(get-%sfield %d)(compute-field-energy)' % (u, b) + sc % j; out = '(output-%spwr %d)' % (w, b); name = p + u + 'pwr' + kb + P.suffix
                desc = '%s field energy density, kpoint %d, band %d, freq=' % (u.upper(), ki, b); kind = ('s', -1, False)
                if u == 'b' and not mu and w == 'h': pass
            elif t == 'flux':
                s += '(get-poynting %d)' % b + cv % j; out = '(output-poynting%s %d)' % (cx, b); name = p + 'flux.v' + kb + fx + P.suffix; desc = 'v field, kpoint %d, band %d, freq=' % (ki, b); kind = ('v', comp, False)
            elif t == 'tot':
                s += '(get-tot-pwr %d)' % b + sc % j; out = '(output-tot-pwr %d)' % b; name = p + 'tot.rpwr' + kb + P.suffix; desc = 'R field energy density, kpoint %d, band %d, freq=' % (ki, b); kind = ('s', -1, False)
            elif t == 'chg':
                s += '(get-charge-density %d)' % b + cs % j; out = '(output-charge-density %d)' % b; name = p + 'C' + kb + P.suffix; desc = 'C field, kpoint %d, band %d, freq=' % (ki, b); kind = ('c', -1, True)
            elif t in ('eps', 'mu'):
                full = {'eps': 'epsilon', 'mu': 'mu'}[t]
                s += '(vp "s%d" %s)' % (j, '(map get-epsilon-point pts)' if t == 'eps' else '0'); out = '(output-%s)' % full; name = p + full; desc = {'eps': 'dielectric function, epsilon', 'mu': 'permeability mu'}[t]; kind = ('s', -1, False)
            elif t == 'copy':
                s += '(get-%sfield %d)(define fv (field-copy cur-field))(field-load fv)' % (u, b) + cv % j; out = '(field-load fv)(output-field%s)' % cx; name = p + u + kb + fx + P.suffix
                desc = '%s field, kpoint %d, band %d, freq=' % (u, ki, b); kind = ('v', comp, True); has_field = True; lastb, lastu = b, u
            else:   # load: the variable of an earlier copy, again, after fetching another band
                s += '(get-hfield %d)(field-load fv)' % lastb + cv % j; out = '(get-dfield %d)(field-load fv)(output-field%s)' % (lastb, cx); b = lastb; name = p + lastu + '.k%02d.b%02d' % (ki, b) + fx + P.suffix
                desc = '%s field, kpoint %d, band %d, freq=' % (lastu, ki, b); kind = ('v', comp, True)
            s += out + ('(output-field)' if o['again'] else '') + '\n'   # a second output of a consumed field writes nothing
            name += '' if name.endswith('.h5') else '.h5'
            files[name] = dict(j=j, kind=kind, desc=desc, b=b, t=t, stale=o['stale'])
            ops.append(t)
        with Scratch() as d:
            os.mkdir(os.path.join(d, 'sub'))
            junk = {'unrelated.h5': b'not a file of mpb', 'sub/keep.txt': b'abc', 't-e.k01.b01.h5.bak': b'\0\1'}
            for k, v in junk.items(): open(os.path.join(d, k), 'wb').write(v)
            for f, m in files.items():
                if m['stale']: h5.write(os.path.join(d, f), {'data': np.ones((3, 2)), 'old': np.ones(4), 'lattice vectors': np.zeros((2, 2))})
            r = run_ctl(s, d, 'mpi' if mpi else P.variant, np_=c['np'] or None).ok('session'); f_ = r.arr('f')
            found = sorted(os.path.relpath(os.path.join(a, x), d) for a, _, fs in os.walk(d) for x in fs)
            want = sorted(list(files) + list(junk) + ['t.ctl'])
            need(found == want, 'files in the directory: %s, expected %s' % ([x for x in found if x not in want], [x for x in want if x not in found]), 'names')
            for k, v in junk.items(): need(open(os.path.join(d, k), 'rb').read() == v, 'unrelated file %s changed' % k, 'unrelated')
            perm = [1, 0, 2] if mpi else [0, 1, 2]
            R = np.array(P.R)[perm]; kk = np.array(P.k)[perm]; nt = 0
            shp = tuple(np.array(n)[perm]); 
            if not mpi: shp = {1: (n[0],), 2: (n[0], n[1]), 3: tuple(n)}[d_] if True else shp
            elif d_ == 2: shp = shp[:2]
            for fn, m in files.items():
                x = h5.read(os.path.join(d, fn)); need(x is not None, '%s is not an HDF5 file' % fn, 'hdf5'); D = x['data']
                kind, comp, bloch = m['kind']
                comps = 'xyz' if comp < 0 else 'xyz'[comp]
                ds = [a + q for a in comps for q in ('.r', '.i')] if kind == 'v' else ['c.r', 'c.i'] if kind == 'c' else ['data']
                extra = []
                if m['t'] == 'eps':
                    extra = [e + '.' + a for e in ('epsilon', 'epsilon_inverse') for a in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz')]
                    if P.variant == 'herm': extra += [e + '.' + a + '.i' for e in ('epsilon', 'epsilon_inverse') for a in ('xy', 'xz', 'yz')]
                att = ['lattice vectors', 'description'] + (['Bloch wavevector'] if kind in 'vc' else [])
                need(sorted(D) == sorted(ds + extra + att), '%s: datasets %s, expected %s' % (fn, sorted(D), sorted(ds + extra + att)), 'datasets')
                for a in ds + extra: need(D[a].shape == shp, '%s: dataset %s has shape %s, expected %s' % (fn, a, D[a].shape, shp), 'shape')
                need(np.abs(D['lattice vectors'] - R).max() < 1e-9 * np.abs(R).max(), '%s: lattice vectors %s, expected %s' % (fn, D['lattice vectors'].tolist(), R.tolist()), 'lattice')
                if kind in 'vc': need(np.abs(D['Bloch wavevector'] - (kk if bloch else 0)).max() < 1e-9, '%s: Bloch wavevector %s, expected %s' % (fn, D['Bloch wavevector'], kk if bloch else 0), 'kvector')
                de = D['description']
                if m['t'] in ('eps', 'mu'): need(de == m['desc'], '%s: description %r, expected %r' % (fn, de, m['desc']), 'description')
                else: need(de.startswith(m['desc']) and abs(float(de[len(m['desc']):]) - f_[m['b'] - 1]) < 2e-5 * abs(f_[m['b'] - 1]) + 1e-6, '%s: description %r, expected %r%g' % (fn, de, m['desc'], f_[m['b'] - 1]), 'description')
                a = np.array(r.get('s%d' % m['j']), float)
                ii = tuple(idx.T)
                full = lambda z: shape_to(z, n, mpi) 
                if m['t'] == 'mu':
                    if c['geo']: nt += 1; continue
                    ev = np.linalg.eigvalsh(P.minv())[ii]; a = 2 / (ev[:, 0] + ev[:, 1])
                if kind == 's': got = full(D['data']); ref = a
                else:
                    a = a[..., 0] + 1j * a[..., 1]; ph = P.phase() if bloch else np.ones(n)
                    if kind == 'c': got = full(D['c.r'] + 1j * D['c.i']) / ph; ref = a
                    else: got = np.stack([full(D[q + '.r'] + 1j * D[q + '.i']) / ph for q in comps], -1); ref = a if comp < 0 else a[:, comp:comp + 1]
                big = max(np.abs(got).max(), np.abs(a).max()) if kind == 'v' else np.abs(got).max()
                e = np.abs(got[ii] - ref).reshape(len(ref), -1).max(1); q = int(np.argmax(e))
                need(e[q] < 1e-9 * big + 1e-13, '%s: grid point %s holds %s, the session has %s there' % (fn, idx[q].tolist(), got[ii][q], ref[q]), 'values')
                if np.abs(got - got[0, 0, 0]).max() > 1e-6 * big: nt += 1
        return nt >= 2, [P.variant + ('-mpi' if mpi else ''), '%dD' % d_] + sorted(set(ops))
CHECK = P15()
