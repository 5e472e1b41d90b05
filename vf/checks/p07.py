# technique: property-based testing: generated mirror-symmetric crystals; even/odd runs against the full spectrum of a dense reference, and reported parities against expectation values of the output fields
# level_note: exploration; exact spectral partition is asserted for odd grid sizes along a mirrored direction (an even size has an unpaired Nyquist planewave, so the discrete operator is only approximately mirror symmetric there)
import numpy as np
from modes import *
from mpbrun import run_ctl, Scratch, need, Fail, Skip
from pbt import Check

SECT = {'y': ['yeven', 'yodd'], 'z': ['zeven', 'zodd'], 'yz': ['yeven-zeven', 'yeven-zodd', 'yodd-zeven', 'yodd-zodd'],
        'tez': ['te', 'tm'], 'teyz': ['te-yeven', 'te-yodd', 'tm-yeven', 'tm-yodd']}

class P07(Check):
    id = 'P07'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 420, 8000
    rule = ('random crystal symmetric under z -> -z and/or y -> -y, random k in the mirror plane; every parity run by its user-level name; union of the sectors = dense full spectrum; '
            'reported parities = +-1 in restricted runs and = the field expectation values everywhere; non-trivial: at least two sectors with non-zero frequencies compared')
    assumptions = ['numpy dense eigenvalues']
    def gen(self, rng, i, tier):
        dim = rng.choice([1, 2, 2, 2, 3, 3, 3])
        mir = rng.choice(['y', 'z', 'yz'])
        c = gen_problem(rng, dims=[dim], pol_p=0, mir=('y' if 'y' in mir and dim > 1 else '') + ('z' if 'z' in mir and dim == 3 else ''), nbmax=5)
        L = c['lat']
        b = np.eye(3).tolist()
        if dim == 3 and mir == 'z' and rng.random() < 0.6: b[0] = [1.0, rnd(rng, -0.5, 0.5, 2), 0.0]; b[1] = [rnd(rng, -0.5, 0.5, 2), 1.0, 0.0]
        if dim == 3 and mir == 'y' and rng.random() < 0.6: b[0] = [1.0, 0.0, rnd(rng, -0.5, 0.5, 2)]; b[2] = [rnd(rng, -0.5, 0.5, 2), 0.0, 1.0]
        if dim == 2 and mir == 'z' and rng.random() < 0.6: b[0] = [1.0, rnd(rng, -0.5, 0.5, 2), 0.0]; b[1] = [rnd(rng, -0.5, 0.5, 2), 1.0, 0.0]
        L['basis'] = b
        flat = []   # directions without variation need tensors invariant themselves
        if 'z' in mir and dim < 3: flat.append('z')
        if 'y' in mir and dim < 2: flat.append('y')
        if 'z' in flat:
            for m in ('eps', 'mu'):
                if c[m] and c[m]['t'] in ('sym', 'herm'): c[m]['t'] = 'diag' if 'y' in flat else ('block' if c[m]['t'] == 'sym' else 'hblock')
        elif 'y' in flat:
            for m in ('eps', 'mu'):
                if c[m]: c[m]['t'] = 'diag'
        for d, ch in ((1, 'y'), (2, 'z')):
            if ch in mir and d < dim and rng.random() < 0.85 and c['n'][d] % 2 == 0: c['n'][d] += 1
        for d, ch in ((1, 'y'), (2, 'z')):
            if ch in mir:
                c['k'][d] = 0.0
        if not kok(c['k'], L):
            c['k'] = [0.0, 0.0, 0.0]; c['k'][0] = rnd(rng, 0.2, 0.5)
        N = int(np.prod(c['n']))
        c['mirrors'] = mir; c['nb'] = max(1, min(c['nb'], N // 4)); c['b'] = rng.randint(1, c['nb'])
        c['block'] = rng.choice([-11, -11, 1, 2])
        return c
    def valid(self, c):
        if not valid_problem(c) or c['mirrors'] not in ('y', 'z', 'yz') or c['block'] == 0 or not 1 <= c['b'] <= c['nb'] or c['nb'] > max(1, int(np.prod(c['n'])) // 4): return False
        R = rows(c['lat'])
        for d, ch in ((1, 'y'), (2, 'z')):
            if ch in c['mirrors'] and (c['k'][d] or any(abs(R[d] @ R[e]) > 1e-9 for e in range(3) if e != d) or abs(np.linalg.norm(R[d]) - abs(R[d][d])) > 1e-9): return False
        for m in ('eps', 'mu'):
            if not c[m]: continue
            for d, ch in ((1, 'y'), (2, 'z')):
                if ch in c['mirrors'] and d < c['lat']['dim'] and ch not in c[m]['mir']: return False
                if ch in c['mirrors'] and d >= c['lat']['dim'] and (c[m]['t'] not in ('iso', 'diag') + (('block', 'hblock') if ch == 'z' and 'y' not in c['mirrors'] or c['lat']['dim'] > 1 else ())): return False
        return True
    def expect(self, P, F, B, ax):
        """<F| O B> / <F|B> for the reflection of a pseudo-vector"""
        n = P.n
        idx = (-np.arange(n[ax])) % n[ax]
        OB = -np.take(B, idx, axis=ax)
        OB[..., ax] *= -1
        return ((F.conj() * OB).sum() / (F.conj() * B).sum()).real
    def run(self, c):
        P = Prob(c); nb, b = P.nb, c['b']; mir = c['mirrors']
        even = any(ch in mir and d < P.L['dim'] and P.n[d] % 2 == 0 for d, ch in ((1, 'y'), (2, 'z')))
        names = SECT[mir] if mir != 'yz' or P.L['dim'] > 1 else ['yeven-zodd', 'yodd-zeven']   # in one dimension the other two sectors are empty
        if 'z' in mir and P.L['dim'] < 3 and c['eps']['s'] % 2: names = SECT['te' + mir] if len(names) != 2 or mir == 'z' else ['te-yodd', 'tm-yeven']
        s = P.head(extra='(set! eigensolver-block-size %d)\n' % c['block'])
        ks = '(set! k-points (list %s))\n' % ' '.join([v3(P.k)] * 4)
        s += ks
        if 'y' in mir and 'z' in mir: fn = 'display-yparities display-zparities'
        else: fn = 'display-%sparities' % mir
        for nm in names + ['']:
            s += '(run%s %s)(vp "f" freqs)(vp "zp" (compute-zparities))(vp "yp" (compute-yparities))\n' % ('-' + nm if nm else '', fn)
            s += '(get-bfield %d)(output-field)\n' % b
        with Scratch() as d:
            r = run_ctl(s, d, P.variant)
            if even and r.rc and ('failure to converge' in r.stderr or 'too many emergency restarts' in r.stderr): raise Skip('unpaired Nyquist planewave: not a mirror-symmetric operator')
            r.ok()
            full = np.sort(np.maximum(P.dense().eig()[0], 0))
            fs, nz = [], 0
            sfx = {'te': 'te', 'tm': 'tm'}
            for j, nm in enumerate(names + ['']):
                f = r.arr('f', j); zp = r.arr('zp', j); yp = r.arr('yp', j)
                need(len(f) == nb and len(zp) == nb and len(yp) == nb, 'list lengths', 'length')
                need(np.all(np.diff(f) >= -1e-7 * np.max(f)), 'frequencies not ascending: %s' % f, 'order')
                for q in ([zp] if 'z' in mir else []) + ([yp] if 'y' in mir else []):
                    need(np.all(np.abs(q) <= 1 + 1e-9), 'parity outside [-1,1]: %s' % q, 'range')
                suff = '.' + nm.replace('-', '') if nm else ''
                if nm: 
                    suff = '.' + ''.join(nm.split('-'))
                    if nm.split('-')[0] in ('te', 'tm'):
                        suff = '.' + nm.replace('-', '')
                    elif 'z' in mir and P.L['dim'] < 3:     # z parity in 2d is called te / tm
                        suff = '.' + ('te' if 'zeven' in nm else 'tm') + ('yeven' if 'yeven' in nm else 'yodd' if 'yodd' in nm else '')
                    elif mir == 'yz':
                        suff = '.' + nm.split('-')[1] + nm.split('-')[0]
                B = read_vec(d, 't-b.k04.b%02d%s' % (b, suff), P.n)
                B = B / P.phase()[..., None]
                for ch, ax, q in (('z', 2, zp), ('y', 1, yp)):
                    if ch not in mir: continue
                    ex = self.expect(P, B, B, ax)
                    need(even or abs(ex - q[b - 1]) <= 1e-6, '%s: %s-parity of band %d reported as %.9g, the field gives %.9g' % (nm or 'run', ch, b, q[b - 1], ex), 'expectation')
                    if nm:
                        sgn = 1 if (ch + 'even') in nm or (ch == 'z' and 'te' in nm.split('-')) else -1
                        need(np.abs(q - sgn).max() <= 1e-6, '%s: reported %s-parities %s' % (nm, ch, q), 'sector-parity')
                        need(even or abs(ex - sgn) <= 1e-6, '%s: field has %s-parity %s' % (nm, ch, ex), 'field-parity')
                    elif not even:
                        for i in range(nb):
                            w = f[i] ** 2
                            gap = min([abs(full[m] - w) for m in range(len(full)) if m != i])
                            if gap > 0.02 * max(w, 0.1 * full[min(nb, len(full) - 1)]) and w > 1e-6 :
                                need(abs(abs(q[i]) - 1) <= 1e-3, 'run: non-degenerate band %d has %s-parity %s' % (i + 1, ch, q[i]), 'nondegenerate')
                line = [l for l in r.stdout.split('\n') if ('%sparity:, 4, ' % (mir[0])) in l]
                need(len(line) == len(names) + 1, 'parity lines: %d' % len(line), 'line')
                vals = [float(x) for x in line[j].split(', ')[2:]]
                need(np.allclose(vals, yp if 'y' in mir else zp, atol=2e-5), 'printed parities differ: %s' % line[j], 'line')
                if nm: fs.append(f); nz += f[-1] > 1e-6
                else: fall = f
        if not even:
            top = min(f[-1] for f in fs)
            un = np.sort(np.concatenate([f[f <= top * (1 - 1e-6)] for f in fs] + [[top]])) ** 2
            m = min(len(un), len(full)) - 1
            wm = max(full[:m].max() if m else 0, full[min(nb, len(full)) - 1], 1e-9)
            e = np.abs(un[:m] - full[:m]) / np.maximum(full[:m], 0.02 * wm)
            need(m == 0 or e.max() <= 1e-4, 'sectors together give %s, full spectrum is %s' % (np.sqrt(un[:m]).tolist(), np.sqrt(full[:m]).tolist()), 'partition')
            e = np.abs(fall ** 2 - full[:nb]) / np.maximum(full[:nb], 0.02 * wm)
            need(e.max() <= 1e-4, 'unrestricted run gives %s, full spectrum is %s' % (fall.tolist(), np.sqrt(full[:nb]).tolist()), 'full')
        return (not even and nz >= 2 and m >= 1), [c['variant'], '%dD' % P.L['dim'], mir, 'even-grid' if even else 'odd-grid', 'mu' if c['mu'] else 'nomu', 'gamma' if not any(P.k) else 'k']
CHECK = P07()
