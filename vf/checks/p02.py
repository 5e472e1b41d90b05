# technique: property-based testing: generated geometries; dielectric tensors of every grid point against an independent geometry model (point membership, Wiener bounds, Kottke formula for flat and round interfaces) and metamorphic rewrites of the geometry
# level_note: exploration; exact values asserted in homogeneous pixels and (to the averaging tolerance) at two-material flat, spherical and cylindrical interfaces, bounds elsewhere
import re
import numpy as np
from geom import *
from modes import read_scl
import h5
from mpbrun import run_ctl, Scratch, need, Fail, Skip
from pbt import Check

class P02(Check):
    id = 'P02'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 420, 12000
    rule = ('random lattice, 1-4 random primitives (blocks, ellipsoids, spheres, cylinders, cones; lattice translations, overlaps, "nothing"), 2-3 random isotropic/anisotropic/Hermitian materials, '
            'optionally magnetic or given as material functions; every grid point compared; non-trivial: at least one homogeneous pixel of two different materials and one interface pixel')
    assumptions = ['numpy membership model of the primitives', 'fill fractions sampled to about 0.03']
    def gen(self, rng, i, tier):
        variant = rng.choice(['complex', 'complex', 'herm', 'inv']); dim = rng.choice([1, 2, 2, 3, 3])
        L = gen_lattice(rng, dim); L.pop("scale", None)
        n = [1, 1, 1]
        for a in range(dim): n[a] = rng.randint(*((8, 40), (7, 20), (4, 8))[dim - 1])
        mu = rng.random() < 0.25
        g = gen_geo(rng, L, herm=variant == 'herm', mu=mu, inv=variant == 'inv', nobj=1 if rng.random() < 0.45 else None)
        mesh = rng.choice([3, 3, 3, 3, 1, 2, 4, 7])
        if rng.random() < 0.3 and dim > 1:    # one large smooth object on a finer grid
            for a in range(dim): n[a] = rng.randint(*((14, 26) if dim == 2 else (7, 10)))
            g['objs'] = g['objs'][:1] if variant != 'inv' or not any(g['objs'][0]['c']) else g['objs'][:2]
            for o in g['objs']:
                if o['k'] in ('sphere', 'cyl'): o['r'] = 0.55
                if o['k'] in ('block', 'ellip') and variant != 'inv':
                    o['k'] = 'block'; o['s'] = [0.62 if x < 10 else x for x in o['s']]
                if max(extent(o, L)[:dim]) > 0.9: o['r'] = 0.3; o['s'] = [0.3 if x < 10 else x for x in o.get('s', [])]
                if 's' in o and o['k'] not in ('block', 'ellip') or not o.get('s'): o.pop('s', None)
                if 'r' in o and o['k'] in ('block', 'ellip'): o.pop('r')
        funcs = sorted({rng.randrange(len(g['mats']))}) if rng.random() < 0.2 else []
        tr = [self.moves(o, L, n, rng) for o in g['objs']]
        return dict(variant=variant, lat=L, n=n, geo=g, mesh=mesh, funcs=funcs, tr=tr, mode=rng.choice(['tr', 'tr', 'order', 'shadow', 'default', 'default', 'parity']))
    def valid(self, c):
        L = c['lat']
        return (len(c['n']) == 3 and 1 <= L['dim'] <= 3 and all(4 <= c['n'][a] <= 40 for a in range(L['dim'])) and all(c['n'][a] == 1 for a in range(L['dim'], 3)) and all(s > 0.4 for s in L['size'])
                and all(0.6 < b < 1.5 for b in L['bsize']) and all(len(b) == 3 for b in L['basis']) and abs(np.linalg.det(rows(L))) > 0.2 and 1 <= c['mesh'] <= 7 and valid_geo(c['geo'], L)
                and all(f < len(c['geo']['mats']) for f in c['funcs']) and len(c['tr']) == len(c['geo']['objs']) and all(len(t) == 3 and not any(t[L['dim']:]) and all(x == 0 or (x == -np.sign(o['c'][a]) and extent(o, L)[a] < abs(o['c'][a]) / L['size'][a] + 0.5 - 1.6 / c['n'][a]) for a, x in enumerate(t)) for o, t in zip(c['geo']['objs'], c['tr']))
                and (c['variant'] != 'inv' or len(c['geo']['objs']) <= 1 and all(not any(o['c']) and o['k'] != 'cone' for o in c['geo']['objs']) or c.get('keepinv', True)))
    def moves(self, o, L, n, rng):
        """lattice translations that keep every relevant copy within one period of the object (libctl looks no further)"""
        t = [0, 0, 0]; ext = extent(o, L)
        for a in range(L['dim']):
            f = o['c'][a] / L['size'][a]
            if f != 0 and ext[a] < abs(f) + 0.5 - 1.6 / n[a] and rng.random() < 0.8: t[a] = -1 if f > 0 else 1
        return t
    def get(self, c, text, mu=False):
        with Scratch() as d:
            s = ctl_lattice(c['lat']) + ctl_grid(c['n']) + '(set! mesh-size %d)(set! num-bands 1)\n' % c['mesh'] + text + '(init-params NO-PARITY true)(output-epsilon)' + ('(output-mu)' if mu else '')
            r = run_ctl(s, d, c['variant']).ok()
            h = h5.read(d + '/t-epsilon.h5')['data']
            m = h5.read(d + '/t-mu.h5')['data']['data'] if mu else None
        return r, h, m
    def run(self, c):
        L, n, dim = c['lat'], c['n'], c['lat']['dim']
        gj = c['geo']; G = Geo(L, gj['objs'], gj['mats'], gj['default'])
        mu = any(m['mu'] for m in gj['mats'])
        extra = '(set! force-mu? true)\n' if mu else ''
        r, h, mdat = self.get(c, extra + G.ctl(funcs=c['funcs']), mu)
        E, EI = read_eps(h, n, c['variant']); data = np.asarray(h['data']).reshape(n)
        # consistency of the representations
        need(np.abs(E @ EI - np.eye(3)).max() < 1e-8, 'epsilon and its inverse do not match', 'inverse')
        need(np.abs(data - 2 / np.linalg.eigvalsh(EI)[..., :2].sum(-1)).max() < 1e-7, 'scalar epsilon is not the inverse of the mean of the two smaller eigenvalues of 1/eps', 'scalar')
        m = re.search(r'^epsilon: (\S+?)-(\S+), mean (\S+), harm. mean (\S+), (\S+)% > 1, (\S+)% "fill"', r.stdout, re.M)
        need(m, 'no statistics line', 'stats')
        st = [float(x) for x in m.groups()]
        lo, hi = data.min(), data.max(); mean = data.mean(); harm = 1 / (1 / data).mean()
        fillp = 100 * (mean - lo) / (hi - lo) if hi > lo else 100
        nin = c['variant'] == 'inv'
        ref = [lo, hi, mean, harm, 100 * (data > 1.0001).mean(), fillp]
        tolf = [2e-5, 2e-5, 2e-5, 2e-5, 2e-5, 2e-4 if hi > lo * 1.001 else 9e9]
        invok = True
        if nin:   # the inversion-symmetric build stores half the grid: geometry must be symmetric for the comparison to make sense
            X0 = (refgrid(n) - 0.5 * np.array([a < dim for a in range(3)])) @ rows(L)
            invok = symmetric(c, gj)
        for a, (x, y, t) in enumerate(zip(st, ref, tolf)):
            need(abs(x - y) <= t * max(1, abs(y)) or not invok, 'statistics %s, from the grid %s' % (st, ref), 'stats')
        if not invok: return False, ['inv-asymmetric']
        # model
        eps = [mat_eps(x) for x in gj['mats']]; mus = [mat_mu(x) for x in gj['mats']]
        frac = refgrid(n) - 0.5 * np.array([a < dim for a in range(3)])
        R = rows(L); step = np.array([1.0 / n[a] if a < dim else 0 for a in range(3)])
        q = 4 if dim == 3 else (12 if dim == 2 else 40)
        u = np.linspace(-0.5 * 1.0005, 0.5 * 1.0005, q + 1)
        off = np.stack(np.meshgrid(*[u if a < dim else [0.0] for a in range(3)], indexing='ij'), -1).reshape(-1, 3) * step
        P = frac.reshape(-1, 3)
        X = ((P[:, None] + off[None]).reshape(-1, 3)) @ R
        W = G.which(X).reshape(len(P), -1)
        tab = np.array([o['m'] if o['m'] >= 0 else gj['default'] for o in gj['objs']] + [gj['default']])
        MI = tab[W]
        Ef = E.reshape(-1, 3, 3); nh = ni = nk = 0; hm = set(); skewn = None
        mflat = None if mdat is None else np.asarray(mdat).reshape(-1)
        tensm = [2 / np.linalg.eigvalsh(np.linalg.inv(x))[:2].sum() for x in mus]
        cen = G.which(P @ R); cenm = tab[cen]
        for i in range(len(P)):
            w, mi = W[i], MI[i]
            mats = np.unique(mi); objs = np.unique(w)
            where = 'grid point %s' % (np.unravel_index(i, n),)
            if c['mesh'] == 1:
                # plain sampling at the grid point; skip points within rounding of a surface
                near = G.which((P[i] + 1e-7 * np.array([[a, b, d] for a in (-1, 1) for b in (-1, 1) for d in (-1, 1)]) * (step > 0)) @ R)
                if len(np.unique(tab[near])) == 1:
                    need(np.abs(Ef[i] - eps[cenm[i]]).max() < 1e-8 * 13, '%s: epsilon %s, material at the point has %s' % (where, Ef[i].tolist(), eps[cenm[i]].tolist()), 'point-sample')
                    nh += 1; hm.add(cenm[i]); ni += 1
                continue
            if len(mats) == 1:
                need(np.abs(Ef[i] - eps[mats[0]]).max() < 1e-8 * 13, '%s lies in material %d only: epsilon %s, material has %s' % (where, mats[0], Ef[i].tolist(), eps[mats[0]].tolist()), 'homogeneous')
                if mflat is not None: need(abs(mflat[i] - tensm[mats[0]]) < 1e-7, '%s: mu %s, material has %s' % (where, mflat[i], tensm[mats[0]]), 'homogeneous-mu')
                nh += 1; hm.add(int(mats[0])); continue
            # interface: bounds
            ev = np.linalg.eigvalsh(Ef[i])
            allv = np.concatenate([np.linalg.eigvalsh(eps[k]) for k in mats])
            if ev[0] < allv.min() - 1e-8 or ev[-1] > allv.max() + 1e-8:      # a sliver may have been missed: sample densely
                u2 = np.linspace(-0.52, 0.52, 41 if dim == 3 else 201)
                o2 = np.stack(np.meshgrid(*[u2 if a < dim else [0.0] for a in range(3)], indexing='ij'), -1).reshape(-1, 3) * step
                mats = np.unique(G.matidx((P[i] + o2) @ R)); allv = np.concatenate([np.linalg.eigvalsh(eps[k]) for k in mats])
            need(ev[0] >= allv.min() - 1e-8 and ev[-1] <= allv.max() + 1e-8, '%s: eigenvalues %s outside those of the materials present' % (where, ev), 'range')
            ni += 1
            if mflat is not None:
                av = np.concatenate([np.linalg.eigvalsh(mus[k]) for k in mats])
                need(av.min() - 1e-8 <= mflat[i] <= av.max() + 1e-8, '%s: mu %s outside the range of the materials' % (where, mflat[i]), 'range-mu')
            if len(objs) == 2 and len(mats) == 2 and not (set(tab[objs]) & set(c['funcs'])):
                top = int(objs.max()); bot = int(objs.min()); o = G.objs[top]
                f = None
                if nin and 2 * np.unravel_index(i, n)[dim - 1] > n[dim - 1]: continue    # not stored: the mirror image of another pixel
                res = self.iface(G, L, o, P[i], R, step, dim)
                if res is None: continue
                nrm, flat = res
                fs = 14 if dim == 3 else 60 if dim == 2 else 2000
                uu = (np.arange(fs) + 0.5) / fs - 0.5
                oo = np.stack(np.meshgrid(*[uu if a < dim else [0.0] for a in range(3)], indexing='ij'), -1).reshape(-1, 3) * step
                f = (G.which((P[i] + oo) @ R) == top).mean()
                # detection looks at the centre and the corners of the pixel
                cor = np.stack(np.meshgrid(*[[-0.5, 0.5] if a < dim else [0.0] for a in range(3)], indexing='ij'), -1).reshape(-1, 3) * step
                det = len(np.unique(np.append(G.which((P[i] + cor * 0.999) @ R), cen[i]))) > 1 
                det2 = len(np.unique(np.append(G.which((P[i] + cor * 1.001) @ R), cen[i]))) > 1
                if not (det and det2): continue
                nrm = nrm / np.linalg.norm(nrm)
                et, eb = eps[tab[top]], eps[tab[bot]]
                mid = kottke(et, eb, f, nrm)
                df = 0.012 + (0.004 if flat else 0.01) + 1.0 / fs * (0.6 if dim > 1 else 1)
                ks = [kottke(et, eb, min(1, max(0, f + s * df)), nrm) for s in (-1, 1)]
                slack = max(np.abs(ks[0] - mid).max(), np.abs(ks[1] - mid).max()) * 1.5 + 1e-6
                if o.k == 'block' and np.abs(Ef[i] - mid).max() > slack:
                    # known finding: in a non-orthogonal lattice libctl's face normals are covariant components taken as contravariant ones
                    Bu = o.B; Pl = np.linalg.inv(np.linalg.inv(Bu) @ o.E)
                    j = int(np.argmin([np.linalg.norm(np.cross(o.P[j] / np.linalg.norm(o.P[j]), nrm)) for j in range(3)]))
                    nk2 = Bu @ Pl[j]; nk2 = nk2 / np.linalg.norm(nk2)
                    m2 = kottke(et, eb, f, nk2)
                    if np.linalg.norm(np.cross(nk2, nrm)) > 1e-6 and np.abs(Ef[i] - m2).max() <= 1.5 * max(np.abs(kottke(et, eb, min(1, max(0, f + s_ * df)), nk2) - m2).max() for s_ in (-1, 1)) + 1e-6:
                        skewn = skewn or (where, Ef[i].tolist(), mid.tolist()); nk += 1; continue
                need(np.abs(Ef[i] - mid).max() <= slack, '%s: interface of object %d (%s), fill %.4f, normal %s: epsilon %s, expected %s +- %.3g' % (where, top, o.k, f, nrm.tolist(), Ef[i].tolist(), mid.tolist(), slack), 'interface')
                nk += 1
        # the same geometry written differently
        mode = c['mode']; text = None
        if mode == 'tr':
            o2 = [dict(o, c=[o['c'][a] + t[a] * L['size'][a] if a < dim else o['c'][a] for a in range(3)]) for o, t in zip(gj['objs'], c['tr'])]
            text = Geo(L, o2, gj['mats'], gj['default']).ctl(funcs=c['funcs'])
        elif mode == 'shadow' and gj['objs']:   # an object hidden by an identical later one
            o2 = [dict(gj['objs'][0], m=(gj['objs'][0]['m'] + 1) % len(gj['mats']))] + gj['objs']
            text = Geo(L, o2, gj['mats'], gj['default']).ctl(funcs=c['funcs'])
        elif mode == 'default' and not c['funcs']:   # a block filling space instead of the default material
            o2 = [{'k': 'block', 'c': [0, 0, 0], 'm': gj['default'], 's': [1e20] * 3, 'e': [[1, 0, 0], [0, 1, 0], [0, 0, 1]]}] + [dict(o, m=o['m'] if o['m'] >= 0 else gj['default']) for o in gj['objs']]
            text = Geo(L, o2, gj['mats'], (gj['default'] + 1) % len(gj['mats'])).ctl()
        elif mode == 'order' and len(gj['objs']) == 2:
            if c['funcs'] == [] and not self.touch(G, L, n): text = G.ctl(order=[1, 0])
        elif mode == 'parity': text = G.ctl(funcs=c['funcs']) + '(set! num-bands 2)(init-params EVEN-Y false)\n' 
        if text:
            r2, h2, _ = self.get(c, extra + text)
            E2, _ = read_eps(h2, n, c['variant'])
            con = max([np.abs(a_ - b_).max() for a_ in eps for b_ in eps])
            tolp = np.where([len(np.unique(MI[i])) == 1 for i in range(len(P))], 1e-6 * 13, 1e-6 * 13 + 0.03 * con)
            bad = np.argwhere(np.abs(E2 - E).reshape(len(P), -1).max(1) > tolp)
            ok = True
            for (i,) in bad.tolist():
                # surfaces passing within rounding of a sampling point may fall either way
                if mode in ('tr', 'shadow', 'order') or mode == 'default':
                    pts = (P[i] + off[None].reshape(-1, 3) * 0.9999); 
                    if len(np.unique(MI[i])) == 1: ok = False; break
                    raise Fail('grid point %s: epsilon %s, but %s when the same geometry is written differently (%s)' % (np.unravel_index(i, n), Ef[i].tolist(), E2.reshape(-1, 3, 3)[i].tolist(), mode), 'rewrite') if not self.tie(G, P[i], off, step, R) else Skip('tie')
                ok = False; break
            need(ok, 'grid point %s: epsilon changes when the same geometry is written differently (%s)' % (bad[:1], mode), 'rewrite')
        if skewn: raise Fail('%s: interface of a block in a non-orthogonal lattice: epsilon %s, expected %s (the face normal is wrong)' % skewn, 'block-normal-skew')
        tags = ['%dD' % dim, c['variant'], 'mesh%d' % c['mesh'], mode, 'mu' if mu else 'nomu', 'func' if c['funcs'] else 'nofunc', 'kottke' if nk else 'nokottke']
        return nh > 0 and ni > 0 and len(hm) > 1, tags
    def tie(self, G, p, off, step, R):
        """a corner or the centre of the pixel lies on a surface (within rounding)"""
        cor = np.array([[a, b, d] for a in (-0.5, 0, 0.5) for b in (-0.5, 0, 0.5) for d in (-0.5, 0, 0.5)]) * step
        e = np.array([[a, b, d] for a in (-1, 0, 1) for b in (-1, 0, 1) for d in (-1, 0, 1)]) * 1e-9
        for q in cor:
            if len(np.unique(G.which(((p + q) + e * (step > 0)) @ R))) > 1: return True
        return False
    def touch(self, G, L, n):
        """do the two objects come within two pixels of overlapping anywhere?"""
        m = [min(60, 6 * x) if x > 1 else 1 for x in n]
        if max(n) > 20 and len([x for x in n if x > 1]) > 1: m = [min(3 * x, 60) if x > 1 else 1 for x in n]
        dim = L['dim']; R = rows(L)
        F = refgrid(m) - 0.5 * np.array([a < dim for a in range(3)])
        X = F.reshape(-1, 3) @ R
        a = Geo(L, [G.objs[0].o], G.mats, G.default).which(X).reshape(m) >= 0
        b = Geo(L, [G.objs[1].o], G.mats, G.default).which(X).reshape(m) >= 0
        def grow(z):
            for ax in range(dim):
                k = int(np.ceil(1.6 * m[ax] / n[ax])); y = z.copy()
                for s in range(-k, k + 1): y |= np.roll(z, s, ax)
                z = y
            return z
        return bool((grow(a) & grow(b)).any())
    def iface(self, G, L, o, p, R, step, dim):
        """(normal, flat) when the pixel sees a single face of a block, a sphere or the side of a cylinder; else None"""
        x = p @ R
        Bm = R[:dim]
        # nearest periodic copy
        best = None
        span = np.linalg.norm(step @ np.abs(R)) 
        sh = G.shifts
        rad = 0.5 * sum(np.linalg.norm(step[a] * R[a]) for a in range(dim))
        cand = []
        for s in sh:
            y = x - (s @ R) - np.round(p @ np.eye(3))[0] * 0
            d = y - o.c
            if o.k == 'sphere':
                t = np.linalg.norm(d)
                if abs(t - o.o['r']) < rad: cand.append((d, True))
            elif o.k == 'cyl':
                t = d @ o.ax; rr = d - t * o.ax
                if abs(np.linalg.norm(rr) - o.o['r']) < rad:
                    if abs(t) < o.o['h'] / 2 - rad: cand.append((rr, True))
                    elif abs(t) < o.o['h'] / 2 + rad: return None
                elif np.linalg.norm(rr) < o.o['r'] + rad and abs(abs(t) - o.o['h'] / 2) < rad:
                    if np.linalg.norm(rr) < o.o['r'] - rad: cand.append((o.ax, False))
                    else: return None
            elif o.k == 'block':
                pr = o.P @ d; s2 = np.array(o.o['s']) / 2
                ext = np.array([sum(abs(o.P[j] @ R[a]) * step[a] for a in range(dim)) for j in range(3)])
                near = np.abs(np.abs(pr) - s2) < 1.5 * ext + 1e-9
                inside = np.abs(pr) < s2 + 1.5 * ext + 1e-9
                if near.any() and inside.all():
                    if near.sum() > 1: return None
                    j = int(np.argmax(near))
                    # the face must also be the nearest one as the distance is measured along the axes
                    dist = np.abs(np.abs(pr) - s2)
                    if np.argsort(dist)[0] != j: return None
                    if s2[j] * 2 < 4 * ext[j]: return None
                    cand.append((o.P[j], False))
            else: return None
        if len(cand) != 1: return None
        d, curved = cand[0]
        if dim < 3:
            # normal within the periodic directions: project onto the span of the lattice
            Q = np.linalg.qr(R[:dim].T)[0]
            dp = Q @ (Q.T @ d)
            if np.linalg.norm(dp - d) > 1e-6 * np.linalg.norm(d): return None
            d = dp
        if curved:
            r0 = o.o['r']
            if rad > 0.6 * r0: return None      # too coarse for a flat approximation to be specified
        if np.linalg.norm(d) < 1e-9: return None
        return d, not curved

def refgrid(n):
    ax = [np.arange(m) / m for m in n]
    return np.stack(np.meshgrid(*ax, indexing='ij'), -1)

def symmetric(c, gj):
    """geometry unchanged by inversion (checked on a random cloud)"""
    L = c['lat']; dim = L['dim']; G = Geo(L, gj['objs'], gj['mats'], gj['default'])
    X = np.random.default_rng(3).random((3000, 3)) - 0.5; X[:, dim:] = 0
    X = X @ rows(L)
    return bool(np.array_equal(G.matidx(X), G.matidx(-X)))
CHECK = P02()
