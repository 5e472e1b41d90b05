# technique: property-based testing: generated material-grid structures against a numpy model of the interpolation, directional finite differences of the solver's own bands for gradients, invariants of the optimisers over generated starts
# level_note: exploration; gradients checked at mesh size 1 for non-degenerate bands; default-material grids follow the code's mirrored coordinate convention
import os, re
import numpy as np
import h5
from modes import *
import geom
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

KIND = {'min': 'U-MIN', 'prod': 'U-PROD', 'sum': 'U-SUM'}

def interp(g, p):
    """pixel-centred linear interpolation with constant extension at the edges; p: coordinate, mirrored into [0,1]"""
    out = 0.0; ax = []
    for a in range(3):
        r = abs(p[a]); r = 2 - r if r > 1 else r
        n = g.shape[a]; x = r * n - 0.5; i = int(np.floor(x)); t = x - i
        ax.append([(min(max(i, 0), n - 1), 1 - t), (min(max(i + 1, 0), n - 1), t)])
    for i, a in ax[0]:
        for j, b in ax[1]:
            for k, c in ax[2]: out += g[i, j, k] * a * b * c
    return out

class P18(Check):
    id = 'P18'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 260, 5000
    rule = ('random lattices with 1-4 block objects (periodic copies, rotated axes, plain materials and "nothing" between them) and default materials carrying 1-3 material grids of every combination kind; '
            'epsilon at every grid point covered by a grid compared with a numpy model before and after the design is changed; printed gradients contracted with a random direction compared with central differences of the bands; '
            'save / load (supercells, other sizes) / randomize against a model; maxgap, mingap, min-tetm-gap and match-epsilon-file: design in [0,1], final objective recomputed independently and not worse than the initial; '
            'non-trivial: a grid covers some but the values vary by > 5% over the points and (in gradient / optimiser cases) the derivative or the improvement is non-zero')
    assumptions = ['blocks map the unit cube of grid coordinates along their own axes', 'nlopt (MMA) is available']
    def gen(self, rng, i, tier):
        mode = ['grad', 'grad', 'grad', 'map', 'map', 'io', 'opt', 'match', 'grad', 'map'][i % 10]
        mpi = i % 20 in (4, 8, 17)
        v = 'herm' if mpi else rng.choice(['complex', 'complex', 'inv', 'inv', 'herm'])
        inv = v == 'inv'
        dim = rng.choice([2, 2, 3] if mpi else [2] if mode == 'opt' else [1, 2, 2, 2, 3])
        L = gen_lattice(rng, dim); L.pop('scale', None)
        n = gen_grid(rng, dim)
        if mpi: n = [max(x, 4) if a < dim else 1 for a, x in enumerate(n)]
        ng = rng.choice([1, 1, 2, 3]) if mode != 'opt' else rng.choice([1, 1, 2])
        kind = rng.choice(['min', 'prod', 'sum']); lo = rng.choice([1.0, 1.0, 2.0, 1.5]); hi = rng.choice([3.0, 8.0, 12.0])
        if rng.random() < 0.15: lo, hi = hi, lo
        gs = []
        for _ in range(ng):
            big = 3 if mode == 'opt' else 5
            other = rng.random() < 0.2
            gs.append({'kind': rng.choice(list(KIND)) if other else kind, 'lo': lo, 'hi': hi + (1 if other else 0), 'size': [rng.randint(1, big) if a < dim or rng.random() < 0.1 else 1 for a in range(3)], 's': rng.randrange(10 ** 6), 'sym': inv, 'small': rng.choice([0, 0, 1, 2, 3] if mode in ('grad', 'map') else [0])})
        objs = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            c = [0.0, 0.0, 0.0] if inv else [rnd(rng, -.5, .5) * L['size'][a] if a < dim else 0.0 for a in range(3)]
            s = [rnd(rng, .3, .9) for _ in range(3)]
            if rng.random() < 0.25 and not inv: s = [.9999 if a == 0 or rng.random() < .5 else x for a, x in enumerate(s)]
            s = [round(s[a] * L['size'][a], 4) if a < dim else 1e20 for a in range(3)]
            e = np.eye(3).tolist()
            if rng.random() < 0.35 and dim > 1:
                e = [[(1.0 if a == b else rnd(rng, -.4, .4, 2)) if a < dim and b < dim else float(a == b) for b in range(3)] for a in range(3)]
            o = {'k': 'block', 'c': [round(x, 4) for x in c], 's': s, 'e': e, 'm': 0, 'g': rng.choice(list(range(ng)) * 3 + [-1])}
            for _ in range(10):
                if max(geom.extent(o, L)[:dim]) <= 0.499: break
                o['s'] = [round(x * .85, 4) if x < 10 else x for x in o['s']]
            objs.append(o)
        if not any(o['g'] >= 0 for o in objs): objs[-1]['g'] = 0
        if rng.random() < 0.12: objs.append(dict(objs[0], g=-2, s=[x * .6 if x < 10 else x for x in objs[0]['s']], e=np.eye(3).tolist()))
        full = False
        if rng.random() < (0.2 if not inv else 0.0): # the whole cell is one grid: boundary points belong to two copies
            full = True; objs = [{'k': 'block', 'c': [0.0] * 3, 's': [L['size'][a] if a < dim else 1e20 for a in range(3)], 'e': np.eye(3).tolist(), 'm': 0, 'g': 0}]
        k = gen_k(rng, dim, L=L)
        if not any(k): k = [0.31 if a < dim else 0.0 for a in range(3)]
        nb = rng.randint(1, 4); N = n[0] * n[1] * n[2]; nb = min(nb, N)
        c = dict(mode=mode, variant=v, np=rng.randint(1, 4) if mpi else 0, lat=L, n=n, grids=gs, objs=objs, bgeps=rnd(rng, 1, 4, 2), default=rng.choice([-1, -1, -1, rng.randrange(ng)]) if not full else -1,
                 full=full, k=k, nb=nb, b=rng.randint(1, nb), s2=rng.randrange(10 ** 6), noise=rng.choice([0.05, 0.3, 1.0, 3.0]), sup=[rng.choice([1, 1, 2, 0.5, 3, 0]) for _ in range(3)],
                 size2=[rng.randint(1, 5) if a < dim else 1 for a in range(3)], sparse=rng.random() < 0.4)
        if mode == 'opt':
            c['opt'] = rng.choice(['tetm', 'max', 'max', 'min']); c['ks'] = [k[:2] + [0.0]] + [gen_k(rng, 2, special=False, L=L)[:2] + [0.0] for _ in range(rng.randint(0, 2))]
            c['k'][2] = 0.0
            c['nb'] = rng.randint(2, 3); c['b'] = rng.randint(1, c['nb'] - 1); c['maxeval'] = rng.randint(2, 7)
            c['n'] = [max(4, x) if a < 2 else 1 for a, x in enumerate(n)]
            if not kok(c['k'], L): c['k'] = [0.3, 0.1, 0.0]; c['ks'][0] = c['k']
        return c
    def valid(self, c):
        L = c['lat']; ng = len(c['grids'])
        if not valid_problem(dict(c, eps={'hi': 2}, mu=None, pol='')) or ng < 1 or not c['objs'] or not any(o['g'] >= 0 for o in c['objs']) or not 1 <= c['b'] <= c['nb'] or L.get('scale', 1) != 1 or not any(c['k']): return False
        if any(len(g['size']) != 3 or min(g['size']) < 1 for g in c['grids']) or len(c['size2']) != 3 or min(c['size2']) < 1 or len(c['sup']) != 3 or c['default'] >= ng or c['default'] < -1 or not c['bgeps'] >= 1: return False
        for j, o in enumerate(c['objs']):
            if o['g'] >= ng or o['g'] < -2 or (o['g'] == -2 and j < len(c['objs']) - 1) or len(o['c']) != 3 or len(o['s']) != 3 or min(o['s']) < .05 or len(o['e']) != 3 or any(len(x) != 3 for x in o['e']) or abs(np.linalg.det(np.array(o['e']))) < .2: return False
            if not c['full'] and max(geom.extent(o, L)[:L['dim']]) > 0.5 or any(abs(o['c'][a]) > .51 * L['size'][a] for a in range(L['dim'])): return False
            if c['variant'] == 'inv' and any(o['c']): return False
            if any(o['s'][a] > 10 for a in range(L['dim'])) or any(o['s'][a] < 10 for a in range(L['dim'], 3)): return False
        if c['full'] and (len(c['objs']) > 1 or c['variant'] == 'inv'): return False
        if any(g['lo'] < 1 or g['hi'] < 1 for g in c['grids']) or not 0 < c['noise'] <= 10: return False
        if c['mode'] == 'opt' and (c['b'] >= c['nb'] or c['k'][2] or not c['ks'] or L['dim'] != 2 or any(len(q) != 3 or not kok(q, L) for q in c['ks']) or c['maxeval'] < 1): return False
        return c['variant'] != 'inv' or all(g['sym'] for g in c['grids'])
    # ---- model
    def values(self, g, seed, lo=.12, hi=.88):
        r = np.random.default_rng([g['s'], seed, 9]); a = lo + (hi - lo) * r.random(g['size'])
        if g.get('small', 0): # values near zero, with exact zeros (2: among ordinary ones, 3: everywhere; not for the minimum, which has a kink where grids tie)
            q = r.random(g['size']); z = .004 + .06 * r.random(g['size'])
            a = z if g['small'] == 1 or g['kind'] == 'min' else np.where(q < .4, 0.0, a) if g['small'] == 2 else np.zeros(g['size'])
        if g['sym']: a = (a + a[::-1, ::-1, ::-1]) / 2
        return np.round(a, 6)
    def model(self, c, vals):
        """low, high allowed epsilon at every grid point (nan where no grid)"""
        P = self.P; L = c['lat']; R = rows(L); dim = L['dim']; X = P.pts()
        B = geom.unit_basis(L); objs = [geom.Obj(o, L) for o in c['objs']]
        sh = [np.array([s[a] - 1 if a < dim else 0 for a in range(3)], float) for s in np.ndindex(*(3 if a < dim else 1 for a in range(3)))]
        lo = np.full(X.shape[:3], np.nan); hi = lo.copy(); amb = np.zeros(X.shape[:3], bool); cov = np.zeros(len(c['grids']))
        G = c['grids']; comp = lambda a, b: all(a[t] == b[t] for t in ('kind', 'lo', 'hi'))
        for ix in np.ndindex(*X.shape[:3]):
            x = B @ X[ix]; stack = []     # top first: (grid index or -1/-2, coords, ambiguous)
            for o in reversed(objs):
                for s in sh:
                    p = o.P @ (x - s @ R - o.c) / np.array(o.o['s']) + .5
                    if np.all(p > -1e-9) and np.all(p < 1 + 1e-9):
                        stack.append((o.o['g'], p, bool(np.any(p < 1e-9) or np.any(p > 1 - 1e-9))))
            if any(t[2] for t in stack) and not c['full']: continue
            d = c['default']; us = []; mg = None
            if stack and stack[0][0] == -2: stack = []
            if stack:
                if stack[0][0] < 0: continue
                mg = G[stack[0][0]]; alone = True
                for g, p, a in stack:
                    if g < 0 or not comp(mg, G[g]): alone = False; break
                    us.append(interp(vals[g], p)); cov[g] += 1
                if alone and d >= 0 and comp(mg, G[d]): us.append(interp(vals[d], [0 if a >= dim else X[ix][a] / L['size'][a] for a in range(3)])); cov[d] += 1
            elif d >= 0: mg = G[d]; us.append(interp(vals[d], [0 if a >= dim else X[ix][a] / L['size'][a] for a in range(3)])); cov[d] += 1
            else: continue
            u = {'min': min(us + [1.0]), 'prod': np.prod(us), 'sum': np.mean(us)}[mg['kind']]
            u0 = u1 = u
            if c['full'] and any(t[2] for t in stack): amb[ix] = True; u0 = min([u, np.prod(us)] + us); u1 = max([u] + us)
            e = sorted([mg['lo'] + u0 * (mg['hi'] - mg['lo']), mg['lo'] + u1 * (mg['hi'] - mg['lo'])])
            if amb[ix]: e = [min(e[0], c['bgeps']), max(e[1], c['bgeps'])]     # rounding may put the point outside of all copies
            lo[ix], hi[ix] = e
        return lo, hi, amb
    def scm(self, c, vals):
        G = c['grids']; L = c['lat']
        s = ctl_lattice(L) + ctl_grid(c['n']) + ctl_common(c['nb'], tol=1e-11, mesh=1)
        for i, g in enumerate(G):
            s += self.tab('tab%d' % i, vals[i])
            ix = ['(inexact->exact (round (* %d (+ %s 0.5))))' % (m, a) for m, a in zip(g['size'], 'xyz')]
            s += '(define mg%d (make material-grid (material-grid-kind %s) (epsilon-min %s) (epsilon-max %s) (size %d %d %d) (matgrid-init (lambda (x y z) (vector-ref tab%d (+ (* %d %s) (* %d %s) %s))))))\n' % (
                i, KIND[g['kind']], sn(g['lo']), sn(g['hi']), *g['size'], i, g['size'][1] * g['size'][2], ix[0], g['size'][2], ix[1], ix[2])
        m = lambda g: 'mg%d' % g if g >= 0 else 'nothing' if g == -2 else '(make dielectric (epsilon 5))'
        class N:
            def __getitem__(self, i): return '#'
        s += '(set! default-material %s)\n' % (m(c['default']) if c['default'] >= 0 else '(make dielectric (epsilon %s))' % sn(c['bgeps']))
        s += '(set! geometry (list %s))\n' % '\n'.join(geom.Obj(o, L).scm(['#MAT#']).replace('#MAT#', m(o['g'])) for o in c['objs'])
        s += '(define (arr g) (object-property-value g (quote matgrid)))\n(define (mget g sx sy sz) (map (lambda (i) (map (lambda (j) (map (lambda (k) (array-ref (arr g) i j k)) (iota sz))) (iota sy))) (iota sx)))\n'
        s += '(define (mset g sx sy sz t) (map (lambda (i) (map (lambda (j) (map (lambda (k) (array-set! (arr g) (vector-ref t (+ (* i sy sz) (* j sz) k)) i j k)) (iota sz))) (iota sy))) (iota sx)))\n'
        return s
    def tab(self, name, a): return '(define %s (vector %s))\n' % (name, ' '.join(sn(float(x)) for x in np.asarray(a).ravel()))
    def mget(self, i, g, tag): return '(vp "%s%d" (mget mg%d %d %d %d))\n' % (tag, i, i, *g['size'])
    def mset(self, i, g, a, name): return self.tab(name, a) + '(mset mg%d %d %d %d %s)\n' % (i, *g['size'], name)
    def check_eps(self, c, d, f, vals, what, tp):
        e = h5.read(path(d, f))['data']['data']; e = shape_to(e, c['n'], tp)
        lo, hi, amb = self.model(c, vals); ok = ~np.isnan(lo)
        bad = ok & ~((e > lo - 2e-6 * np.abs(lo)) & (e < hi + 2e-6 * np.abs(hi)))
        if bad.any():
            ix = tuple(np.argwhere(bad)[0]); need(False, '%s: epsilon at grid point %s is %.9g, material grids give %.9g%s' % (what, ix, e[ix], lo[ix], '..%.9g' % hi[ix] if amb[ix] else ''), 'epsilon')
        v = e[ok]
        return len(v) > 0 and v.max() - v.min() > .05 * v.max(), e, ok
    def check_deps(self, c, r, ok, order, vals):
        """derivatives of the stored epsilon by every grid value against its change when that value moves up and down"""
        n = list(c['n']); nu = sum(vals[x].size for x in order)
        if c['variant'] == 'inv':
            a = max([i for i in range(3) if n[i] > 1] or [0]); n[a] = n[a] // 2 + 1
        T = {t: [[float(x) for x in l.split(',')[1:]] for l in re.findall(r'^%s:(.*)$' % t, r.stdout, re.M)] for t in ('depsdu', 'depsduN')}
        N = int(np.prod(n)); need(len(T['depsdu']) == N and len(T['depsduN']) == 2 * N, '%d lines of derivatives for %d points' % (len(T['depsdu']), N), 'depsdu')
        need(all(len(l) == 2 + nu for t in T.values() for l in t), 'derivatives of another number of grid values than %d' % nu, 'depsdu')
        A = np.array(T['depsdu']); up, dn = np.array(T['depsduN'][:N]), np.array(T['depsduN'][N:])
        for i, ix in enumerate(np.ndindex(*n)):
            if not ok[ix] or c['full']: continue
            need(A[i][1] == up[i][1] == dn[i][1] == i and max(abs(A[i][0] - up[i][0]), abs(A[i][0] - dn[i][0])) < 2e-5 * A[i][0], 'epsilon at point %d: %s %s %s' % (i, A[i][:2], up[i][:2], dn[i][:2]), 'depsdu')
            for j in range(2, 2 + nu):
                sc = abs(up[i][2:]).max() + 1e-3
                if abs(up[i][j] - dn[i][j]) > 2e-2 * sc: continue         # a kink
                need(abs(A[i][j] - (up[i][j] + dn[i][j]) / 2) < 1e-2 * sc, 'd epsilon / d u_%d at grid point %s: %g, differences give %g and %g' % (j - 2, ix, A[i][j], up[i][j], dn[i][j]), 'depsdu')
    def run(self, c):
        self.P = Prob(dict(c, eps={'t': 'const', 's': 1}, mu=None)); G = c['grids']; mode = c['mode']; vn = 'mpi' if c['np'] else c['variant']; tp = bool(c['np'])
        vals = [self.values(g, 1) for g in G]; new = [self.values(g, 2) for g in G]
        used = sorted(set(o['g'] for o in c['objs'] if o['g'] >= 0) | ({c['default']} if c['default'] >= 0 else set()))
        order = []
        for o in c['objs']:
            if o['g'] >= 0 and o['g'] not in order: order.append(o['g'])
        if c['default'] >= 0 and c['default'] not in order: order.append(c['default'])
        tags = [mode + ('-' + c['opt'] if mode == 'opt' else ''), vn] + sorted(set(G[g]['kind'] for g in used))
        with Scratch() as d:
            s = self.scm(c, vals)
            for i, g in enumerate(G): s += self.mget(i, g, 'a')
            run = lambda s, **kw: run_ctl(s, d, vn, np_=c['np'] or None, **kw).ok()
            chk = lambda r, tag, V: [need(np.array_equal(r.arr('%s%d' % (tag, i)), V[i]), 'values of grid %d: %s, expected %s' % (i, r.get('%s%d' % (tag, i)), V[i].tolist()), 'values') for i in range(len(G))]
            if mode in ('map', 'io'):
                s += '(init-params NO-PARITY true)(output-epsilon)\n'
                for i, g in enumerate(G): s += self.mset(i, g, new[i], 'n%d' % i)
                s += '(init-params NO-PARITY false)(set! filename-prefix "n-")(output-epsilon)\n'
                for i, g in enumerate(G): s += self.mget(i, g, 'b') + '(save-material-grid mg%d "g%d")\n' % (i, i)
                if mode == 'io':
                    for i, g in enumerate(G): s += '(randomize-material-grid! mg%d %s)\n' % (i, sn(c['noise'])) + self.mget(i, g, 'r')
                    for i, g in enumerate(G): s += '(load-material-grid! mg%d "g%d" (vector3 1 1 1))\n' % (i, i) + self.mget(i, g, 'l')
                    j = (1 + c['s2']) % len(G)
                    for i, g in enumerate(G): s += '(load-material-grid! mg%d "g%d" (vector3 %s))\n' % (i, j, ' '.join(sn(x) for x in c['sup'])) + self.mget(i, g, 's')
                r = run(s)
                chk(r, 'a', vals); chk(r, 'b', new)
                nt, e, ok = self.check_eps(c, d, 't-epsilon', vals, 'initial design', tp)
                nt2, e2, ok = self.check_eps(c, d, 'n-epsilon', new, 'changed design', tp)
                for i, g in enumerate(G):
                    q = h5.read(path(d, 'g%d' % i))['data']['data']
                    need(q.size == new[i].size and np.array_equal(np.asarray(q).ravel(), new[i].ravel()), 'saved grid %s, expected %s' % (np.asarray(q).tolist(), new[i].tolist()), 'save')
                    need(tuple(m for m in q.shape if m > 1) == tuple(m for m in new[i].shape if m > 1), 'shape of the saved grid', 'save')
                    if mode != 'io': continue
                    x = r.arr('r%d' % i); need(x.min() >= 0 and x.max() <= 1 and np.abs(x - new[i]).max() <= c['noise'] + 1e-12, 'randomised by %g: %s, from %s' % (c['noise'], x.tolist(), new[i].tolist()), 'randomize')
                    if np.prod(g['size']) > 2: need(np.abs(x - new[i]).max() > .02 * min(c['noise'], 1), 'randomising by %g changed nothing: %s' % (c['noise'], x.tolist()), 'randomize')
                    need(np.abs(r.arr('l%d' % i) - new[i]).max() < 1e-12, 'loaded grid %s, saved %s' % (r.get('l%d' % i), new[i].tolist()), 'load')
                    sup = [x if x > 0 else 1 for x in c['sup']]; x = r.arr('s%d' % i)
                    for ix in np.ndindex(*g['size']):
                        pos = [np.modf((ix[a] + .5) * sup[a] / g['size'][a])[0] for a in range(3)]
                        if any(abs(p - round(p)) < 1e-9 for p in pos): continue
                        ref = interp(new[j], pos); need(abs(x[ix] - ref) < 1e-9, 'grid loaded with %s supercells: %s at %s, expected %.9g' % (sup, x[ix], ix, ref), 'supercell')
                return nt and nt2, tags
            if mode == 'grad':
                rg = np.random.default_rng([c['s2'], 3]); dirs = {}
                for g in order:
                    v = rg.normal(size=G[g]['size'])
                    if c['sparse']: v = v * (rg.random(v.shape) < .3)
                    if G[g]['sym']: v = (v + v[::-1, ::-1, ::-1]) / 2
                    dirs[g] = v
                mx = max(np.abs(v).max() for v in dirs.values())
                if mx == 0: raise Skip('zero direction')
                nb2 = min(c['nb'] + 2, self.P.N); t = 2e-4 / mx
                s += '(set! num-bands %d)(init-params NO-PARITY true)(output-epsilon)\n' % nb2 + self.P.solve(times=4) + '(vp "f" freqs)(print "\\nGRAD")(print-material-grids-gradient %d)(print "\\n")\n' % c['b']
                for q, sg in enumerate((1, -1, 2, -2)):
                    for g in order: s += self.mset(g, G[g], vals[g] + sg * t * dirs[g], 'u%d_%d' % (q, g))
                    s += '(init-params NO-PARITY false)\n' + self.P.solve(times=4) + '(vp "f" freqs)\n'
                for g in order: s += self.mset(g, G[g], vals[g], 'u%d' % g)
                one = c['variant'] != 'inv' and not c['np']
                if one: s += '(init-params NO-PARITY false)\n' + self.P.solve(times=3) + '(vp "ag" (material-grids-approx-gradient %s %d %d 1e-4))\n' % (v3(c['k']), c['b'], c['s2'] % sum(vals[g].size for g in order))
                if not c['np']: s += '(init-params NO-PARITY false)(print "\nDEPS\n")(print-material-grids-deps-du)(print-material-grids-deps-du-numeric 1e-4)(print-material-grids-deps-du-numeric -1e-4)\n'
                for i, g in enumerate(G): s += self.mget(i, g, 'b')
                r = run(s); chk(r, 'b', vals)
                nt, e, ok = self.check_eps(c, d, 't-epsilon', vals, 'initial design', tp)
                if not c['np']: self.check_deps(c, r, ok, order, vals)
                f0 = r.arr('f'); b = c['b'] - 1; w = f0 ** 2
                gap = min([abs(w[b] - w[j]) for j in (b - 1, b + 1) if 0 <= j < len(w)] or [1])
                if f0[b] < .1 * f0.max() or gap < .04 * w[b] or (b + 1 >= len(w) and b + 1 < self.P.N): raise Skip('degenerate band')
                m = re.search(r'GRAD((?:, [-+\w.]+)*)', r.stdout); need(m, 'no gradient printed', 'grad')
                g = np.array([float(x) for x in m.group(1).split(',')[1:]])
                need(len(g) == sum(vals[x].size for x in order), 'gradient has %d entries, the grids %d' % (len(g), sum(vals[x].size for x in order)), 'grad')
                v = np.concatenate([dirs[x].ravel() for x in order])
                f = [r.arr('f', q)[b] for q in (1, 2, 3, 4)]
                d1, d2 = (f[0] - f[1]) / (2 * t), (f[2] - f[3]) / (4 * t); ana = g @ v
                scale = max(np.abs(g * v).sum(), 1e-4 * f0[b])
                dl, dr = (f[0] - f0[b]) / t, (f0[b] - f[1]) / t
                if abs(dl - dr) > .05 * scale or abs(d1 - d2) > 2e-3 * scale: raise Skip('not differentiable there')
                if c['full']: # the boundary is shared by the periodic copies
                    need(abs(ana - d1) < .01 * scale, 'full-cell grid: printed gradient along the direction %.7g, finite difference %.7g' % (ana, d1), 'gradient')
                need(abs(ana - d1) < 4e-3 * scale + 1e-6, 'band %d: printed gradient contracted with a direction %.7g, finite difference %.7g (gradient %s, direction %s)' % (c['b'], ana, d1, g.tolist(), v.round(4).tolist()), 'gradient')
                if one:
                    iu = c['s2'] % len(g); ag = r.get('ag'); need(abs(ag - g[iu]) < 1e-2 * np.abs(g).max() + 1e-4, 'approximate gradient %g, printed %g' % (ag, g[iu]), 'approx') if 'min' not in tags else None
                    m = re.search(r'approxgrad: ntot=(\d+), u\[(\d+)\] = (\S+) -> f_(\d+) = (\S+), u \+= (\S+) -> f_\d+ = (\S+); df/du = (\S+) vs. analytic (\S+)', r.stdout)
                    need(m and abs(float(m.group(9)) - g[iu]) < 1e-3 * np.abs(g).max() + 1e-9 and int(m.group(2)) == iu, 'approxgrad line %s, printed gradient %g' % (m and m.group(0), g[iu]), 'approx')
                return nt and abs(ana) > 1e-3 * scale and np.abs(g).max() > 1e-6, tags
            tol = 1e-4
            if mode == 'match':
                s += '(init-params NO-PARITY true)\n'
                for i, g in enumerate(G): s += self.mset(i, g, new[i], 'n%d' % i)
                s += '(init-params NO-PARITY false)(set! filename-prefix "w-")(output-epsilon)\n'
                rg = np.random.default_rng([c['s2'], 4])
                for i, g in enumerate(G): s += self.mset(i, g, vals[i], 'o%d' % i)
                other = c['s2'] % 3 == 0
                if other:
                    E = np.round(2 + 6 * rg.random([m if a < c['lat']['dim'] else 1 for a, m in enumerate(c['size2'])]), 4); h5.write(os.path.join(d, 'T.h5'), {'data': E.reshape([m for a, m in enumerate(E.shape) if a < c['lat']['dim']])})
                s += '(init-params NO-PARITY false)(set! filename-prefix "b-")(output-epsilon)(material-grids-match-epsilon-file! "%s" 1e-4)(set! filename-prefix "m-")(output-epsilon)\n' % ('T' if other else 'w-epsilon')
                for i, g in enumerate(G): s += self.mget(i, g, 'b')
                if not other and tp: raise Skip('transposed file')
                r = run(s); got = [r.arr('b%d' % i) for i in range(len(G))]
                for i, x in enumerate(got):
                    need(x.min() >= -1e-12 and x.max() <= 1 + 1e-12, 'design left [0,1]: %s' % x.tolist(), 'range')
                    if i not in used: need(np.array_equal(x, vals[i]), 'an unused grid changed', 'values')
                rd = lambda f: shape_to(h5.read(path(d, f))['data']['data'], c['n'], tp)
                tgt = np.zeros(c['n'])
                if other:
                    for ix in np.ndindex(*c['n']): tgt[ix] = interp(E, [(ix[a] + .5) / c['n'][a] for a in range(3)])
                else: tgt = rd('w-epsilon')
                if c['variant'] != 'inv' or all(np.abs(x - x[::-1, ::-1, ::-1]).max() < 1e-7 for x in got): self.check_eps(c, d, 'm-epsilon', got, 'matched design', tp)
                rms = lambda e: float(np.sqrt(((e - tgt) ** 2).mean()))
                b0, b1 = rms(rd('b-epsilon')), rms(rd('m-epsilon'))
                L = [float(x) for x in re.findall(r'match-epsilon-file:, \d+, (\S+)', r.stdout)]; m = re.search(r'match-epsilon-file converged to (\S+) after (\d+)', r.stdout)
                need(L and m, 'no progress printed', 'match'); sc = max(np.abs(tgt).max(), 1)
                if not other or c['variant'] != 'inv': need(abs(L[0] - b0) < 1e-4 * sc, 'initial distance printed %g, actual %g' % (L[0], b0), 'match')
                need(abs(float(m.group(1)) - b1) < 1e-4 * sc, 'final distance printed %s, actual %g' % (m.group(1), b1), 'match')
                need(b1 <= b0 + 1e-5 * sc, 'the matched design is worse: %g from %g' % (b1, b0), 'worse')
                if not other and len(c['objs']) == 1 and c['default'] < 0 and b0 > .02:
                    need(b1 < .35 * b0, 'single grid: distance only reduced from %g to %g after %s evaluations although an exact match exists' % (b0, b1, m.group(2)), 'stuck')
                return b0 - b1 > 1e-3, tags
            # optimisers
            o = c['opt']; ks = [c['k']] if o == 'tetm' else c['ks']; b = c['b']
            def obj(V, tag):
                """the objective of the design V, by ordinary solves"""
                q = self.scm(c, V)
                for par in (('TE', 'TM') if o == 'tetm' else ('NO-PARITY',)):
                    q += '(init-params %s true)\n' % par
                    for k in ks: q += ('(solve-kpoint %s)' % v3(k)) * 4 + '(vp "f" freqs)\n'
                rr = run_ctl(q, d, vn, np_=c['np'] or None, name=tag + '.ctl').ok('objective')
                F = [rr.arr('f', i) for i in range(len(ks) * (2 if o == 'tetm' else 1))]
                if o == 'tetm': return F[0][b - 1] - F[1][b - 1]
                f1 = max(f[b - 1] for f in F); f2 = min(f[b] for f in F)
                if not f1 + f2 > 1e-3: raise Skip('zero frequencies')
                return 2 * (f2 - f1) / (f1 + f2)
            s += '(set! tolerance 1e-8)(init-params NO-PARITY true)\n'
            if o == 'tetm': s += '(vp "res" (material-grids-min-tetm-gap %s %d 0 0 %d 0))\n' % (v3(c['k']), b, c['maxeval'])
            else: s += '(vp "res" (material-grids-%sgap (list %s) %d %d 0 0 %d 0))\n' % (o, ' '.join(v3(k) for k in ks), b, b + 1, c['maxeval'])
            for i, g in enumerate(G): s += self.mget(i, g, 'b')
            r = run(s, timeout=300)
            got = [r.arr('b%d' % i) for i in range(len(G))]
            for i, x in enumerate(got):
                need(x.min() >= -1e-12 and x.max() <= 1 + 1e-12, 'design left [0,1]: %s' % x.tolist(), 'range')
                if i not in used: need(np.array_equal(x, vals[i]), 'an unused grid changed', 'values')
            a, z = obj(vals, 'a'), obj(got, 'z')
            need(abs(r.get('res') - z) < 2e-3, 'reported objective %g, that of the final design %g (before %g)' % (r.get('res'), z, a), 'objective')
            if o == 'max': need(z >= a - 3e-3, 'the gap shrank from %g to %g' % (a, z), 'worse')
            elif o == 'tetm': need(z <= a + 3e-3, 'the TE-TM difference grew from %g to %g' % (a, z), 'worse')
            return abs(z - a) > 1e-4, tags
CHECK = P18()
