# technique: property-based testing, model-based: generated histories of field-variable operations executed by mpb and by a numpy model of the fields
# level_note: exploration; in the inversion-symmetric build pointwise functions that do not commute with complex conjugation are outside the domain (a field without the symmetry is not representable)
import numpy as np
from obs import *
import expr, geom
from mpbrun import need, Fail, Skip, run_ctl, Scratch
from pbt import Check

def kind(tc): return 'V' if tc in 'dhbecv' else 'C' if tc == 'C' else 'R'
def comps(j): return ('x%d' % j, 'y%d' % j, 'z%d' % j)

def arg_names(kinds):
    rv, cv, nm = [], [], {}
    for j, k in enumerate(kinds):
        if k == 'R': rv.append('u%d' % j); nm['u%d' % j] = 'a%d' % j
        elif k == 'C': cv.append('c%d' % j); nm['c%d' % j] = 'a%d' % j
        else:
            for q, ax in zip(comps(j), 'xyz'): cv.append(q); nm[q] = '(vector3-%s a%d)' % (ax, j)
    return rv, cv, nm

def env_of(vals):
    e = {}
    for j, (tc, A) in enumerate(vals):
        if kind(tc) == 'R': e['u%d' % j] = A
        elif kind(tc) == 'C': e['c%d' % j] = A
        else:
            for q, a in zip(comps(j), range(3)): e[q] = A[..., a]
    return e

class Model:
    """tracks types; with base fields also values"""
    def __init__(self, P, c, base=None):
        self.P, self.c, self.base = P, c, base
        self.cur = None; self.vars = {}; self.text = ''; self.exp = []; self.nops = 0
        self.mu = using_mu(c)
    def B(self, t, b): return None if self.base is None else self.base[t, b]
    def getcur(self, r):
        return self.cur if r == 'cur' else self.vars.get(r)
    def ref(self, r): return 'cur-field' if r == 'cur' else 'fv-%s' % r
    def put(self, r, v):
        if r == 'cur': self.cur = v
        else: self.vars[r] = v
    def emit(self, s): self.text += s + '\n'; self.nops += 1
    def expect(self, what, kindv, val, mag):
        self.exp.append((what, kindv, val, mag))
    def step(self, i, o):
        op = o['op']; P = self.P; N = P.n
        if op == 'get':
            t, b = o['t'], o['b']
            if t in 'dehb': self.emit('(get-%sfield %d)' % (t, b)); self.cur = (t, self.B(t, b))
            elif t == 'S':
                self.emit('(get-poynting %d)' % b); self.cur = ('v', None if self.base is None else np.cross(self.B('e', b).conj(), self.B('h', b)))
            elif t == 'T':
                self.emit('(get-tot-pwr %d)' % b); A = None
                if self.base is not None: A = self.energy('d', self.B('d', b)) + self.energy('b', self.B('b', b))
                self.cur = ('R', A)
            elif t == 'n': self.emit('(get-epsilon)'); self.cur = ('n', self.B('n', 0))
            elif t == 'C':
                if P.variant == 'inv': return
                self.emit('(get-dfield %d)(compute-field-divergence)' % b); self.cur = ('C', self.B('C', b))
        elif op == 'energy':
            if not self.cur or self.cur[0] not in 'dhb' or (self.cur[0] == 'h' and self.mu): return
            self.emit('(compute-field-energy)'); t, A = self.cur
            self.cur = (t.upper(), None if A is None else self.energy(t, A))
        elif op == 'copy':
            s = self.getcur(o['s'])
            if not s: return
            self.emit('(define fv-%s (field-copy %s))' % (o['d'], self.ref(o['s']))); self.vars[o['d']] = s
        elif op == 'make':
            s = self.getcur(o['s'])
            if not s: return
            k = o['k']; k = {'R': 'R', 'V': 'V'}.get(k, kind(s[0]))
            f = {'R': 'rscalar-field-make', 'V': 'cvector-field-make'}.get(o['k'], 'field-make')
            self.emit('(define fv-%s (%s %s))' % (o['d'], f, self.ref(o['s'])))
            self.vars[o['d']] = ({'R': 'R', 'V': 'c', 'C': 'C'}[k], None if self.base is None else np.zeros(tuple(N) + ((3,) if k == 'V' else ()), float if k == 'R' else complex))
        elif op == 'mkC':
            self.emit('(get-dfield 1)(compute-field-divergence)(define fv-%s (field-copy cur-field))' % o['d'])
            self.cur = ('C', self.B('C', 1)); self.vars[o['d']] = self.cur
            if P.variant == 'inv':
                self.emit('(get-dfield 1)(field-map! fv-%s (lambda (u) (vector3-x u)) cur-field)' % o['d']); self.cur = ('d', self.B('d', 1))
                self.vars[o['d']] = ('C', None if self.base is None else self.B('d', 1)[..., 0])
        elif op == 'set':
            a, b = self.getcur(o['d']), self.getcur(o['s'])
            if not a or not b or kind(a[0]) != kind(b[0]) or o['d'] == o['s']: return
            self.emit('(field-set! %s %s)' % (self.ref(o['d']), self.ref(o['s']))); self.put(o['d'], b)
        elif op == 'load':
            s = self.vars.get(o['s'])
            if not s: return
            self.emit('(field-load fv-%s)' % o['s']); self.cur = s
        elif op == 'nonbloch':
            s = self.getcur(o['s'])
            if not s or kind(s[0]) != 'V': return
            self.emit('(cvector-field-nonbloch! %s)' % self.ref(o['s'])); self.put(o['s'], ('v', s[1]))
        elif op == 'map':
            d = self.getcur(o['d']); ss = [self.getcur(x) for x in o['s']]
            if not d or not ss or any(s is None for s in ss): return
            kd = kind(d[0]); rv, cv, nm = arg_names([kind(s[0]) for s in ss])
            import random
            rng = random.Random(o['seed']); xs = [expr.gen(rng, rv or ['k0'], cv, o['dep']) for _ in range(3 if kd == 'V' else 1)]
            xs = [self.clean(x, rv) for x in xs]
            if kd == 'R': xs = [['re', xs[0]]]
            body = '(vector3 %s)' % ' '.join(expr.scm(x, nm) for x in xs) if kd == 'V' else expr.scm(xs[0], nm)
            self.emit('(field-map! %s (lambda (%s) %s) %s)' % (self.ref(o['d']), ' '.join('a%d' % j for j in range(len(ss))), body, ' '.join(self.ref(x) for x in o['s'])))
            tc = ss[0][0] if len(ss) == 1 and kind(ss[0][0]) == kd else {'R': 'R', 'C': 'C', 'V': 'c'}[kd] if len(ss) > 1 else d[0]
            A = None
            if self.base is not None:
                e = env_of(ss); sh = tuple(N)
                v = [np.broadcast_to(np.asarray(expr.ev(x, e)), sh) for x in xs]
                A = np.stack(v, -1).astype(complex) if kd == 'V' else v[0].astype(float if kd == 'R' else complex)
                if np.abs(A).max() > 1e9: raise Skip('values too large')
            self.put(o['d'], (tc, A))
        elif op == 'integ':
            ss = [self.getcur(x) for x in o['s']]
            if not ss or any(s is None for s in ss): return
            rv, cv, nm = arg_names([kind(s[0]) for s in ss]); import random
            x = expr.gen(random.Random(o['seed']), rv + ['px', 'py', 'pz'], cv, o['dep'])
            nm.update(px='(vector3-x r)', py='(vector3-y r)', pz='(vector3-z r)')
            self.emit('(vp "o%d" (vc (integrate-fields (lambda (r %s) %s) %s)))' % (i, ' '.join('a%d' % j for j in range(len(ss))), expr.scm(x, nm), ' '.join(self.ref(y) for y in o['s'])))
            if self.base is not None:
                e = env_of(ss); p = P.pts(); e.update(px=p[..., 0], py=p[..., 1], pz=p[..., 2])
                v = np.broadcast_to(np.asarray(expr.ev(x, e)), tuple(N)); mg = expr.magnitude(x, e)
                self.expect(i, 'num', P.integ(v), mg * P.vol)
        elif op == 'point':
            s = self.vars.get(o['s'])
            if not s: return
            k = kind(s[0]); j = [(o['seed'] // (7 ** a)) % N[a] for a in range(3)]
            p = [float(x) for x in P.pts()[tuple(j)]]
            self.emit('(vp "o%d" %s)' % (i, {'R': '(rscalar-field-get-point fv-%s %s)', 'C': '(vc (cscalar-field-get-point fv-%s %s))', 'V': '(vcv (cvector-field-get-point fv-%s %s))'}[k] % (o['s'], v3(p))))
            if self.base is not None:
                v = s[1][tuple(j)]
                if s[0] in 'dhbecC':
                    fr = [(jj / nn - 0.5 if a < P.L['dim'] else 0) for a, (jj, nn) in enumerate(zip(j, N))]
                    v = v * np.exp(2j * np.pi * np.dot(fr, P.k))
                self.expect(i, 'pt', v, np.abs(s[1]).max())
        elif op == 'out':
            r = o['s']; s = self.getcur(r)
            if not s: return
            if r != 'cur': self.emit('(field-load fv-%s)' % r)
            self.emit('(output-field-to-file -1 "Y%d-")' % i); self.cur = None
            if self.base is not None: self.expect(i, 'file', s, np.abs(s[1]).max())
    def clean(self, x, rv):
        """no bare position variables; in the inversion build only functions commuting with conjugation"""
        if x[0] == 'v' and x[1] == 'k0': return ['k', 0.7]
        y = [x[0]] + [self.clean(z, rv) if isinstance(z, list) else z for z in x[1:]]
        if self.P.variant == 'inv' and y[0] == 'im': y[0] = 're'
        return y
    def energy(self, t, A):
        T = self.base['einv', 0] if t == 'd' else self.base['minv', 0] if t == 'b' else None
        W = A if T is None else np.einsum('xyzij,xyzj->xyzi', T, A)
        return (W.conj() * A).real.sum(-1)

class P13(Check):
    id = 'P13'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 520, 10000
    rule = ('random problem in the three builds, then a random history of 8-22 operations: load a mode field, Poynting vector, total power, epsilon, divergence; energy; copy, make, field-map! with random expressions of 1-3 arguments '
            '(aliasing included, cur-field as source and destination), field-set!, field-load, non-Bloch marking; queries: integrals of random expressions, point values, file output; at the end every variable is loaded and written; '
            'all compared with the numpy model; non-trivial: at least three checked results and one map')
    assumptions = ['the mode fields written first are the fields (decided by P03)']
    def gen(self, rng, i, tier):
        v = rng.choice(['complex', 'complex', 'inv', 'inv', 'herm'])
        c = gen_obs_problem(rng, (v,), (1, 2, 2, 3, 3), v == 'inv', geo_p=0)
        c['lat'].pop('scale', None)
        if v == 'inv' and c['lat']['dim'] == 3: pass
        V = ['a', 'b', 'c', 'd', 'e']; ops = [{'op': 'get', 't': rng.choice('dehb'), 'b': rng.randint(1, c['nb'])}]
        for v_ in rng.sample(V, rng.randint(1, 4)):
            r_ = rng.random()
            ops += [{'op': 'mkC', 'd': v_}] if r_ < 0.15 else [{'op': 'get', 't': rng.choice('dehbSTn'), 'b': rng.randint(1, c['nb'])}, {'op': 'copy', 's': 'cur', 'd': v_}] if r_ < 0.7 else [{'op': 'get', 't': 'd', 'b': 1}, {'op': 'make', 's': 'cur', 'd': v_, 'k': rng.choice(['R', 'V'])}]
        for _ in range(rng.randint(8, 22)):
            op = rng.choice(['get', 'get', 'copy', 'copy', 'copy', 'make', 'map', 'map', 'map', 'map', 'set', 'load', 'load', 'nonbloch', 'energy', 'integ', 'integ', 'point', 'out', 'mkC'])
            o = {'op': op}; anyv = lambda: rng.choice(V + ['cur', 'cur'])
            if op == 'get': o.update(t=rng.choice('dehbddSTnC'), b=rng.randint(1, c['nb']))
            if op in ('copy', 'make'): o.update(s=rng.choice(V + ['cur'] * 8), d=rng.choice(V))
            if op == 'make': o['k'] = rng.choice(['R', 'V', 'same'])
            if op == 'mkC': o['d'] = rng.choice(V)
            if op == 'set': o.update(s=anyv(), d=anyv())
            if op in ('load', 'point'): o['s'] = rng.choice(V); o['seed'] = rng.randrange(10 ** 6)
            if op in ('nonbloch', 'out'): o['s'] = anyv()
            if op in ('map', 'integ'): o.update(s=[anyv() for _ in range(rng.choice([1, 1, 2, 2, 3]))], d=anyv(), seed=rng.randrange(10 ** 6), dep=rng.randint(1, 3))
            ops.append(o)
        c['ops'] = ops
        return c
    def valid(self, c):
        if not valid_obs(c) or c['geo'] or c['lat'].get('scale', 1) != 1: return False
        if c['variant'] == 'inv' and not (c['eps']['inv'] and (not c['mu'] or c['mu']['inv'])): return False
        return all(1 <= o.get('b', 1) <= c['nb'] for o in c['ops']) and all(o.get('s', 1) for o in c['ops'])
    def run(self, c):
        P = ObsProb(c); n = P.n
        s = P.head() + P.init() + P.solve() + '(vp "f" freqs)\n'
        for b in range(1, P.nb + 1):
            for t in 'dehb': s += '(get-%sfield %d)(output-field-to-file -1 "Z%d%s-")\n' % (t, b, b, t)
            if P.variant != 'inv': s += '(get-dfield %d)(compute-field-divergence)(output-field-to-file -1 "Z%dC-")\n' % (b, b)
        ops = list(enumerate(c['ops']))
        def final(m):
            for k, v in enumerate(sorted(m.vars)): ops2.append((len(c['ops']) + k, {'op': 'out', 's': v}))
        m = Model(P, c); ops2 = []
        for i, o in ops: m.step(i, o)
        final(m)
        for i, o in ops2: m.step(i, o)
        with Scratch() as d:
            r = run_ctl(s + m.text, d, P.variant).ok('session')
            files = os.listdir(d); ph = P.phase()
            one = lambda p: [x for x in files if x.startswith(p)][0]
            base = {}
            for b in range(1, P.nb + 1):
                for t in 'dehb': base[t, b] = read_vec(d, one('Z%d%s-' % (b, t)), n) / ph[..., None]
                if P.variant != 'inv': base['C', b] = read_csc(d, one('Z%dC-' % b), n) / ph
                else: base['C', b] = None
            base['einv', 0] = P.einv(); base['minv', 0] = P.minv()
            ev = np.linalg.eigvalsh(P.einv()); base['n', 0] = 2 / (ev[..., 0] + ev[..., 1])
            M = Model(P, c, base)
            for i, o in ops + ops2: M.step(i, o)
            files = os.listdir(d)
            for i, kd, val, mag in M.exp:
                what = 'operation %d %s' % (i, c['ops'][i] if i < len(c['ops']) else 'final output')
                if kd == 'num':
                    g = complex(*r.arr('o%d' % i)); need(abs(g - val) < 2e-6 * (mag + 1e-9), '%s: integral %s, model %s' % (what, g, val), 'integ')
                elif kd == 'pt':
                    g = np.array(r.get('o%d' % i), float)
                    if np.iscomplexobj(val): g = g[..., 0] + 1j * g[..., 1]
                    need(np.abs(g - val).max() < 2e-6 * (mag + 1e-9), '%s: point value %s, model %s' % (what, g, val), 'point')
                else:
                    tc, A = val; fn = [x for x in files if x.startswith('Y%d-' % i)]
                    need(len(fn) == 1, '%s: files %s' % (what, fn), 'files')
                    if kind(tc) == 'V':
                        g = read_vec(d, fn[0], n)
                        if tc != 'v': A = A * ph[..., None]
                    elif kind(tc) == 'C': g = read_csc(d, fn[0], n); A = A * ph
                    else: g = read_scl(d, fn[0], n)
                    need(np.abs(g - A).max() < 2e-6 * (mag + 1e-9), '%s: file %s (type %s) differs from the model by %g of %g' % (what, fn[0], tc, np.abs(g - A).max(), mag), 'file')
        return len(M.exp) >= 3 and 'field-map!' in m.text, sorted({o['op'] for o in c['ops']}) + [P.variant]
CHECK = P13()
