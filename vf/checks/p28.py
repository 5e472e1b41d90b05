# technique: property-based testing (model-based): generated run histories (named runs, k lists, nested band functions, chunks); the session's full event log and result variables against a model of the run driver
# level_note: exploration over 1-4 runs in a session with at most 6 k points, 5 bands and band functions nested at most three deep
import re
import numpy as np
from modes import *
from mpbrun import run_ctl, Scratch, need, Fail, Skip
from pbt import Check

# user-level name -> (needs a 2D mirror-symmetric crystal, prefix of the printed lines, z parity)
RUNS = {'run': (0, '', 0), 'run-te': (1, 'te', 1), 'run-tm': (1, 'tm', -1), 'run-zeven': (1, 'te', 1), 'run-zodd': (1, 'tm', -1), 'run-even': (1, 'te', 1), 'run-odd': (1, 'tm', -1),
        'run-parity NO-PARITY true': (0, '', 0), 'run-parity NO-PARITY false': (0, '', 0), 'run-polarization TE true': (1, 'te', 1), 'run-parity TM true': (1, 'tm', -1), 'run-parity EVEN-Z false': (1, 'te', 1),
        'run-parity PREV-PARITY true': (0, None, None), 'run-parity PREV-PARITY false': (0, None, None)}
SCM = r'''
(define (vl . x) (print "@E") (map (lambda (y) (print " " y)) x) (print "\n"))
(define (kk) (list (vector3-x current-k) (vector3-y current-k) (vector3-z current-k)))
(define (leaf1 id) (lambda (b) (vl "B" id b (get-kpoint-index)) (vp "k" (kk)) (vp "f" freqs)))
(define (leaf0 id) (lambda () (vl "T" id 0 (get-kpoint-index)) (vp "k" (kk)) (vp "f" freqs)))
(define (leafr id) (lambda args (vl "R" id (length args) (get-kpoint-index)) (vp "k" (kk)) (vp "f" freqs)))
(define (enleaf obj) (lambda (b) (get-dfield b) (let ((u (car (compute-field-energy)))) (vl "N" b (compute-energy-in-objects obj) (get-kpoint-index) u))))
'''
OUT = ['output-hfield', 'output-efield-z', 'output-dpwr', 'output-hpwr', 'output-bfield-x', 'output-poynting-y', 'output-tot-pwr']
FN = {'output-hfield': 'h%s', 'output-efield-z': 'e%s.z', 'output-dpwr': 'dpwr%s', 'output-hpwr': 'bpwr%s', 'output-bfield-x': 'b%s.x', 'output-poynting-y': 'flux.v%s.y', 'output-tot-pwr': 'tot.rpwr%s'}

def gen_bf(rng, c, depth=0):
    t = rng.choice(['B', 'B', 'T', 'out', 'zpar', 'vel'] + (['comb', 'comb', 'atk', 'atk', 'dpwr', 'dpwr'] if depth < 2 else []))
    i = rng.randrange(1000)
    if t in 'BT': return [t, i]
    if t == 'out': return [t, rng.choice(OUT)]
    if t in ('zpar', 'vel'): return [t]
    sub = [gen_bf(rng, c, depth + 1) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if t == 'comb': return [t, sub]
    if t == 'atk':
        allk = [k for r in c['runs'] for k in r['ks']]
        k = list(rng.choice(allk)) if allk and rng.random() < 0.8 else [0.31, 0.1, 0]
        if rng.random() < 0.25: k = [x * (1 + 1e-10) for x in k]      # within the tolerance
        elif rng.random() < 0.2: k[0] += rng.choice([1e-4, -1e-3, 1])  # not this k point
        return [t, k, sub]
    return [t, rng.choice([0, 0.1, 0.3, 0.5, 0.7, 0.9, 1.01]), gen_bf(rng, c, depth + 1)]

def count(bf): return 1 + sum(count(x) for y in bf if isinstance(y, list) for x in ([y] if y and isinstance(y[0], str) else y) if isinstance(x, list))

class P28(Check):
    id = 'P28'
    wants = ('complex', 'inv', 'herm', 'mpi')
    n_quick, n_thorough = 420, 9000
    rule = ('random crystal; one to four runs by user-level name (parities, previous parity, kept or reset fields) over 0-6 k points with repeats, 0-5 bands, a chunk of the k list, always-randomised fields, and 0-4 band functions nested from '
            'thunks, one-argument functions, built-in outputs and displays, combine-band-functions, output-at-kpoint, output-dpwr-in-objects; the log of evaluations (which function, band, k vector, k index, in which order), the files, '
            'the printed lines and all result variables against the model; non-trivial: at least four logged evaluations or two k points')
    assumptions = ['frequencies themselves are checked by P01 and P07; here only that every variable, line and file reports the ones of its own solve']
    def gen(self, rng, i, tier):
        mpi = i % 14 == 9
        pol = rng.random() < 0.5
        c = gen_problem(rng, dims=(2,) if pol else (2, 3) if mpi else (1, 2, 3), mu_p=0.15, pol_p=0, nbmax=5, maxn=(8, 5, 3), kzero=0.05, **({'variants': ('herm',)} if mpi else {}))
        c['np'] = rng.randint(1, 3) if mpi else 0
        if pol:
            c['eps']['t'] = 'iso'
            if c['mu']: c['mu']['t'] = 'iso'
        c['flat'] = pol
        nmax = int(np.prod(c['n'])) // (2 if pol else 1)
        c['runs'] = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            ks = []
            for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 6])):
                if ks and rng.random() < 0.15: ks.append(rng.choice(ks)); continue
                k = gen_k(rng, c['lat']['dim'], L=c['lat'])
                if pol: k[2] = 0.0
                if not kok(k, c['lat']): k = [0.2, 0, 0]
                ks.append(k)
            num = rng.choice([1, 1, 1, 2, 3, 5])
            c['runs'].append({'name': rng.choice([r for r in RUNS if pol or not RUNS[r][0]]), 'ks': ks, 'nb': rng.choice([0] + list(range(1, min(5, nmax) + 1)) * 2), 'num': num, 'idx': rng.randrange(num + 1 if rng.random() < 0.1 else num),
                              'rand': rng.random() < 0.15, 'arr': rng.random() < 0.1})
        for r in c['runs']:
            r['bf'] = [gen_bf(rng, c) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            r['rest'] = False
        c['obj'] = [[rnd(rng, -0.4, 0.4) for _ in range(3)], [rnd(rng, 0.3, 1.1, 2) for _ in range(3)]]
        c['stats'] = rng.random() < 0.5
        return c
    def valid_bf(self, b):
        if not b or b[0] not in ('B', 'T', 'out', 'zpar', 'vel', 'comb', 'atk', 'dpwr'): return False
        if b[0] in 'BT': return len(b) == 2
        if b[0] == 'out': return len(b) == 2 and b[1] in OUT
        if b[0] == 'comb': return len(b) == 2 and all(map(self.valid_bf, b[1]))
        if b[0] == 'atk': return len(b) == 3 and len(b[1]) == 3 and all(map(self.valid_bf, b[2]))
        if b[0] == 'dpwr': return len(b) == 3 and self.valid_bf(b[2])
        return True
    def valid(self, c):
        if not valid_problem(c) or not c['runs'] or (c['np'] and (c['lat']['dim'] == 1 or c['variant'] != 'herm')): return False
        if c['flat'] and (c['lat']['dim'] != 2 or c['eps']['t'] != 'iso' or c['mu'] and c['mu']['t'] != 'iso'): return False
        nmax = int(np.prod(c['n'])) // (2 if c['flat'] else 1)
        for r in c['runs']:
            if r['name'] not in RUNS or RUNS[r['name']][0] and not c['flat'] or not 0 <= r['nb'] <= nmax or not 0 <= r['idx'] <= r['num'] or r['num'] < 1: return False
            if any(len(k) != 3 or not kok(k, c['lat']) or any(k[c['lat']['dim']:]) and c['flat'] for k in r['ks']): return False
            if any(any(k[c['lat']['dim']:]) and c['lat']['dim'] < 3 and c['flat'] for k in r['ks']) or not all(map(self.valid_bf, r['bf'])): return False
        return True
    # ---- control file
    def ctl_bf(self, b):
        t = b[0]
        if t == 'B': return '(leaf1 %d)' % b[1]
        if t == 'T': return '(leaf0 %d)' % b[1]
        if t == 'out': return b[1]
        if t == 'zpar': return 'display-zparities'
        if t == 'vel': return 'display-group-velocities'
        if t == 'comb': return '(combine-band-functions %s)' % ' '.join(map(self.ctl_bf, b[1]))
        if t == 'atk': return '(output-at-kpoint %s %s)' % (v3(b[1]), ' '.join(map(self.ctl_bf, b[2])))
        return '(output-dpwr-in-objects %s %s obj)' % (self.ctl_bf(b[2]), sn(b[1]))
    # ---- model
    def thunk(self, b): return b[0] in ('T', 'zpar', 'vel')
    def ev(self, b, band, k, ki, st):
        """the events of evaluating b for one band; st: energies by (k index, band), collected events and files"""
        t = b[0]
        if t == 'B': st['ev'].append(['B', b[1], band, ki])
        elif t == 'T': st['ev'].append(['T', b[1], 0, ki])
        elif t == 'zpar': st['ev'].append(['zparity', ki])
        elif t == 'vel': st['ev'].append(['velocity', ki])
        elif t == 'out': st['files'].add('t-' + FN[b[1]] % ('.k%02d.b%02d' % (ki, band)))
        elif t == 'comb':
            for f in b[1]: self.app(f, band, k, ki, st)
        elif t == 'atk':
            tol = 1e-8 * np.linalg.norm(b[1])
            if all(abs(x - y) <= tol for x, y in zip(k, b[1])):
                for f in b[2]: self.app(f, band, k, ki, st)
        elif t == 'dpwr':
            e = st['en'][(ki, band)]
            st['ev'].append(['dpwr', band, e])
            if abs(e - b[1]) < 1e-7 and b[1]: raise Skip('energy at the threshold')
            if e >= b[1]: self.app(b[2], band, k, ki, st)
    def app(self, f, band, k, ki, st):
        if self.thunk(f):
            if band == 1: self.ev(f, band, k, ki, st)
        else: self.ev(f, band, k, ki, st)
    def run(self, c):
        P = Prob(c); mpi = c['np'] > 0; n = P.n
        s = SCM + P.head(tol=1e-7)
        s += '(define obj (make block (center %s) (size %s) (e1 %s) (e2 %s) (e3 %s) (material air)))\n' % (v3(c['obj'][0]), v3(c['obj'][1]), v3(P.L['basis'][0]), v3(P.L['basis'][1]), v3(P.L['basis'][2]))
        s += '(define rand0 randomize-fields)\n'
        for j, r in enumerate(c['runs']):
            s += '(set! num-bands %d)(set! k-points (list %s))(set! k-split-num %d)(set! k-split-index %d)(set! randomize-fields? %s)\n' % (r['nb'], ' '.join(v3(k) for k in r['ks']), r['num'], r['idx'], 'true' if r['rand'] else 'false')
            s += '(print "@RUN\\n")(%s (enleaf obj) %s)(print "@END\\n")\n' % (r['name'], ' '.join(map(self.ctl_bf, r['bf'])))
            s += '(vp "all" all-freqs)(vp "par" parity)(vp "it" eigensolver-iters)(vp "t" total-run-time)(vp "ki" (get-kpoint-index))(vp "nb" num-bands)(vp "gaps" gap-list)\n'
            s += '(vp "br" (map (lambda (b) (list (car (car b)) (let ((k (cdr (car b)))) (list (vector3-x k) (vector3-y k) (vector3-z k))) (car (cdr b)) (let ((k (cdr (cdr b)))) (list (vector3-x k) (vector3-y k) (vector3-z k))))) band-range-data))\n'
        s += '(vp "fin" (list num-bands (length k-points) (if interactive? 1 0)))\n'
        if c['stats']: s += '(print "@STATS\\n")(display-eigensolver-stats)(print "@END\\n")\n'
        with Scratch() as d:
            R = run_ctl(s, d, 'mpi' if mpi else P.variant, np_=c['np'] or None)
            if 'failure to converge' in R.stdout + R.stderr or 'Eigensolver failed' in R.stdout: raise Skip('solver gave up')
            R.ok('session'); found = sorted(x for x in os.listdir(d) if x.endswith('.h5'))
        parts = [p.split('@END\n')[0] for p in R.stdout.split('@RUN\n')[1:]]
        need(len(parts) == len(c['runs']), 'only %d of %d runs finished' % (len(parts), len(c['runs'])), 'runs')
        # the parity of PREV-PARITY runs is that of the last run
        prev = ('', 0); files = set(); iters = 0; tot = 0.0; nlog = 0; tags = set(); nt = 0
        for j, (r, txt) in enumerate(zip(c['runs'], parts)):
            pre, z = RUNS[r['name']][1:]
            if pre is None: pre, z = prev
            prev = (pre, z); what = 'run %d (%s)' % (j + 1, r['name']); nb = r['nb']
            tags.add(r['name'])
            nk = len(r['ks']); size = -(-nk // r['num'])
            start = r['idx'] * size if r['idx'] < r['num'] else nk
            mine = r['ks'][start:start + size] if r['idx'] < r['num'] else []
            start_k = start
            done = mine if nb else []
            idx = [start_k + m + 1 for m in range(len(done))]
            # --- freqs lines
            num = lambda l: [float(x) for x in l.split(', ')]
            lines = [m for m in re.findall(r'^(\w*)freqs:, (.*)$', txt, re.M)]
            rows_ = [(a, num(b)) for a, b in lines if not b.startswith('k index')]; heads = [(a, b) for a, b in lines if b.startswith('k index')]
            need([int(b[0]) for a, b in rows_] == idx, '%s: k indices of the frequency lines are %s, expected %s' % (what, [b[0] for a, b in rows_], idx), 'lines')
            need(all(a == pre for a, b in lines), '%s: lines are marked %s, expected %r' % (what, sorted({a for a, b in lines}), pre), 'parity')
            need(len(heads) == (1 if done and start_k == 0 else 0), '%s: %d header lines' % (what, len(heads)), 'header')
            for a, h in heads: need(h == 'k index, k1, k2, k3, kmag/2pi' + ''.join(', %sband %d' % (pre + ' ' if pre else '', b + 1) for b in range(nb)), '%s: header %r' % (what, h), 'header')
            all_ = R.get('all', j); fr = [np.array(x, float) for x in all_]
            need(len(fr) == len(done) and all(len(x) == nb for x in fr), '%s: all-freqs has %d entries of %s bands, expected %d of %d' % (what, len(fr), [len(x) for x in fr], len(done), nb), 'allfreqs')
            for m, (k, (a, l), x) in enumerate(zip(done, rows_, fr)):
                need(np.allclose(l[1:4], k, rtol=1e-5, atol=1e-12), '%s: line of k point %d says k = %s, expected %s' % (what, idx[m], l[1:4], k), 'kvector')
                need(abs(l[4] - np.linalg.norm(np.array(k) @ P.G)) < 1e-5 * l[4] + 1e-12, '%s: |k|/2pi printed as %g, is %g' % (what, l[4], np.linalg.norm(np.array(k) @ P.G)), 'kmag')
                need(len(l) == 5 + nb and np.allclose(l[5:], x, rtol=1e-5, atol=1e-12), '%s: line of k point %d has frequencies %s, all-freqs %s' % (what, idx[m], l[5:], x.tolist()), 'freqline')
            # --- events
            en = {}
            for w in re.findall(r'^@E N (\d+) (\S+) (\d+) (\S+)$', txt, re.M):
                en[(int(w[2]), int(w[0]))] = float(w[1])
                if int(w[2]) in idx and int(w[0]) <= nb:
                    f = fr[idx.index(int(w[2]))]
                    need(f[int(w[0]) - 1] < 1e-3 * (1 + f.max()) or abs(float(w[3]) - 1) < 1e-3, '%s: the D field the first band function finds for band %s of k point %s has energy %s, not that of the mode of frequency %g (1)' % (what, w[0], w[2], w[3], f[int(w[0]) - 1]), 'field')
            need(sorted(en) == sorted((i, b + 1) for i in idx for b in range(nb)), '%s: the first band function was evaluated for (k index, band) %s' % (what, sorted(en)), 'evaluated')
            st = dict(ev=[], files=set(), en=en)
            for m, k in enumerate(done):
                ki = idx[m]
                st['ev'].append(['freqs', ki])
                for b in range(nb): st['ev'].append(['N', b + 1, ki])
                for f in r['bf']:
                    if self.thunk(f): self.ev(f, 1, k, ki, st)
                    else:
                        for b in range(nb): self.ev(f, b + 1, k, ki, st)
            got = []
            for l in txt.split('\n'):
                m = re.match(r'(\w*)(freqs|zparity|velocity):, (\d.*)$', l)
                if m:
                    need(m[1] == pre, '%s: line %r, expected prefix %r' % (what, l, pre), 'parity')
                    got.append([m[2], int(m[3].split(', ')[0])])
                    if m[2] == 'zparity':
                        v = num(m[3])[1:]; need(len(v) == nb and (not z or np.allclose(v, z, atol=1e-4)), '%s: z parities %s of a run restricted to %+d' % (what, v, z), 'zparity')
                    if m[2] == 'velocity': need(m[3].count('#') == nb, '%s: %r does not have %d velocities' % (what, l, nb), 'velocity')
                    continue
                m = re.match(r'dpwr:, (\d+), (\S+), (\S+)$', l)
                if m: got.append(['dpwr', int(m[1]), float(m[3]), float(m[2])]); continue
                m = re.match(r'@E N (\d+) \S+ (\d+) \S+$', l)
                if m: got.append(['N', int(m[1]), int(m[2])]); continue
                m = re.match(r'@E (\w) (\d+) (\d+) (\d+)$', l)
                if m: got.append([m[1], int(m[2]), int(m[3]), int(m[4])])
            ki = 0
            for q in range(max(len(got), len(st['ev']))):
                a = got[q] if q < len(got) else None; b = st['ev'][q] if q < len(st['ev']) else None
                if b and b[0] == 'freqs': ki = b[1]
                if a and b and a[0] == b[0] == 'dpwr':
                    f = fr[idx.index(ki)][b[1] - 1]
                    need(a[1] == b[1] and abs(a[2] - b[2]) < 1e-6 and abs(a[3] - f) < 1e-9 + 1e-9 * f, '%s: line dpwr %s, expected band %d, frequency %g, energy %g' % (what, a[1:], b[1], f, b[2]), 'dpwr')
                else: need(a == b, '%s: evaluation %d is %s, expected %s' % (what, q + 1, a, b), 'order')
            # k vector and frequencies seen by the leaves
            vis = [e for e in st['ev'] if e[0] in 'BTR']
            for e in vis:
                k = R.get('k', nlog); f = R.get('f', nlog); nlog += 1
                m = idx.index(e[3])
                need(np.allclose(k, done[m], rtol=1e-12, atol=1e-14), '%s: function %s sees current-k = %s at k index %d, which is %s' % (what, e, k, e[3], done[m]), 'currentk')
                need(list(f) == list(all_[m]), '%s: function %s sees freqs %s, all-freqs %s' % (what, e, f, all_[m]), 'freqs')
            # --- variables after the run
            lastki = (start_k if nb else start_k) + len(done)
            need(R.get('ki', j) == lastki, '%s: k index %s afterwards, expected %d' % (what, R.get('ki', j), lastki), 'kindex')
            if done: need(R.get('par', j) == pre or R.get('par', j) == '"%s"' % pre, '%s: parity variable %r, expected %r' % (what, R.get('par', j), pre), 'parityvar')
            iters += len(done); it = R.get('it', j)
            need(len(it) == iters and all(x >= 0 for x in it), '%s: eigensolver-iters %s after %d solves' % (what, it, iters), 'iters')
            need(R.get('t', j) >= tot, '%s: total-run-time decreases' % what, 'time'); tot = R.get('t', j)
            br = R.get('br', j); A = np.array(all_, float).reshape(len(done), nb)
            need(len(br) == (nb if done else 0), '%s: %d band ranges for %d bands' % (what, len(br), nb), 'ranges')
            for b, (lo, klo, hi, khi) in enumerate(br):
                need(lo == A[:, b].min() and hi == A[:, b].max() and list(klo) == list(done[int(np.argmin(A[:, b]))]) and list(khi) == list(done[int(np.argmax(A[:, b]))]), '%s: range of band %d is %s' % (what, b + 1, br[b]), 'ranges')
            pr = re.findall(r'^Band (\d+) range: ', txt, re.M)
            need(len(pr) == (nb if len(done) > 1 else 0), '%s: %d printed band ranges for %d k points' % (what, len(pr), len(done)), 'printed')
            want = [[200 * (A[:, b + 1].min() - A[:, b].max()) / (A[:, b + 1].min() + A[:, b].max()), A[:, b].max(), A[:, b + 1].min()] for b in range(nb - 1) if A[:, b].max() < A[:, b + 1].min()] if len(done) > 1 else []
            gl = R.get('gaps', j)
            need(len(gl) == len(want) and np.allclose(np.array(gl, float).reshape(-1, 3), np.array(want, float).reshape(-1, 3), rtol=1e-9, atol=1e-12), '%s: gap-list %s, expected %s' % (what, gl, want), 'gaps')
            need(txt.rstrip().endswith('done.'), '%s does not end with done.' % what, 'done')
            # --- files
            need((txt.count('Outputting t-epsilon') == 1) == (r['idx'] == 0), '%s: dielectric function written %d times' % (what, txt.count('Outputting t-epsilon')), 'epsilon')
            if r['idx'] == 0:
                files.add('t-epsilon.h5')
                if c['mu'] or (P.M is not None): files.add('t-mu.h5')
            files |= {f + ('.' + pre if pre else '') + '.h5' for f in st['files']}
            nt += len(vis) + 4 * (len(done) > 1)
            for f in r['bf']: tags.add(f[0])
        need(found == sorted(files), 'files %s written but not asked for, %s asked for but not written' % (sorted(set(found) - files), sorted(files - set(found))), 'files')
        need(R.get('fin')[0] == c['runs'][-1]['nb'] and R.get('fin')[2] == 0, 'num-bands or interactive? changed by a run: %s' % R.get('fin'), 'vars')
        if c['stats']:
            t = R.stdout.split('@STATS\n')[1].split('@END\n')[0]
            m = re.match(r'eigensolver iterations for (\d+) k-points: (\S+)-(\S+), mean = ([^\s,]+)(?:, median = (\S+))?', t)
            if iters == 0: need(not t.strip(), 'statistics %r without a solve' % t, 'stats')
            else:
                it = [float(x) for x in R.get('it', len(c['runs']) - 1)]
                need(m is not None, 'statistics %r' % t, 'stats')
                v = [float(eval(x) if '/' in x else x) for x in m.groups() if x is not None]
                ex = [iters, min(it), max(it), np.mean(it), np.median(it)]
                need(np.allclose(v, ex[:len(v)], rtol=1e-6), 'statistics %s, expected %s' % (v, ex), 'stats')
        return nt >= 4, [P.variant + ('-mpi' if mpi else '')] + sorted(tags)
CHECK = P28()
