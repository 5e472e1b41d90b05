# technique: property-based testing, metamorphic: generated k lists run whole, run chunk by chunk, and run by the splitting launcher must give the same lines once each and in order; the chunking function itself is compared with a reference on generated lists
# level_note: exploration; the launcher is instantiated from its template the way the makefile does it, with the mpb of the check
import os, re, stat
import numpy as np
import mpbrun
from modes import *
from mpbrun import run_ctl, run_proc, need, Fail, Skip, Scratch, PRELUDE
from pbt import Check
from build import REPO

RUNS = {'run': '', 'run-te': 'te', 'run-tm': 'tm'}
class P27(Check):
    id = 'P27'
    wants = ('complex', 'inv', 'herm')
    n_quick, n_thorough = 260, 5000
    rule = ('random crystal, 0-9 k points (some repeated), 1-8 chunks and sometimes more chunks than k points, one to three run functions in a row, band functions with per-k lines and files, splitting parameters given on the command line or by the launcher, further arguments with spaces; '
            'the unsplit run is the reference for k index, k vector, line order and files; every frequency must be an exact one (dense reference); non-trivial: at least two non-empty chunks. Lists of up to 60 elements for the chunking function')
    assumptions = ['frequencies: each process starts from its own random fields, so a band may be missed by a single solve: each printed frequency is compared with the exact spectrum, not with the other run']
    def gen(self, rng, i, tier):
        if rng.random() < 0.15:
            return dict(kind='list', q=[[rng.choice([0, 1, 2, rng.randint(0, 60)]), rng.choice([1, 2, 3, rng.randint(1, 70)])] for _ in range(25)])
        pol = rng.random() < 0.5
        c = gen_problem(rng, dims=(2,) if pol else (1, 2, 3), mu_p=0.1, pol_p=0, nbmax=3, maxn=(8, 5, 3), kzero=0.05)
        c['kind'] = rng.choice(['hand', 'launch', 'launch'])
        if pol: c['eps']['t'] = 'iso'; c['mu'] = None
        c['runs'] = [rng.choice(list(RUNS)) for _ in range(rng.choice([1, 1, 2, 3]))] if pol else ['run'] * rng.choice([1, 1, 2])
        ks = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])):
            if ks and rng.random() < 0.15: ks.append(rng.choice(ks)); continue
            k = gen_k(rng, c['lat']['dim'], L=c['lat']);
            if not any(k): k = [0.2, 0, 0]
            if pol: k[2] = 0.0
            if not any(k) or not kok(k, c['lat']): k = [0.2, 0, 0]
            ks.append(k)
        c['ks'] = ks; c['num'] = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        c['bf'] = [b for b in ['display-group-velocities', 'output-dpwr', 'fix-hfield-phase', 'display-zparities', '(lambda (b) (print "@b" b ":\\n"))'] if rng.random() < 0.3]
        c['arg'] = rng.random() < 0.5    # k points given as an argument
        return c
    def valid(self, c):
        if c['kind'] == 'list': return all(a >= 0 and b >= 1 for a, b in c['q'])
        pol = any(RUNS.get(r) for r in c['runs'])
        return valid_problem(c) and c['num'] >= 1 and c['runs'] and all(r in RUNS for r in c['runs']) and all(len(k) == 3 and kok(k, c['lat']) and any(k) and not (pol and k[2]) and not any(k[c['lat']['dim']:]) for k in c['ks']) and (not pol or c['lat']['dim'] == 2 and c['eps']['t'] == 'iso' and not c['mu'])
    def run(self, c): return self.run_list(c) if c['kind'] == 'list' else self.run_split(c)
    def run_list(self, c):
        t = ''.join('(vp "q" (map (lambda (i) (list-split (iota %d) %d i)) (iota %d)))\n(vp "o" (list (cdr (list-split (iota %d) %d %d)) (cdr (list-split (iota %d) %d -1))))' % (a, b, b, a, b, b, a, b) for a, b in c['q'])
        with Scratch() as d: r = run_ctl(t, d, 'complex').ok()
        for j, (a, b) in enumerate(c['q']):
            q = r.get('q', j); what = 'list-split of %d elements into %d' % (a, b)
            need(r.get('o', j) == [[], []], what + ': pieces outside 0..n-1 are not empty', 'outside')
            need(len(q) == b, what + ': number of pieces', 'pieces')
            need([x for p in q for x in p[1:]] == list(range(a)), what + ': pieces %s are not a partition in order' % q, 'partition')
            for p in q:
                if p[1:]: need(p[0] == p[1], what + ': piece %s starts elsewhere' % p, 'first')
            need(max(len(p) - 1 for p in q) <= -(-a // b), what + ': pieces %s are unequal' % q, 'unequal')
        return True, ['list']
    def run_split(self, c):
        P = Prob(c); ks = c['ks']; num = c['num']; nb = P.nb
        kl = '(list %s)' % ' '.join(v3(k) for k in ks)
        bf = ' '.join(c['bf'])
        if P.M is not None: bf = bf
        body = P.head(tol=1e-9) + ('' if c['arg'] else '(set! k-points %s)\n' % kl) + ''.join('(%s %s)\n' % (r, bf) for r in c['runs'])
        extra = ['k-points=' + kl] if c['arg'] else []
        with Scratch() as d:
            R = run_ctl(body, d, P.variant, args=extra); R.ok('unsplit run'); files = sorted(f for f in os.listdir(d) if f.endswith('.h5'))
        if c['kind'] == 'hand':
            out = ''
            with Scratch() as d:
                for i in range(num):
                    r = run_ctl(body, d, P.variant, args=['k-split-num=%d' % num, 'k-split-index=%d' % i] + extra); r.ok('chunk %d of %d' % (i, num)); out += r.stdout
                got = sorted(f for f in os.listdir(d) if f.endswith('.h5'))
        else:
            with Scratch() as d:
                sh = open(os.path.join(REPO, 'mpb', 'mpb-split-preinstall.in')).read().replace('@SH_JOB@', '/bin/bash').replace('/tmp/mpb-split', d + '/mpb-split').replace('./mpb', os.path.join(mpbrun.BIN[P.variant], 'mpb'))
                f = os.path.join(d, 'split.sh'); open(f, 'w').write(sh); os.chmod(f, 0o755)
                open(os.path.join(d, 't.ctl'), 'w').write(PRELUDE + body + '\n(vp "END" 1)\n')
                r = run_proc([f, str(num)] + extra + ['t.ctl'], d, 200)
                if 'failure to converge' in (r.stdout or '') + (r.stderr or ''): raise Skip('solver gave up')
                need(not r.timeout and r.rc == 0, 'mpb-split: %s' % r.tail(), 'launcher'); out = r.stdout
                got = sorted(x for x in os.listdir(d) if x.endswith('.h5'))
                need(out.count('@@ END') == num, 'mpb-split %d: %d processes finished (%d k points): %s' % (num, out.count('@@ END'), len(ks), (r.stderr or '')[-600:]), 'processes')
                left = [x for x in os.listdir(d) if x.startswith('mpb-split')]
                need(not left, 'mpb-split leaves %s behind' % left, 'temp')
        need(got == files, '%s in %d chunks writes %s, the whole run %s' % (c['kind'], num, [f for f in got if f not in files] + ['missing'] + [f for f in files if f not in got], len(files)), 'files')
        eps = lambda t: t.count('Outputting t-epsilon') + 100 * t.count('Outputting t-mu')
        need(eps(out) == eps(R.stdout), '%s in %d chunks of %d k points: epsilon/mu written by %d processes, by %d in the whole run' % (c['kind'], num, len(ks), eps(out) % 100, eps(R.stdout) % 100), 'epsilon')
        DAT = re.compile(r'^(\w*(?:freqs|velocity|parity)):, (.*)$', re.M)
        def data(s):
            h, l = {}, {}
            for m in DAT.finditer(s):
                if re.match(r'-?[\d.]', m[2]): l.setdefault(m[1], []).append(m[2].split(', '))
                else: h.setdefault(m[1], []).append(m[2])
            return h, l
        H, A = data(R.stdout); G, B = data(out)
        # launcher output: chunk by chunk, each chunk running all run functions; reorder by run function for the comparison
        chunks = out.split('@@ END'); per = {}
        size = -(-len(ks) // num) if ks else 0
        tag = lambda l: (l[0],)
        need(sorted(A) == sorted(B), 'kinds of lines %s, whole run %s' % (sorted(B), sorted(A)), 'kinds')
        for key in A:
            wa = [l[0] for l in A[key]]; n_ = wa.count(wa[0]) if wa else 0
            # occurrences: every k index exactly as often as in the whole run
            wb = [l[0] for l in B[key]]
            need(sorted(wa) == sorted(wb), '%s in %d chunks: k indices of the %s lines are %s, whole run %s' % (c['kind'], num, key, wb, wa), 'indices')
            # order: chunk by chunk, inside a chunk as in the whole run restricted to its indices
            exp = []
            for i in range(num):
                mine = {str(j + 1) for j in range(i * size, min(len(ks), (i + 1) * size))}
                exp += [x for x in wa if x in mine]
            need(wb == exp, '%s in %d chunks: order of the %s lines is %s, expected %s' % (c['kind'], num, key, wb, exp), 'order')
            if key.endswith('freqs'):
                for l in A[key] + B[key]:
                    k = ks[int(l[0]) - 1]
                    need(np.allclose([float(x) for x in l[1:4]], k, atol=2e-5 * (1 + np.abs(k).max())), 'line %s: k index and vector disagree with the list' % l, 'kvec')
                    pol = key[:-5]
                    ex = self.exact(P, k, pol)
                    f = np.array([float(x) for x in l[5:]])   # columns: index, k1, k2, k3, |k|, bands
                    need(len(f) == nb and (np.sort(f) >= ex[:nb] - 2e-3 * (ex[:nb] + 0.05 * ex.max())).all(), 'line %s: frequencies below those of that k point (%s)' % (l, ex[:nb + 2].tolist()), 'below')
                    # fields of the previous k point are plane waves in a uniform crystal: a saddle of the functional, where the solver may stop
                    uniform = max(np.ptp(P.E, axis=(0, 1, 2)).max(), 0 if P.M is None else np.ptp(P.M, axis=(0, 1, 2)).max()) < 1e-9 or P.N < 12
                    need(uniform or all(np.abs(ex - x).min() < 2e-3 * (x + 0.05 * ex.max()) for x in f), 'line %s: frequencies are not those of that k point (%s)' % (l, ex[:nb + 2].tolist()), 'freqs')
            hh = G.get(key, [])
            need(len(set(hh)) <= 1 and (not ks or hh[:1] == H.get(key, [])[:1]), 'headers %s, whole run %s' % (hh, H.get(key)), 'header')
            need(len(hh) == len(H.get(key, [])), '%s in %d chunks: %d header lines of %s, whole run %d' % (c['kind'], num, len(hh), key, len(H.get(key, []))), 'header')
        used = sum(1 for i in range(num) if i * size < len(ks)) if ks else 0
        return used >= 2, [c['kind'], P.variant, 'num%d' % num, 'nk%d' % len(ks), 'more-chunks' if num > len(ks) else 'fewer-chunks'] + c['runs']
    def exact(self, P, k, pol):
        memo = P.__dict__.setdefault('memo', {}); m = (tuple(k), pol)
        if m not in memo: memo[m] = np.sqrt(np.maximum(Prob(dict(P.c, pol=pol, k=k)).dense(k).eig()[0], 0))
        return memo[m]
CHECK = P27()
