# technique: property-based testing, model-based: generated session histories with ill-formed operations interleaved, run under AddressSanitizer and UndefinedBehaviorSanitizer
# level_note: exploration; which operation is ill-formed in which state comes from a small state model; a refusal is either a message with an empty result or a message with a non-zero exit
import re, shutil, subprocess
import numpy as np
from modes import *
import build, mpbrun
from mpbrun import run_ctl, run_proc, need, Fail, Skip, Scratch
from pbt import Check

M1 = '(matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 1))'
M2 = '(matrix3x3 (vector3 1 2 0) (vector3 0 3 0) (vector3 0 0 1))'
P1 = '(vector3 0.1 0.2 0)'

class St:   # state model
    def __init__(s, nb, mu, inv): s.lvl, s.cur, s.nb, s.mu, s.inv = 0, None, nb, mu, inv   # lvl: 0 fresh 1 init 2 solved

def badband(s, b): return s.lvl < 2 or not 1 <= b <= s.nb
def cin(s, t): return s.cur is not None and s.cur in t
# name -> (text(s, b), ill(s, b), dies, effect on the current field)
OPS = {}
def op(name, text, ill, dies=False, drop=False, any_value=False): OPS[name] = (text, ill, dies, drop, any_value)
for t in 'dhbe': op('get-%sfield' % t, lambda s, b, t=t: '(get-%sfield %d)' % (t, b), badband, drop=True)
op('e-from-d', lambda s, b: '(get-efield-from-dfield)', lambda s, b: s.cur != 'd')
op('get-epsilon', lambda s, b: '(get-epsilon)', lambda s, b: s.lvl < 1, drop=True)
op('get-mu', lambda s, b: '(get-mu)', lambda s, b: s.lvl < 1, drop=True)
op('fix-phase', lambda s, b: '(fix-field-phase)', lambda s, b: not cin(s, 'dhbecv'))
op('energy', lambda s, b: '(compute-field-energy)', lambda s, b: not cin(s, 'dhb') or (s.cur == 'h' and s.mu))
op('div', lambda s, b: '(compute-field-divergence)', lambda s, b: not cin(s, 'dhbec'))
op('eps-pt', lambda s, b: '(get-epsilon-point %s)' % P1, lambda s, b: s.lvl < 1, dies=True)
op('einv-pt', lambda s, b: '(get-epsilon-inverse-tensor-point %s)' % P1, lambda s, b: s.lvl < 1, dies=True)
op('energy-pt', lambda s, b: '(get-energy-point %s)' % P1, lambda s, b: not cin(s, 'DHBR'), dies=True)
for x in ('bloch-field', 'field'): op(x + '-pt', lambda s, b, x=x: '(get-%s-point %s)' % (x, P1), lambda s, b: not cin(s, 'dhbecv'), dies=True)
for x in ('bloch-cscalar', 'cscalar'): op(x + '-pt', lambda s, b, x=x: '(get-%s-point %s)' % (x, P1), lambda s, b: not cin(s, 'C'), dies=True)
op('en-diel', lambda s, b: '(compute-energy-in-dielectric 1 5)', lambda s, b: not cin(s, 'DHBR'))
op('en-obj', lambda s, b: '(compute-energy-in-object-list (list (make sphere (center 0) (radius 0.3) (material air))))', lambda s, b: not cin(s, 'DHBR'))
op('en-int', lambda s, b: '(compute-energy-integral (lambda (u e r) u))', lambda s, b: not cin(s, 'DHBR'))
op('f-int', lambda s, b: '(compute-field-integral (lambda (f e r) 1.0))', lambda s, b: not cin(s, 'dhbeDHBRcv'))
op('t-overlap', lambda s, b: '(transformed-overlap %s (vector3 0))' % M1, lambda s, b: not cin(s, 'db'))
op('t-overlap-det', lambda s, b: '(transformed-overlap %s (vector3 0))' % M2, lambda s, b: True)
op('symmetry', lambda s, b: '(compute-symmetry %d %s (vector3 0))' % (b, M1), badband, drop=True)
op('out', lambda s, b: '(output-field)', lambda s, b: s.cur is None)
op('out-x', lambda s, b: '(output-field-x)', lambda s, b: s.cur is None)
op('out-comp', lambda s, b: '(output-field-to-file 7 "bad-")', lambda s, b: True)
for x in ('dfield', 'hfield', 'efield-x', 'dpwr', 'bfield', 'hpwr'): op('output-' + x, lambda s, b, x=x: '(output-%s %d)' % (x, b), badband, drop=True)
op('tot-pwr', lambda s, b: '(output-tot-pwr %d)' % b, badband, dies=True, drop=True)
op('poynting', lambda s, b: '(get-poynting %d)' % b, badband, dies=True, drop=True)
op('charge', lambda s, b: '(get-charge-density %d)' % b, badband, drop=True)
op('solve', lambda s, b: '(solve-kpoint (vector3 0.1 0 0))', lambda s, b: s.lvl < 1, drop=True)
op('parity', lambda s, b: '(set-parity TE)', lambda s, b: s.lvl < 1)
op('parity77', lambda s, b: '(set-parity 77)', lambda s, b: True, dies=True)
op('parity-9', lambda s, b: '(set-parity -9)', lambda s, b: True, dies=True)
op('gv', lambda s, b: '(compute-group-velocity-component (vector3 1 0 0))', lambda s, b: s.lvl < 2, drop=True)
op('gvs', lambda s, b: '(compute-group-velocities)', lambda s, b: s.lvl < 2, drop=True, dies=True)
op('gv1c', lambda s, b: '(compute-1-group-velocity-component (vector3 1 0 0) %d)' % b, badband, drop=True)
op('gv1', lambda s, b: '(compute-1-group-velocity %d)' % b, badband, drop=True)
op('gv1r', lambda s, b: '(compute-1-group-velocity-reciprocal %d)' % b, badband, drop=True)
outr = lambda s, b: s.lvl < 1 or not 1 <= b <= s.nb
op('get-ev', lambda s, b: '(get-eigenvectors %d 1)' % b, outr, dies=True)
op('get-ev-n', lambda s, b: '(get-eigenvectors 1 %d)' % (s.nb + 1 + abs(b)), lambda s, b: True, dies=True)
op('get-ev-neg', lambda s, b: '(get-eigenvectors 3 -1)', lambda s, b: True, dies=True)
op('set-ev', lambda s, b: '(set-eigenvectors (get-eigenvectors 1 1) %d)' % b, outr, dies=True)
op('set-ev-t', lambda s, b: '(set-eigenvectors 5 1)', lambda s, b: True, dies=True)
op('set-ev-n', lambda s, b: '(set-eigenvectors (get-eigenvectors 1 %d) 2)' % s.nb, lambda s, b: True, dies=True)
op('dot-ev', lambda s, b: '(dot-eigenvectors (get-eigenvectors 1 1) %d)' % b, outr, dies=True)
op('scale-ev', lambda s, b: '(scale-eigenvector %d 2.0)' % b, outr, dies=True)
op('scale-ev-i', lambda s, b: '(scale-eigenvector 1 0+1i)', lambda s, b: s.lvl < 1 or s.inv, dies=True)
op('dominant', lambda s, b: '(get-dominant-planewave %d)' % b, outr, dies=True)
op('in-ev', lambda s, b: '(input-eigenvectors "missing" 1)', lambda s, b: True, dies=True)
op('load-ev', lambda s, b: '(load-eigenvectors "missing.h5")', lambda s, b: True, dies=True)
op('load-ev-junk', lambda s, b: '(begin (with-output-to-file "junk.h5" (lambda () (display "junk"))) (load-eigenvectors "junk.h5"))', lambda s, b: True, dies=True)
op('save-ev', lambda s, b: '(save-eigenvectors "nodir/dir/x.h5")', lambda s, b: True, dies=True)
for i, t in enumerate(['(rscalar-field-make 7)', '(cvector-field-make 7)', '(cvector-field-nonbloch! 7)', '(field-make 7)', '(fields-conform? 7 8)', '(field-set! 7 8)', '(field-load 7)',
                       '(field-map! 7 (lambda (x) x) 7)', '(integrate-fields (lambda (r x) 1.0) 7)', '(rscalar-field-get-point 7 (vector3 0))', '(cvector-field-get-point "x" (vector3 0))',
                       '(sqmatrix-size 7)', '(sqmatrix-ref 3 0 0)', '(sqmatrix-ref (sqmatrix-diagm (list 1 2)) 5 5)', '(sqmatrix-ref (sqmatrix-diagm (list 1 2)) 0 -1)', '(sqmatrix-set (sqmatrix-diagm (list 1 2)) 2 0 1.0)',
                       '(sqmatrix-mult (sqmatrix-diagm (list 1 2)) (sqmatrix-diagm (list 1 2 3)))', '(output-eigenvectors 7 "bad-x")', '(fix-phase-consistency 7 1)', '(retrieve-gap 99)',
                       '(load-material-grid! 3 "missing")', '(save-material-grid 3 "bad-x")', '(randomize-material-grid! 0.1)', '(material-grids-match-epsilon-file! "missing" 0.1)',
                       '(material-grids-approx-gradient (vector3 0.1 0 0) 1 0 0.01)', '(first-brillouin-zone "x")', '(make dielectric (epsilon "x"))', '(make cylinder (radius -0.3) (height 1) (center 0))', '(kinterpolate-uniform 3 5)']):
    op('arg%d' % i, lambda s, b, t=t: t, lambda s, b: True, dies=True)
for i, t in enumerate(['(rscalar-field-get-point fv-d %s)' % P1, '(cvector-field-get-point fv-n %s)' % P1, '(cscalar-field-get-point fv-d %s)' % P1, '(field-set! fv-d fv-n)', '(cvector-field-nonbloch! fv-n)']):
    op('var%d' % i, lambda s, b, t=t: t, lambda s, b: s.lvl == 2, dies=True)
op('intf', lambda s, b: '(integrate-fields (lambda (r) 1.0))', lambda s, b: s.lvl < 1, dies=True)
op('mg-du', lambda s, b: '(print-material-grids-deps-du)', lambda s, b: s.lvl < 1, dies=True)
op('mg-grad', lambda s, b: '(print-material-grids-gradient %d)' % b, badband, dies=True)

EMPTY = re.compile(r'^(#<unspecified>|\(\)|#f|[-+]?0(\.0)?([-+]0\.0i)?|\((0\.0([-+]0\.0i)?\s?)*\)|#\((0\.0\s?)*\))$')
LOADS = {'d': '(get-dfield %d)', 'h': '(get-hfield %d)', 'b': '(get-bfield %d)', 'e': '(get-efield %d)', 'D': '(get-dfield %d)(compute-field-energy)', 'B': '(get-bfield %d)(compute-field-energy)',
         'n': '(get-epsilon)', 'm': '(get-mu)', 'C': '(get-dfield %d)(compute-field-divergence)', 'R': '(get-tot-pwr %d)', 'v': '(get-poynting %d)',
         'Rv': '(begin (get-epsilon)(field-load (field-copy cur-field)))', 'c': '(get-dfield %d)(let ((f (cvector-field-make cur-field))) (field-map! f (lambda (x y) x) cur-field cur-field) (field-load f))'}
CUR = {'Rv': 'n'}

# configurations that cannot describe a calculation (everything else of the session is valid)
def configs(rng, P):
    nb, D = P.nb, 2 * P.N // (2 if P.pol else 1)
    if rng.random() < 0.15:   # a wavevector outside of the mirror plane of the requested parity
        z, y = rng.choice(['EVEN-Z', 'ODD-Z', 'TE', 'TM']), rng.choice(['EVEN-Y', 'ODD-Y']); kv = [rnd(rng, -.4, .4) or .1 for _ in range(3)]; w = rng.choice('zyyybbB')
        if w == 'y' : kv[2] = 0.0
        return '(set! vf-k %s)(set! vf-par %s)' % (v3(kv), z if w == 'z' else y if w == 'b' else '(+ %s %s)' % (z, y))
    return rng.choice([
        '(set! num-bands %d)' % (D + rng.choice([1, 2, 7, 300])), '(set! num-bands -1)', '(set! num-bands -4)',
        '(set! geometry-lattice (make lattice (size 0 1 1)))', '(set! geometry-lattice (make lattice (size 0 0 0)))', '(set! geometry-lattice (make lattice (size 1 -1 no-size)))', '(set! geometry-lattice (make lattice (size -2)))',
        '(set! geometry-lattice (make lattice (size 1 1 no-size) (basis1 1 0) (basis2 1 0)))', '(set! geometry-lattice (make lattice (size 1 1 1) (basis1 1 0) (basis2 0 1) (basis3 1 1 0)))', '(set! geometry-lattice (make lattice (size 1 1 no-size) (basis-size 0 1 1)))',
        '(set! eigensolver-nwork 1)', '(set! eigensolver-nwork 0)', '(set! eigensolver-nwork -3)',
        '(set! default-material (make dielectric (epsilon 0)))', '(set! default-material (make dielectric (epsilon -3)))', '(set! default-material (make medium (epsilon 1) (mu 0)))', '(set! default-material (make medium (epsilon 2) (mu -2)))',
        '(set! default-material (make medium-anisotropic (epsilon-diag 1 2 -3)))', '(set! default-material (make medium-anisotropic (epsilon-diag 1 2 3) (epsilon-offdiag 9 0 0)))', '(set! default-material (make medium-anisotropic (mu-diag 1 0 1)))',
        '(set! default-material (make dielectric (epsilon +nan.0)))', '(set! default-material (make material-function (material-func (lambda (p) 7))))',
        '(set! default-material (make material-function (epsilon-func (lambda (p) -1))))', '(set! default-material (make material-function (epsilon-func (lambda (p) "x"))))',
        '(set! epsilon-input-file "missing.h5")', '(set! mu-input-file "missing.h5")', '(set! epsilon-input-file "/dev/null")', '(set! filename-prefix "nodir/x")',
        '(set! vf-k (vector3 +nan.0 0 0))', '(set! vf-k (vector3 +inf.0 0 0))', '(set! vf-k "x")', '(set! vf-par 77)', '(set! vf-par 3)', '(set! vf-par 12)',
        '(set! geometry (list (make block (center 0 0) (size infinity infinity infinity) (material (make material-grid (size 0 0 0) (epsilon-min 1) (epsilon-max 2))))))',
        '(set! geometry (list (make block (center 0 0) (size infinity infinity infinity) (material (make material-grid (size 3 3 1) (epsilon-min -1) (epsilon-max -0.5))))))',
        '(set! geometry (list 5))', '(set! geometry (list (make cylinder (center 0.1 0) (radius -0.3) (height infinity) (material air))))',
        '(set! default-material (make medium-anisotropic (epsilon-diag 3 3 3) (epsilon-offdiag 0 0 0+0.5i)))' if P.variant != 'herm' else '(set! default-material (make medium-anisotropic (epsilon-diag 1 1 1) (epsilon-offdiag 0 0 0+2i)))',
        '(set! num-bands "x")', '(set! tolerance "x")', '(set! k-points 5)', '(set! target-freq 0.3)(set! force-mu? true)(set! default-material (make medium (epsilon 2) (mu 3)))'])

def sane(r, what):
    bad = re.search(r'AddressSanitizer|LeakSanitizer|UndefinedBehavior|runtime error', r.stderr)
    need(not bad, '%s: sanitizer report: %s' % (what, r.stderr[bad.start():bad.start() + 700] if bad else ''), 'sanitizer')
    need(not r.timeout, '%s: does not end' % what, 'hang')
    need(r.rc >= 0 and r.rc < 126, '%s: killed by a signal, status %s; %s' % (what, r.rc, r.stderr[-300:]), 'signal')

class P25(Check):
    id = 'P25'
    wants = ('complex', 'asan-complex', 'asan-inv', 'asan-herm', 'complex:data')
    n_quick, n_thorough = 640, 12000
    rule = ('random problem, build and session: before initialisation, before solving, and between valid operations with a random field loaded, ill-formed operations drawn from about 90 families (state model says which are ill-formed); '
            'or a configuration that describes no calculation; or mpb-data on a bad file or with bad options. Address and undefined-behaviour sanitizers on. Oracle: never a sanitizer report, signal or hang; a refused operation leaves a message and an empty result or '
            'ends the program with a message and non-zero status; nothing is written; a fixed battery of valid observations gives the same values after the refused operations as before; non-trivial: at least two ill-formed operations or a bad configuration')
    assumptions = ['gcc sanitizers', 'state model of which operation needs what']
    def gen(self, rng, i, tier):
        c = gen_problem(rng, nbmax=4, mu_p=0.3, pol_p=0.25, maxn=(9, 5, 3), uniform=False)
        u = rng.random()
        if u < 0.22:
            c['kind'] = 'config'; c['cfg'] = configs(rng, Prob(c)); return c
        if u < 0.30:
            c['kind'] = 'data'; c['data'] = [rng.choice(['missing', 'junk', 'empty', 'trunc', 'dataset', 'optx', 'optn', 'optm', 'odir', 'noarg']), rng.choice(['-x', '-y', '-n', '-r']), rng.choice(['0', '-1', 'abc', ''])]; return c
        c['kind'] = 'session'
        nb = c['nb']; B = lambda: rng.choice([0, -1, nb + 1, nb + 2, 99, -100, 2 ** 31 - 1])
        names = list(OPS)
        c['pre'] = [[rng.choice(names), B()] for _ in range(rng.choice([0, 1, 3]))]
        c['ini'] = [[rng.choice(names), B()] for _ in range(rng.choice([0, 1, 3]))]
        c['mid'] = [[rng.choice(list(LOADS) + ['']), rng.randint(1, nb), [[rng.choice(names), B()] for _ in range(rng.randint(1, 3))]] for _ in range(rng.randint(1, 4))]
        # the calculation set up anew (same or another grid, same or another material) after a field was loaded: nothing of the old one is left
        c['re'] = [rng.choice(['', '', '', 'same', 'same', 'reset', 'grid', 'bands', 'mu']), rng.choice([x for x in LOADS if x != 'Rv']), rng.randint(1, nb), [[rng.choice(names), B()] for _ in range(rng.randint(1, 4))], rng.choice([n for n in names if n in ('eps-pt', 'einv-pt', 'energy-pt', 'bloch-field-pt', 'field-pt', 'cscalar-pt', 'bloch-cscalar-pt', 'tot-pwr', 'poynting')])]
        c['last'] = [rng.choice(['pre', 'ini', 'mid', 'mid', 'mid']), rng.choice([n for n in names if OPS[n][2]]), B()]
        return c
    def fixed(self):
        base = dict(variant='complex', lat=dict(dim=2, size=[1.0, 1.0, 1.0], basis=[[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], bsize=[1.0, 1.0, 1.0]), n=[5, 4, 1], eps=dict(t='iso', s=3, hi=5.0, inv=False, mir=''), mu=None, nb=3, k=[0.3, 0.2, 0.0], pol='', kind='session')
        out = []
        for n in OPS:   # every operation once: alone after each level
            for lvl in ('pre', 'ini', 'mid'):
                c = dict(base, pre=[], ini=[], mid=[['n', 1, []]], last=[lvl, n, 99]); out.append(c)
        return out if getattr(self, 'tier', 'quick') == 'thorough' else out[::3]
    def valid(self, c):
        if not valid_problem(c) or c['kind'] not in ('session', 'config', 'data'): return False
        if c['kind'] == 'session':
            return all(o[0] in OPS for l in (c['pre'], c['ini']) for o in l) and all(m[0] in LOADS or m[0] == '' for m in c['mid']) and all(1 <= m[1] <= c['nb'] and all(o[0] in OPS for o in m[2]) for m in c['mid']) and c['last'][0] in ('pre', 'ini', 'mid') and c['last'][1] in OPS and ('re' not in c or c['re'][1] in LOADS and 1 <= c['re'][2] <= c['nb'] and all(o[0] in OPS for o in c['re'][3]) and c['re'][4] in OPS)
        return True
    def run(self, c):
        return getattr(self, 'run_' + c['kind'])(c)
    def run_config(self, c):
        P = Prob(c)
        k = P.k if any(abs(x) > 1e-3 for x in P.k) else [0.1] + list(P.k[1:])   # at Gamma the constant bands need no solver
        t = P.head(tol=1e-7) + '(define vf-k %s)(define vf-par %s)' % (v3(k), P.parity) + '(define (vf-nop x) x)\n(print "@A\\n")\n' + c['cfg'] + '\n(init-params vf-par true)(output-epsilon)(solve-kpoint vf-k)(print "@Z\\n")\n'
        with Scratch() as d:
            r = run_ctl(t, d, 'asan-' + P.variant, timeout=100)
        sane(r, c['cfg'])
        need('@A' in r.stdout, 'session head', 'head')
        need(r.rc != 0 and r.stderr.strip() and '@Z' not in r.stdout, '%s: accepted: status %s, %s' % (c['cfg'], r.rc, [l for l in r.stdout.split('\n') if 'freqs:' in l][-1:]), 'accepted')
        return True, ['config', c['variant'], re.sub(r'[^a-z-]+', ' ', c['cfg'])[:40]]
    def run_data(self, c):
        k, o, v = c['data']; P = Prob(c)
        with Scratch() as d:
            f = os.path.join(d, 'a.h5')
            r = run_ctl(P.head() + P.init() + '(output-epsilon)', d, 'asan-' + P.variant); r.ok()
            shutil.move([os.path.join(d, x) for x in os.listdir(d) if x.endswith('.h5')][0], f)
            raw = open(f, 'rb').read()
            args = ['a.h5']
            if k == 'missing': args = ['nope.h5']
            elif k == 'junk': open(f, 'wb').write(b'this is no hdf5 file' * 40)
            elif k == 'empty': open(f, 'wb').write(b'')
            elif k == 'trunc': open(f, 'wb').write(raw[:len(raw) // 2])
            elif k == 'dataset': args = ['-d', 'nope', 'a.h5']
            elif k == 'optx': args = [o, v, 'a.h5'] if o in ('-x', '-y') else ['-x', '0', 'a.h5']
            elif k == 'optn': args = ['-n', v, 'a.h5']
            elif k == 'optm': args = ['-m', v, 'a.h5']
            elif k == 'odir': args = ['-o', 'nodir/b.h5', 'a.h5']
            elif k == 'noarg': args = [['-q'], ['a.h5', 'b.h5', '-o'], ['-d'], []][len(v) % 4]
            before = open(f, 'rb').read()
            r = run_proc([os.path.join(mpbrun.BIN['complex'], 'mpb-data')] + args, d, 60)
            sane(r, 'mpb-data ' + ' '.join(args))
            if k in ('missing', 'junk', 'trunc', 'odir') or (k == 'noarg' and '-q' not in args):
                need(r.rc != 0 and (r.stderr + r.stdout).strip(), 'mpb-data %s (%s): status %s, %s' % (args, k, r.rc, (r.stdout + r.stderr)[-200:]), 'data-accepted')
            if r.rc != 0 and k != 'odir': need(open(f, 'rb').read() == before, 'mpb-data %s failed but changed the file' % args, 'data-damage')
        return True, ['data', k]
    def run_session(self, c):
        P = Prob(c); nb = P.nb; mu = P.M is not None
        s = St(nb, mu, P.variant == 'inv')
        t = P.head(tol=1e-8) + '''
(define (vf-bad j th) (set! filename-prefix "bad-") (display (string-append "\\n@B" (number->string j) "\\n") (current-error-port)) (print "\\n@B" j "\\n")
  (let ((v (th))) (display (string-append "\\n@V" (number->string j) "\\n") (current-error-port)) (print "\\n@V" j " " (object->string v) "\\n")) (set! filename-prefix "ok-"))
(set! filename-prefix "ok-")
(define vf-gk %s)
(define (vf-probe nm)
 (vp nm (list freqs (map vc (map (lambda (b) (get-dfield b)(sqmatrix-ref (dot-eigenvectors (get-eigenvectors b 1) b) 0 0)) (iota num-bands 1)))
  (map (lambda (b) (get-dfield b)(compute-field-energy)) (iota num-bands 1)) (map (lambda (b) (get-dfield b)(compute-field-energy)(list (compute-energy-in-dielectric 1 3)(get-energy-point %s))) (iota num-bands 1))
  (map (lambda (b) (get-bfield b)(map vc (vector->list (get-bloch-field-point %s)))) (iota num-bands 1)) (map (lambda (b) (get-efield b)(map vc (vector->list (get-bloch-field-point %s)))) (iota num-bands 1))
  (get-epsilon-point %s) (map vector->list (compute-group-velocities)) (get-kpoint-index))))
''' % (v3(P.k), P1, P1, P1, P1)
        n = [0]; info = []
        def bad(o):
            nonlocal t
            f, ill, dies, drop, _ = OPS[o[0]]
            if not ill(s, o[1]): return False
            t += "(vf-bad %d (lambda () %s))\n" % (n[0], f(s, o[1])); info.append((n[0], f(s, o[1]), o[0], s.lvl, s.cur)); n[0] += 1
            if drop: s.cur = None
            return True
        def last(w):
            if c['last'][0] == w and bad(c['last'][1:]): return True
            return False
        def body():
            nonlocal t
            for o in c['pre']:
                if not OPS[o[0]][2]: bad(o)
            if last('pre'): return
            t += P.init() + '(set! filename-prefix "ok-")\n'; s.lvl = 1
            for o in c['ini']:
                if not OPS[o[0]][2]: bad(o)
            if last('ini'): return
            t += P.solve() + '(get-dfield 1)(define fv-d (field-copy cur-field))(get-epsilon)(define fv-n (field-copy cur-field))\n(vf-probe "A")\n'; s.lvl = 2; s.cur = None
            s.cur = None
            # the probe leaves the current field undefined for the model: reset it by a query that resets
            t += '(compute-group-velocity-component (vector3 1 0 0))\n'
            for ld, b, ops in c['mid']:
                if ld:
                    if ld == 'C' and P.variant == 'inv': ld = 'd'
                    x = LOADS[ld]; t += (x % b if '%d' in x else x) + '\n'; s.cur = CUR.get(ld, ld)
                else: t += '(compute-group-velocity-component (vector3 1 0 0))\n'; s.cur = None
                for o in ops:
                    if not OPS[o[0]][2]: bad(o)
            t += '(vf-probe "Z")\n'
            t += '(set-kpoint-index (- (get-kpoint-index) 1))' + P.solve(times=1) + '(vp "f2" freqs)(vp "ok" 1)(compute-group-velocity-component (vector3 1 0 0))\n'; s.cur = None
            if c.get('re', [''])[0]:
                rk, ld, b, ops, fin = c['re']
                if ld == 'C' and P.variant == 'inv': ld = 'd'
                x = LOADS[ld]; t += (x % b if '%d' in x else x) + '\n'
                t += {'same': '', 'reset': '', 'grid': '(set! grid-size (vector3 6 5 3))' if c['lat']['dim'] == 3 else '(set! grid-size (vector3 7 3 1))' if c['lat']['dim'] == 2 else '(set! grid-size (vector3 7 1 1))',
                      'bands': '(set! num-bands (+ num-bands 1))', 'mu': '(set! default-material (make medium (epsilon 2) (mu 3)))'}[rk] if P.N > 4 else ''
                t += '\n(init-params %s %s)(set! filename-prefix "ok-")\n' % (P.parity, 'false' if rk == 'same' else 'true')
                s.cur = None; s.lvl = 1
                if rk == 'mu' and P.N > 4: s.mu = True
                if rk == 'bands' and P.N > 4: s.nb += 1
                for o in ops:
                    if not OPS[o[0]][2] and not o[0] in ('solve', 'parity'): bad(o)
                if bad([fin, b]): return
                t += P.solve(times=1) + '(get-dfield 1)(compute-field-energy)(vp "re" freqs)(compute-group-velocity-component (vector3 1 0 0))\n'; s.lvl = 2; s.cur = None
            ld, b, _ = c['mid'][-1]
            if ld:
                if ld == 'C' and P.variant == 'inv': ld = 'd'
                x = LOADS[ld]; t += (x % b if '%d' in x else x) + '\n'; s.cur = CUR.get(ld, ld)
            last('mid')
        body()
        if not n[0]: raise Skip('nothing ill-formed drawn')
        with Scratch() as d:
            r = run_ctl(t, d, 'asan-' + P.variant, timeout=140)
            files = sorted(os.listdir(d))
        names = ' | '.join(x[1] for x in info)
        sane(r, names)
        died = r.rc != 0
        tags = ['session', c['variant'], 'died' if died else 'refused'] + [x[2] for x in info]
        eparts = {int(a): b for a, b in re.findall(r'\n@B(\d+)\n(.*?)(?=\n@V\1\n|\Z)', '\n' + r.stderr, re.S)}
        for j, txt, nm, lvl, cur in info:
            what = 'operation %s with %s, current field %s' % (txt, ('nothing initialised', 'no solution', 'a solution')[lvl], cur)
            m = re.search(r'\n@B%d\n(.*?)\n@V%d ([^\n]*)\n' % (j, j), r.stdout, re.S)
            if m is None:
                need(died, '%s: no result and status %d' % (what, r.rc), 'vanished')
                need('\n@B%d\n' % j in '\n' + r.stderr, '%s: session died before it: %s' % (what, r.stderr[-400:]), 'early-death')
                need(eparts.get(j, '').strip() != '', '%s: died without a message' % what, 'silent-death')
                break
            need(EMPTY.match(m.group(2).strip()) is not None, '%s: returned %s' % (what, m.group(2)[:200]), 'garbage:' + nm)
            need((eparts.get(j, '') + m.group(1)).strip() != '', '%s: refused without any message (result %s)' % (what, m.group(2)[:60]), 'silent:' + nm)
        else:
            need(not died, 'session died outside the ill-formed operations: %s' % r.stderr[-400:], 'late-death')
        wrote = [f for f in files if f.startswith('bad-')]
        need(not wrote, '%s: wrote %s' % (names, wrote), 'wrote')
        if 'Z' in r.out:
            A, Z = flat(r.get('A')), flat(r.get('Z'))
            need(len(A) == len(Z), 'battery length', 'battery')
            dd = np.abs(A - Z); sc = 1e-9 * (1 + np.abs(A))
            need((dd <= sc).all(), 'after %s the battery of valid observations changed: %s -> %s' % (names, A[dd > sc][:5].tolist(), Z[dd > sc][:5].tolist()), 'changed')
            f, f2 = np.array(r.get('A')[0]), r.arr('f2')
            need(len(f) == len(f2) and np.allclose(f ** 2, f2 ** 2, rtol=1e-4, atol=1e-6 * (1 + f.max() ** 2)), 'after %s a new solve gives %s, before %s' % (names, f2.tolist(), f.tolist()), 'solve-changed')
        return n[0] >= 2 or died, tags

def flat(x):
    if isinstance(x, (list, tuple)): return np.concatenate([flat(y) for y in x]) if x else np.zeros(0)
    return np.array([float(x)])
import os
CHECK = P25()
