# technique: property-based testing and fuzzing: generated multi-phase user sessions run under AddressSanitizer/UndefinedBehaviorSanitizer, as a metamorphic pair with different fill patterns for fresh and released memory, and repeated in one process with the program's own live allocations counted by call site
# level_note: exploration; uninitialised reads are detected when they reach an output, leaks when they repeat
import re, os, subprocess
import numpy as np
import geom, build, mpbrun, modes
from modes import *
from mpbrun import run_ctl, run_proc, need, Fail, Skip, Scratch
from pbt import Check

ID3 = '(matrix3x3 (vector3 1 0 0) (vector3 0 1 0) (vector3 0 0 1))'
ROT = ['(matrix3x3 (vector3 -1 0 0) (vector3 0 -1 0) (vector3 0 0 -1))', '(matrix3x3 (vector3 1 0 0) (vector3 0 -1 0) (vector3 0 0 1))', '(matrix3x3 (vector3 0 1 0) (vector3 1 0 0) (vector3 0 0 1))', ID3]
class S: pass
OPS = {}
# name -> (text(s, b, p, i), precondition(s), current field afterwards: None keep, '' none, letter, or function(s); works in MPI)
def op(name, text, pre=lambda s: True, cur=None, mpi=True): OPS[name] = (text, pre, cur, mpi)
V = 'dhbecv'; EN = 'DHBR'
for t in 'dhbe': op('get-%s' % t, lambda s, b, p, i, t=t: '(get-%sfield %d)' % (t, b), cur=t)
op('e-from-d', lambda s, b, p, i: '(get-efield-from-dfield)', lambda s: s.cur == 'd', 'e')
op('get-eps', lambda s, b, p, i: '(get-epsilon)', cur='n')
op('get-mu', lambda s, b, p, i: '(get-mu)', lambda s: s.mu, 'm')
op('poynting', lambda s, b, p, i: '(get-poynting %d)' % b, cur='v')
op('tot-pwr', lambda s, b, p, i: '(get-tot-pwr %d)' % b, cur='R')
op('charge', lambda s, b, p, i: '(get-charge-density %d)' % b, lambda s: s.v != 'inv', 'C')
op('div', lambda s, b, p, i: '(compute-field-divergence)', lambda s: s.cur in list('dhbe') and s.v != 'inv', 'C')
op('phase', lambda s, b, p, i: '(fix-field-phase)', lambda s: s.cur in list('dhbe'))
op('energy', lambda s, b, p, i: '(compute-field-energy)', lambda s: s.cur in list('db') or (s.cur == 'h' and not s.mu), lambda s: s.cur.upper())
op('copy', lambda s, b, p, i: '(define vf-f%d (field-copy cur-field))(set! vf-fs (list vf-f%d))' % (i, i), lambda s: s.cur)
op('load', lambda s, b, p, i: '(field-load (field-copy cur-field))', lambda s: s.cur in tuple(V + EN + 'nC'))
op('set', lambda s, b, p, i: '(field-set! cur-field (field-copy cur-field))', lambda s: s.cur in tuple(V + EN + 'nC'))
op('map', lambda s, b, p, i: '(let ((f (field-make cur-field))) (field-map! f (lambda (x y) x) cur-field cur-field) (field-load f))', lambda s: s.cur in tuple(V + EN), lambda s: 'c' if s.cur in V else 'R')
op('nonbloch', lambda s, b, p, i: '(let ((f (cvector-field-make cur-field))) (cvector-field-nonbloch! f) (field-map! f (lambda (x) x) cur-field))', lambda s: s.cur in tuple(V))
op('bloch-pt', lambda s, b, p, i: '(get-bloch-field-point %s)' % v3(p), lambda s: s.cur in tuple(V))
op('field-pt', lambda s, b, p, i: '(get-field-point %s)' % v3(p), lambda s: s.cur in tuple(V))
op('cs-pt', lambda s, b, p, i: '(list (get-bloch-cscalar-point %s)(get-cscalar-point %s))' % (v3(p), v3(p)), lambda s: s.cur == 'C')
op('en-pt', lambda s, b, p, i: '(get-energy-point %s)' % v3(p), lambda s: s.cur in tuple(EN))
op('eps-pt', lambda s, b, p, i: '(list (get-epsilon-point %s)(get-epsilon-inverse-tensor-point %s))' % (v3(p), v3(p)))
op('smob-pt', lambda s, b, p, i: '(%s-field-get-point (field-copy cur-field) %s)' % ('cvector' if s.cur in V else 'rscalar', v3(p)), lambda s: s.cur in tuple(V + EN + 'n'))
op('smob-ptb', lambda s, b, p, i: '(cvector-field-get-point-bloch (field-copy cur-field) %s)' % v3(p), lambda s: s.cur in tuple('dhbec'))
op('out', lambda s, b, p, i: '(output-field)', lambda s: s.cur in tuple(V + EN + 'nC'), '')
op('out-c', lambda s, b, p, i: '(output-field-%s)' % 'xyz'[i % 3], lambda s: s.cur in tuple(V), '')
op('out-b', lambda s, b, p, i: '(output-%s %d)' % (['dfield', 'hfield', 'efield', 'bfield', 'dfield-x', 'hfield-z', 'efield-y', 'dpwr', 'tot-pwr', 'poynting', 'poynting-x'][i % 11], b), cur='')
op('out-eps', lambda s, b, p, i: '(output-epsilon)', cur='')
op('out-mu', lambda s, b, p, i: '(output-mu)', lambda s: s.mu, '')
op('charge-out', lambda s, b, p, i: '(output-charge-density %d)' % b, lambda s: s.v != 'inv', '')
op('en-diel', lambda s, b, p, i: '(compute-energy-in-dielectric 1 %d)' % (2 + i), lambda s: s.cur in tuple(EN))
op('en-obj', lambda s, b, p, i: '(compute-energy-in-objects (make %s (center %s) (material air)))' % (['sphere (radius 0.3)', 'block (size 0.3 0.4 0.5)', 'cylinder (radius 0.2) (height infinity)'][i % 3], ' '.join(sn(x) for x in p)), lambda s: s.cur in tuple(EN))
op('en-int', lambda s, b, p, i: '(compute-energy-integral (lambda (u e r) (* u e (vector3-x r))))', lambda s: s.cur in tuple(EN))
op('f-int', lambda s, b, p, i: '(compute-field-integral (lambda (f e r) (* e %s)))' % ('(vector3-x f)' if s.cur in V else 'f'), lambda s: s.cur in tuple('dhbec' + EN))
op('int-fs', lambda s, b, p, i: '(integrate-fields (lambda (r f) (vector3-norm r)) cur-field)', lambda s: s.cur in tuple(V + EN + 'n'))
op('overlap', lambda s, b, p, i: '(transformed-overlap %s %s)' % (ROT[i % 4], v3(p)), lambda s: s.cur in list('db') and s.dim == 3 and s.v != 'inv', mpi=False)
op('sym', lambda s, b, p, i: '(compute-symmetry %d %s %s)' % (b, ROT[i % 4], v3(p)), lambda s: s.v != 'inv' and s.dim == 3, '', mpi=False)
op('syms', lambda s, b, p, i: '(compute-symmetries %s %s)' % (ROT[i % 4], v3(p)), lambda s: s.v != 'inv' and s.dim == 3, '', mpi=False)
op('zpar', lambda s, b, p, i: '(compute-zparities)', cur=None)
op('ypar', lambda s, b, p, i: '(compute-yparities)', cur=None)
op('gv', lambda s, b, p, i: '(compute-group-velocities)', cur='')
op('gvc', lambda s, b, p, i: '(compute-group-velocity-component %s)' % v3([p[0], p[1] + 1, p[2]]), cur='')
op('gv1', lambda s, b, p, i: '(list (compute-1-group-velocity %d)(compute-1-group-velocity-reciprocal %d)(compute-1-group-velocity-component (vector3 1 0 0) %d))' % (b, b, b), cur='')
op('solve', lambda s, b, p, i: '(solve-kpoint %s)' % v3([p[0], p[1] if s.dim > 1 else 0, p[2] if s.dim > 2 else 0]), cur='')
op('solve0', lambda s, b, p, i: '(solve-kpoint (vector3 0))', cur='')
op('rand', lambda s, b, p, i: '(randomize-fields)(solve-kpoint %s)' % v3(s.k), cur='')
op('ev', lambda s, b, p, i: '(let ((e (get-eigenvectors %d %d))) (set-eigenvectors e %d))' % (b, 1 + i % (s.nb - b + 1), b), cur='', mpi=False)
op('ev-dot', lambda s, b, p, i: '(let ((m (dot-eigenvectors (get-eigenvectors 1 %d) 1))) (list (sqmatrix-size m) (sqmatrix-ref m 0 0) (sqmatrix-eigvals (sqmatrix-mult m m))))' % s.nb, mpi=False)
op('ev-io', lambda s, b, p, i: '(begin (output-eigenvectors (get-eigenvectors %d 1) "ev%d") (input-eigenvectors "ev%d" 1))' % (b, i, i), mpi=False)
op('ev-save', lambda s, b, p, i: '(begin (save-eigenvectors "sv%d.h5") (load-eigenvectors "sv%d.h5"))' % (i, i), cur='', mpi=False)
op('ev-scale', lambda s, b, p, i: '(scale-eigenvector %d -1)' % b, cur='')
op('ev-fix', lambda s, b, p, i: '(fix-phase-consistency (get-eigenvectors 1 %d) 1)' % s.nb, cur='', mpi=False)
op('dominant', lambda s, b, p, i: '(get-dominant-planewave %d)' % b)
op('fbz', lambda s, b, p, i: '(first-brillouin-zone %s)' % v3([3 * x for x in p]))
op('sqm', lambda s, b, p, i: '(let* ((a (sqmatrix-diagm (list 1 2 3))) (b (sqmatrix-mult a a))) (sqmatrix-set b 0 1 0.5) (list (sqmatrix-ref b 2 2) (sqmatrix-eigvals b)))')
op('epsfile', lambda s, b, p, i: '(begin (output-epsilon) (set! epsilon-input-file (string-append (if (string=? filename-prefix "") "" filename-prefix) "epsilon.h5")) (init-params %s false) (set! epsilon-input-file "") (solve-kpoint %s))' % (s.par, v3(s.k)), lambda s: False, '')
op('par', lambda s, b, p, i: '(begin (set-parity %s) (solve-kpoint %s))' % (['NO-PARITY', 'TE', 'TM'][i % 3], v3(s.k)), lambda s: s.pol, '')
op('runte', lambda s, b, p, i: '(begin (set! k-points (list %s %s)) (set! k-split-num 1) (set! k-split-index 0) (run-%s %s))' % (v3(s.k), v3([x / 2 + .1 if j < 2 else 0 for j, x in enumerate(s.k)]), ['te', 'tm'][i % 2], ['output-dpwr', 'display-group-velocities', 'fix-hfield-phase output-hfield-z', 'display-yparities'][i % 4]), lambda s: s.pol, '')
op('run', lambda s, b, p, i: '(begin (set! k-points (list %s %s)) (run %s))' % (v3(s.k), v3([x / 2 + .1 if j < s.dim else 0 for j, x in enumerate(s.k)]), ['output-dpwr', 'display-group-velocities', 'fix-dfield-phase output-dfield', '(combine-band-functions fix-efield-phase output-efield-x)', '(output-at-kpoint %s output-hpwr)' % v3(s.k)][i % 5]), lambda s: not s.pol, '')
op('reinit', lambda s, b, p, i: '(begin (init-params %s %s) (solve-kpoint %s))' % (s.par, ['true', 'false'][i % 2], v3(s.k)), cur='')
op('bands', lambda s, b, p, i: '(begin (set! num-bands %d) (init-params %s %s) (solve-kpoint %s) (set! num-bands %d) (init-params %s %s) (solve-kpoint %s))' % (1 + i % s.nbmax, s.par, ['true', 'false'][i % 2], v3(s.k), s.nb, s.par, ['true', 'false'][i // 2 % 2], v3(s.k)), cur='')
op('block', lambda s, b, p, i: '(begin (set! eigensolver-block-size %d) (init-params %s %s) (solve-kpoint %s))' % ([1, 2, -2, 3, 0, 5][i % 6], s.par, ['true', 'false'][i % 2], v3(s.k)), cur='')
op('findk', lambda s, b, p, i: '(begin (catch #t (lambda () (find-k %s (list-ref freqs %d) %d %d (vector3 1 0 0) 1e-2 0.25 0.05 0.45)) (lambda a 0)) (set! num-bands %d) (init-params %s true) (solve-kpoint %s))' % (s.par, b - 1, b, b, s.nb, s.par, v3(s.k)), lambda s: s.dim > 1, '')
op('mg-grad', lambda s, b, p, i: '(begin (print-material-grids-gradient %d)(print-material-grids-deps-du)(material-grids-approx-gradient %s %d 0 0.01))' % (b, v3(s.k), b), lambda s: s.mg and not s.mu, '', mpi=False)
op('mg-dun', lambda s, b, p, i: '(print-material-grids-deps-du-numeric 0.01)', lambda s: s.mg and not s.mu, '', mpi=False)
op('mg-rand', lambda s, b, p, i: '(begin (randomize-material-grid! vf-mg 0.2)(init-params %s false)(solve-kpoint %s))' % (s.par, v3(s.k)), lambda s: s.mg, '')
op('mg-io', lambda s, b, p, i: '(begin (save-material-grid vf-mg "mg%d")(load-material-grid! vf-mg "mg%d.h5" (object-property-value vf-mg \'size)))' % (i, i), lambda s: s.mg and False, mpi=False)
op('mg-match', lambda s, b, p, i: '(begin (output-epsilon)(material-grids-match-epsilon-file! (string-append (get-filename-prefix) "epsilon.h5") 0.1))', lambda s: False, '', mpi=False)

CFG = [['(set! eigensolver-davidson? true)(set! eigensolver-nwork 5)', '(set! eigensolver-davidson? false)'], ['(set! eigensolver-nwork 3)', '(set! eigensolver-nwork 2)', '(set! eigensolver-nwork 4)'], ['(set! eigensolver-block-size -3)', '(set! eigensolver-block-size 1)', '(set! eigensolver-block-size 2)', '(set! eigensolver-block-size 0)'],
       ['(set! target-freq 0.3)', '(set! target-freq 0)'], ['(set! mesh-size 1)', '(set! mesh-size 2)', '(set! mesh-size 3)', '(set! mesh-size 4)'], ['(set! eigensolver-flags 70)', '(set! eigensolver-flags 68)'], ['(set! simple-preconditioner? true)', '(set! simple-preconditioner? false)'],
       ['(set! force-mu? true)', '(set! force-mu? false)'], ['(set! negative-epsilon-ok? true)']]
RESET = '(set! eigensolver-davidson? false)(set! eigensolver-nwork 3)(set! eigensolver-block-size -11)(set! target-freq 0)(set! mesh-size 3)(set! eigensolver-flags 68)(set! simple-preconditioner? false)(set! force-mu? false)'

LIVE = '''(define vf-live (let* ((m (resolve-interface '(system foreign))) (f (module-ref m 'pointer->procedure))) (f (module-ref m 'long) (dynamic-func "vf_live" (dynamic-link)) (list (module-ref m 'long)))))
(define (vf-mark i) (set! vf-fs '()) (gc)(usleep 20000)(gc)(usleep 20000)(gc)(usleep 20000) (vf-live i))
'''
GIVEUP = ('failure to converge', 'not positive definite', 'positive-definite', 'dlapy', 'linmin', 'NaN', 'nonlinear solver', 'unlucky')

def gen_phase(rng, v, mpi, small):
    dim = rng.choice([1, 2, 2, 3] if not mpi else [2, 3]); L = gen_lattice(rng, dim); L.pop('scale', None)
    hi = {1: 20, 2: 8, 3: 4}[dim] if not small else {1: 12, 2: 6, 3: 3}[dim]
    n = [rng.choice([rng.randint(1, hi), rng.randint(2, hi)]) if i < dim else 1 for i in range(3)]
    pol = dim == 2 and rng.random() < 0.35
    k = [rnd(rng, 0.1, 0.5) if i < dim else 0.0 for i in range(3)]
    if rng.random() < 0.12: k = [0.0, 0.0, 0.0]
    N = n[0] * n[1] * n[2]
    nbmax = max(1, min(5, N // 2))
    ph = dict(dim=dim, lat=L, n=n, pol=pol, k=k, nb=rng.randint(1, nbmax), mat=rng.choice(['geo', 'geo', 'grid', 'table', 'hom', 'mu']), s=rng.randrange(10 ** 6), cfg=[rng.choice(x) for x in CFG if rng.random() < 0.2], det=rng.random() < 0.9, res=rng.random() < 0.3)
    ph['ops'] = [[rng.choice(list(OPS)), rng.random(), [rnd(rng, -1.2, 1.2) for _ in range(3)], rng.randrange(60)] for _ in range(rng.randint(3, 14))]
    return ph

class P26(Check):
    id = 'P26'
    wants = ('complex', 'inv', 'herm', 'mpi', 'asan-complex', 'asan-inv', 'asan-herm', 'asan-complex:data', 'complex:data', 'complex:mem')
    n_quick, n_thorough = 1100, 20000
    rule = ('one to three phases, each: random dimension, lattice, grid (also one point per direction), material description (objects, material grid, tables, homogeneous, magnetic), solver options, then 3-14 operations out of about 60 families that are legal in the current state (solves, re-initialisation with and without '
            'reset, other band counts and block sizes, fields, energies, integrals, points, files, eigenvectors, matrices, parities, symmetries, group velocities, find-k, material-grid gradients); '
            'oracles: asan = no sanitizer report, signal, hang or unexpected end; fill = printed values and files agree between two patterns for fresh and freed memory (serial and MPI builds); leak = repeating the session in one process does not increase the allocations held by the program at any call site; '
            'data = mpb-data under sanitizers and fill patterns; non-trivial: at least five operations executed')
    assumptions = ['gcc sanitizers', 'constant clock in the fill runs so that runs are otherwise identical', 'libraries (HDF5, FFTW, LAPACK, Guile, libctl) are correct']
    def gen(self, rng, i, tier):
        u = rng.random()
        c = dict(kind='asan' if u < 0.5 else 'fill' if u < 0.75 else 'leak' if u < 0.93 else 'data')
        c['variant'] = rng.choice(['complex', 'complex', 'inv', 'herm'])
        if c['kind'] == 'fill' and rng.random() < 0.25: c['variant'] = 'mpi'; c['np'] = rng.choice([1, 2, 3])
        mpi = c['variant'] == 'mpi'
        c['ph'] = [gen_phase(rng, c['variant'], mpi, c['kind'] == 'leak') for _ in range(rng.choice([1, 1, 2, 3]) if c['kind'] != 'data' else 1)]
        if c['kind'] == 'data': c['opt'] = [o for o in [['-r'], ['-x', str(rng.randint(1, 3))], ['-y', str(rng.randint(1, 3))], ['-z', str(rng.randint(1, 2))], ['-m', rng.choice(['2', '0.7', '1.5'])], ['-n', str(rng.randint(1, 12))], ['-T'], ['-p'], ['-e', '1,%s,0' % rnd(rng, -1, 1)], ['-P', str(rnd(rng, -180, 180))], ['-o', 'b.h5']] if rng.random() < 0.3]; c['variant'] = rng.choice(['complex', 'inv', 'herm']); c['ph'][0]['ops'] = []
        return c
    def valid(self, c):
        for p in c['ph']:
            L = p['lat']
            if p['dim'] != L['dim'] or len(p['n']) != 3 or any(x < 1 for x in p['n']) or any(x != 1 for x in p['n'][p['dim']:]) or p['nb'] < 1 or p['nb'] > max(1, int(np.prod(p['n'])) // 2) or any(o[0] not in OPS for o in p['ops']) or len(p['k']) != 3 or abs(np.linalg.det(rows(L))) < 0.1 or min(L['size']) < 0.5 or min(L['bsize']) < 0.5: return False
            if any(p['k'][p['dim']:]) or any(0 < abs(x) < 0.05 for x in p['k']): return False
        return len(c['ph']) >= 1
    def phase(self, c, p, j):
        v = c['variant']; rng = __import__('random').Random(p['s']); L = p['lat']; n = p['n']
        s = S(); s.v = v; s.dim = p['dim']; s.nb = p['nb']; s.k = p['k']; s.pol = p['pol']; s.par = rng.choice(['TE', 'TM']) if p['pol'] else 'NO-PARITY'; s.cur = ''; s.mg = False; s.mu = False
        s.nbmax = max(1, min(5, int(np.prod(n)) // 2))
        herm = v == 'herm' and not s.pol
        cfg = list(p['cfg'])
        if p['mat'] in ('mu', 'table') or 'force-mu? true' in ''.join(cfg): cfg = [x for x in cfg if 'target-freq' not in x and 'davidson? true' not in x]
        if 'davidson? true' in ''.join(cfg): cfg = [x for x in cfg if not x.startswith('(set! eigensolver-nwork')]
        t = RESET + '(set! geometry (list))(set! default-material air)\n' + ctl_lattice(L) + ctl_grid(n) + ctl_common(s.nb, tol=1e-3, det=p['det'] or c['kind'] != 'asan', mesh=rng.choice([1, 2, 3])) + ''.join(cfg) + '\n'
        if p['mat'] in ('geo', 'mu'):
            g = geom.gen_geo(rng, L, herm, p['mat'] == 'mu', nobj=rng.randint(0, 4), aniso=not s.pol)
            t += re.sub(r'\(define (f?mat\d+)', r'(define \1', geom.Geo(L, g['objs'], g['mats'], g['default']).ctl())
            s.mu = any(m['mu'] for m in g['mats'])
            s.maymu = s.mu
        elif p['mat'] == 'grid':
            t += '(define vf-mg (make material-grid (epsilon-min 1) (epsilon-max 9) (size %d %d %d) (material-grid-kind %s)))(randomize-material-grid! vf-mg 0.3)\n' % (rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3), rng.choice(['U-MIN', 'U-PROD', 'U-SUM']))
            t += '(set! geometry (list %s))\n' % ' '.join('(make block (center %s) (size %s) (material vf-mg))' % (' '.join(sn(rnd(rng, -.2, .2)) if a < s.dim else '0' for a in range(3)), ' '.join(sn(rnd(rng, .3, 1.2)) if a < s.dim else '1' for a in range(3))) for _ in range(rng.randint(1, 3)))
            s.mg = True
        elif p['mat'] == 'table':
            E = table({'t': rng.choice(['iso', 'sym'] if not s.pol else ['iso', 'block']), 's': p['s'], 'hi': 6.0, 'inv': v == 'inv', 'mir': ''}, n)
            M = table({'t': 'iso', 's': p['s'] + 1, 'hi': 3.0, 'inv': v == 'inv', 'mir': ''}, n) if rng.random() < .3 else None
            t += ctl_table(L, n, E, M, name='vf%d' % j) + '(set! default-material (make material-function (material-func vf%d-f)))\n' % j
            if M is not None: t += '(set! force-mu? true)\n'; s.mu = True
        else: t += '(set! default-material (make dielectric (epsilon %s)))\n' % sn(rnd(rng, 1, 9))
        if 'force-mu? true' in ''.join(p['cfg']): s.mu = True
        t += '(init-params %s true)(solve-kpoint %s)\n' % (s.par, v3(s.k))
        done = 0
        for q, (nm, u, pt, i) in enumerate(p['ops']):
            f, pre, cur, mpi = OPS[nm]
            if v == 'mpi' and not mpi: continue
            if s.mg and s.v == 'mpi' and nm.startswith('mg'): continue
            if s.cur is None or not pre(s): continue
            b = 1 + int(u * s.nb)
            pt = [x if a < s.dim else 0.0 for a, x in enumerate(pt)]
            x = f(s, b, pt, i)
            t += '(vf-show "%d.%d" (lambda () %s))\n' % (j, q, x) if '(define vf-f' not in x else x + '\n'
            s.cur = s.cur if cur is None else cur(s) if callable(cur) else cur
            if s.cur == '': t += '(compute-group-velocity-component (vector3 1 0 0))\n' if False else ''
            done += 1
        return t, done
    def text(self, c):
        head = '''(define vf-fs '())
(define (vf-show i th) (let ((v (th))) (print "\\n@S" i " " (object->string v) "\\n")))
(define vf-mg #f)
'''
        t = ''; done = 0
        for j, p in enumerate(c['ph']):
            a, b = self.phase(c, p, j); t += a; done += b
        return head, t, done
    def died(self, r, text):
        if r.rc == 0 and not r.timeout: return
        if any(x in r.stderr for x in GIVEUP): raise Skip('solver gave up')
        need(not r.timeout, 'session does not end: %s' % r.tail(300), 'hang')
        need(r.rc >= 0 and r.rc < 126, 'killed by a signal, status %s; %s' % (r.rc, r.stderr[-400:]), 'signal')
        # an orderly end with a message: a refusal (P25 decides whether it is one), nothing more to see here
        need(r.rc == 1 and r.stderr.strip(), 'session ended with status %d: %s' % (r.rc, r.stderr[-500:]), 'died')
        m = re.search(r'CHECK failure on line \d+ of \S*/|In procedure \S+', r.stderr)
        raise Skip('refused: ' + r.stderr[m.start():m.start() + 160].split('\n')[0] if m else 'refused')
    def sane(self, r):
        bad = re.search(r'AddressSanitizer|LeakSanitizer|UndefinedBehavior|runtime error', r.stderr)
        need(not bad, 'sanitizer report: %s' % (r.stderr[bad.start():bad.start() + 900] if bad else ''), 'sanitizer')
    def run(self, c):
        return getattr(self, 'run_' + c['kind'])(c)
    def run_asan(self, c):
        head, t, done = self.text(c)
        with Scratch() as d:
            r = run_ctl(head + t, d, 'asan-' + c['variant'], timeout=200)
        self.sane(r); self.died(r, t)
        return done >= 5, self.tags(c)
    def tags(self, c): return [c['kind'], c['variant']] + ['%dd' % p['dim'] for p in c['ph']] + [p['mat'] for p in c['ph']] + [o[0] for p in c['ph'] for o in p['ops']]
    def pre(self): return {'LD_PRELOAD': os.path.join(mpbrun.BIN['complex'], 'libvfmem.so')}
    def run_fill(self, c):
        head, t, done = self.text(c); R = []
        for f in ('255', '300'):
            with Scratch() as d:
                r = run_ctl(head + t, d, c['variant'], np_=c.get('np'), timeout=200, env=dict(self.pre(), VF_FILL=f))
                files = {}
                for x in sorted(os.listdir(d)):
                    if x.endswith('.h5'): files[x] = h5.read(os.path.join(d, x))
            R.append((r, files))
        (a, fa), (b, fb) = R
        for r in (a, b):
            need(r.timeout or r.rc >= 0 and r.rc < 126, 'killed by a signal with a fill pattern, status %s; %s' % (r.rc, r.stderr[-400:]), 'signal')
        if a.rc and b.rc: self.died(a, t)
        need((a.rc == 0) == (b.rc == 0), 'fill 255: status %d, fill 300: status %d; %s %s' % (a.rc, b.rc, a.stderr[-300:], b.stderr[-300:]), 'fill')
        A, B = lines(a), lines(b)
        for x, y in zip(A, B):
            need(close(x, y), 'output depends on the content of fresh memory: %s | %s' % (x[:300], y[:300]), 'fill')
        need(len(A) == len(B), 'number of output lines depends on the content of fresh memory: %d %d' % (len(A), len(B)), 'fill')
        need(sorted(fa) == sorted(fb), 'files depend on the content of fresh memory: %s %s' % (sorted(fa), sorted(fb)), 'fill')
        for x in fa:
            need(sorted(fa[x]) == sorted(fb[x]), 'datasets of %s depend on the content of fresh memory' % x, 'fill')
            for k in fa[x]:
                p, q = fa[x][k], fb[x][k]
                if isinstance(p, np.ndarray) and p.dtype.kind == 'f':
                    need(p.shape == q.shape and np.allclose(p, q, rtol=1e-6, atol=1e-9 * (1 + np.abs(p).max() if p.size else 1)), 'file %s, dataset %s depends on the content of fresh memory' % (x, k), 'fill')
        return done >= 5, self.tags(c)
    def run_leak(self, c):
        head, t, done = self.text(c)
        reps = 5
        body = head + LIVE + '(define (vf-rep n) (if (> n 0) (begin (primitive-load "body.scm") (vf-rep (- n 1)))))\n(vf-rep 2)(vf-mark 1)(vf-rep %d)(vf-mark 2)\n' % reps
        with Scratch() as d:
            open(os.path.join(d, 'body.scm'), 'w').write(t)
            r = run_ctl(body, d, c['variant'], timeout=250, env=dict(self.pre(), VF_FILL=''))
        self.died(r, t)
        L = {1: {}, 2: {}}
        for m in re.finditer(r'@LIVE (\d) (\w+) (\d+) (\d+)', r.stderr): L[int(m[1])][m[2], int(m[3])] = int(m[4])
        need(L[1] and L[2], 'no allocation counts', 'monitor')
        grown = {k: L[2][k] - L[1].get(k, 0) for k in L[2] if L[2][k] - L[1].get(k, 0) >= reps}
        exe = os.path.join(mpbrun.BIN[c['variant']], 'mpb')
        need(not grown, 'repeating the session %d times keeps more memory: %s' % (reps, ', '.join('%d x %d bytes allocated in %s' % (g, k[1], where(exe, k[0])) for k, g in list(grown.items())[:6])), 'leak')
        return done >= 5, self.tags(c)
    def run_data(self, c):
        head, t, done = self.text(c); v = c['variant']
        which = c['ph'][0]['s'] % 3; src = ['(output-epsilon)', '(output-dfield 1)', '(output-tot-pwr 1)'][which]
        out = []
        with Scratch() as d:
            r = run_ctl(head + t + src, d, v, timeout=200); self.died(r, t)
            f = [x for x in os.listdir(d) if x.endswith('.h5')][0]; raw = open(os.path.join(d, f), 'rb').read()
            for e, env in (('asan-complex', {}), ('complex', dict(self.pre(), VF_FILL='255')), ('complex', dict(self.pre(), VF_FILL='300'))):
                open(os.path.join(d, f), 'wb').write(raw)
                args = sum(c['opt'], []) + [f]
                r = run_proc([os.path.join(mpbrun.BIN[e], 'mpb-data')] + args, d, 100, env)
                self.sane(r); need(r.rc >= 0 and r.rc < 126 and not r.timeout, 'mpb-data %s: status %s %s' % (args, r.rc, r.stderr[-300:]), 'signal')
                need(r.rc == 0, 'mpb-data %s: status %d %s' % (args, r.rc, r.stderr[-300:]), 'data-died')
                if e == 'complex': out.append({x: h5.read(os.path.join(d, x)) for x in os.listdir(d) if x.endswith('.h5')})
        for x in out[0]:
            for k in out[0][x]:
                p, q = out[0][x][k], out[1][x].get(k)
                if isinstance(p, np.ndarray) and p.dtype.kind == 'f':
                    need(q is not None and p.shape == q.shape and np.array_equal(np.isnan(p), np.isnan(q)) and np.allclose(p, q, rtol=1e-9, atol=0, equal_nan=True), 'mpb-data %s: dataset %s of %s depends on the content of fresh memory' % (args, k, x), 'fill')
        return True, self.tags(c) + [o[0] for o in c['opt']]

def where(exe, site):
    try:
        x = subprocess.run(['addr2line', '-fe', exe, hex(int(site, 16) + [int(l.split()[2], 16) for l in subprocess.run(['readelf', '-lW', exe], capture_output=True, text=True).stdout.split('\n') if ' R E ' in l][0])], capture_output=True, text=True).stdout
        return x.split('\n')[0]
    except Exception: return site
NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan\.?0?|inf\.?0?)')
def lines(r):
    out = []
    for l in r.stdout.split('\n'):
        if re.search(r'elapsed|time|0x', l): continue
        l = re.sub(r'#<[^>]*>', '', l).strip()
        if l: out.append(l)
    return out
def close(x, y):
    if x == y: return True
    a, b = NUM.findall(x), NUM.findall(y)
    if len(a) != len(b) or NUM.sub('', x) != NUM.sub('', y): return False
    for p, q in zip(a, b):
        if p == q: continue
        try: f, g = float(p.rstrip('.0') if 'n' in p else p), float(q.rstrip('.0') if 'n' in q else q)
        except ValueError: return False
        if not abs(f - g) <= 1e-5 * max(abs(f), abs(g)) + 1e-9: return False
    return True
CHECK = P26()
