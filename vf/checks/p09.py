# technique: property-based testing: differential between the MPI executables (general and inversion-symmetric) with 1-6 processes and the serial ones over generated structures
# level_note: exploration; observations compared up to the phase of a mode; degenerate bands compared by frequency only; one-dimensional grids are unsupported by the MPI transform and excluded
import numpy as np
from obs import *
from mpbrun import need, Fail, Skip
from pbt import Check

class P09(Check):
    id = 'P09'
    wants = ('herm', 'mpi', 'inv', 'mpiinv')
    workers = 2

    n_quick, n_thorough = 110, 3000
    rule = ('random table or geometry (2-3D, magnetic, anisotropic, complex-Hermitian, odd/even/prime grids, process counts 1-6 including more than grid planes), k, polarisation; the battery of observations of obs.py in the '
            'serial Hermitian-epsilon or inversion-symmetry build and in the corresponding MPI build under mpirun; non-trivial: at least two processes and the observed band is non-degenerate with non-zero frequency')
    assumptions = ['the serial executable is the reference (decided by P01-P03, P11-P13)', 'four solves at tolerance 1e-11', 'Open MPI on one machine']
    def gen(self, rng, i, tier):
        inv = rng.random() < 0.3
        c = gen_obs_problem(rng, ('inv',) if inv else ('herm',), (2, 2, 3, 3), inv)
        c['np'] = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        return c
    def valid(self, c): return valid_obs(c) and c['lat']['dim'] > 1 and 1 <= c['np'] <= 6 and c['variant'] in ('herm', 'inv')
    def run(self, c):
        P, a = collect(c, c['variant'])
        _, b = collect(c, {'herm': 'mpi', 'inv': 'mpiinv'}[c['variant']], np_=c['np'], mpi=True)
        ok = compare(c, P, a, b, 'MPI with %d processes' % c['np'])
        return ok[c['xb'] - 1] and c['np'] > 1, ['%dD' % P.L['dim'], 'geo' if c['geo'] else 'table', 'mu' if using_mu(c) else 'nomu', c['pol'] or 'all', 'np%d' % c['np'], c['variant']]
CHECK = P09()
