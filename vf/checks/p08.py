# technique: property-based testing: differential between the inversion-symmetric and the general executable over generated inversion-symmetric crystals and geometries
# level_note: exploration; observations compared up to the phase of a mode; degenerate bands compared by frequency only
import numpy as np
from obs import *
from mpbrun import need, Fail, Skip
from pbt import Check

class P08(Check):
    id = 'P08'
    wants = ('complex', 'inv')
    n_quick, n_thorough = 260, 6000
    rule = ('random inversion-symmetric table or geometry (with smoothing, magnetic, anisotropic; 1-3D, odd and even grids), k, polarisation; the same battery of observations in mpb and mpbi: epsilon/mu files, epsilon line, '
            'frequencies, velocities, parities, energies, integrals over ranges/objects/functions, point values, field files, Poynting, total power, divergence, field variables; non-trivial: the observed band is non-degenerate with non-zero frequency')
    assumptions = ['the general executable is the reference (decided by P01-P03, P11-P13)', 'four solves at tolerance 1e-11']
    def gen(self, rng, i, tier): return gen_obs_problem(rng, ('complex',), (1, 2, 2, 3, 3), True)
    def valid(self, c): return valid_obs(c) and (c['geo'] or (c['eps']['inv'] and (not c['mu'] or c['mu']['inv'])))
    def run(self, c):
        P, a = collect(c, 'complex')
        # smoothing may choose a different interface normal for two overlapping objects and for their images: not symmetric as discretised
        e = a['eps']; r = np.roll(e[::-1, ::-1, ::-1], 1, (0, 1, 2))
        if np.abs(e - r).max() > 1e-7 * np.abs(e).max(): raise Skip('discretised epsilon not inversion-symmetric')
        _, b = collect(c, 'inv')
        ok = compare(c, P, a, b, 'mpbi', divsign=True)
        return ok[c['xb'] - 1], ['%dD' % P.L['dim'], 'geo' if c['geo'] else 'table', 'mu' if using_mu(c) else 'nomu', c['pol'] or 'all', 'odd' if any(x % 2 and x > 1 for x in c['n']) else 'even']
CHECK = P08()
