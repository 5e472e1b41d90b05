# per property: (oracle in one or two sentences, why the tests cannot reach it / what is deliberately not asserted)
ORACLE = {
'P01': ('numpy eigenvalues of the dense plane-wave operator built from the same tensors; every band of the session must be the matching eigenvalue.', 'tests compare a handful of structures with stored numbers; here any tensor field, lattice, parity of the grid and k counts'),
'P02': ('independent membership model: exact tensors in homogeneous pixels, Wiener bounds in all pixels, Kottke tensor at flat and round interfaces; rewriting the geometry (lattice translations, split blocks, order of disjoint objects) must not change the result.', 'tests see averaging only through a few frequencies of their fixed structures'),
'P03': ("curl, constitutive, divergence, normalisation and orthogonality residuals of the output arrays, computed with numpy FFTs; other ways of getting a field must give the same arrays.", 'the equations hold for every mode, the tests print only frequencies'),
'P04': ('dense reference; orthonormality of the stored eigenvectors; variational bound for loose tolerances.', 'about 2^9 flag combinations times block/work sizes, tests use the default'),
'P05': ('the same probe in a fresh session, and the same probe again after queries that must not change anything.', 'history property'),
'P06': ('central differences of the dense reference along three directions; agreement of all query forms.', 'derivatives for arbitrary media'),
'P07': ('union of the sector spectra = dense full spectrum; printed parity = expectation value in the output fields.', 'needs all sectors of arbitrary symmetric crystals'),
'P08': ('the same control file in mpb and mpbi.', 'two executables, never compared by the tests'),
'P09': ('the same control file with 1-6 processes and serially.', 'no MPI test exists'),
'P10': ('exact relation between spectra of transformed problems.', 'metamorphic: no expected number needed'),
'P11': ('numpy sums over the output fields with an independent object membership.', 'integrals over arbitrary regions and integrands'),
'P12': ('numpy trilinear interpolation with lattice-periodic wrap and Bloch phase.', 'points on boundaries and outside the cell'),
'P13': ('numpy model of every field variable, updated along the history.', 'history and aliasing'),
'P14': ('the documented criterion evaluated in numpy, invariance under a prior unit factor.', 'every prior phase'),
'P15': ('directory model.', 'sequences of outputs under changing prefixes'),
'P16': ('coefficient algebra in numpy; second process as reader.', 'history plus restart'),
'P17': ('independent resampling model of mpb-data for all option combinations.', 'no test of mpb-data exists'),
'P18': ('numpy grid model; finite differences of the bands; invariants and recomputed objective of the optimisers.', 'gradients in arbitrary designs'),
'P19': ('numpy interpolation of the file, round trip, dense reference.', 'files of other sizes and ranks'),
'P20': ('representation matrix in the dense eigenspace, or overlap integral of the output fields with an arbitrary operation.', 'any space-group operation'),
'P21': ('Python model of ranges, gaps, tables, conversions, brute-force Brillouin zone.', 'all band histories'),
'P22': ('dense band frequency at every returned wavevector.', 'any root'),
'P23': ('dense spectrum: the returned states are the nearest to the target in omega^2 and are eigenstates; with metallic points squared frequencies of both signs, energies and velocities too.', 'tests run one fixed target'),
'P24': ('numpy mirror of every matrix operation through the C wrapper, incl. aliasing, slices, resize, empty sizes; dense eigenvalues for the solvers.', 'all sizes and strides, alias patterns'),
'P25': ('state model says which operations are ill-formed; refusal = message and no effect; sanitizers; battery of observations unchanged.', 'about 90 families of misuse in all states'),
'P26': ('AddressSanitizer and UBSan; equality of outputs under two fill patterns of fresh/freed memory; no growth of live allocations by call site over repeated sessions.', 'memory properties over all legal sessions'),
'P27': ('the unsplit run; dense reference for the frequencies; model of the chunking function.', 'all chunk counts incl. more chunks than points'),
'P28': ('a Python model of the run driver predicts the exact sequence of function calls, printed lines and files; frequencies against a plain solve of each k point.', 'histories of runs with arbitrary function lists; the order of calls is an observable no test looks at'),
}
