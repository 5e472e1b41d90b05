#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to maintain)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop('P01', 'Frequencies are the lowest eigenvalues of the discretised Maxwell operator',
 'For every periodic structure, lattice, resolution and Bloch wavevector, the frequencies reported by a run are, in ascending order and to the requested tolerance, the lowest eigenfrequencies of curl(1/epsilon curl H) = mu omega^2 H in the plane-wave basis of that grid, with the material tensors taken at the grid points. '
 'This holds in one, two and three dimensions, for skewed lattices, odd and even grid sizes, anisotropic and (where compiled in) complex-Hermitian tensors, magnetic materials, and at or near the Gamma point, where the zero-frequency modes are included exactly once per allowed polarisation.',
 ['inputs','configurations'], 'All lattices, grids, tensors, k points, band counts, for the complex, Hermitian and inversion builds.',
 'The tests pin a handful of reference frequencies for a few nice crystals on even grids; the guarantee is over all structures, lattices, grids, tensors and k points.',
 ['src/maxwell/maxwell.c','src/maxwell/maxwell_op.c','src/maxwell/maxwell_pre.c','src/matrices/eigensolver.c','mpb/mpb.c','mpb/medium.c','mpb/mpb.scm.in'],
 [('k+G and transverse basis set-up','src/maxwell/maxwell.c update_maxwell_data_k'),('curl / FFT / epsilon multiply operator','src/maxwell/maxwell_op.c'),('block minimisation of the Rayleigh quotient','src/matrices/eigensolver.c'),('zero-frequency mode handling','src/maxwell/maxwell_constraints.c, mpb/mpb.c solve_kpoint')],
 ['freqs after solve-kpoint','freqs: lines on stdout'])

prop('P02', 'The dielectric function is the sub-pixel average of the described geometry',
 'The inverse dielectric (and permeability) tensor that a run uses at each grid point is determined by the geometry alone: it equals the material\'s own tensor wherever the surrounding pixel is homogeneous (later objects taking precedence over earlier ones, periodic copies included, default material elsewhere), and at interfaces it is symmetric positive definite, lies between the arithmetic and harmonic bounds of the materials in the pixel, and equals the anisotropic average for a flat interface with the true fill fraction and normal. '
 'The reported mean, harmonic mean, extremes and fill fraction are those of that grid, and the answer does not depend on how the same geometry is written down.',
 ['inputs'], 'All object lists (blocks, cylinders, cones, spheres, ellipsoids, material functions, nested duplicates), lattices, resolutions and mesh sizes.',
 'Tests only compare frequencies of a few structures, in which an error in the averaging at a few pixels disappears in the tolerance.',
 ['mpb/medium.c','mpb/epsilon.c','src/maxwell/maxwell_eps.c','src/util/sphere-quad.c'],
 [('geometry lookup with precedence','mpb/medium.c'),('analytic two-material average','mpb/medium.c mean_epsilon_func'),('mesh average and tensor inversion','src/maxwell/maxwell_eps.c')],
 ['epsilon field values / output-epsilon','epsilon: line on stdout'])

prop('P03', 'Computed fields are normalised, divergence-free modes of Maxwell\'s equations',
 'For every band of every solved problem, the D, E, H and B fields handed to the user obey the curl equations at the band\'s frequency, D equals epsilon E and B equals mu H at every grid point, div D and div B vanish, and the H field carries unit energy, equal to that of the E field. '
 'Different bands at the same k point are orthogonal, and every way of obtaining a field (Bloch periodic or with the phase, as total, per component, energy density or Poynting vector) describes the same mode.',
 ['inputs','configurations'], 'All structures, tensors, k points and bands, in every serial build.',
 'Tests check frequencies and a few energy fractions of specific structures, not the fields pointwise.',
 ['mpb/fields.c','src/maxwell/maxwell_op.c','src/maxwell/maxwell.c'],
 [('H from the eigenvector, D from curl H, E from D','src/maxwell/maxwell_op.c'),('field loading and scaling','mpb/fields.c get_dfield/get_efield/get_hfield/get_bfield')],
 ['output-*field HDF5 files','get-*-point functions'])

prop('P04', 'Solver settings change the cost but never the answer',
 'The converged frequencies do not depend on block size, number of work arrays, preconditioner choice, steepest-descent or conjugate-gradient or Davidson iteration, line-search options, reset interval, deterministic versus random start, or on how many further bands are requested. '
 'The solution vectors are orthonormal, the frequencies ascending, and convergence is only reported when it was reached.',
 ['inputs','configurations'], 'All combinations of eigensolver options on all structures.',
 'Tests use the default options almost everywhere.',
 ['src/matrices/eigensolver.c','src/matrices/eigensolver_davidson.c','src/matrices/linmin.c','src/maxwell/maxwell_pre.c','mpb/mpb.c'],
 [('Polak-Ribiere block CG and exact linmin','src/matrices/eigensolver.c'),('Davidson','src/matrices/eigensolver_davidson.c'),('block deflation','mpb/mpb.c solve_kpoint')],
 ['freqs','iterations'])

prop('P05', 'Results do not depend on what the session computed before',
 'After any sequence of operations in one session (solves at other k points or polarisations, field loads and outputs, failed queries, parameter or geometry changes followed by a new run, saved and restored eigenvectors), the frequencies and phase-independent field quantities of a subsequent run are those a fresh session would give. '
 'Field queries without an intervening solve do not alter the solution or each other\'s results.',
 ['histories'], 'All finite sequences of user-level operations.',
 'Each test is one fixed script; order dependence between arbitrary operations is not exercised.',
 ['mpb/mpb.c','mpb/fields.c','mpb/field-smob.c','mpb/matrix-smob.c','mpb/mpb.scm.in'],
 [('re-initialisation and reuse of old eigenvectors','mpb/mpb.c init_params'),('current-field state machine','mpb/fields.c')],
 ['freqs','energy integrals','field queries'],
 state=[('curfield / curfield_type','the loaded field','mpb/mpb.c'),('H, mdata, Hblock, muinvH','eigenvectors, operator and work arrays','mpb/mpb.c')])

prop('P06', 'Group velocities are the derivatives of the bands',
 'For every non-degenerate mode, the reported group velocity vector equals the gradient of the frequency with respect to the Bloch wavevector (in Cartesian units of c), and all ways of asking for it (vector, component along a direction given in lattice or Cartesian terms, single band, list, at a reciprocal vector) agree. '
 'This includes magnetic, anisotropic and complex-Hermitian media, skewed lattices, and modes computed under a parity constraint.',
 ['inputs','configurations'], 'All structures, lattices, k points and bands.',
 'Tests compare a few group velocities for isotropic crystals.',
 ['mpb/fields.c','mpb/mpb.c','src/maxwell/maxwell_op.c','mpb/mpb.scm.in'],
 [('Hellmann-Feynman velocity operator','src/maxwell/maxwell_op.c maxwell_ucross_op'),('group velocity drivers','mpb/mpb.c, mpb/mpb.scm.in')],
 ['compute-group-velocities and relatives'])

prop('P07', 'Parity-restricted runs partition the unrestricted spectrum',
 'For a structure with a mirror plane and a wavevector that the mirror leaves invariant, the even and odd runs (TE/TM, z-even/z-odd, y-even/y-odd and their combinations) together yield the frequencies of the unrestricted run, with multiplicities (exactly on grids whose plane-wave set has the mirror symmetry, i.e. odd sizes). '
 'Modes from a restricted run have the reported parity expectation values +1 or -1 accordingly, non-degenerate modes of an unrestricted run have expectation value +-1, and every such value lies in [-1, 1].',
 ['inputs','configurations'], 'All mirror-symmetric structures, k points and parity combinations.',
 'Tests run TE and TM for a few crystals and never compare the union with the unrestricted solve.',
 ['src/maxwell/maxwell_constraints.c','mpb/mpb.c','mpb/mpb.scm.in'],
 [('parity projection','src/maxwell/maxwell_constraints.c'),('parity expectation','src/maxwell/maxwell_constraints.c maxwell_zparity/yparity')],
 ['freqs, compute-zparities, compute-yparities'])

prop('P08', 'The inversion-symmetric build agrees with the general build',
 'For every structure with inversion symmetry about the cell centre, the inversion-symmetric executable gives the same dielectric grid, frequencies, group velocities, parities, energy fractions, field integrals, divergences, point values and output files (up to the arbitrary overall phase of a mode) as the general one. '
 'This covers even and odd grids in one, two and three dimensions, magnetic materials and material functions.',
 ['inputs','configurations'], 'All centro-symmetric structures and every operation common to both executables.',
 'Each test runs one build against fixed numbers; the two are never compared on generated structures or on the majority of operations.',
 ['mpb/fields.c','mpb/mpb.c','mpb/field-smob.c','mpb/material_grid.c','src/maxwell/xyz_loop.h','src/maxwell/maxwell_op.c','src/maxwell/maxwell_eps.c'],
 [('real-to-complex FFT layout','src/maxwell/maxwell_op.c, src/maxwell/maxwell.c'),('half-grid loops','src/maxwell/xyz_loop.h')],
 ['freqs, integrals, HDF5 output of mpb and mpbi'])

prop('P09', 'The parallel build agrees with the serial build for any process count',
 'For every structure and every number of processes, the MPI executable gives the same frequencies, group velocities, parities, energy fractions, integrals, point values and output files (up to mode phase) as the serial one, and it terminates. ',
 ['inputs','configurations','schedules'], 'All structures of two or three dimensions, process counts (including more processes than grid planes), and operations.',
 'Tests run the MPI build with a fixed process count on fixed scripts.',
 ['src/maxwell/maxwell_op.c','src/maxwell/maxwell.c','src/maxwell/maxwell_eps.c','mpb/fields.c','mpb/mpb.c','src/matrixio/matrixio.c','src/util/mpi_utils.c'],
 [('distributed transposed FFT grid','src/maxwell/maxwell.c'),('global reductions','src/util/mpiglue.h users')],
 ['freqs, integrals, point values, HDF5 output'])

prop('P10', 'Band structures obey the exact symmetries of Maxwell\'s equations on the grid',
 'Frequencies are unchanged by translating the structure by whole grid steps, reversing k in lossless reciprocal media, adding a reciprocal lattice vector to k (to discretisation accuracy), relabelling or reversing axes together with the structure (reversals exactly on odd grids), and exchanging epsilon with mu; they scale exactly as 1/L when the lattice is enlarged by L and as 1/sqrt(s) when epsilon or mu is multiplied by s. '
 'A supercell reproduces the folded bands of the primitive cell exactly.',
 ['inputs'], 'All structures and all transformations of these kinds.',
 'Metamorphic relations between runs are not tested at all.',
 ['mpb/mpb.c','mpb/medium.c','src/maxwell/maxwell.c','src/maxwell/maxwell_op.c','mpb/mpb.scm.in'],
 [('lattice and reciprocal lattice set-up','mpb/mpb.c, mpb/mpb.scm.in'),('operator','src/maxwell/maxwell_op.c')],
 ['freqs'])

prop('P11', 'Energy fractions and field integrals equal the integrals of the output fields',
 'The energy in a dielectric range, the energy in a list of objects, the total and per-component energy fractions, the integrals of arbitrary user functions of the energy density or of the field and dielectric function, and the mode overlap integrals all equal the corresponding sums over the very grid fields that the same session outputs. '
 'Fractions lie between zero and one and add up to one over a partition.',
 ['inputs','configurations'], 'All structures, objects, dielectric ranges and integrands, in the general and inversion builds.',
 'Tests check a few energy fractions to two or three digits.',
 ['mpb/fields.c','mpb/mpb.scm.in'],
 [('integration loops','mpb/fields.c compute_energy_in_dielectric / compute_energy_in_object_list / compute_field_integral / compute_energy_integral'),('component energy fractions','mpb/fields.c compute_field_energy')],
 ['return values of the compute-* functions'])

prop('P12', 'Point queries interpolate the grid fields with the right Bloch phase',
 'At any grid point the epsilon, inverse-epsilon tensor, energy, and vector field point queries return the very value of the field at that point, in between they interpolate linearly between neighbouring grid points, and they are periodic in the lattice vectors: energies and dielectric functions exactly, vector fields up to the Bloch phase exp(i k.R) or with no phase for the periodic version. ',
 ['inputs','configurations'], 'All points (inside, outside and on the boundary of the cell), lattices, grids, k points and field types.',
 'No test samples fields at points.',
 ['mpb/fields.c','mpb/mpb.scm.in'],
 [('linear interpolation','mpb/fields.c f_interp_*'),('point functions','mpb/fields.c get_epsilon_point, get_field_point, get_bloch_field_point')],
 ['get-epsilon-point, get-field-point, get-bloch-field-point, get-energy-point, get-epsilon-inverse-tensor-point'])

prop('P13', 'Field variables behave as independent pointwise values',
 'A field variable made, copied or computed from other fields has at every point the value that the user function gives for the arguments\' values there, keeps that value when the current field is later overwritten, and yields the same integrals, point values and output as the current field it was taken from. '
 'Loading a field variable back makes it the current field with the same type, and the Poynting vector and total power functions built on these agree with their definitions.',
 ['inputs','histories'], 'All sequences of field-variable operations on all field types.',
 'Tests do not cover field variables.',
 ['mpb/field-smob.c','mpb/fields.c','mpb/mpb.scm.in'],
 [('field variable storage','mpb/field-smob.c'),('pointwise map','mpb/field-smob.c field_mapLB')],
 ['field-make, field-map!, field-set!, field-load, integrate-fields, get-poynting'])

prop('P14', 'Fixing the phase gives a canonical, otherwise unchanged mode',
 'After phase fixing, the mode is the same mode up to one overall unit complex factor, is independent of the factor it had before, and is normalised so that the field has its largest weight in the real part with the documented sign convention; fixing twice changes nothing. ',
 ['inputs','configurations'], 'All modes, field types, structures, and all prior phases.',
 'No test looks at phases.',
 ['mpb/fields.c','mpb/mpb.scm.in'],
 [('phase choice','mpb/fields.c fix_field_phase')],
 ['fix-*field-phase followed by field output'])

prop('P15', 'Output files contain exactly the fields, grids and metadata of the session',
 'Every HDF5 file written by an output command holds, on the full grid in the documented index order and Cartesian components, the field, energy density or dielectric function held by the session, with real and imaginary parts, lattice vectors, copies, k vector and description attributes, and the documented file name. '
 'Writing never alters existing unrelated files, and a read of the file by the epsilon reader or the field reader gives back the same values.',
 ['inputs','configurations'], 'All fields, component selections, grids, prefixes and suffixes.',
 'Tests do not read any output file except via mpb-data runs.',
 ['mpb/fields.c','src/matrixio/matrixio.c','src/matrixio/fieldio.c','src/matrixio/evectmatrixio.c','mpb/mpb.scm.in'],
 [('field output','mpb/fields.c output_field_to_file'),('HDF5 layer','src/matrixio/matrixio.c')],
 ['HDF5 files'])

prop('P16', 'Saved and extracted eigenvectors restore the same solution',
 'Eigenvectors saved to a file, or extracted into a variable, and restored later into a session with the same grid and band count reproduce the same fields, norms and integrals, and starting a solve from them converges to the same frequencies. '
 'Overlap, rotation and scaling operations on eigenvectors and square matrices follow the rules of linear algebra, e.g. the self-overlap of a solution is the identity.',
 ['inputs','histories'], 'All problems and all sequences of save, load, extract, set and dot operations.',
 'No test saves or restores eigenvectors.',
 ['mpb/matrix-smob.c','src/matrixio/evectmatrixio.c','mpb/mpb.c','mpb/mpb.scm.in','src/matrices/evectmatrix.c'],
 [('eigenvector I/O','src/matrixio/evectmatrixio.c'),('eigenvector variables','mpb/matrix-smob.c')],
 ['save-eigenvectors, load-eigenvectors, get-eigenvectors, set-eigenvectors, dot-eigenvectors'])

prop('P17', 'The data post-processor resamples periodic data faithfully',
 'For every input file and option set, the post-processing tool\'s output grid holds at each point the linear interpolation of the periodic input field at the corresponding location of the requested cell: multiple periods, requested resolution, rectangular or rotated cell, centre shift, phase factor, transposition and slicing included, with Bloch phases applied to complex vector fields. '
 'Data selection, component handling and epsilon inverse or tensor data follow the same rule, and a run with default options is the identity.',
 ['inputs'], 'All grids, lattices, k vectors, data sets and option combinations.',
 'A single test runs the tool on one file.',
 ['utils/mpb-data.c','src/matrixio/matrixio.c'],
 [('map_data','utils/mpb-data.c'),('lattice handling','utils/mpb-data.c init_output_lattice')],
 ['HDF5 output of mpb-data'])

prop('P18', 'Material grids map design variables to permittivity with exact gradients',
 'A material grid object gives at each point the interpolation between its two permittivities of the (suitably combined) grid values there, its values round-trip exactly through get, set, save and load, and the frequency gradient with respect to the grid values that the optimisation commands use equals the finite-difference derivative. '
 'The optimisation commands only ever move the design within [0, 1] and never report an objective worse than the one they started from.',
 ['inputs','histories'], 'All grids, sizes, kinds of combination, structures and design values.',
 'Tests do not include material grids.',
 ['mpb/material_grid.c','mpb/material_grid_opt.c','mpb/medium.c','mpb/mpb.scm.in'],
 [('value lookup','mpb/material_grid.c material_grid_val'),('gradient','mpb/material_grid.c material_grids_addgradient'),('optimisers','mpb/material_grid_opt.c')],
 ['epsilon point values, material-grids-get/set, gradients, saved files'])

prop('P19', 'A dielectric function read from a file is the one that was written',
 'A session whose dielectric function comes from an HDF5 epsilon input file (scalar data of any grid size and dimension) has at each grid point, with mesh-size 1, the periodic linear interpolation of the file\'s data (with larger meshes its average over the pixel), so that writing a session\'s epsilon and reading it into a new session of the same grid gives the same dielectric function and frequencies. ',
 ['inputs'], 'All data sets, grid sizes and lattices.',
 'No test reads an epsilon file.',
 ['mpb/epsilon_file.c','mpb/medium.c','mpb/mpb.c'],
 [('epsilon file reader','mpb/epsilon_file.c')],
 ['epsilon grid of the session'])

prop('P20', 'Symmetry eigenvalues computed for the bands are those of the operation',
 'For every space-group operation that maps the structure and the wavevector to themselves, the computed expectation value of a non-degenerate band has unit modulus and equals the overlap of the mode with its transformed copy; the sum over a degenerate multiplet is independent of basis choice, the identity gives one, a lattice translation the Bloch phase, and compositions multiply. ',
 ['inputs','configurations'], 'All symmorphic and non-symmorphic operations, structures, k points and bands.',
 'Tests check a few operations on fixed crystals.',
 ['mpb/transform.c','mpb/mpb.scm.in'],
 [('transformed overlap','mpb/transform.c transformed_overlap')],
 ['compute-symmetry, compute-symmetries, transformed-overlap'])

prop('P21', 'Band ranges and gaps follow from the frequencies that were computed',
 'For every list of k points and bands, the reported band extremes are the minimum and maximum over the k points computed together with the k where each occurs, gaps are listed exactly where a band\'s maximum lies below the next band\'s minimum with the percentage of the mid-gap frequency, and the frequency table contains each k point once in order. '
 'Reduced, Cartesian and first-Brillouin-zone wavevector conversions are mutually inverse, and interpolated k paths pass through the given points evenly.',
 ['inputs'], 'All k lists, band counts, polarisations and lattices.',
 'Tests look at gap output of a few crystals.',
 ['mpb/mpb.scm.in','mpb/mpb.c'],
 [('band range bookkeeping','mpb/mpb.scm.in'),('gap output','mpb/mpb.scm.in')],
 ['gap-list, band-range-data, retrieve-gap, all-freqs, freqs: lines'])

prop('P22', 'Inverse dispersion search returns wavevectors with the requested frequency',
 'When asked for the wavevector at which given bands reach a frequency along a direction, each returned magnitude lies within the given range and the band frequency there equals the requested frequency to the given tolerance, and the search does not depend on the initial guess or on sharing work between bands. ',
 ['inputs'], 'All structures, frequencies, directions, band ranges and guesses.',
 'One or two fixed calls are tested.',
 ['mpb/mpb.scm.in'],
 [('Newton search with group velocities','mpb/mpb.scm.in find-k')],
 ['find-k'])

prop('P23', 'Targeted and negative-permittivity solves return the states nearest the target',
 'With a target frequency, the run returns the requested number of eigenfrequencies nearest to the target (in omega squared) among those of the full problem, in ascending order and to the requested accuracy. Where negative permittivity is allowed, squared frequencies of either sign are found, nearest zero first, with correctly normalised fields and group velocities. ',
 ['inputs'], 'All structures, targets and band counts.',
 'One structure is tested.',
 ['src/maxwell/maxwell_op.c','src/maxwell/maxwell_pre.c','mpb/mpb.c','src/matrices/eigensolver.c'],
 [('shifted-squared operator','src/maxwell/maxwell_op.c maxwell_target_operator')],
 ['freqs with target-freq set'])

prop('P24', 'The block linear-algebra layer computes what its operations name',
 'For every shape, stride and real or complex content, the matrix layer\'s products (plain and adjoint, sub-blocks included), Cholesky inverse, square root, eigen-decompositions, traces, copies, resizing and column operations equal the mathematical result, and the stand-alone block eigensolver finds the lowest eigenpairs of any positive Hermitian operator, with optional preconditioner, constraint and generalised metric. ',
 ['inputs','configurations'], 'All shapes including zero-sized and non-contiguous, and all matrices in the function\'s domain.',
 'Tests run one built-in random matrix program.',
 ['src/matrices/matrices.c','src/matrices/evectmatrix.c','src/matrices/sqmatrix.c','src/matrices/blasglue.c','src/matrices/eigensolver.c','src/matrices/eigensolver_davidson.c','src/matrices/linmin.c'],
 [('BLAS/LAPACK glue','src/matrices/blasglue.c'),('square matrix functions','src/matrices/sqmatrix.c')],
 ['return values of the library functions'])

prop('P25', 'Queries that make no sense are refused without damage',
 'Operations whose preconditions are not met (no run yet, no field loaded, band out of range, wrong field type, unsupported parity or dimension, bad grid or lattice, missing file) are reported and rejected, or end the program with an error message and non-zero status; they never crash it, return garbage as if it were a result, or change the results of later valid operations. ',
 ['inputs','histories'], 'All ill-formed operation sequences and parameters.',
 'No test exercises errors.',
 ['mpb/mpb.c','mpb/fields.c','mpb/field-smob.c','mpb/matrix-smob.c','mpb/material_grid.c','mpb/transform.c','utils/mpb-data.c'],
 [('precondition checks','mpb/*.c'),('CHECK failure path','src/util/check.h')],
 ['exit status, output, subsequent results'])

prop('P26', 'No user-level session reads or writes memory out of bounds or leaks its arrays',
 'No sequence of user operations, in any build, grid size or dimension, makes the program read uninitialised memory, read or write outside an allocated array, use freed memory, or overflow in a way that is undefined; repeated runs release what they allocate. ',
 ['inputs','histories','configurations'], 'All user-level sessions on all grids.',
 'Tests are not run under sanitizers and use even grids in fixed scripts.',
 ['mpb/mpb.c','mpb/fields.c','mpb/field-smob.c','mpb/material_grid.c','src/maxwell/maxwell.c','src/matrices/eigensolver.c','src/matrixio/matrixio.c','utils/mpb-data.c'],
 [('array allocation and reuse','mpb/mpb.c init_params, src/maxwell/maxwell.c create_maxwell_data'),('allocation accounting','src/util/debug_malloc.c')],
 ['AddressSanitizer, UndefinedBehaviorSanitizer and the malloc-debug build'])

prop('P27', 'Splitting the k points over processes gives exactly the unsplit band structure',
 'Running the k points in any number of chunks, by hand or with the splitting launcher, computes every k point exactly once and prints its results exactly once, in the original order when the chunks are concatenated, with k indices of the full list. ',
 ['inputs','schedules'], 'All k lists and split counts, including more chunks than k points.',
 'No test splits k points.',
 ['mpb/mpb.scm.in','mpb/mpb-split-preinstall.in'],
 [('k-split','mpb/mpb.scm.in'),('launcher','mpb/mpb-split-preinstall.in')],
 ['stdout of mpb-split','freqs lines'])

prop('P28', 'A run calls exactly the functions it was given and reports its own results',
 'Every run solves each k point of the list once, in order, with the requested parity (or the previous one) and starting fields, and then calls each given function exactly once per k point, or once per band in band order for one-argument functions, in the order given and with the solved fields of that k point and band available; wrappers (combined functions, functions restricted to one k point, conditional outputs) call what they wrap exactly when they say. '
 'The printed lines, files, frequency tables, band ranges, gap list, iteration counts and saved data after the run are those of this run alone, also when fields are randomised before each k point or the list is split. ',
 ['inputs','histories'], 'All run functions, function lists, k lists and histories of runs.',
 'The tests give at most one output function to a run.',
 ['mpb/mpb.scm.in','mpb/mpb.c'],
 [('run loop','mpb/mpb.scm.in run-parity'),('band functions','mpb/mpb.scm.in apply-band-func, combine-band-functions, output-at-kpoint, output-dpwr-in-objects'),('solve per k point','mpb/mpb.c solve_kpoint')],
 ['order of calls, printed lines, output files, all-freqs, band-range-data, gap-list, eigensolver-iters'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
