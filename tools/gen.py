#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose check exists)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text),
                   why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
              tech, note))


SIM = ('Trusts the simulated MPI/FFT/sort layers, which ./conform binds to the real libraries by replaying programs under mpirun; '
       'bounded mesh sizes, rank counts and value alphabets as the evidence lists; nothing is sampled.')
SER = 'Every point of the stated bounded space is run on the real extension code and compared with an independent reference; values outside the lattice are not covered.'
DOM = ['pmesh/domain.py', 'pmesh/_domain.pyx']
WIN = ['pmesh/window.py', 'pmesh/_window.pyx', 'pmesh/_window_imp.c', 'pmesh/_window_generics.h']

prop('C01', 'Decomposition delivers a particle to every domain it touches, once',
     'Decomposing particles sends each particle to the owner rank of every domain that its smoothing region overlaps (with periodic wrapping if the grid is periodic), exactly once per domain and to no rank that owns none of them. It holds for any grid edges (also empty or uneven domains), any assignment of domains to ranks, any number of ranks, positions outside the box and smoothing regions of any width.',
     'inputs configurations', 'all grid edges from a small alphabet x rank counts x assignments x periodicity x smoothing x positions on a lattice finer than the cells',
     'Tests decompose a few particle sets on one or two grids; the guarantee is over all edge layouts, assignments and positions, in particular on boundaries and for degenerate domains.',
     DOM, [('two pass digitize/fill over cells in the range of a particle', 'pmesh/domain.py GridND.decompose, pmesh/_domain.pyx gridnd_fill')],
     'bounded exhaustive state enumeration on simulated MPI ranks vs. geometric reference', SIM)
prop('C02', 'Exchange moves each row to its destinations unchanged, in one common order',
     'Exchanging any per-particle array through a layout delivers to each rank exactly the rows of the particles sent there, bit for bit, in the same order for every array exchanged through that layout. It holds for any element type, number of trailing dimensions, memory layout, structured data, several arrays at once, packed or not, and for ranks that hold or receive nothing.',
     'inputs configurations', 'layouts (who sends what where) x dtypes x shapes x memory orders x pack x number of arrays',
     'Tests exchange contiguous float arrays; correctness of the packing depends on type, item size, order and on empty ranks.',
     DOM[:1], [('index selection, packing, all to all', 'pmesh/domain.py Layout.exchange, _exchange, promote')],
     'bounded exhaustive enumeration of layouts and array forms on simulated MPI ranks', SIM)
prop('C03', 'Gather returns or combines all copies of each particle in original order',
     'Gathering data of the exchanged particles returns to the originating rank one row per original particle in the original order, combined over all of its copies as the mode asks: sum, mean, any copy, only the local copy, all copies, or a given reduction. Exchange followed by gather of any one copy is the identity; sum counts every copy once; a particle delivered nowhere gets the neutral or zero value rather than that of another.',
     'inputs configurations', 'layouts x gather modes x dtypes and shapes x number of ranks',
     'Tests check a few layouts with few duplicates; the reductions must be right for every pattern of duplicates and empty ranks.',
     DOM[:1], [('reverse all to all and segmented reduction', 'pmesh/domain.py Layout.gather')],
     'bounded exhaustive enumeration of layouts, modes and array forms on simulated MPI ranks', SIM)
prop('C04', 'Every point is primary on exactly one rank, consistently',
     'In a periodic grid every position, however far outside the box, is primary on exactly one rank, that rank owns the domain which contains the (wrapped) position, it is the rank a decomposition without smoothing delivers to, and the domain whose load the position counts towards. A uniform grid of domains exists for any box in any unit of length, has at most one domain per rank and keeps at least half the ranks busy; a cube of n^d ranks is divided into cubes.',
     'inputs configurations', 'grids (also with empty domains) x assignments x positions at, next to (one ulp) and between all edges and their images',
     'Tests use random positions, which never hit edges, wrap-around by one ulp or empty domains.',
     DOM, [('half-open digitization of wrapped positions', 'pmesh/domain.py GridND.isprimary, load, decompose')],
     'bounded exhaustive enumeration of positions against primary cells', SIM)
prop('C05', 'Load counts particles; balancing reassigns domains consistently and well',
     'The load of a domain is the sum over ranks of its particles, raised to the requested power. Balancing assigns every domain to exactly one rank, identically on all ranks and never worse than the greedy longest-first bound (4/3 of the best possible maximum, or the previous assignment); later decompositions, primary regions and exchanges follow the new assignment.',
     'inputs configurations histories', 'load vectors over a small alphabet x number of ranks x grids; sequences of balancing and decomposition',
     'Tests check one random case; optimality bounds and consistency of later operations need all load vectors and histories.',
     DOM[:1], [('greedy assignment of sorted loads', 'pmesh/domain.py GridND.loadbalance, load, DomainAssign')],
     'bounded exhaustive enumeration of load vectors and operation sequences vs. optimal assignment', SIM)
prop('C06', 'Collective domain operations end the same way on every rank',
     'Decompose, exchange, gather and the load operations complete on all ranks under every arrival order; data whose length or shape does not match the layout on any subset of ranks makes the operation raise on every rank instead of hanging, crashing or succeeding on some. A failed call leaves the layout usable.',
     'schedules inputs fault_sequences', 'all arrival orders (priority schedules; preemption bounded search for the small programs) x every subset of ranks with mismatching data x operations',
     'Tests run one schedule with valid arguments; hanging depends on which ranks are wrong and when they arrive.',
     DOM[:1], [('collective validation before communication', 'pmesh/domain.py Layout.exchange, Layout.gather')],
     'exhaustive schedule exploration of the real code on a controlled MPI scheduler', SIM)
prop('C07', 'Painting adds the defined window and conserves mass',
     'Painting a particle adds mass times the product over dimensions of the named window (nearest, linear, quadratic, cubic B-spline, Lanczos, wavelet, ACG) evaluated at the distance between the particle and each mesh point, wrapped periodically; for the B-spline windows the weights sum to one so the total equals the mass, whatever the position, support or number of dimensions. Named aliases give the same window.',
     'inputs configurations', 'windows x supports x dimensions x positions on a lattice over more than the period x canvas types',
     'Tests check few positions in one or two configurations.',
     WIN, [('generic window and kernel tables', 'pmesh/_window_generics.h, pmesh/_window_imp.c')],
     'bounded exhaustive lattice enumeration vs. analytic reference', SER)
prop('C08', 'Optimised windows equal the generic ones; scaling equals resizing',
     'The optimised implementation of a window gives the same painting and readout, to rounding, as the generic one for every position, dimension, derivative direction, support, smoothing length and canvas type. Painting or reading out with a smoothing length h equals using the window resized to h times its support.',
     'inputs configurations', 'window x dimension x derivative direction x support x smoothing length x canvas type x positions on a lattice',
     'Tests compare a handful of points in 3 dimensions.',
     WIN + ['pmesh/_window_tuned_cic.h', 'pmesh/_window_tuned_tsc.h', 'pmesh/_window_tuned_pcs.h', 'pmesh/_window_tuned_nnb.h'],
     [('dispatch to the optimised kernels', 'pmesh/_window_imp.c')],
     'bounded exhaustive differential enumeration of two implementations', SER)
prop('C09', 'Readout is the adjoint of painting',
     'For every window, position, mass, smoothing length, mapping and derivative direction, the readout of a mesh field at a particle equals the inner product of that field with what a unit-mass particle paints there. Reading out many particles equals reading each of them.',
     'inputs configurations', 'windows x derivative directions x mappings x positions on a lattice x basis of mesh fields',
     'Tests check few random points; adjointness must hold for every pair of position and cell.',
     WIN, [('shared weight computation of paint and readout', 'pmesh/_window_generics.h')],
     'bounded exhaustive enumeration of the full paint and readout matrices', SER)
prop('C10', 'Painting is local, additive, and never touches memory outside the mesh',
     'Painting on a part of the mesh (any offset and size) gives exactly the cells a painting of the whole mesh gives there, so that tiles assemble to the whole; it accumulates onto existing values, is additive over particles in any grouping, writes nothing outside the given array (also through strided views) and leaves positions and masses unmodified.',
     'inputs configurations', 'all tilings and offsets of small meshes x windows x positions on a lattice x strides of the canvas',
     'Tests never paint partial tiles with all offsets, nor guard the memory around a strided canvas.',
     WIN, [('period and bounds handling of each cell', 'pmesh/_window_generics.h, pmesh/window.py Affine')],
     'bounded exhaustive enumeration with guarded memory', SER)
prop('C11', 'Gradient windows are the derivative with respect to particle position',
     'Painting or reading out with a derivative direction gives the derivative, with respect to that particle coordinate in simulation units, of the plain operation, including the scale of the mapping and the smoothing length; the weights of a differentiated B-spline window sum to zero.',
     'inputs configurations', 'windows x directions x scales x supports x smoothing lengths x positions on a lattice',
     'Tests compare finite differences at a few points of a unit mapping.',
     WIN, [('diffdir factor', 'pmesh/_window_generics.h, pmesh/_window_tuned_*.h')],
     'bounded exhaustive lattice enumeration vs. analytic derivative', SER)
prop('C12', 'Painting and readout do not depend on how the arguments are given',
     'Shifting positions by a whole cell shifts the mesh cyclically, a shift by the period changes nothing, and permuting axes permutes the result. Values given as scalar or array, as any numeric type, list, strided or read-only array, in any memory order, or to a strided or transposed canvas, give the same result; no particles change nothing; badly shaped arguments and meshes of any other type than native f4 or f8 raise.',
     'inputs configurations', 'windows x argument forms (type, strides, order, scalar/array) x shifts x axis permutations',
     'Tests use contiguous float64 arrays.',
     WIN, [('argument normalisation', 'pmesh/window.py ResampleWindow.paint/readout, Affine'), ('typed access', 'pmesh/_window.pyx')],
     'bounded exhaustive metamorphic enumeration', SER)
prop('C13', 'The Fourier window is the transform of the painting window',
     'For the nearest, linear, quadratic and cubic windows the Fourier-space window function of a frequency equals the Fourier transform of the real-space kernel (a power of sinc, stretched with the support), in each axis, for scalars and arrays; it is one at zero frequency and the exact continuum limit of the painted weights.',
     'inputs configurations', 'windows x supports x frequencies on a lattice',
     'Tests do not compare the Fourier windows with the painted weights.',
     ['pmesh/window.py', 'pmesh/_window_imp.c', 'pmesh/_window_imp.h'], [('fwindow', 'pmesh/window.py ResampleWindow.get_fwindow, pmesh/_window_imp.c')],
     'bounded exhaustive lattice enumeration vs. transform of the painted kernel', SER)
prop('C14', 'Every independent mode of white noise has its own random number',
     'Within a mesh of white noise no two modes other than conjugate pairs share their amplitude or their phase, on any mesh shape, and every mode changes with the seed (any two seeds from 1 to 2^31 - 1).',
     'inputs configurations', 'mesh shapes (cubic or not, odd or even) x seeds x all pairs of modes',
     'Statistical tests of one cubic mesh do not see a few modes that repeat each other.',
     ['pmesh/_whitenoise_generics.h', 'pmesh/_whitenoise_imp.c'], [('seed table in both halves, one generator per line', 'pmesh/_whitenoise_generics.h')],
     'exhaustive enumeration of all pairs of modes of bounded meshes', SER)
prop('C15', 'The resolution-invariant index is one to one, nested and ordered by scale',
     'The index of a mode (an integer frequency vector) is one to one, is smaller for a mode of smaller largest component, and fills the range of integers below the number of modes of every cubic mesh of even size, with or without compression of the last axis. It does not depend on the mesh as long as the mode lies in it; both signs of the Nyquist frequency are the same mode; modes outside the mesh, in the omitted half, or with an index at or above a given maximum give -1.',
     'inputs configurations', 'every mode of every mesh size in the bound, also not cubic or odd x dimensions x compression x maximum length x integer types and strides',
     'Tests try a few modes of one size.',
     ['pmesh/invariant.py', 'pmesh/_invariant.pyx', 'pmesh/_invariant_imp.c'], [('inside-out shells and caps', 'pmesh/_invariant_imp.c pmesh_get_invariant_index'), ('nyquist and range', 'pmesh/_invariant.pyx get_index')],
     'exhaustive enumeration of all modes of bounded meshes', SER)
prop('C16', 'White noise depends on seed and mesh only, not on the decomposition',
     'The noise generated for a part of the mesh (any start and extent, possibly empty) equals that part of the noise generated for the whole mesh; a field of white noise therefore depends only on seed, mesh and options, and not on the number of ranks, the process mesh, the storage order or precision, and repeated generation gives the same values.',
     'inputs configurations', 'meshes x all boxes of start and extent x seeds x unitary option x precision x rank counts and process meshes',
     'Tests compare few decompositions of one mesh.',
     ['pmesh/_whitenoise_generics.h', 'pmesh/_whitenoise_imp.c', 'pmesh/whitenoise.py', 'pmesh/pm.py'], [('seed table per line of sight', 'pmesh/_whitenoise_generics.h'), ('generate_whitenoise', 'pmesh/pm.py')],
     'exhaustive enumeration of all sub-boxes of bounded meshes, and of rank counts', SER + ' ' + SIM)
prop('C17', 'White noise is Hermitian; unitary noise has unit amplitude; the mean is set',
     'White noise is the transform of a real field: modes of opposite wave number are conjugate and self-conjugate modes are real, on every mesh shape. Unitary noise has modulus one in every mode other than the zero mode, with the phases of the plain noise of the same seed except that self-conjugate modes are one or minus one; the zero mode equals the requested mean.',
     'inputs configurations', 'mesh shapes (also not cubic, odd) x seeds x unitary x compressed or full',
     'Tests check one cubic even mesh.',
     ['pmesh/_whitenoise_generics.h', 'pmesh/pm.py'], [('conjugate seeding', 'pmesh/_whitenoise_generics.h')],
     'exhaustive enumeration of all modes of bounded meshes', SER)
prop('C18', 'White noise keeps the common modes when the resolution changes',
     'In three dimensions the modes strictly below the Nyquist frequency of two meshes, of any shapes, are bitwise the same in both for the same seed and options.',
     'inputs configurations', 'pairs of mesh sizes x dimensions x seeds x unitary',
     'Tests compare one pair of sizes.',
     ['pmesh/_whitenoise_generics.h'], [('spiral seeding by invariant line order', 'pmesh/_whitenoise_generics.h SETSEED')],
     'exhaustive enumeration of all common modes of all pairs of bounded meshes', SER)
prop('C19', 'Transforms agree with the serial transform of the assembled mesh and invert',
     'On any number of ranks, process mesh, mesh shape and precision, the forward transform divided by the number of cells equals the serial discrete Fourier transform of the assembled field, the backward transform inverts it, transforms of complex meshes included. In place or out of place, with or without a destination, transposed or not give the same values; the source of an out-of-place transform is preserved.',
     'inputs configurations', 'mesh shapes x process meshes x types x in/out of place x transposed or not x basis fields',
     'Tests transform a random field on one or two rank counts.',
     ['pmesh/pm.py'], [('plan selection, normalisation', 'pmesh/pm.py RealField.r2c, BaseComplexField.c2r'), ('plans', 'pmesh/pm.py ParticleMesh.__init__')],
     'bounded exhaustive enumeration of configurations on simulated ranks vs. serial transform', SIM)
prop('C20', 'Distributed painting and readout do not depend on the number of ranks',
     'Painting particles through a decomposition, and reading a field out at particles, gives the same mesh and the same values, to rounding, for any number of ranks, process mesh and initial distribution of the particles over ranks, equal to the serial operation on the whole periodic mesh, for every window, support, smoothing length and derivative direction covered by the smoothing of the decomposition.',
     'inputs configurations', 'mesh shapes (also with ranks that hold no cells) x process meshes x windows x particle distributions x positions on a lattice',
     'Tests use even meshes on up to 4 ranks.',
     ['pmesh/pm.py', 'pmesh/domain.py'], [('affine mapping to the local mesh', 'pmesh/pm.py ParticleMesh.__init__'), ('layout of domains', 'pmesh/pm.py ParticleMesh.decompose, paint; RealField.readout')],
     'bounded exhaustive enumeration of configurations on simulated ranks vs. serial reference', SIM)
prop('C21', 'Coordinates, indices and slab iteration describe every cell exactly once',
     'The index and coordinate arrays of a field give for each stored cell its global index and its position or wave number in the symmetric range; over all ranks each cell of the mesh occurs exactly once; iterating slabs visits each local cell once with matching coordinates; applying a function equals evaluating it cell by cell, with the coordinates of the requested kind, into a new field, a given one, or in place.',
     'inputs configurations', 'mesh shapes (also odd) x process meshes x field types x kinds of coordinates x destinations',
     'Tests check one or two shapes on even meshes.',
     ['pmesh/pm.py'], [('coordinates', 'pmesh/pm.py _init_i_coords, _init_o_coords'), ('slab iteration', 'pmesh/pm.py slabiter, Field.apply')],
     'bounded exhaustive enumeration of cells on simulated ranks', SIM)
prop('C22', 'Ravel and unravel are inverse and use global C order',
     'Ravelling a distributed field gives the field in C order of the global mesh, in equal-order chunks concatenated by rank, independent of the decomposition; unravelling any partition of the flattened values over ranks restores the field. Destinations given, or in place, give the same.',
     'inputs configurations', 'mesh shapes x process meshes x field types x chunk partitions x destinations',
     'Tests run one partition on few ranks.',
     ['pmesh/pm.py'], [('global sort by raveled index', 'pmesh/pm.py Field.ravel, unravel')],
     'bounded exhaustive enumeration of partitions on simulated ranks', SIM)
prop('C23', 'Collective element access reads and writes the global mesh',
     'Reading a global index returns the value of that cell on every rank, whoever stores it, also for negative indices and for the real or imaginary part; writing sets exactly that cell and, for Hermitian fields, its conjugate, so that the field remains the transform of a real one and a following read returns the value that was set, as reported by the write. The index passed in is left as it was.',
     'inputs histories configurations', 'every index of bounded meshes x part x process meshes x pairs of operations',
     'Tests write a few indices of one mesh.',
     ['pmesh/pm.py'], [('global to local index, dual index', 'pmesh/pm.py Field._ctol, cgetitem, csetitem')],
     'exhaustive enumeration of indices and operation pairs on simulated ranks', SIM)
prop('C24', 'Fourier resampling keeps the modes common to both meshes and zeroes the rest',
     'Resampling a field to a mesh of another size keeps every mode strictly below the Nyquist frequency of both meshes, clears all others, and leaves a Hermitian field, for any combination of real and complex source and destination and any number of ranks; between meshes of the same shape it is a plain conversion that changes no value other than possibly at the Nyquist frequency.',
     'inputs configurations', 'pairs of mesh shapes (finer, coarser, mixed) x types x process meshes x basis modes',
     'Tests check one pair of sizes on random fields.',
     ['pmesh/pm.py'], [('mode reindexing', 'pmesh/pm.py Field.resample, reindex, build_index')],
     'bounded exhaustive enumeration over a basis of modes on simulated ranks', SIM)
prop('C25', 'Every vector-Jacobian product is the transpose of its Jacobian product',
     'The back-propagation of paint, readout, transforms, inner products and Hermitian decompression is the exact adjoint of the corresponding linearised operation, which is the derivative of the operation, for every input direction and selection of requested outputs, in place or not, on any number of ranks.',
     'inputs configurations', 'operations x basis directions of inputs and outputs x windows x process meshes',
     'Tests check random directions with finite differences at loose tolerance.',
     ['pmesh/pm.py'], [('vjp and jvp pairs', 'pmesh/pm.py readout_vjp, readout_jvp, paint_vjp, paint_jvp, c2r_vjp, r2c_vjp, decompress_vjp, cdot_vjp')],
     'bounded exhaustive enumeration of basis directions on simulated ranks', SIM)
prop('C26', 'Collective sums, means, norms and inner products equal those of the global mesh',
     'Collective sum, mean, norm and inner product return on every rank the value for the assembled mesh, independent of the decomposition; for Hermitian-compressed fields the modes that are not stored are counted, so that the inner product agrees with that of the real fields (Parseval), with and without a metric, on any mesh shape.',
     'inputs configurations', 'mesh shapes (also odd) x process meshes x types x basis fields x metrics',
     'Tests check one even mesh with random fields.',
     ['pmesh/pm.py'], [('hermitian weights', 'pmesh/pm.py BaseComplexField._expand_hermitian, cnorm, cdot'), ('csum, cmean', 'pmesh/pm.py RealField')],
     'bounded exhaustive enumeration over basis fields on simulated ranks', SIM)
prop('C27', 'Resampling in real space and previews match their definition on any rank count',
     'Upsampling reads the source out at the cell positions of the destination and downsampling paints the source cells onto it, with the requested window, wrapped periodically, normalised to keep the mean or the total; a preview is the mesh assembled on every rank, resampled if asked, summed over axes that are not kept. The results do not depend on the number of ranks.',
     'inputs configurations', 'pairs of mesh shapes x windows x normalisation x process meshes x basis fields x kept axes in any order',
     'Tests check constant fields or loose tolerances on few ranks.',
     ['pmesh/pm.py'], [('upsample, downsample', 'pmesh/pm.py ParticleMesh'), ('preview', 'pmesh/pm.py Field.preview')],
     'bounded exhaustive enumeration over basis fields on simulated ranks vs. serial definition', SIM)
prop('C28', 'Creating, reshaping, respawning and dropping meshes in any order is safe',
     'Any sequence of creating meshes (with equal or different parameters), reshaping, respawning on sub-communicators, creating fields and dropping objects, with garbage collected at different times on different ranks, ends on all ranks with meshes whose geometry, transforms, painting and fields are right; objects created earlier continue to work. The forms in which arguments are given make no difference, and what is not supported is refused on every rank.',
     'histories schedules configurations', 'all sequences of operations up to a depth x per-rank garbage collection choices',
     'Tests create a few meshes; cache hits that differ between ranks need specific histories.',
     ['pmesh/pm.py'], [('weak cache of plans with collective agreement', 'pmesh/pm.py ParticleMesh.__init__, _pm_cache'), ('reshape, respawn', 'pmesh/pm.py')],
     'exhaustive enumeration of operation histories on simulated ranks', SIM)
prop('C29', 'Field arithmetic and conversions follow array semantics and aliasing rules',
     'Any sequence of arithmetic, copies, assignments, conversions between real and Fourier space and in-place operations on fields gives the values of the same sequence on plain global arrays: a copy is independent, only in-place operations change their operand, and operators return fields of the same kind whose values do not depend on the decomposition.',
     'histories inputs configurations', 'all operation sequences up to a depth over two fields x process meshes x types',
     'Tests check single operations.',
     ['pmesh/pm.py'], [('array protocol', 'pmesh/pm.py Field.__array_ufunc__, copy, cast, create')],
     'exhaustive enumeration of operation sequences vs. a model on global arrays', SIM)
prop('C30', 'Collective transposition permutes axes, box and values',
     'Transposing a real field by any permutation of axes gives a field on a mesh with permuted shape and box size whose value at each permuted index is that of the original, on any number of ranks; applying the inverse permutation restores it; invalid axes raise.',
     'inputs configurations', 'mesh shapes x all permutations (and ways to give them) x process meshes x all cells',
     'Tests transpose one mesh by one permutation.',
     ['pmesh/pm.py'], [('ctranspose', 'pmesh/pm.py RealField.ctranspose')],
     'exhaustive enumeration of permutations and cells on simulated ranks', SIM)
prop('C31', 'The uniform particle grid has one particle per cell with unique ids',
     'The grid of uniform particles holds over all ranks exactly one particle for each mesh cell, at the cell position displaced by the requested fraction of a cell per axis, in simulation units and with the requested type, each on the rank that holds the cell; ids are the global cell numbers; it is rank-count independent.',
     'inputs configurations', 'mesh shapes x box sizes x shifts (scalar, per axis) x types x process meshes',
     'Tests check one mesh on few ranks.',
     ['pmesh/pm.py'], [('generate_uniform_particle_grid, mesh_coordinates', 'pmesh/pm.py')],
     'bounded exhaustive enumeration of configurations on simulated ranks', SIM)
prop('C32', 'Line integral convolution does not depend on the decomposition',
     'The line integral convolution of a vector field is the same, to rounding, on any number of ranks, and equals the definition: the texture at the pixel plus, in both directions along the streamline, the sum of the texture at the mid point of every step times the kernel times the step, with the length and the step in pixels.',
     'inputs configurations', 'vector fields over a small alphabet x lengths and spacings x kernels x process meshes',
     'Tests check one field on one rank.',
     ['pmesh/lic.py'], [('lic', 'pmesh/lic.py')],
     'bounded exhaustive enumeration of configurations on simulated ranks vs. serial reference', SIM)
prop('C33', 'Co-arrays deliver one-sided style pushes and pulls between images at sync',
     'For a co-array of the same shape on all images, pushing to, or pulling from, other images transfers exactly the addressed elements by the time of the next synchronisation, for any set of operations without conflicting accesses by any images between two synchronisations, without deadlock and with the same result under every schedule and message timing. A co-array of zeros is zero on every image.',
     'schedules histories programs', 'all small programs of push/pull/sync operations x all schedules up to a preemption bound x eager or rendezvous sends',
     'There are no tests for it; whether messages mix up or deadlock depends on program and timing.',
     ['pmesh/coarray.py'], [('operation log and flush', 'pmesh/coarray.py')],
     'exhaustive exploration of programs and schedules of the real code on a controlled MPI scheduler', SIM)
prop('C34', 'Turn-taking and root-evaluation helpers run in rank order and agree',
     'Code inside the turn-taking context is executed by one rank at a time, in rank order, under every schedule, also if it raises; a function evaluated at the root returns the same value, or raises, on all ranks without hanging.',
     'schedules fault_sequences', 'all schedules up to a preemption bound x which ranks raise x number of ranks',
     'There are no tests for it; ordering violations show only under specific schedules.',
     ['pmesh/tools.py'], [('barriers by turn', 'pmesh/tools.py Rotator'), ('broadcast of result or error', 'pmesh/tools.py FromRoot')],
     'exhaustive schedule exploration of the real code on a controlled MPI scheduler', SIM)
prop('C35', 'The standalone painters agree with the defined windows',
     'The standalone cloud-in-cell and triangular painters and readouts give the values of the linear and quadratic windows for every position, period, boundary mode, mass and memory layout of the mesh; readout is the adjoint of painting; sub-meshes drop, wrap or report particles as their mode says.',
     'inputs configurations', 'positions on a lattice x modes x periods x layouts of the mesh',
     'There are no tests for most of it.',
     ['pmesh/cic.py', 'pmesh/_cic.py', 'pmesh/tsc.py'], [('paint, readout', 'pmesh/cic.py, pmesh/tsc.py')],
     'bounded exhaustive lattice enumeration vs. analytic reference', SER)
prop('C36', 'Transfer functions multiply every mode by their defined factor',
     'Each transfer function of the library multiplies every Fourier mode by its documented factor of frequency (inverse Laplacian, Gaussian smoothing, deconvolution, differences), regardless of slab or decomposition; power spectrum measurement sums over every mode with its Hermitian weight exactly once.',
     'inputs configurations', 'transfer functions x mesh shapes x process meshes x modes',
     'There are no tests for most of it.',
     ['pmesh/transfer.py'], [('TransferFunction', 'pmesh/transfer.py')],
     'exhaustive enumeration of modes of bounded meshes', SER)
prop('C37', 'The lanczos and legacy mesh helpers match the current engine',
     'The legacy mesh class and the legacy Lanczos resampling give, for the same particles and fields, the same painting, transforms and readout as the current mesh engine and the defined windows, on any number of ranks and after any sequence of its operations.',
     'inputs histories configurations', 'operation sequences up to a depth x process meshes x positions',
     'One test of one configuration exists.',
     ['pmesh/particlemesh.py', 'pmesh/lanczos.py'], [('ParticleMesh', 'pmesh/particlemesh.py'), ('lanczos', 'pmesh/lanczos.py')],
     'bounded exhaustive enumeration of operation sequences on simulated ranks', SIM)
prop('C38', 'A particle-mesh simulation does not depend on the ranks it runs on',
     'A simulation made of decomposing, painting, normalising, transforming, applying functions in Fourier space, reading out forces and moving particles (which may be left where they are or be migrated to other ranks between steps) gives the same density, forces, positions and momenta after every step as the serial simulation on the whole mesh: no particle is lost, and forces found with the same window both ways add up to zero. The same holds for particles displaced from the grid by a random field of a given seed, and for a field that evolves by repeated transforms, arithmetic and functions in both spaces, new or in place.',
     'histories configurations inputs', 'all sequences of kinds of steps up to a depth x mesh shapes x process meshes x initial distributions over ranks',
     'Tests exercise single operations; a whole simulation on several ranks, with reuse of layouts and migration, is never compared with the serial one.',
     ['pmesh/pm.py', 'pmesh/domain.py', 'pmesh/window.py'], [('decompose, paint, transforms, apply, readout', 'pmesh/pm.py ParticleMesh, RealField, BaseComplexField'), ('exchange and gather', 'pmesh/domain.py Layout')],
     'exhaustive enumeration of histories of the real engine on simulated ranks vs. serial simulation', SIM)
prop('C39', 'The white noise of a seed is the standard Gaussian realisation of that seed',
     'In three dimensions every independent mode is sqrt(-ln u) exp(2 pi i v), or exp(2 pi i v) if unitary, of two successive uniform numbers v, u of the RANLUX generator (ranlxd1), seeded for its line along the last axis; the seeds of the lines are numbers of the same generator started from the given seed, handed out in squares growing around zero frequency. In fewer dimensions it is the transform of normal numbers. The same seed (below 2^31) thus gives the same known realisation in any version, on any ranks, in any storage.',
     'inputs configurations', 'all meshes of a bounded size and larger ones x seeds x unitary x storage forms x process meshes x all modes',
     'Tests only check correlations between meshes and the variance of one; a change of generator, order or formula goes unnoticed, and initial conditions can no longer be reproduced.',
     ['pmesh/_whitenoise_generics.h', 'pmesh/_whitenoise_imp.c', 'pmesh/gsl/ranlxd.c', 'pmesh/whitenoise.py', 'pmesh/pm.py'], [('seed table, sampling, Box-Muller', 'pmesh/_whitenoise_generics.h _generic_fill, pmesh/_whitenoise_imp.c'), ('ranlxd1', 'pmesh/gsl/ranlxd.c')],
     'exhaustive enumeration of modes of bounded meshes vs. an independent implementation of the generator', SIM)

prop('C40', 'Meshes of one kind share their plans; what nobody holds any more is released',
     'While a mesh lives on all ranks, further meshes of the same size, precision, process mesh and plan method on the same communicator, of whatever box and window, by constructor, reshape or respawn, make no new communicators or plans. Whatever is dropped, on all or on some ranks, is released: communicators, plans, the memory of fields, the MPI types of exchanges; a transform in place uses the memory of its source. So any number of meshes, fields and exchanges can follow one another.',
     'histories configurations', 'all histories up to a depth over kinds of meshes, ways to make fields, exchanges and droppings on some or all ranks x number of ranks',
     'Communicators, plans and types are limited resources that run out only after thousands of steps of a real simulation; no test counts them.',
     ['pmesh/pm.py', 'pmesh/domain.py'], [('cache of plans, in-place transforms', 'pmesh/pm.py ParticleMesh.__init__, _pm_cache, Field'), ('types', 'pmesh/domain.py Layout')],
     'exhaustive enumeration of histories on the real code; live and created resources of the stand-ins of PFFT and MPI counted after every operation', SIM)
prop('C41', 'Operations of the gradient engine, their tangents and adjoints are exact',
     'Each operation of the gradient engine (pmesh.abopt) gives the value of the mesh operation it stands for: transforms, the lowpass filter and transfer functions (modes that are their own conjugate are cleared by complex factors), painting normalised to one plus the overdensity, readout, and the sums, products, residuals, components and squares of real fields and particle arrays. Its tangent rule is the derivative of that value and its adjoint rule the transpose of the derivative, in every direction, on any number of ranks; inner products and linear combinations of the vector space are those of the global vectors.',
     'inputs configurations', 'operations x mesh shapes (even, odd, one to three dimensions) x process meshes x windows x every basis direction of inputs and outputs',
     'The tests of the module are skipped without abopt, and compare gradients of a norm only along itself, which hides wrong filters, factors and overwritten components.',
     ['pmesh/abopt.py'], [('operations with defjvp and defvjp', 'pmesh/abopt.py ParticleMeshEngine'), ('vector space', 'pmesh/abopt.py ParticleMeshVectorSpace')],
     'exhaustive enumeration of basis directions of every operation on simulated MPI ranks vs. matrices of the serial operations', SIM)

NA = []
exec(open(os.path.join(V, 'tools', 'na.py')).read())

if __name__ == '__main__':
    have = [p for p in P if os.path.exists(os.path.join(V, 'mc', 'checks', p[0]['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, t, n in have:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
        for p, r in NA:
            f.write(json.dumps(p) + '\n')
    m = dict(version=1, setup_cmd='./setup',
             checks=[dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
                          technique=t, level='model_checking', level_note=n) for p, t, n in have],
             not_applicable=[dict(property=p['id'], reason=r) for p, r in NA])
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(have), 'properties claimed')
