"""Writes properties.jsonl (kept as code so that the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), hook=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


VS, PAR, RED = 'modred/vectorspace.py', 'modred/parallel.py', \
    'modred/reductions.py'
POD, BPOD, DMD, GAL = 'modred/pod.py', 'modred/bpod.py', 'modred/dmd.py', \
    'modred/ltigalerkinproj.py'
VEC, UTIL = 'modred/vectors.py', 'modred/util.py'

prop('C01', 'Inner-product arrays are exact and identical on every worker',
     'For any lists of row and column vector handles, element (i, j) of the '
     'computed inner-product array is the user inner product of row vector i '
     'with column vector j (first argument conjugated for complex data), and '
     'every worker receives the same full array. This holds for any number of '
     'workers, nodes, vectors, and any memory limit, whatever order and '
     'delay messages have, and does not depend on how the list lengths relate '
     'to the number of workers or to each other.',
     ['schedules', 'inputs', 'configurations'],
     'all row/column counts, worker counts, host layouts, memory limits, '
     'real/complex data, vector types, and all legal MPI timings',
     'The tests run at one and three workers on one host with one timing, '
     'random data and a few list sizes; even worker counts, several nodes, '
     'multi-pass chunking with workers that have no tasks, and rendezvous '
     'message timing are never reached.',
     [VS, PAR, RED],
     [('row/column chunking and ring pass', VS + ': VectorSpaceHandles.'
       'compute_inner_product_array'),
      ('task division', PAR + ': find_assignments'),
      ('sum of partial arrays', RED + ': Intracomm.allreduce')],
     observe=['return value on every worker'])

prop('C02', 'Symmetric inner-product arrays are Hermitian, exact, replicated',
     'For any list of vector handles the symmetric inner-product array is '
     'exactly Hermitian off the diagonal, each element is the user inner product of the two '
     'vectors it is indexed by, and every worker receives the same full '
     'array. It equals what the general inner-product operation gives for the '
     'same list on both sides, for any number of workers, nodes, vectors, '
     'memory limit and message timing, including vectors that are zero or '
     'mutually orthogonal.',
     ['schedules', 'inputs', 'configurations'],
     'all list lengths, worker counts (odd and even), host layouts, memory '
     'limits, data with exact zeros, and all legal MPI timings',
     'The pairwise exchange between active workers takes different paths for '
     'odd and even numbers of active workers and for partial chunks; tests '
     'run only one and three workers with dense random data.',
     [VS, PAR, RED],
     [('triangle/rectangle decomposition and pairwise exchange',
       VS + ': VectorSpaceHandles.compute_symm_inner_product_array'),
      ('duplicate-value mask and symmetrisation', VS)],
     observe=['return value on every worker'])

prop('C03', 'Linear combinations are put once, correctly, before any return',
     'A linear combination puts each requested output exactly once, on '
     'exactly one worker, with the value sum over k of coefficient(k, j) times '
     'basis vector k, and puts nothing else. When the call returns on any '
     'worker every output is complete and visible to all, and neither the '
     'basis vectors nor the coefficient array (including one-dimensional and '
     'column-selected forms) is modified.',
     ['schedules', 'inputs', 'configurations'],
     'all numbers of outputs and bases, coefficient shapes and column '
     'selections (order, repetition), memory limits, worker counts, in-place '
     'and plain user vectors, and all legal MPI timings',
     'Tests compare final values after an extra barrier on one/three workers; '
     'they never observe the instant at which one worker has returned while '
     'others are still writing, never count puts, and never use in-place user '
     'vectors.',
     [VS, PAR],
     [('layered sums and ring pass', VS + ': VectorSpaceHandles.lin_combine'),
      ('completion barrier', VS + ': end of lin_combine')],
     observe=['put calls on handles', 'storage at each worker\'s return'])

prop('C04', 'Collective operations always terminate and leave nothing behind',
     'When every worker makes the same calls with valid arguments, every call '
     'returns on every worker for every legal MPI behaviour: any message '
     'delay, sends that wait for their receiver or are buffered, and rooted '
     'collectives that do or do not synchronise. No call depends on system '
     'buffering, and afterwards no message, receive or request is left '
     'pending.',
     ['schedules', 'configurations', 'programs'],
     'all schedules, eager/rendezvous mixes and collective synchronisation '
     'choices, worker counts, list lengths smaller and larger than the worker '
     'count, and sequences of operations',
     'A run under one real MPI library on one machine shows one timing, with '
     'small messages always buffered; a latent deadlock or a message leaking '
     'into the next operation is invisible there.',
     [VS, PAR, RED, POD, BPOD, DMD, GAL],
     [('non-blocking send then receive then wait', VS),
      ('binary-tree reduction and root forwarding', RED),
      ('barriers at the same places on every worker', PAR + ': barrier')],
     observe=['scheduler quiescence', 'message queues at job end'])

prop('C05', 'Earlier calls never change the answer of a later call',
     'Calling an operation on an object that has already been used gives the '
     'same result as calling it on a fresh object given the same inputs and '
     'the same declared prior results. Earlier operations, other objects, '
     'other vector lists, earlier truncation, restored data and failed calls '
     'leave nothing behind that alters later results, on any worker.',
     ['histories', 'programs', 'schedules'],
     'all sequences of compute, truncate, restore and mode computations on '
     'the same and on several objects, at any worker count',
     'Each test creates a fresh object, calls a fixed sequence once and stops.',
     [POD, BPOD, DMD, GAL, VS, VEC],
     [('result attributes overwritten by each compute call', POD),
      ('default vector handles remembered by compute_decomp', DMD),
      ('base-vector cache', VEC + ': VecHandle')],
     state=[('vec_handles / adv_vec_handles',
             'handles remembered for mode computation', DMD)],
     observe=['return values', 'mode vectors put'])

prop('C06', 'All workers hold the same decomposition, even on unlike nodes',
     'After any operation every worker returns and stores the same small '
     'arrays (eigenvalues, eigenvectors, singular vectors, coefficients, '
     'reduced matrices), so that modes assembled from different workers '
     'belong to one decomposition. This holds even when the eigenvalue and '
     'singular-value routines of the nodes legally differ: other signs or '
     'phases of vectors, other bases of repeated eigenvalues, another order '
     'of DMD eigenvalues, values rounded to either side of a tolerance.',
     ['schedules', 'configurations', 'programs'],
     'all per-node legal variations of eigen- and singular-value routines, '
     'worker counts and decomposition kinds',
     'All tests run on one machine where every worker computes the same bits, '
     'so a decomposition computed locally by each worker passes.',
     [POD, BPOD, DMD, GAL, PAR],
     [('decomposition on one worker, then broadcast',
       PAR + ': call_and_bcast and its callers')],
     observe=['return values and attributes on every worker'])

prop('C07', 'POD of handles satisfies its definition on any job',
     'The returned POD eigenvalues are the eigenvalues of the correlation '
     'array in descending order, cut exactly at the requested absolute and '
     'relative tolerances, with orthonormal eigenvectors satisfying the '
     'eigenvalue equation. Computed modes, for any selection and order of '
     'indices, are the corresponding orthonormal combinations of the vectors, '
     'and projection coefficients are the inner products of modes and '
     'vectors.',
     ['inputs', 'schedules', 'configurations', 'programs'],
     'all snapshot sets (rank-deficient, complex, weighted), tolerances, mode '
     'selections, worker counts and timings',
     'Tests use a few random real data sets at one and three workers.',
     [POD, VS, UTIL],
     [('correlation array and Hermitian eigensolver',
       POD + ': PODHandles.compute_decomp'),
      ('mode coefficients', POD + ': PODHandles.compute_modes')],
     observe=['return values', 'modes put'])

prop('C08', 'BPOD of handles satisfies its definition on any job',
     'For direct and adjoint snapshots of a linear system, the Hankel array '
     'has at block (i, j) the inner products of adjoint snapshot group i with '
     'direct snapshot group j for any numbers of inputs, outputs and groups. '
     'The returned singular values and vectors are its singular value '
     'decomposition cut exactly at the requested tolerances; direct and '
     'adjoint modes computed for any index selection are bi-orthonormal '
     'combinations of the snapshots and projection coefficients are inner '
     'products with the opposite modes.',
     ['inputs', 'schedules', 'configurations', 'programs'],
     'all linear systems, numbers of inputs/outputs and snapshots, '
     'tolerances, mode selections, worker counts and timings',
     'Tests use a few systems of fixed shape at one and three workers.',
     [BPOD, VS, UTIL],
     [('Hankel assembly from first block row and last block column',
       BPOD + ': BPODHandles.compute_decomp'),
      ('SVD on one worker, broadcast', BPOD + ': BPODHandles.compute_SVD')],
     observe=['return values', 'modes put'])

prop('C09', 'DMD of handles satisfies its definition on any job',
     'For sequential snapshots or explicit pairs, DMD eigenvalues and '
     'low-order eigenvectors are those of the operator relating the snapshots '
     'to their successors, restricted to the POD subspace cut at the requested '
     'absolute and relative tolerances and maximum count. Exact, projected and '
     'adjoint modes for any index selection, spectral coefficients and '
     'projection coefficients satisfy their definitions, with left and right '
     'vectors bi-orthonormal.',
     ['inputs', 'schedules', 'configurations', 'programs'],
     'all snapshot sets, sequential and paired, tolerances, mode selections, '
     'worker counts and timings',
     'Tests use a few random data sets at one and three workers, and never '
     'vary tolerances, mode index order or object reuse.',
     [DMD, VS, UTIL],
     [('low-order operator', DMD + ': DMDHandles.compute_eigendecomp'),
      ('exact/projected/adjoint mode coefficients', DMD)],
     observe=['return values', 'modes put'])

prop('C10', 'Total-least-squares DMD satisfies its definition on any job',
     'Total-least-squares DMD first projects both snapshot sets onto the '
     'leading eigenspace of the summed correlation array, then applies DMD to '
     'the projected snapshots, each stage cut at the requested tolerances and '
     'maximum count. Its eigenvalues, low-order vectors, modes of all kinds, '
     'spectral and projection coefficients satisfy that definition for '
     'sequential and paired snapshots.',
     ['inputs', 'schedules', 'configurations', 'programs'],
     'all snapshot sets, tolerances, counts, mode selections, worker counts '
     'and timings',
     'Tests use a few data sets at one and three workers.',
     [DMD, VS, UTIL],
     [('projection onto summed correlation eigenspace',
       DMD + ': TLSqrDMDHandles.compute_eigendecomp')],
     observe=['return values', 'modes put'])

prop('C11', 'Galerkin-reduced models and time derivatives match definitions',
     'Reduced arrays of a linear system equal the projection of the given '
     'operator images onto the basis using the adjoint basis (or the basis '
     'itself), with the oblique projection correction exactly when the bases '
     'are not declared orthonormal. Time-derivative vectors equal the forward '
     'difference of each pair of vectors divided by the step, each put once '
     'and visible to all workers when the call returns on any.',
     ['inputs', 'schedules', 'configurations', 'programs'],
     'all bases (orthonormal or not, own or separate adjoint), numbers of '
     'inputs and outputs, call orders, worker counts and timings',
     'Tests cover one basis shape at one and three workers and look at '
     'derivatives only after all workers are done.',
     [GAL, VS],
     [('projection array computed once per object',
       GAL + ': LTIGalerkinProjectionHandles._get_proj_array'),
      ('derivatives divided over workers', GAL + ': compute_derivs_handles')],
     observe=['return values', 'derivative vectors put'])

prop('C12', 'A failed job is never reported as a success',
     'If a user callback, vector load or store, or numerical routine fails on '
     'any worker at any point, that worker\'s call raises the failure to its '
     'caller. A worker whose call nevertheless returns normally has the '
     'complete and correct result, and no output vector or array is ever '
     'acknowledged with a wrong or partial value.',
     ['fault_sequences', 'schedules', 'crash_points'],
     'all placements of one or more failing callbacks (exception, memory '
     'error, I/O error, half-written put) over workers, operations and '
     'timings',
     'Tests never inject a failure into a running parallel operation.',
     [VS, POD, BPOD, DMD, GAL, PAR],
     [('exceptions propagate; results only after final reduction/barrier',
       VS)],
     observe=['exceptions on each worker', 'storage at return'])

prop('C13', 'Saved decompositions survive crashes and restore on any job size',
     'Once a save call has returned on some worker, the saved arrays survive '
     'a kill of the whole job at any later instant, and a new job with any '
     'number of workers that restores them holds on every worker exactly the '
     'saved values. Modes, spectra and coefficients computed after a restore '
     'equal those the original job would have computed, and a restore from '
     'missing or unreadable data raises on the worker that reads it and '
     'returns normally on none.',
     ['crash_points', 'histories', 'schedules', 'configurations'],
     'all decomposition kinds and save/restore calls, kill instants, worker '
     'counts before and after, own and default text storage, number of '
     'retained modes including one',
     'Tests save and restore in one process, with many modes, without any '
     'crash and with the same worker count.',
     [POD, BPOD, DMD, UTIL, PAR],
     [('save by one worker then barrier', POD + ': put_*'),
      ('load by one worker then broadcast', POD + ': get_*')],
     observe=['restored attributes', 'modes computed after restore'])

prop('C14', 'Saved arrays are written once and complete when the call returns',
     'Each save operation of a decomposition or reduced model calls the user '
     'storage function exactly once per array, on one worker, with the value '
     'that the object holds for that name and the destination given for it. '
     'When the call returns on any worker, every array it saves is complete '
     'and readable by all workers.',
     ['schedules', 'programs', 'configurations'],
     'all save operations of all decompositions, worker counts and timings',
     'Tests re-load after an additional barrier on one file system and do not '
     'see who wrote, how often, or whether another worker returned first.',
     [POD, BPOD, DMD, GAL, PAR],
     [('rank-zero write followed by a barrier', POD + ': put_*')],
     observe=['put_array calls', 'storage at each worker\'s return'])

prop('C15', 'Stored vectors and arrays read back exactly or raise an error',
     'A one- or two-dimensional real, complex, integer or boolean array of '
     'values representable in double precision, saved as text or pickled '
     'through the package\'s handles, whatever its memory layout and type, '
     'reads back with exactly the same values (one dimension as a column in '
     'text). Under any I/O failure (full disk, failed open, read, write or '
     'close, short transfers) an operation either raises or has its full '
     'correct effect.',
     ['inputs', 'fault_sequences', 'crash_points'],
     'all array shapes, dtypes, layouts, special values and delimiters, all '
     'single I/O faults at all points',
     'Tests save float64/complex128 C-ordered random arrays on a healthy disk '
     'and compare with a tolerance.',
     [UTIL, VEC],
     [('text format with interleaved complex columns',
       UTIL + ': save_array_text, load_array_text'),
      ('pickled vectors', VEC + ': VecHandlePickle')],
     observe=['file contents', 'loaded arrays', 'exceptions'])

prop('C16', 'Vectors held in memory stay within the configured limit',
     'During inner-product and linear-combination operations the number of '
     'user vectors a worker holds at once never exceeds its share of the '
     'per-node limit by more than a small constant, independent of how many '
     'vectors are in the lists. A limit too small to work with is raised to '
     'three vectors per worker, and results do not change with the limit.',
     ['inputs', 'configurations', 'schedules'],
     'all list lengths, limits, worker counts, host layouts and timings',
     'Tests compare results only; nothing counts live vectors.',
     [VS],
     [('chunk sizes derived from the limit',
       VS + ': VectorSpaceHandles.__init__ and loops')],
     observe=['live user vector objects per worker'])

prop('C17', 'Clocks, node speed and verbosity never influence results',
     'Results, termination and the calls made on user objects do not depend '
     'on what clocks read: skewed, drifting, jumping or different clocks, '
     'slow or stalled workers, and any progress-message interval give the '
     'same answers. Messages come from worker zero only, none at verbosity '
     'zero, and progress messages are at least one interval apart on its '
     'clock.',
     ['schedules', 'configurations', 'fault_sequences'],
     'all clock offsets, rates and jumps per worker, stalls, print intervals '
     'and verbosity levels',
     'Tests run in milliseconds with verbosity zero, so the progress branches '
     'are never taken and clocks never differ.',
     [VS, PAR, 'modred/py2to3.py'],
     [('time-gated progress messages', VS + ': prev_print_time'),
      ('worker-zero printing', PAR + ': print_from_rank_zero')],
     observe=['return values', 'stdout/stderr of every worker'])

prop('C18', 'Parallel helpers agree across workers and cover all work',
     'Every worker reports the same worker count and node count and its own '
     'distinct rank, for any placement of workers on hosts and also when no '
     'MPI is installed. Task division returns on every worker the same '
     'contiguous, order-preserving partition that covers each task once and '
     'balances uniform tasks to within one; broadcast and call-and-broadcast '
     'give every worker worker zero\'s value and run the function only there.',
     ['schedules', 'inputs', 'configurations'],
     'all host layouts and names, worker counts with and without MPI, task '
     'lists and weights, payloads and timings',
     'Tests run on one host with one or three workers.',
     [PAR],
     [('host identification gathered at import', PAR),
      ('cumulative-weight split', PAR + ': find_assignments')],
     observe=['return values on every worker'])

prop('C19', 'Reductions equal the rank-ordered fold for any operator and root',
     'The reduction, all-reduction, inclusive and exclusive scan of the '
     'package\'s communicator return what folding the workers\' values in '
     'rank order gives, for any associative operator (also non-commutative), '
     'any root and any number of workers. Minimum and maximum location report '
     'the right value and worker, non-root workers get nothing from a '
     'reduction, and inputs are not modified.',
     ['schedules', 'inputs', 'configurations'],
     'all operators, payload types, roots, worker counts (power of two or '
     'not) and timings, and sequences of such calls',
     'The tests exercise only sums at root zero with one and three workers.',
     [RED],
     [('binary-tree reduce with forwarding to root', RED + ': reduce'),
      ('recursive-doubling scan', RED + ': scan, exscan')],
     observe=['return values on every worker'])

prop('C20', 'Vector handles subtract and scale exactly what they were told to',
     'Getting a vector through a handle returns the stored vector minus its '
     'base vector, then times its scale, where absent base or scale means no '
     'change and the base\'s own base and scale apply to the base. This holds '
     'for any interleaving, on one worker, of gets and puts over handles with '
     'different, equal, nested and shared bases, also after a failed load, '
     'and gets never modify stored vectors.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of gets and puts over several handles of all kinds with '
     'equal, different and nested bases, with failing loads in between',
     'Tests check one handle with one base at a time and no failures, so the '
     'shared base-vector cache is never confused.',
     [VEC],
     [('cache of the last base vector', VEC + ': VecHandle.get')],
     state=[('cached base vector', 'last base loaded, shared by all handles',
             VEC)],
     observe=['vectors returned'])

prop('C21', 'Results do not depend on job size and match the array functions',
     'The same decomposition of the same data gives the same spectra, the '
     'same modes up to a unit factor each, and the same coefficients on any '
     'number of workers, nodes and memory limits, and these agree with the '
     'array-based functions of the same method in a single-worker job. The '
     'array-based functions refuse to run in a job of several workers.',
     ['configurations', 'inputs', 'schedules'],
     'all data sets, decomposition kinds, weights, tolerances, worker counts '
     'and layouts',
     'The tests check each worker count separately against random data; a '
     'serial and a parallel run are never compared with each other.',
     [POD, BPOD, DMD, GAL, VS],
     [('array-based and handle-based implementations of one method', DMD)],
     observe=['return values', 'modes'])

prop('C22', 'ERA models reproduce the Markov parameters they were built from',
     'The eigensystem realization algorithm returns reduced discrete-time '
     'models whose impulse response reproduces the given Markov parameters to '
     'the accuracy of the truncated singular values, for any numbers of '
     'inputs, outputs and samples.',
     ['inputs'],
     'all Markov parameter sequences, sampling formats and model sizes',
     'Tests use a few random systems of fixed sizes.',
     ['modred/era.py'],
     [('Hankel assembly and balanced truncation', 'modred/era.py')])

prop('C23', 'OKID recovers Markov parameters from input-output data',
     'Observer/Kalman identification returns the Markov parameters of the '
     'linear system that produced noise-free input-output records, for any '
     'numbers of inputs, outputs and requested parameters.',
     ['inputs'], 'all systems and input records',
     'Tests use a handful of stored systems.', ['modred/okid.py'],
     [('least-squares observer parameters', 'modred/okid.py')])

prop('C24', 'Small numerical helpers satisfy their definitions',
     'Sorted and truncated eigen- and singular value decompositions, '
     'bi-orthogonal eigenvectors, random stable systems, impulse responses, '
     'Hankel arrays and norms satisfy their textbook definitions for every '
     'admissible argument.',
     ['inputs'], 'all arrays and tolerances',
     'Tests sample random arrays.', [UTIL],
     [('wrappers of numpy and scipy routines', UTIL)])

prop('C25', 'Grid inner products integrate by the trapezoidal rule',
     'The weighted grid inner product equals the trapezoidal integral of the '
     'conjugated first field times the second over grids of any dimension.',
     ['inputs'], 'all grids and fields', 'Tests use a few grids.', [VEC],
     [('successive one-dimensional trapezoidal integration',
       VEC + ': InnerProductTrapz')])

prop('C26', 'The sanity check accepts sound vectors and rejects unsound ones',
     'The sanity check of user vectors and inner products returns normally for '
     'every double precision vector object whose arithmetic is correct, '
     'whatever its magnitude, type, storage and the size of the job. It raises '
     'ValueError for one whose scaling or addition gives wrong values or '
     'changes its operands, or whose inner product does not scale linearly. It '
     'leaves the vector unchanged, and raises if the vector cannot be loaded.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all vector objects, magnitudes, inner products and defects of their '
     'arithmetic, on any worker of jobs of any size',
     'Tests use one random vector of unit magnitude and three kinds of defect.',
     [VS, POD, BPOD, DMD],
     [('relative comparison of scaled, copied and added vectors',
       VS + ': VectorSpaceHandles.sanity_check')],
     observe=['return values and exceptions', 'vector contents'])

prop('C27', 'Calls that cannot be answered are refused on every worker',
     'A call that cannot be answered raises an exception on every worker: '
     'numbers of vectors, coefficients, outputs, mode indices, samples or '
     'array shapes that do not fit together, a missing inner product or '
     'missing vectors, modes or coefficients before anything was computed or '
     'restored, an array class or function in a job of several workers. '
     'ValueError, RuntimeError, UndefinedError, NotImplementedError or '
     'IndexError is raised where the package does so now. Such a call puts '
     'nothing, leaves no worker waiting and no message behind, and leaves '
     'what the object had computed or restored usable by later calls that '
     'name their vectors.',
     ['inputs', 'configurations', 'schedules', 'histories'],
     'all handle classes and parallel functions, mismatched counts and '
     'indices, objects fresh, computed or restored, job sizes and timings',
     'Tests try a few mismatches per class in one job size and never go on '
     'with the object.',
     [VS, POD, BPOD, DMD, GAL, 'modred/era.py', 'modred/okid.py'],
     [('shape checks before any communication',
       VS + ': VectorSpaceHandles.lin_combine'),
      ('handle counts checked against build coefficients',
       DMD + ': compute_exact_modes, compute_proj_modes, '
       'compute_adjoint_modes, compute_decomp'),
      ('missing vectors', BPOD + ': compute_direct_modes')],
     observe=['exceptions on each worker', 'storage', 'later results'])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
print(len(P))
