"""How many cases each check runs, and how the evidence describes them."""
QUICK = {
    'C01': 8000, 'C02': 8000, 'C03': 6000, 'C04': 6000, 'C05': 3000, 'C06': 4400,
    'C07': 7200, 'C08': 4400, 'C09': 5200, 'C10': 4800, 'C11': 8400, 'C12': 8000,
    'C13': 2800, 'C14': 4000, 'C15': 20000, 'C16': 4000, 'C17': 3600, 'C18': 18000,
    'C19': 12000, 'C20': 18000, 'C21': 3200,
    'C26': 12000, 'C27': 6000,
}
THOROUGH_X = 30
LEVEL = {p: 'exploration' for p in QUICK}
LEVEL.update({p: 'fault_enumeration' for p in ()})

_JOB = ('One case is one seeded simulated MPI job (sometimes several related '
        'ones): its workers, hosts, message timing, clocks, data, program and '
        'faults are drawn from the case seed. It is non-trivial when it has '
        'several workers whose executions interleave (more context switches '
        'than workers), or a fault or crash actually fired; cases are '
        'distinct when parameters or scheduling choices differ. ')
RULE = {
    'C01': _JOB + 'Programs call compute_inner_product_array.',
    'C02': _JOB + 'Programs call compute_symm_inner_product_array.',
    'C03': _JOB + 'Programs call lin_combine.',
    'C04': _JOB + 'Programs mix every collective operation of the package; '
    'only termination and left-over messages are judged.',
    'C05': _JOB + 'Each case is a pair of jobs: one uses an object with a '
    'history, the other a fresh object; the final calls must agree.',
    'C06': _JOB + 'LAPACK results differ legally between workers.',
    'C07': _JOB + 'Programs run POD through handles.',
    'C08': _JOB + 'Programs run BPOD through handles.',
    'C09': _JOB + 'Programs run DMD through handles.',
    'C10': _JOB + 'Programs run total-least-squares DMD through handles.',
    'C11': _JOB + 'Programs run Galerkin projection or time derivatives.',
    'C12': _JOB + 'Failures of callbacks, storage and LAPACK are injected.',
    'C13': _JOB + 'A job saves and is killed; another restores.',
    'C14': _JOB + 'Programs save everything they computed.',
    'C15': _JOB + 'Vectors and arrays go through files with I/O faults; '
    'serial cases count as non-trivial.',
    'C16': _JOB + 'Live user vectors are counted in every job.',
    'C17': _JOB + 'Each case runs one program under several clock, speed and '
    'verbosity settings.',
    'C18': _JOB + 'Programs call the helpers of modred.parallel.',
    'C19': _JOB + 'Programs call the communicator\'s reductions and scans.',
    'C20': _JOB + 'Histories of gets and puts over handles with bases and '
    'scales; serial cases count as non-trivial.',
    'C21': _JOB + 'Each case runs one decomposition at several job sizes and '
    'with the array functions.',
    'C27': _JOB + 'Programs contain calls that cannot be answered, which '
    'every worker must refuse.',
    'C26': _JOB + 'User objects get defects (in-place arithmetic, wrong '
    'scaling, inner products of another degree, failing loads) and are given '
    'to the sanity check; serial cases count as non-trivial.',
}

NOTE = {
    '*': 'Seeded search over schedules, job shapes, inputs and (where listed) '
         'faults against the real code; samples, does not enumerate. Sound '
         'against the legal behaviour of the simulated MPI library.',
}
