PROP = 'C01'
CHECK = dict(
 harness=[dict(src='c01_schedules.c', cfgs=['nc3', 'nc4', 'nc3sd', 'nc3or'], cfgs_thorough=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3sd', 'nc3or', 'nc2nd5'], flavour='tsan')],
 level='model_checking',
 rule='a table of about 90 operations (every smearing, flow, gauge fixing, transformation, sweep, U(1), measurement, cut mode, file writer and the reader of every format, the two other gauge fixing routines in builds of their own, momentum triangles on 3^4) is run on the real code under a controlled OpenMP runtime: for 2, 3 and 5 threads under 4 base schedules and 17 threads under one with happens-before conflict detection, then with every single preemption at a synchronisation or conflicting access (2 threads quick, 2 and 3 thorough), up to a cap per operation that the evidence lists; states are parallel regions entered, transitions scheduling points',
 technique='stateless model checking of the implementation: the OpenMP runtime is replaced by a deterministic scheduler (coroutines), vector-clock conflict detection over compiler-instrumented accesses chooses the preemption points, all executions with up to one preemption are enumerated, and every outcome (links, numbers, files) is compared with the one-thread run',
 note='bounds: 2x2x4 and 2x4x2 lattices, at most 5 threads (17 without preemption), one preemption; library calls (FFTW, libc) are atomic apart from their recorded memory ranges',
 assumptions=['sequentially consistent memory (the conflicts found are exactly the places where that would not be enough)', 'FFTW and libc are correct and thread-agnostic'])
