PROP = 'C10'
CHECK = dict(
 harness=[dict(src='c10_resume.c', cfgs=['nc3', 'nc2', 'nc5nd3', 'nc3kiss', 'nc3mwc1038', 'nc3xor', 'nc3well', 'nc2nd2'], cli='fast')],
 level='model_checking',
 rule='a run of the program in HEATBATH mode that is continued from checkpoint k and its generator state, to any later stopping point, measures and writes what the uninterrupted run does: plaquettes, fields, generator states and file names',
 technique='exhaustive exploration of the interruption histories of the program itself: every checkpoint x every later stopping point, every subset of the checkpoints as a chain of interruptions, every file-system event as a crash point (fopen, fclose, rename and remove are intercepted), torn files by length, every file that cannot be created; each history is executed by the real program and compared with the uninterrupted execution',
 note='the oracle is the uninterrupted run of the same program; storage formats NERSC (full, two rows, compressed), HIREP, MILC, SCIDAC, ILDG, openQCD; all five generators; 1-3 threads',
 assumptions=['a crash is the death of the process before a file-system event or when a file reaches a length: what the operating system has accepted is not lost', 'the input of the continued run is that of the first one but for CONFNO, ITERS and SEED'])
