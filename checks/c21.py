PROP = 'C21'
CHECK = dict(
 harness=[dict(src='c21_runs.c', cfgs=['nc3', 'nc2', 'nc5nd3', 'nc3nd3', 'nc4'], cfgs_thorough=['nc3', 'nc2', 'nc5nd3', 'nc3nd3', 'nc4', 'nc2nd5'], cli='fast')],
 level='model_checking',
 rule='The program itself is run, once for every point of the enumerated space; a state is one run of the program, a transition one number or file of it that is compared. '
      'The space: every mode and sub-mode of the input file (10 smearings, spatial smearings, 3 iterative gauge fixings, axial, maximal axial, random transformation, 3 U(1) fields, 11 measurements with 4 momentum cuts, observables only) x every storage format x 2 lattice shapes; '
      'the same from every input format, precision and byte order; from the fields the program generates itself; '
      'every chain of two runs where the output of the first is the input of the second (quick: every pair on half of the formats of the storage); '
      'every failure: missing, empty, truncated (4 places in every format) and damaged input, an existing output file, no directory, no room for the file (7 limits), stopped at every file-system event, gauge fixing with 0, 1 and 2 iterations.',
 technique='explicit-state exploration of run histories of the real program (every mode x storage x input format, two-run chains, fault points of each run), compared with the specification of the result',
 note='Oracle: the operation called directly on the field decoded from the input file by a reader of our own (rt/fmt.c); the output file is decoded by the same reader and compared link by link; numbers the operation prints must appear in the same order in the output of the program; the plaquettes are compared with our own; measurement files are compared record by record; the working directory may hold nothing but the input and the requested output. A run that cannot succeed has to exit non-zero with a message and leave nothing under the name of the output; existing files and the input stay as they were.',
 assumptions=['the operations themselves are checked by C01-C19 against independent definitions; here the direct call is the oracle',
              'the eight-parameter storage is documented to be unstable: fields it cannot hold (a link whose first row is singular, as axial gauges have) are not compared',
              'links with a U(1) phase are stored in the formats that hold the whole matrix, as docs/SUNxU1_info.tex demands',
              'results of iterative gauge fixing are compared to 1e-5, from weak fields where the minimum is unique'])
