PROP = 'C17'
CHECK = dict(
 harness=[dict(src='c17_cuts.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3psq', 'nc3nd3', 'nc2nd5', 'nc2nd2'])],
 level='model_checking',
 rule='Every mode that writes gluon correlators (exceptional, non-exceptional, fields, smeared and unsmeared propagators, instantaneous, configuration space, transverse and longitudinal) x linear or logarithmic gauge potential x four cuts x momentum bounds 0..9 x weak, random and intermediate fields x 0..2 smearing steps x every lattice shape of a bounded family with extents 2..5 (odd ones, and even ones whose lists contain zone boundary momenta). States: measurement runs. Transitions: numbers of an output file, each decoded by a reader of its own, big-endian and from the lengths in the file only, and compared with a naive Fourier sum of the potentials for the momentum listed in the same file. For the non-exceptional vertex the triplets are compared as a set with all the pairs of vectors of equal length. A file that is longer or shorter than it says, a second file, or a missing one are failures too.',
 technique='explicit-state enumeration of measurements; every output number compared with a direct Fourier sum',
 note='Quick takes one of three parameter combinations per shape, thorough all of them. Small lattices: the sums are exact whatever the extent. Non-exceptional measurements may refuse bounds whose vectors leave the Brillouin zone. The configuration-space correlator has the normalisation of the manual; the instantaneous ones that of the code comment.',
 assumptions=['the smearing applied before a measurement is the subject of C13', 'double precision, CONDOR_MODE file names'])
