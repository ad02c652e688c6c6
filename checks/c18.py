PROP = 'C18'
CHECK = dict(
 harness=[dict(src='c18_u1.c', cfgs=['nc3', 'nc2', 'nc5nd3', 'nc3nd3', 'nc2nd5', 'nc2nd2'])],
 level='model_checking',
 rule='Attach: every kind of SU(N) field x 5 couplings x 6 charges x 3 measurements x lattice shapes (odd and even extents, extents of one) x threads and schedules x field scale (1, and 9 where plaquette angles wind). The non-compact angles are read back from a run on unit links with a tiny coupling; every link must be the SU(N) link times exp(i e q theta), every reported number must be the one of those angles computed by separate code, and no time slice may have a zero mode. Propagator: for every shape with up to 54 (thorough 130) sites the Gaussian noise is replaced by each unit vector in turn (real and imaginary), so that the complete linear map from noise to field is known; the covariance it implies is compared, element by element, with the Feynman gauge propagator without spatial zero modes.',
 technique='explicit-state enumeration of couplings, charges and measurements; exhaustive enumeration of unit noise vectors through an interposed generator',
 note='The covariance is exact, not a statistical average: every column of the noise-to-field map is executed. The reported observables are those of the underlying angles at unit coupling, which is what the code reports.',
 assumptions=['par_polar_box is where the noise comes from (interposed at link time); the attach part does not need it'])
