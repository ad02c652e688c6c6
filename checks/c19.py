PROP = 'C19'
CHECK = dict(
 harness=[dict(src='c19_matrix.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc4gsl', 'nc3gen', 'nc2gen', 'nc4gen', 'nc5nd3gen', 'nc6'])],
 level='model_checking',
 rule='States: three catalogues of matrices (special unitary: centre elements, every degenerate pattern of eigenphases from 1e-9 to 3, exchanges, embedded rotations, generic, all also turned by a generic rotation; hermitian traceless ones from 0 to norm 6; general: units and i*units of every element, singular, near-singular, rescaled, generic). Transitions: every operation of the matrix headers on every tuple of the catalogue (all pairs, all triples of a smaller catalogue), in place of and next to poisoned memory and with the output holding different previous contents, for NC=2,3,4,5, vectorised, plain C and GSL builds. Each result is compared with the definition evaluated by separate code; arguments documented as inputs are compared with copies afterwards.',
 technique='exhaustive enumeration of argument tuples over a finite catalogue of states, per build, against independent definitions',
 note='The tuple space is finite and explored completely; matrices outside the catalogue are not. The logarithm is asked to invert the exponential only where the principal logarithm is traceless. The structure constants for NC=2 use the library\'s own normalisation.',
 assumptions=['double precision; LAPACKE and single precision builds are not built here'])
