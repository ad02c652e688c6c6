PROP = 'C13'
CHECK = dict(
 harness=[dict(src='c13_smear.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3'])],
 level='model_checking',
 rule='all smearing types x spatial/all directions x lattice shapes (even, odd, anisotropic, extent 2) x kinds of gauge field x parameter sets x number of sweeps x memory answers, run as histories within one process; states are links compared with the definition',
 technique='exhaustive enumeration of smearing runs of the real code against an executable model of the definition (independent matrix arithmetic; hypercubic blocking by recursion over sets of excluded directions, polar projection and logarithms by eigenvalues); untouched directions compared bitwise; every unit translation',
 note='fields for which the projection or logarithm is not unique (centre elements; hot fields for APE and log) are left out',
 assumptions=['links are compared to 1e-9 per sweep (1e-8 for logarithms); the log field is kept away from plaquette eigenvalues near -1'])
