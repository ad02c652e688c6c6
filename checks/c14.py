PROP = 'C14'
CHECK = dict(
 harness=[dict(src='c14_flow.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3', 'nc2nd5', 'nc2nd2'])],
 level='model_checking',
 rule='flow type (fixed, adaptive; stout, log) x lattice shapes (even, odd, anisotropic, extent 2) x kinds of gauge field x step sizes x step budgets x memory answers, every step of every run; states are links advanced by one step',
 technique='exhaustive enumeration of flow runs of the real code against an executable model (three-register third-order Runge-Kutta with independent matrix arithmetic); the final field and every printed line (time, step, plaquette, charge, clover and plaquette energies) of every step compared, stopping rule and reported scales recomputed on the model, adaptive runs replayed on the model over their reported steps',
 note='log flow is run on fields whose plaquette eigenvalues stay away from -1',
 assumptions=['printed values have six digits, which limits the precision at which adaptive steps can be replayed'])
