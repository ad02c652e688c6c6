PROP = 'C08'
CHECK = dict(
 harness=[dict(src='c08_gfix.c', cfgs=['nc3', 'nc2', 'nc4', 'nc4gsl', 'nc5nd3', 'nc3sd', 'nc3or', 'nc3lux', 'nc3exp', 'nc3nd3', 'nc2nd5', 'nc2nd2'])],
 level='model_checking',
 rule='Landau, Coulomb and Coulomb with residual fix: shapes of the bound x six field kinds (random, medium, weak, diagonal, centre, unit) x iteration budgets 1,2,5,20,60,400 x accuracies 1e-2 to 1e-20 x step lengths (three in thorough) x team sizes 1-3 and schedules; restarts whose configuration file is missing. Maximal axial and axial gauge: every shape with extents from {2,3,4,5} up to a volume of 100 (quick) or 300 x six field kinds x team sizes 1-3. Over-relaxed versions: two gauges x shapes x six field kinds x budgets x accuracies x three parameters x team sizes. Builds: conjugate gradient, steepest descent, over-relaxed, luxury copies, exact exponential, with and without FFTW.',
 technique='exhaustive enumeration of gauge types, fields, budgets, accuracies, shapes and team sizes run on the real code; each returned field is checked against an independent divergence and functional, and for being a gauge transform of the input (both brought to tree gauge, where one global rotation solved for exactly must map one to the other)',
 note='Convergence is what the operation returns or prints; a run which does not report it only has to return a gauge transform. With luxury copies the functional is compared with nothing, because the input is not one of the copies. The over-relaxed build defines accuracy by a relative change, so it is allowed a hundred times the divergence.',
 assumptions=['the linear definition of the gauge fields (default build)', 'Fourier acceleration uses FFTW_ESTIMATE plans'])
