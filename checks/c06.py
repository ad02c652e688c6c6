PROP = 'C06'
CHECK = dict(
 harness=[dict(src='c06_gauge.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3'])],
 level='model_checking',
 rule='every operation that claims invariance or covariance x lattice shapes (9, including extent 2 and odd) x kinds of gauge field x kinds of gauge transformation (identity, centre, diagonal, generic, one site, weak, one time slice): the two orders of transforming and operating are compared; the transformation routines themselves are compared with the definition on the same grid, whole lattice, slice by slice and random; states are (operation, field, transformation) points, transitions transformations applied',
 technique='explicit enumeration of operation/transformation orders over the real code: both paths around each commuting square are executed and their links, reported numbers and files compared',
 note='link traces are printed by smearings and are not invariant, they are not compared; fields of centre elements are left out for smearings, whose projections are not unique there',
 assumptions=['the reference transformation is g(x) U_mu(x) g(x+mu)^dagger in the harness'])
