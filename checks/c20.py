PROP = 'C20'
CHECK = dict(
 harness=[dict(src='c20_poly.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc2nd5'])],
 level='model_checking',
 rule='every lattice shape up to the volume bound plus one long extent per direction x kinds of gauge field x thread counts; Polyakov loops in every direction; static potential for every maximum time from one to beyond the extent x separation cut (radial, cubic) x maximum separation x smearing; states are links of the fields measured',
 technique='exhaustive enumeration of measurements of the real code within the bounds; every returned, printed and written number recomputed as products and traces of links with independent matrix arithmetic; the output file decoded from its own lengths, the separations in it compared with those that satisfy the cut',
 note='builds with and without FFTW are compared with the same definition',
 assumptions=['the smearing before the measurement is the one decided by C13'])
