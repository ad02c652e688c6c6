PROP = 'C02'
CHECK = dict(
 harness=[dict(src='c02_geometry.c', cfgs=['nc3', 'nc5nd3', 'nc3nd3', 'nc2nd2'])],
 level='model_checking',
 rule='every lattice shape with extents 1..8 (thorough 1..9) and bounded volume; for each shape every site, direction, momentum label and colouring entry',
 technique='exhaustive enumeration of all lattice shapes and all sites of each, checking the real tables and colourings',
 note='Complete within the bounds: no shape, site, direction or label of the enumerated set is skipped. Shapes beyond the bound are not looked at; extents up to 9 cover every residue the colouring and momentum rules distinguish.',
 assumptions=['shapes up to the stated volume stand for larger ones'])
