PROP = 'C15'
CHECK = dict(
 harness=[dict(src='c15_topology.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3', 'nc2nd5'])],
 level='model_checking',
 rule='every lattice shape up to the volume bound plus one long extent per direction x kinds of gauge field (cold, centre, constant centre, diagonal, weak, medium, hot) x thread counts x measurement mode (plaquettes and links, charge density, slab susceptibility, correlator, moments) x number of measurements x smearing between them x separation cut; states are links of the fields measured',
 technique='exhaustive enumeration of measurements of the real code within the bounds; every returned, printed and written number recomputed from the definition by brute force over the sites with independent matrix arithmetic, output files decoded from their own lengths, sum rules (slices of the correlator add up to the squared charge) checked',
 note='with three dimensions the topological charge is identically zero; the moments of an even extent leave out the antipodal slice, as the code documents',
 assumptions=['the smearing between measurements is the one decided by C13'])
