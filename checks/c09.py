PROP = 'C09'
CHECK = dict(
 harness=[dict(src='c09_update.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3', 'nc2nd5', 'nc2nd2'])],
 level='model_checking',
 rule='Colouring: every lattice shape with extents from {1..8,10,13} up to a volume of 1200 (quick) or 6000; shapes with an extent of one must be refused by the driver. Sweeps: every shape with extents from {2,3,4,5,7} up to a volume of 108 or 256 x field kinds x team sizes 1-4 x four schedules x three histories of overrelaxation and heat bath at infinite beta (where it is deterministic). Driver: thermalisation 0-2 x first trajectory 0-2 x iterations 0-3 x overrelaxations 0-2 x measurement period 1-2. One SU(2) step: every tuple of the uniform deviates it consumes on a product grid of quadrature nodes (4 million tuples per coupling), nine couplings on both sides of the change of algorithm and a vanishing staple. Chains: five couplings x hot and cold start x 1 and 3 threads.',
 technique='exhaustive enumeration of shapes, schedules and sweep histories of the real code against a serial model of the sweeps; exhaustive enumeration of the deviates consumed by one heat-bath step (fed through a link-time seam) against the exact moments of the Wilson weight; Schwinger-Dyson identities and weak/strong coupling limits on deterministic chains',
 note='A sweep may run directions or colours in the outer loop: the model tries both. The grid is repeated over exactly those deviates the step is found to depend on, so their order does not matter. The refusal of extents of one is a repaired defect.',
 assumptions=['for NC>2 the distribution is checked through Schwinger-Dyson equations and limits (to 3-5 per cent), exactly only for NC=2', 'the improved action (IMPROVED_SMEARING) is not built', 'fields whose staples vanish have no defined reflection and are left out of the sweeps'])
