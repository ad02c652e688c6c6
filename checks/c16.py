PROP = 'C16'
CHECK = dict(
 harness=[dict(src='c16_lists.c', cfgs=['nc3', 'nc5nd3', 'nc3psq', 'nc2nd2']), dict(src='c16_lists.c', cfgs=['nc3store', 'nc5nd3store'])],
 level='model_checking',
 rule='Every cut type x every cut parameter of a table (14 momentum bounds, 4 cylinder widths, 6 cone angles) x ND-1 and ND directions x every lattice shape of the bounded family (extents 2..8 mixed) x momentum and separation lists. States: listed vectors, each compared with the definition of the cut written out independently; every vector of the lattice not listed is shown to fail it. With stored lists: every ordered pair of 64 lists in two numbers of directions and both kinds, used in turn (store A, store B, A, B, A); every byte at which the run that stores a list may have been stopped; no directory to store in; triplet counts stored on one shape and asked on another.',
 technique='explicit-state enumeration of lists against an independent definition; exhaustive crash points and histories of the on-disk list store',
 note='Vectors within rounding of a cut boundary may be on either side. A vector on the zone boundary has no mirror image inside the zone, so reflection is asked of lists without such vectors.',
 assumptions=['the lists are used on little-endian hosts with the same struct layout as they were stored (binary files)'])
