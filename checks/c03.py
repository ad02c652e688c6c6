PROP = 'C03'
CHECK = dict(
 harness=[dict(src='c03_io.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc2nd2']), dict(src='c03_io.c', cfgs=['nc3'], flavour='asan')],
 level='model_checking',
 rule='every storage variant (format, precision, byte order, reduced rows) x every lattice shape with extents 1..4 up to a volume x field class x memory answer (fast/cheap strategy) x team size; all histories of two operations out of every write, read and failing read, and all of three of the written formats',
 technique='explicit-state enumeration of write/read histories of the real library, each file checked against an independent codec',
 note='All histories within the bound; each written file is decoded by an independent implementation of the format and each independently encoded file is read by the library, so a symmetric error in writer and reader is seen. NERSC reduced eight-parameter storage is compared with a tolerance that grows where that parameterisation is singular, and not at all on its singular links.',
 assumptions=['extents above 4 behave like those enumerated'])
