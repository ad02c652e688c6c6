PROP = 'C04'
CHECK = dict(
 harness=[dict(src='c04_damage.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3'], flavour='asan')],
 level='model_checking',
 rule='every storage variant x {every truncation length; every header and trailer byte x 14 (thorough 255) replacement values; every payload byte x bit flips; every payload word x non-finite and extreme values; all pairs of exchanged sites; every header line, record, tag and value removed, doubled, lengthened or replaced; every binary header field x extreme values; junk files} x fast and cheap reader',
 technique='exhaustive fault enumeration on the stored bytes, each damaged file read by the real readers under the address sanitizer and judged by an independent codec',
 note='Every single fault of the enumerated classes is tried on a file of every variant; combinations of several faults only where listed (pairs of extents, exchanged records). NERSC is judged by its documented rule (every mismatch reported, refused when all three disagree); LIME and JLQCD store nothing to check against, so only crashes and incomplete files count there.',
 assumptions=['small lattices (2 and 2^d sites) stand for larger ones'])
