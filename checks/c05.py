PROP = 'C05'
CHECK = dict(
 harness=[dict(src='c05_memory.c', cfgs=['nc3', 'nc4'], cfgs_thorough=['nc3', 'nc2', 'nc4', 'nc5nd3'])],
 level='model_checking',
 rule='every operation of the table x a fine grid of answers to the memory probe (below, between and above every threshold) on several lattice shapes, and all histories of two operations (thorough: three) out of the memory-dependent ones x all combinations of plentiful / intermediate / tiny answers, in one process; states are executions with one answer vector, transitions probes answered or operations performed',
 technique='explicit-state enumeration of the environment (answers of the memory probe) over the real code, each outcome (status, links, printed numbers, file bytes) compared with the one under plentiful memory',
 note='an operation may refuse to run with little memory, but then must report it and leave the links alone',
 assumptions=['the probe is sysconf(_SC_PHYS_PAGES/_SC_AVPHYS_PAGES)*page size'])
