PROP = 'C22'
CHECK = dict(
 harness=[dict(src='c22_oom.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3'])],
 level='model_checking',
 rule='every operation of the library (smearings, flows, gauge fixings, gauge transformations, random fields, updates, U(1), measurements, momentum cuts in all eleven modes, reading and writing of configurations) x plenty and scarce memory: the operation is first run to count the memory requests and created files, then run once per request with exactly that request refused and once per file with that file refused. Quick: of requests made from one call chain the first two and the last are refused; thorough: every request (unless an operation makes more than 5000), with one and two threads.',
 technique='exhaustive fault enumeration on the real code: every allocation and file creation is intercepted at link time; each refusal is an execution of its own in a process of its own; it must return the result of the unrefused execution, or a failure status, or end the run with a non-zero exit status - never crash, hang, deadlock, or return success with another result',
 note='One fault per execution. Memory requests inside GSL and the C library are not refused (those of FFTW buffers made by the library are).',
 assumptions=['refused requests return NULL (or ENOMEM) and have no other effect', 'single faults'])
