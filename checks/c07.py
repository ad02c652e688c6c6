PROP = 'C07'
CHECK = dict(
 harness=[dict(src='c07_unitary.c', cfgs=['nc3', 'nc2', 'nc4', 'nc5nd3', 'nc3nd3'])],
 level='model_checking',
 rule='all sequences of field-changing operations up to depth 2 (thorough: 3 from a generic field) from every kind of gauge field, on several lattice shapes, plus reunitarisation of every kind of field under noise from 0.3 down to rounding; states are the gauge fields reached, transitions operations applied',
 technique='explicit-state exploration of operation sequences on the real code; in every state reached each link is checked for unitarity, unit determinant and finiteness by independent code, and every reported number for finiteness',
 note='U(1) operations are left out (they multiply by a phase by design, see C18); fields of centre elements are not smeared (projection not unique)',
 assumptions=['departures below 1e-9 are numerical precision'])
