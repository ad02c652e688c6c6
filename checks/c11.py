PROP = 'C11'
CHECK = dict(
 harness=[dict(src='c11_rng.c', cfgs=['nc3', 'nc3kiss', 'nc3mwc1038', 'nc3xor', 'nc3well'])],
 level='model_checking',
 rule='For each of the five selectable generators (five builds). Histories: every sequence of the nine operations draw, draw on the last thread, save A, save B, restore A, restore B, free and reseed, free and start from A, initialise again, up to depth 4 (quick) or 5 (thorough), for 1, 2, 3 and 4 threads, each executed on the real generator and compared draw by draw with the streams of an undisturbed one. Streams: up to 6 seeds with up to 8 threads, every deviate in range, no three consecutive deviates shared by two streams, the same under four schedules of a team. Damage: every truncation of the state file and every header byte replaced by nine others. Team sizes: all 64 pairs of saving and restoring team sizes. Extremes: states of all-equal words with one odd word, for every word.',
 technique='exhaustive enumeration of operation histories up to a depth on the real generators, with crash-point enumeration of the state file',
 note='The oracle for a stream is the same generator run without interruption; in addition deviates must lie in [0,1), must not repeat and must have the first moments of their distribution.',
 assumptions=['the statistical quality of a generator beyond range, non-repetition and first moments is not judged', 'GSL_RNG is not offered by the parallel generator'])
