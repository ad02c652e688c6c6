PROP = 'C12'
CHECK = dict(
 harness=[dict(src='c12_input.c', cfgs=['nc3', 'nc5nd3', 'nc2nd5', 'nc4'], cli='fast'), dict(src='c12_input.c', cfgs=['nc3'], flavour='asan', cli='asan')],
 level='model_checking',
 rule='States: input files, as an assignment of a value to each of the ~40 options and an order of the lines. Enumerated: every value of every option, every pair and every triple of values of different options (thorough: on top of three assignments of the others); every option moved to every line, both directions, every exchange of two options, every rotation and stride permutation, for three assignments that differ in every option; 75 white-space layouts and an unknown line at every place; every option and pair of options missing under every header; every numeric option with every malformed number; unknown, shortened, extended and lower-case words for every keyword option; every prefix of a file; words of 30..500 letters and files of up to 500 extra lines; every example and every keyword printed by the help. Each file is read by get_input_data and the resulting settings compared with an independent table. The program itself is run with every number of arguments, without every option, and with zeros. Repeated under the address sanitizer.',
 technique='exhaustive enumeration of input files up to a bounded distance from complete ones, against an independent model of the reader',
 note='The documented keywords are taken from the help the program prints, so help and reader are checked against each other. Words the help describes as "all else" may be refused or do what the help says.',
 assumptions=['an option given twice is outside the documented input format', 'the configuration number may be left out (it has a default of 0)'])
