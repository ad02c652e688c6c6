#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
           observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Results do not depend on thread count or thread interleaving",
"Running any measurement, smearing, gauge-fixing, gauge-transformation or U(1) operation on a given configuration with any number of OpenMP threads, under any interleaving of those threads, terminates and gives the same gauge field, the same returned and printed observables and the same output files up to floating-point rounding (random updates are identical for a fixed seed and thread count under every interleaving). No two threads ever make conflicting unsynchronised accesses to shared data in a way that can change a result, and no interleaving deadlocks.",
["schedules","configurations"],"all team sizes in the bound (1 up to one thread per loop iteration), all interleavings of each parallel operation up to the preemption bound at conflicting accesses, all loop-chunk assignments modulo happens-before equivalence",
"The tests run with OMP_NUM_THREADS=1 and never execute two threads at once, and a test can only sample a few of the interleavings.",
["src/Field/plaqs_links.c","src/Field/clover.c","src/Smear/4D_fast.c","src/Smear/wflowfuncs.c","src/Gfix/CFACG.c","src/Gfix/FACG.c","src/Gfix/Or.c","src/Gfix/gftests.c","src/Update/hb.c","src/Update/relax.c","src/Cuts","src/U1","src/Utils/GLU_sums.c"],
[("worksharing loops, barriers, masters and locks around shared reduction arrays","src/Smear/*.c, src/Gfix/*.c, src/Field/*.c"),("draughtboard colouring so that simultaneously updated links share no staple","src/Geometry/draughtboard.c"),("per-thread random streams","src/Utils/par_rng.c")],
["return values of the observable functions","gauge field contents","files and standard output"])

p("C02","Lattice geometry and site colourings are consistent for every lattice shape",
"For every lattice shape, the site index, its coordinates and its momentum labels are mutually inverse bijections, the forward and backward neighbour tables are inverse permutations that move exactly one unit with periodic wrap in the stated direction, and shifts in opposite directions cancel. Every colouring used for parallel updates lists each site exactly once and never puts two coupled (nearest-neighbour) sites of a direction it is meant to separate into the same colour.",
["configurations","inputs"],"every lattice shape with extents in the bound, every site, every direction, every momentum vector in the Brillouin zone",
"The unit tests check a handful of sites on one fixed shape and never test the colourings, odd extents, or extents of one or two.",
["src/Geometry/geometry.c","src/Geometry/draughtboard.c","src/Geometry/init.c"],
[("lexicographic encode/decode with modular wrap","src/Geometry/geometry.c"),("two- and three-colour draughtboards","src/Geometry/draughtboard.c"),("neighbour table construction","src/Geometry/init.c")],
["neighbour and back indices of each site","colour lists","site-vector conversion functions"])

p("C03","Every file format round-trips a configuration exactly",
"Writing any gauge field in any of the supported storage formats (NERSC with and without reduced rows, HiRep, ILDG/SciDAC, MILC, CERN and their variants) and reading it back with the library returns the same lattice size, the same configuration number where the format stores it and the same links, to the precision of the format. The file's recorded checksum, plaquette and trace agree with the field, the bytes written do not depend on which of the memory-saving writing strategies is chosen, and repeated write/read histories within one process behave like the first.",
["inputs","configurations","histories"],"all storage formats x lattice shapes x field alphabets x memory-strategy answers x sequences of write/read operations in the bound, for every built NC/ND",
"No test touches any input or output code.",
["src/IO/writers.c","src/IO/readers.c","src/IO/HIREP.c","src/IO/CERN.c","src/IO/Scidac.c","src/IO/XML_info.c","src/IO/write_headers.c","src/IO/read_headers.c","src/IO/read_config.c","src/IO/chklat_stuff.c","src/IO/crc.c","src/Matrix_Ops/gramschmidt.c","src/Utils/GLU_bswap.c"],
[("layout conversion and row reconstruction","src/IO/readers.c, src/IO/writers.c"),("header emission and parsing","src/IO/write_headers.c, src/IO/read_headers.c"),("checksums","src/IO/crc.c, src/IO/readers.c")],
["bytes of the written file","field, dimensions and header data returned by reading"])

p("C04","Damaged configuration files are never accepted as good and never crash",
"Reading a configuration file that was cut short before the end of its header, payload or recorded check data reports failure, and so does reading one whose payload was altered so that the check data recorded in it no longer matches (for NERSC files every mismatch is reported and the file is refused when checksum, plaquette and trace all disagree; where a format stores two checksums the first is the one that counts); the file as it was written is accepted without complaint. A silently wrong field is never handed back, and whatever bytes the file holds, reading terminates with success or failure and makes no out-of-bounds or use-after-free access.",
["crash_points","fault_sequences"],"every truncation point and every single corrupted payload word (and every header byte) of a small file in each checksummed format",
"No test reads a file, and there are far too many truncation and corruption points to sample by hand.",
["src/IO/readers.c","src/IO/read_headers.c","src/IO/read_config.c","src/IO/chklat_stuff.c","src/IO/Scidac.c","src/IO/XML_info.c","src/IO/CERN.c","src/IO/HIREP.c","src/Wrappers/GLUlib_wrap.c"],
[("short-read checks","src/IO/readers.c"),("checksum, plaquette and trace verification","src/IO/readers.c, src/IO/read_config.c"),("header field validation","src/IO/read_headers.c, src/IO/chklat_stuff.c")],
["result of the top-level configuration reader","process exit"])

p("C05","Memory-saving code paths give the same answer as the fast ones",
"Where the library picks between implementations according to the memory that appears to be free (writing, reading, smearing, Wilson flow, gauge fixing), every choice gives the same result up to rounding. A configuration processed under any sequence of memory-availability answers is the one obtained with plentiful memory.",
["fault_sequences","configurations"],"every answer (plenty / intermediate / none) to every memory probe x smearing and flow types x directions x iteration counts x lattice shapes in the bound",
"Tests never run these drivers, and the environment of a test machine always gives the same answer to the probe.",
["src/Utils/GLU_memcheck.c","src/Smear/smear.c","src/Smear/4D_fast.c","src/Smear/wflow.c","src/Smear/wflowfuncs.c","src/IO/writers.c","src/IO/readers.c","src/Smear/HYP.c"],
[("free-memory probe","src/Utils/GLU_memcheck.c"),("sliding time-slice temporaries in the low-memory versions","src/Smear/4D_fast.c, src/Smear/wflowfuncs.c")],
["gauge field after the operation","bytes of written files"])

p("C06","Gauge-invariant observables do not change under gauge transformations",
"For every configuration and every local SU(N) gauge transformation applied to it by the library, the transformed links equal g(x)U(x,mu)g(x+mu)^dagger and every gauge-invariant observable (plaquettes, Polyakov loops and their correlators over the full time extent, field-strength averages, topological charge and its moments, slabs and correlators) is unchanged up to rounding. Smearing and Wilson flow commute with gauge transformations.",
["inputs","programs"],"every generator of the transformation alphabet at every site, and every composition up to the depth bound with smearing/flow operations, on all shapes in the bound",
"The tests check two averages on one random field and never transform a configuration.",
["src/Gfix/gtrans.c","src/Field/plaqs_links.c","src/Field/clover.c","src/Field/POLY.c","src/Field/Qsusc.c","src/Field/Qslab.c","src/Field/Qcorr.c","src/Field/Qmoments.c","src/Smear"],
[("gauge rotation of links","src/Gfix/gtrans.c"),("closed-loop construction of observables","src/Field/*.c"),("staple covariance","src/Smear/staples.c")],
["observable return values before and after transformation","links after transformation"])

p("C07","Every link stays a special-unitary matrix through every operation",
"Starting from links in SU(N), after any sequence of operations the library offers (reading, gauge transformation, gauge fixing, smearing with any projection, Wilson flow, heat-bath and overrelaxation sweeps, reunitarisation, instanton and random field creation) every link is unitary with unit determinant to numerical precision. No operation produces a non-finite entry from valid input.",
["programs","histories"],"all operation sequences up to the depth bound over the operation alphabet, from every field of the field alphabet, for every built NC/ND and shape in the bound",
"The tests never run these operations and could only sample sequences of them.",
["src/Matrix_Ops/gramschmidt.c","src/Matrix_Ops/gramschmidt_SSE.c","src/Smear/projectors.c","src/Matrix_Ops/effs.c","src/Matrix_Ops/expMat.c","src/Matrix_Ops/givens.c","src/Update","src/Gfix","src/Geometry/random_config.c","src/Geometry/BPST_config.c"],
[("projection/exponentiation back to the group","src/Smear/projectors.c, src/Matrix_Ops/*.c"),("periodic reunitarisation","src/Update/hb.c, src/Gfix/*.c")],
["every link after every step"])

p("C08","Gauge fixing reaches its accuracy or reports failure, and only transforms",
"When Landau, Coulomb or maximal-axial gauge fixing reports convergence, the gauge condition recomputed independently on the resulting field meets the requested accuracy (or the axial condition holds on the tree) and the gauge functional has not become worse than that of the starting field. Whether or not it converges, the returned field is a gauge transform of the input, and too small an iteration budget is reported as non-convergence instead of success.",
["inputs","configurations"],"every gauge type (Landau, Coulomb, with and without the residual fix, axial) x field alphabet x accuracy and iteration budgets x shapes in the bound, for each built NC/ND",
"No test runs gauge fixing.",
["src/Gfix/Landau.c","src/Gfix/Coulomb.c","src/Gfix/FACG.c","src/Gfix/CFACG.c","src/Gfix/CG.c","src/Gfix/Or.c","src/Gfix/MAG.c","src/Gfix/gftests.c","src/Gfix/line_search.c","src/Gfix/log_derivs.c","src/Gfix/lin_derivs.c","src/Wrappers/GF_wrap.c"],
[("convergence test on the squared divergence","src/Gfix/gftests.c, src/Gfix/log_derivs.c, src/Gfix/lin_derivs.c"),("line search and conjugate directions","src/Gfix/line_search.c, src/Gfix/CG.c"),("restart with a random transformation","src/Gfix/Landau.c, src/Gfix/Coulomb.c")],
["field after fixing","reported iterations and accuracy"])

p("C09","Monte-Carlo sweeps visit every link once with the correct conditional action",
"An overrelaxation sweep leaves the Wilson action unchanged, and heat-bath and overrelaxation sweeps update every link of the lattice exactly once, each from the current values of its neighbouring links, for every lattice shape the library accepts. A heat-bath update draws from the Wilson distribution at the given coupling: the action it produces moves to the correct limits at weak and strong coupling, and shapes the colouring cannot serve are refused rather than updated wrongly.",
["inputs","configurations","schedules"],"every lattice shape in the bound x field alphabet x sweep histories up to the depth bound x couplings in the alphabet",
"No test runs an update.",
["src/Update/hb.c","src/Update/relax.c","src/Update/KPHB.c","src/Update/SU2_rotate.c","src/Update/SU2_rotate_SSE.c","src/Geometry/draughtboard.c","src/Smear/staples.c"],
[("SU(2) subgroup decomposition","src/Update/SU2_rotate*.c, src/Geometry/init.c"),("colour-by-colour sweep","src/Update/hb.c, src/Update/relax.c"),("staple sum","src/Smear/staples.c")],
["links and action before and after each sweep"])

p("C10","A Monte-Carlo run resumed from a checkpoint equals the uninterrupted run",
"A heat-bath run that saves a configuration together with the generator state and is later continued from any saved checkpoint, possibly several times, produces the same later configurations, configuration numbers and measurements as the run that was never interrupted, for the same number of threads. Checkpoints appear at exactly the requested trajectory numbers and each is a complete readable configuration.",
["histories","crash_points"],"all partitions of a short run into segments (every checkpoint as an interruption point), thermalisation / save / measure periods and sweep mixes in the bound",
"No test runs a Markov chain; stopping and restarting it needs several processes and files.",
["src/Update/KPHB.c","src/Utils/par_rng.c","src/Utils/par_KISS.c","src/Utils/par_MWC_1038.c","src/Utils/par_MWC_4096.c","src/Utils/par_XOR_1024.c","src/Utils/par_WELL_512.c","src/IO/writers.c","src/Wrappers/GLUlib_wrap.c"],
[("save / continuation logic","src/Update/KPHB.c"),("generator state files","src/Utils/par_rng.c")],
["saved configuration files","saved generator state","printed measurements"])

p("C11","Random generators are reproducible, in range, restorable and independent",
"For every selectable generator, a given seed and thread count always gives the same per-thread streams, every uniform deviate lies in [0,1) and every integer deviate in its range, and different threads never share a stream. Saving the state at any point and restoring it later, into any other state, continues every thread's stream exactly.",
["histories","configurations"],"all histories of draw/save/restore operations up to the depth bound, every thread of every team size, every generator, seeds in the alphabet",
"No test runs a generator.",
["src/Utils/par_rng.c","src/Utils/par_KISS.c","src/Utils/par_MWC_1038.c","src/Utils/par_MWC_4096.c","src/Utils/par_XOR_1024.c","src/Utils/par_WELL_512.c"],
[("per-thread tables and seeds","src/Utils/par_*.c"),("state read/write","src/Utils/par_rng.c")],
["deviates returned to each thread","state file"])

p("C12","The input file and command line select exactly what the user asked for",
"For every well-formed input file, whatever the order of its options, the run uses exactly the values given for every option, each documented keyword selects its own mode, gauge, cut, smearing, header or storage type, and the example inputs the program prints are themselves accepted. A missing or out-of-domain required option makes the program report an error and stop instead of running with garbage.",
["inputs"],"every keyword of every option, every single omitted option, every malformed value in the alphabet, option permutations",
"No test parses an input file.",
["src/IO/input_reader.c","src/IO/input_help.c","src/Run/Mainfile.c"],
[("tag/value scan","src/IO/input_reader.c"),("keyword tables","src/IO/input_reader.c"),("usage and examples","src/IO/input_help.c, src/Run/Mainfile.c")],
["parsed settings","exit code and messages"])

p("C13","Smearing computes its defining formula on every link",
"Each smearing transformation (APE, stout and log; spatial or all directions; and their hypercubically blocked versions HYP, HEX and HYL) equals its textbook definition link by link: every new link is the projection of the weighted old link and the staple sum of the previous iteration's links only, repeated exactly the requested number of times with the requested parameters. Directions that are not to be smeared are left bitwise untouched and smearing commutes with lattice translations.",
["inputs","configurations"],"every smearing type x direction x parameter vector x iteration count x lattice shape x field in the bound, for every built NC/ND",
"No test runs smearing.",
["src/Smear/smear.c","src/Smear/4D_fast.c","src/Smear/HYP.c","src/Smear/ND_generic_HYP.c","src/Smear/staples.c","src/Smear/projectors.c","src/Wrappers/SM_wrap.c"],
[("staples","src/Smear/staples.c"),("projections","src/Smear/projectors.c"),("buffered in-place update by time-slice","src/Smear/smear.c, src/Smear/4D_fast.c")],
["links after smearing"])

p("C14","Wilson flow integrates the flow equation with correct time bookkeeping",
"Wilson flow (fixed-step and adaptive, stout and log) advances the field by the third-order Runge-Kutta discretisation of the flow equation, one update per step for exactly the reported flow time, never lets the Wilson action increase for a small enough step, and reports at each reported time the observables of the field at that time. The adaptive integrator keeps its error estimate within tolerance and its times strictly increase.",
["inputs","histories"],"every flow type x step size x number of steps x lattice shape x field in the bound, each step compared with a reference integrator",
"No test runs the flow.",
["src/Smear/wflow.c","src/Smear/wflowfuncs.c","src/Smear/adaptive_flow.c","src/Field/plaqs_links.c","src/Field/clover.c","src/Utils/GLU_splines.c","src/Wrappers/SM_wrap.c"],
[("three-stage update with the accumulated generator","src/Smear/wflowfuncs.c"),("measurement list and scale interpolation","src/Smear/wflow.c, src/Smear/adaptive_flow.c, src/Utils/GLU_splines.c")],
["field after flow","reported flow table"])

p("C15","Plaquettes and topological observables equal their definitions",
"The plaquette averages, average links, field-strength energy, topological charge density, its moments, sub-volume slab charges and two-point correlators written or returned by the library equal the values obtained by directly evaluating their definitions site by site, on every lattice shape. Sums over slabs, time slices or separations of these quantities reproduce the total charge and susceptibility they decompose.",
["inputs","configurations"],"every lattice shape x field alphabet x momentum-cut setting in the bound, for every built NC/ND, compared with brute-force evaluation",
"Tests check only plaquette and Polyakov averages on one shape.",
["src/Field/plaqs_links.c","src/Field/clover.c","src/Field/Qsusc.c","src/Field/Qcorr.c","src/Field/Qmoments.c","src/Field/Qslab.c","src/Field/balls.c"],
[("clover/plaquette field strength","src/Field/clover.c"),("FFT convolutions","src/Field/Qcorr.c"),("slab and moment accumulations","src/Field/Qslab.c, src/Field/Qmoments.c")],
["returned observables","numbers in the output files"])

p("C16","Momentum and separation lists contain exactly the vectors passing the cut",
"For every lattice shape and every cut (momentum-squared, hypercubic, cylinder, cylinder with cone, and configuration-space separation), the list used for output contains each vector that satisfies the cut's definition exactly once and no other vector, it is symmetric under reflection with zero at its centre (for momentum lists, vectors on the zone boundary, which have no mirror image, aside), and its stored site index addresses that vector's Fourier mode. A list reused from an earlier stored run equals a freshly computed one.",
["inputs","configurations","histories"],"every cut type x parameter value x lattice shape x dimension count in the bound; store-then-reuse histories",
"No test calls the cut code.",
["src/Cuts/cut_routines.c","src/Geometry/geometry.c","src/Cuts/triplet_gen.c"],
[("enumeration of the Brillouin zone and cut predicate","src/Cuts/cut_routines.c"),("cached list files","src/Cuts/cut_routines.c")],
["vector list and indices"])

p("C17","Gluon correlator output equals the direct Fourier-space definition",
"For every measurement mode that writes gluon two- and three-point functions (full, exceptional and non-exceptional vertices, instantaneous, smeared, configuration-space), the values in the output file equal those computed from the definition by a direct Fourier sum over the field, in the order of the momentum list stored in the same file. The output file is complete, self-describing and byte-order independent, and can be decoded from its own lengths.",
["inputs","configurations"],"every correlator mode x field definition (linear or logarithmic) x cut x lattice shape in the bound, compared with a naive Fourier transform",
"No test calls the measurement code.",
["src/Cuts/cuts.c","src/Cuts/3Dcuts.c","src/Cuts/glueprop.c","src/Cuts/MOMgg.c","src/Cuts/MOMggg.c","src/Cuts/config_gluons.c","src/Cuts/smearing_param.c","src/Cuts/pspace_landau.c","src/Cuts/cut_output.c","src/Wrappers/CUT_wrap.c"],
[("FFT of the fields and momentum phase","src/Cuts/cuts.c, src/Cuts/pspace_landau.c"),("transverse / longitudinal projections","src/Cuts/glueprop.c"),("binary output with byte-order normalisation","src/Cuts/cut_output.c")],
["decoded output file"])

p("C18","Quenched U(1) phases multiply SU(N) links consistently",
"Attaching a quenched U(1) field multiplies every SU(N) link by one phase exp(i e q theta), e=sqrt(4 pi alpha), for the requested coupling alpha and charge q, so that zero coupling or charge leaves the links unchanged. The angles theta depend on the seed and the lattice only; they are a Gaussian field with the Feynman-gauge lattice propagator without spatial zero modes on every lattice shape, odd or even. The U(1) plaquette, rectangle and (in four dimensions) topological measurements reported equal those evaluated directly from the angles.",
["inputs","configurations"],"every lattice shape x coupling x charge x measurement x seed in the bound",
"No test runs the U(1) code.",
["src/U1/SUNCxU1_config.c","src/U1/U1_obs.c","src/U1/U1_top.c"],
[("momentum-space Gaussian field and FFT","src/U1/SUNCxU1_config.c"),("U(1) loop measurement","src/U1/U1_obs.c, src/U1/U1_top.c")],
["links after multiplication","reported U(1) observables"])

p("C19","Matrix primitives equal their definitions for every matrix and build",
"The colour-matrix operations (products with any daggers, traces, determinant, inverse, reunitarisation, exponential, logarithm, traceless hermitian projection, Givens rotation trace maximisation) equal their mathematical definition for every valid argument including degenerate ones, and the vectorised and generic implementations and every NC agree. Operands documented as read-only are not modified, and the result does not depend on the prior contents of the output.",
["inputs","programs"],"every tuple of matrices from a finite alphabet (identity, centre elements, permutation, degenerate-eigenvalue, near-singular and generic matrices), for each build",
"The tests use one random matrix per operation, so degenerate and special values are not reached.",
["src/Matrix_Ops","src/Matrix_Ops/MMUL"],
[("unrolled NC=2,3 and generic code, SSE2 intrinsics","src/Matrix_Ops/*.c, src/Matrix_Ops/MMUL/*.c")],
["output matrices and scalars"])

p("C20","Polyakov loops and static-potential correlators equal their definitions",
"The Polyakov loop in every direction, and the static potential correlators the library writes for every time extent and every separation, equal the products and traces of links taken directly from the definition, averaged over all positions, on every lattice shape. Each output entry is labelled with its own separation and time.",
["inputs","configurations"],"every lattice shape x direction x time extent x maximum separation x field in the bound",
"Tests check the spatial average of the loop on one shape and never the correlators.",
["src/Field/POLY.c","src/Cuts/cut_output.c","src/Cuts/cut_routines.c","src/Cuts/gluearb.c"],
[("line products","src/Field/POLY.c"),("separation lists","src/Cuts/cut_routines.c"),("binary output","src/Cuts/cut_output.c")],
["loop values","decoded output file"])

p("C21","Each top-level run produces its documented result or a reported failure",
"Running the program with any mode on a valid configuration performs exactly that operation, writes the requested output file (and no other) holding the resulting field in the requested format, and the file can be read back to reproduce the observables the run printed. When reading the input or performing the operation fails, no output file is presented as a result and the failure is reported.",
["programs","histories"],"every mode x storage format x header type, and every two-run chain (output of one run is the input of the next) in the bound",
"No test runs the program itself.",
["src/Run/Mainfile.c","src/Wrappers/GLUlib_wrap.c","src/Wrappers/SM_wrap.c","src/Wrappers/GF_wrap.c","src/Wrappers/CUT_wrap.c","src/Wrappers/OBS_wrap.c"],
[("mode dispatch","src/Run/Mainfile.c, src/Wrappers/GLUlib_wrap.c")],
["files in the working directory","exit code and printed observables"])

p("C22","Running out of memory is reported, never a crash or a wrong result",
"If any single memory request made while reading, writing, smearing, flowing, gauge fixing or measuring fails, or the output file cannot be created, the library either finishes with the correct result or reports failure - by the status it returns, or by ending the run with a message and a non-zero exit status; it neither hangs, nor dereferences the missing buffer nor reports success with a wrong field.",
["fault_sequences"],"every single failing allocation (and file-creation) index of each operation's execution in the bound",
"Tests never inject allocation failures.",
["src/Utils/GLU_malloc.c","src/Smear","src/Gfix","src/Field","src/IO"],
[("checked aligned allocation","src/Utils/GLU_malloc.c")],
["return value, exit status, field and outputs after the injected fault"])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
