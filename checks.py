"""Registry: which harnesses decide which property."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
CHECKS = {}
NA = {}


def C(pid, harnesses, level, rule, note, technique, assumptions=(), **kw):
    hs = [dict(src=h) if isinstance(h, str) else h for h in harnesses]
    CHECKS[pid] = dict(harnesses=hs, level=level, rule=rule, note=note, technique=technique, assumptions=list(assumptions), **kw)


EXP = "model_checking"
C("P26", ["h_strings.cpp"], EXP, "distinct = distinct (helper, input or expected result) pairs",
  "all strings up to length 6-7 over 5-8 letter alphabets; all formatted lengths 0-2200", "exhaustive bounded enumeration of inputs on the real code vs reference")
C("P01", ["h_config.cpp"], EXP, "distinct = distinct reference parse results / decorated documents",
  "all line sequences (30-line alphabet, depth 3 after 6 prefixes; 9-line alphabet depth 6), all single and pairwise decorations", "exhaustive bounded enumeration of documents on the real parser vs reference parser")
C("P04", ["h_sections.cpp"], EXP, "distinct = distinct (extension, section) readings / decoded regions",
  "all sections of a 6x5 + 5x6 two-extension image through CFITSIO; all bracket strings to length 7", "exhaustive bounded enumeration of inputs on the real code vs CFITSIO/reference grammar")
C("P03", ["h_cline.cpp"], EXP, "distinct = distinct reference parse results",
  "all argument vectors to length 4 over a 30-word alphabet, strict and lenient; long lines; all declaration styles", "exhaustive bounded enumeration of argument vectors on the real parser vs reference parser")
C("P10", ["h_conv.cpp"], EXP, "distinct = distinct (image shape, PSF shape, PSF content, normalisation) cases",
  "all image shapes to 5x5 (7x7) x all PSF shapes to 6x6 (9x9) x every impulse position (the operator is linear) x normalisation x repeated use; all interleavings of two convolvers to depth 5 (7)", "exhaustive bounded enumeration of inputs and call histories on the real code vs direct sum")
C("P11", ["h_regions.cpp"], EXP, "distinct = distinct geometries",
  "all region rectangles of small images (also sticking out) x scales x PSF shapes x components; all pairs of rectangles; all small downsampling geometries", "exhaustive bounded enumeration of configurations on the real code vs reference model image")
C("P12", ["h_psrc.cpp"], EXP, "distinct = distinct (PSF, interpolator, position, method) cases",
  "all PSF shapes of a list x every single-pixel PSF x all positions of a sub-pixel grid x 3 interpolators; PointSource/PointSourceRot in model images; all method mixtures of 2-4 sources; all PSF sizes 0-5 refused or accepted", "exhaustive bounded enumeration of inputs on the real code vs reference interpolation")
C("P07", ["h_model.cpp"], EXP, "distinct = distinct (component list, set partition, image shape, PSF) models",
  "all component lists to length 3 (4) over 5 kinds x all set partitions x shapes x PSFs; all image x PSF shapes to 6x6 (9x9); lists to 24 (80) functions; pairs (triples) of real functions", "exhaustive bounded enumeration of models on the real code vs reference model image")
C("P05", [dict(src="h_stat.cpp", cflags=["-DP05"], tag="p05")], EXP, "distinct = distinct assignments of data, error and mask values to an image",
  "all assignments of 3-14 pixel states to images of 3-4 pixels x mask conventions x statistics x PSF; all substitutions of values under the mask, with and without bootstrap", "exhaustive bounded enumeration of inputs on the real code vs definitions")
C("P06", [dict(src="h_stat.cpp", cflags=["-DP06"], tag="p06")], EXP, "distinct = distinct (statistic, detector, data, model, error) cases",
  "all one- and two-pixel combinations of 8 data x 8 model x 5 error values x 7 statistics x 7 detectors; small images x PSF x masks x both set-up paths", "exhaustive bounded enumeration of inputs on the real code vs definitions")
C("P08", ["h_history.cpp"], EXP, "distinct = distinct call histories",
  "all call sequences of length 4 (5) over 15 operations on 6 model configurations; sequences over 16 real image functions; all interleavings of 3 calls on two objects", "exhaustive bounded enumeration of call histories on the real object vs the same call on a fresh object")
C("P15", [dict(src="h_seed.cpp", mains=["imfit_main", "mcmc_main"])], EXP,
  "distinct = distinct (seed, deviate type) / (history of computations, target computation, seed, model reused or not) / (seed, sampling) / (program history, program) cases",
  "generator streams for 300 (3000) consecutive seeds and all powers of two +-1, 1500 (20000) draws each, long runs that reach the raw numbers 0 and 2^32-1; reseeding after every number of draws 0..1399 (2599); all histories of up to 2 of 16 computations x 7 targets x 2 (3) seeds x same/new model; program histories of 1 (2)", "exhaustive bounded enumeration of computation histories and seeds on the real code vs fresh-process results and the published generator")
C("P16", ["h_mcmc.cpp"], EXP,
  "distinct = distinct contents of all chain files of a run",
  "all deviations of up to 2 random numbers (extreme values, other pairs, other orders) from a fixed sequence over runs of 5 (to 7) generations x 2-4 chains x 6 likelihood surfaces x fixed-parameter masks x burn-in; all fixed masks x 2-7 chains x 6 surfaces x 8 option settings x seeds with the program's generator, up to 60 generations", "exhaustive bounded enumeration of random draws and configurations on the real sampler with every likelihood call recorded")
C("P17", ["h_restart.cpp"], EXP,
  "distinct = distinct contents of the chain files a restart is made from (with the settings of the restart)",
  "5 configurations x every byte written by a run as crash point, then two restarts; 6 (60) first crashes x every byte written by the restart, then two more; every truncation of a chain file x generation skews; 13 kinds of foreign content x line x file; all histories of 3 (4) continued runs over 6 settings", "exhaustive enumeration of crash points and restart histories on the real code (crash injection at the system-call level)")
C("P21", [dict(src="h_boot.cpp", wrap=["_Z13genrand_real2v", "_Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults", "_Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults"])], EXP,
  "distinct = distinct (mask, draw sequence) / (configuration, outcome pattern of the fits) cases",
  "all draw sequences for images of 3-4 pixels and all masks; all success/failure/value patterns of up to 4 (5) iterations x single/multi-image x statistic x offsets x fixed parameters x API; run lengths to 40 (120)", "exhaustive bounded enumeration of random draws and fit outcomes on the real code (controlled random numbers and solvers) vs definitions")
C("P23", [dict(src="h_flux.cpp", mains=["makeimage_main"])], EXP,
  "distinct = distinct (component list, set partition, grid, preceding call) / (function, parameters) / (configuration, options) cases",
  "all component lists to length 3 (4) over 5 kinds x all set partitions x 4 grids x preceding calls; analytic fluxes of all functions that have one on a parameter grid; all tables printed and saved by makeimage for lists to length 3 (4)", "exhaustive bounded enumeration of models and call histories on the real code vs definitions")
C("P22", ["h_funcs.cpp"], EXP, "distinct = distinct (function, parameter set, settings) cases",
  "all 26 extended functions: cartesian products of per-parameter alphabets x a position lattice (x subsampling); all image-description settings of an alphabet; all call histories of length 4 (5)", "exhaustive bounded enumeration of parameters, positions and call histories on the real code vs the documented formulae")
C("P24", ["h_addf.cpp"], EXP, "distinct = distinct (function list, set partition, settings) / refused name cases",
  "all lists of 1-2 (3) of the 28 functions x set partitions x subsampling; 14 variations of every name or its optional parameters at every position of a list; all listings", "exhaustive bounded enumeration of function lists on the real code vs functions created directly from their classes")
C("P09", [dict(src="h_threads.cpp", flavor="omp", cflags=["-fno-sanitize=thread", "-O2"], wrap=["gsl_spline2d_eval"])], EXP, "distinct = distinct (model, shape, chunk, team size, operation) cases; every schedule of the controlled OpenMP runtime is an execution",
  "all image shapes to 5x4 (7x6) x chunk sizes x teams of 2-3 (4) x all orders in which the threads run; all 28 functions, point sources and oversampled regions; every load and store of the real code is recorded, and all switches (up to 2 preemptions) at conflicting accesses are explored", "stateless exploration of thread schedules of the real OpenMP code under a controlled runtime, with instrumented accesses")
C("P02", ["h_save.cpp"], EXP, "distinct = distinct (model, parameters, offsets, form) cases",
  "all lists of 1-2 (3) of 6 representative functions x set partitions x optional parameters x labels x offsets x value patterns x 4 written forms, each read back by both readers; column forms; summaries for all statistics x solvers x statuses", "exhaustive bounded enumeration of models on the real writers and readers: round trip and definitions")
C("P20", ["h_imginfo.cpp"], EXP, "distinct = distinct line sequences / files",
  "all sequences of image-info lines from an alphabet to length 3 (4); all keyword x value forms; pairs of image sections; local function sections with every malformed line at every position", "exhaustive bounded enumeration of line sequences on the real parser vs a reference parser")
_RNG = ["_Z13genrand_real1v", "_Z13genrand_real2v"]
C("P19", ["h_multi.cpp"], EXP, "distinct = distinct (number of images, global sets, per-image sets, image parameters, offsets, statistic) worlds",
  "all combinations of up to 3 (4) images x 6 global set structures x 5 local set structures per image x image parameters x statistics x mask; all image offsets x limits; all functions x image parameters", "exhaustive bounded enumeration of multi-image models on the real code vs single-image models with independently transformed parameters")
C("P13", [dict(src="h_solvers.cpp", wrap=_RNG)], EXP, "distinct = distinct (solver, problem, start, limits, fixed flags, seed) cases",
  "all solvers x problems x start positions x limit kinds x fixed masks; all tolerances of an alphabet; repeated fits; every extreme random draw at every index of a differential-evolution run", "exhaustive bounded enumeration of fitting problems (and of the solver's random draws) on the real solvers, every model evaluation monitored")
_SIG = ["fftw_execute", "_Z9LevMarFitiiiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdbiP13SolverResults", "_Z12NMSimplexFitiPdSt6vectorI13mp_par_structSaIS1_EEP11ModelObjectdiP13SolverResults"]
C("P14", [dict(src="h_solvers.cpp", wrap=_RNG, cflags=["-DP14"], tag="p14"), dict(src="h_sigint.cpp", wrap=_SIG, mains=["imfit_main"], tag="sig1"), dict(src="h_sigint.cpp", wrap=_SIG, mains=["multimfit_main"], cflags=["-DMULTI"], tag="sig2")], EXP, "distinct = distinct (solver, problem, fault, index) cases",
  "interrupt or non-finite value at every evaluation index (one, all from there on, pairs) of every solver and problem; SIGINT at every transform of 12 imfit and 7 multimfit runs", "exhaustive fault injection: every evaluation index of every solver run")
C("P18", ["h_fits.cpp"], EXP, "distinct = distinct (image, operation, fault) cases",
  "all image shapes x value patterns; all pixel types and scalings; files cut at every boundary; every byte of the header garbled; every I/O call of a save or load made to fail", "exhaustive fault injection at the C library's I/O calls, and exhaustive bounded enumeration of files, vs an independent FITS reader/writer")
C("P25", [dict(src="h_progs.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main"])], EXP, "distinct = distinct (program, set of deviations from a good command line) cases",
  "imfit, imfit-mcmc and makeimage x every single and every pair (triple) of deviations: configuration file, its header, data/mask/noise/PSF/oversampled-PSF/reference images, every numerical option, solver, statistic, outputs, command-line form", "exhaustive bounded enumeration of (combinations of) defective and good inputs on the real programs")
C("P27", [dict(src="h_options.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main"])], EXP, "distinct = distinct option combinations",
  "imfit: data image/section x masks x 7 error models and statistics x PSF x oversampled PSF x subsampling x origin of image characteristics; fits with LM/NM/DE (BOBYQA) and bootstrap; imfit-mcmc chains; makeimage: sizes x PSF x oversampling x outputs", "exhaustive bounded enumeration of option combinations on the real programs vs a model and statistics set up by hand")
C("P28", [dict(src="h_mprogs.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main", "multimfit_main", "makemultimages_main"])], EXP, "distinct = distinct sets of image descriptions",
  "1-2 (3) images x 14 descriptions each (masks, error maps, PSF, oversampled PSFs, section, detector values, own components) x image parameters x statistic: multimfit's printed statistic and its fits, makemultimages' images", "exhaustive bounded enumeration of image descriptions on the real programs vs single-image models and statistics set up by hand")
C("P29", [dict(src="h_conv1d.cpp", mains=["profile_fitting/psfconvolve1d_main"], repo_src=["profile_fitting/convolver1d.cpp", "profile_fitting/read_profile.cpp"])], EXP, "distinct = distinct (profile, kernel, table form) cases",
  "all lengths of profile to 7 (11) and kernel to 8 (12) x every impulse pair and dense ones x previous profiles; whole runs x table forms x options; every decoration of the tables at every row x line lengths; every defect at every row; row ranges x columns", "exhaustive bounded enumeration of profiles, kernels and tables on the real program vs the definition of the convolution")
C("P30", [dict(src="h_outputs.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main", "multimfit_main", "makemultimages_main"])], EXP, "distinct = distinct (program run, fault) cases",
  "10 runs of the 5 programs x every output refused (missing directory, directory of that name) x every file cut after L bytes and x the one write crossing byte L failing, L around every block boundary and file size and every 331 (13) bytes", "exhaustive fault injection: every cut of every output file of the programs, run from main()")
C("P31", [dict(src="h_python.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main"], cflags=['-DPYSERVER="%s/lib/pyserver.py"' % vbuild.VERIF, '-DPYREPO="%s"' % vbuild.REPO])], EXP, "distinct = distinct (file, question) cases",
  "bootstrap files: parameters x iterations x lines before x forms; up to 4 (6) chains x generations x lines before x every selection of generations, chains and columns; all pairs (triples) of the 9 functions x file forms x scales; files written by the programs", "exhaustive bounded enumeration of files and questions on the real modules vs the files' contents and the programs' own functions")
C("P32", [dict(src="h_info.cpp", mains=["imfit_main", "mcmc_main", "makeimage_main", "multimfit_main", "makemultimages_main"])], EXP, "distinct = distinct (program, name or option, form) cases",
  "5 programs x every listed function x every line of its parameter list dropped or doubled; every name and every option at one edit (deletion, doubling, case, transposition) from an announced one; every announced option in every form; sample files x programs", "exhaustive bounded enumeration of announcements and of their neighbourhoods on the real programs")
