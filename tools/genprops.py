#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=state, meaning="state the property speaks about", where=", ".join(files))]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("P01", "A configuration file is read as exactly the model it describes",
 "For every configuration file, ReadConfigFile either accepts it and returns exactly the function names, labels, function-set starts, parameter values, limits, fixed flags, option lines and per-function optional parameters written there, in order, or (missing X0/Y0, no FUNCTION, non-numeric or incomplete line, bad limits) returns an error; it never crashes. Comments, blank lines, indentation and spacing never change what is read, even when a comment contains a keyword.",
 ["inputs"], "All line sequences up to a depth over an alphabet of valid, decorated and malformed lines (both the makeimage and the imfit/mcmc reader, 1D and 2D mode), and all decorations of valid files.",
 "Tests read a few dozen fixed files; interactions between line kinds, comments and malformed lines are combinatorial.",
 ["core/config_file_parser.cpp", "core/utilities.cpp"],
 [("ReadConfigFile / VetConfigFile / ParseFunctionSection", "core/config_file_parser.cpp"), ("TrimWhitespace, SplitString, ChopComment", "core/utilities.cpp")],
 "return value and output vectors of both ReadConfigFile overloads")
prop("P02", "A saved best-fit file is the fitted model, in original-image coordinates",
 "The parameter file written after a fit, read back as a configuration file, yields the same function list, labels, function sets and optional parameters, and every parameter value to the printed precision, with X0/Y0 (and their limits, if printed) shifted by the image-section offset of their function set and nothing else shifted. The one-line forms (header line and value line used for bootstrap and MCMC output) have one column per parameter in the same order, with unique names and the same offsets. The statistic, reduced value, AIC and BIC saved and printed with the model follow from the fit statistic, the valid pixels and the free parameters; the way the solver ended is reported with its status, as a success only if it converged, as an error only if it failed, and with the reason.",
 ["inputs", "configurations"], "All function-set structures up to a bound x parameter values x limits x offsets x fixed flags x optional parameters x with/without parameter errors.",
 "Tests compare strings for one or two models with zero offsets.",
 ["core/print_results.cpp", "core/model_object.cpp", "core/config_file_parser.cpp", "core/setup_model_object.cpp"],
 [("SaveParameters / PrintModelParamsToStrings / GetParamHeader / PrintModelParamsHorizontalString", "core/model_object.cpp, core/print_results.cpp"), ("ReadConfigFile", "core/config_file_parser.cpp")],
 "file written by SaveParameters, strings returned by ModelObject")
prop("P03", "Command lines are parsed exactly as declared",
 "For any set of declared flags, options and queued options and any argument vector, the command-line parser stores each flag, option value and plain argument exactly as given (both --opt value and --opt=value spellings, short and long names being synonyms), and rejects undeclared options and options without a value. No argument is silently dropped, truncated or attributed to another option, and no input crashes it.",
 ["inputs"], "All argument vectors up to a length over an alphabet of flags, options, synonyms, '=' forms, values, negative-looking values and unknown options.",
 "Unit tests try a handful of argument vectors.",
 ["core/commandline_parser.cpp"], [("CLineParser::ParseCommandLine / OptionObject", "core/commandline_parser.cpp")],
 "FlagSet, OptionSet, GetTargetString, nArguments, GetArgument, return value")
prop("P04", "Image sections give exactly the pixel offset CFITSIO reads with",
 "For every image specification that CFITSIO can open (whole image, [x1:x2,y1:y2], either range '*', optional spaces, preceded or not by an extension-number bracket), DetermineImageOffset returns the offset of the pixels actually read, so that data pixel (1,1) plus offset is the pixel's position in the full image. Region strings x1:x2,y1:y2 for oversampled PSFs are decoded to the same four numbers, and malformed specifications are reported (error value), never crash.",
 ["inputs"], "All bracket strings over a small alphabet up to a length, and all sections of small images read through the real CFITSIO.",
 "Tests check a dozen strings and never compare with the pixels read.",
 ["core/utilities.cpp", "core/image_io.cpp", "core/psf_oversampling_info.cpp"],
 [("DetermineImageOffset, GetPixelStartCoords, GetAllCoordsFromBracket", "core/utilities.cpp"), ("ReadImageAsVector / GetImageSize", "core/image_io.cpp")],
 "returned offsets versus pixel values read from a coordinate-coded FITS image")
prop("P05", "Masked pixels never influence any result",
 "For every data image, mask (either convention), error or noise map and statistic, the value and finiteness of masked data and error pixels, and the (finite) model value there, never change the fit statistic, the deviates, the number of valid pixels or the bootstrap samples; non-finite data pixels are treated as masked. Unmasked pixels are all counted exactly once.",
 ["inputs", "configurations"], "All assignments of {ordinary, zero, negative, huge, NaN, inf} to the data, error and mask of small images x mask formats x error types x fit statistics x PSF/no PSF.",
 "Tests use one mask on one small image.",
 ["core/model_object.cpp", "core/setup_model_object.cpp"],
 [("ApplyMask, AddMaskVector, FinalSetupForFitting, VetDataVector, CheckWeightVector, CheckParamVector", "core/model_object.cpp")],
 "GetFitStatistic, ComputeDeviates, GetNValidPixels, UseBootstrap/MakeBootstrapSample")
prop("P06", "The fit statistic is exactly the documented chi^2, Cash or PMLR sum",
 "For every data, model, weight, gain, sky, read-noise and N_combined combination, GetFitStatistic equals the documented definition summed over the unmasked pixels (data errors, model errors, user errors as sigmas/variances/weights, Cash, Poisson-MLR), the squares of ComputeDeviates sum to it for chi^2 and (where data are not negative and the model is positive) PMLR, non-positive model values being replaced in the Cash and PMLR logarithms as documented, and errors/weights images correspond to it. Re-evaluating at the same parameters returns the same value whatever was evaluated before.",
 ["inputs", "configurations", "histories"], "All combinations of statistic x error source x detector parameters x pixel-value alphabet on small images x PSF size, and operation sequences between evaluations.",
 "Tests fix one image per statistic.",
 ["core/model_object.cpp", "core/setup_model_object.cpp"],
 [("GenerateErrorVector, UpdateWeightVector, ChiSquared, CashStatistic, PoissonMLRStatistic, ComputeDeviates", "core/model_object.cpp")],
 "GetFitStatistic, ComputeDeviates, GetWeightImageVector")
prop("P07", "A model image is the sum of its components, PSF applied where it belongs",
 "For every list of functions, function sets and parameters, the model image equals the sum of the images of the individual functions computed separately with their own set's centre, with every non-point-source component convolved once with the (normalised) PSF and every PointSource function drawn from the PSF instead (never convolved). Components, function sets and parameter blocks are never mixed up, and pixel (x,y) is always at column x, row y of the output.",
 ["inputs", "configurations"], "All function lists up to a length over representative functions x set partitions x image shapes (incl. non-square, 1xN) x PSF shapes x asymmetric centres.",
 "Tests cover few models, mostly square images and symmetric PSFs.",
 ["core/model_object.cpp", "core/add_functions.cpp", "core/convolver.cpp", "function_objects/func_pointsource.cpp"],
 [("CreateModelImage, GetSingleFunctionImage, DefineFunctionSets, AddFunction, AddPSFVector", "core/model_object.cpp")],
 "GetModelImageVector, GetSingleFunctionImage")
prop("P08", "ModelObject results depend only on inputs, not on the call history",
 "Whatever sequence of model-image, single-function, flux, fit-statistic, deviate, weight-image and bootstrap calls with whatever parameters came before, each call on a ModelObject returns the same result as on a freshly set-up object. Inputs handed to it by the caller (data, mask, errors, PSF, parameters) are not observably corrupted for later calls.",
 ["histories"], "All call sequences up to a depth over the public operations x parameter vectors, for models with and without PSF, oversampled regions and point sources.",
 "Tests call each method once or twice per object.",
 ["core/model_object.cpp", "core/oversampled_region.cpp", "function_objects/func_pointsource.cpp"],
 [("CreateModelImage state flags, weight/deviate vectors, oversampling scale of PointSource", "core/model_object.cpp")],
 "all public result-returning methods of ModelObject", state="modelVector, weightVector, deviatesVector, bootstrapIndices, per-function cached setup, PSF interpolator/oversampling scale")
prop("P09", "Results do not depend on the number of threads or their schedule",
 "For every thread count, chunking and interleaving of the parallel pixel loops, model images, single-function images, oversampled regions and total fluxes are the same (images bit-identical) as in the single-threaded program, and no pixel is skipped, computed twice or written by two threads.",
 ["schedules", "configurations"], "All team sizes up to a bound x all orders in which the team's threads run, and all switches at pixel-evaluation granularity up to a preemption bound, for image shapes incl. 1xN and sizes not divisible by the chunk.",
 "Tests run under one arbitrary schedule of the real OpenMP runtime.",
 ["core/model_object.cpp", "core/oversampled_region.cpp", "function_objects/"],
 [("#pragma omp parallel loops of CreateModelImage, GetSingleFunctionImage, FindTotalFluxes, ComputeRegionAndDownsample", "core/model_object.cpp, core/oversampled_region.cpp")],
 "images and fluxes under a controlled OpenMP runtime", state="shared model vectors; function objects shared by all threads")
prop("P10", "PSF convolution equals the direct convolution sum",
 "For every image size and PSF size (odd or even, square or not, PSF smaller or larger than the image) the convolved image equals the direct 2D convolution, centred on the PSF image's central pixel, with the zero-padded image, using the PSF divided by its sum unless normalisation was switched off. Total flux far from the edges is conserved, and convolving repeatedly with one Convolver gives the same result as with a fresh one.",
 ["inputs", "histories"], "All image shapes and PSF shapes up to a bound with impulse and asymmetric contents, x normalisation x repeated use.",
 "Tests convolve one or two fixed-size images.",
 ["core/convolver.cpp", "core/model_object.cpp"], [("Convolver::SetupPSF/SetupImage/DoFullSetup/ConvolveImage", "core/convolver.cpp")],
 "pixel array after Convolver::ConvolveImage; model images with PSF")
prop("P11", "Oversampled PSF regions replace exactly their pixels with block averages",
 "For every image shape, list of region rectangles, oversampling scale and oversampled-PSF shape, the pixels inside each region equal the average over scale x scale sub-pixels of the sub-sampled, PSF-convolved model evaluated at the correct sub-pixel positions, and every other pixel equals the model computed without oversampling.",
 ["inputs", "configurations"], "All region positions/shapes (non-square, touching edges, single pixel, two regions) x scales x PSF shapes x image shapes up to a bound, x downsampling of all small array shapes.",
 "Tests use one square region and a square PSF.",
 ["core/oversampled_region.cpp", "core/downsample.cpp", "core/model_object.cpp", "core/psf_oversampling_info.cpp"],
 [("OversampledRegion::SetupModelImage/ComputeRegionAndDownsample, DownsampleAndReplace, ModelObject::AddOversampledPSFInfo", "core/oversampled_region.cpp, core/downsample.cpp, core/model_object.cpp")],
 "GetModelImageVector with oversampled regions; DownsampleAndReplace output")
prop("P12", "A PointSource draws the PSF itself, centred and scaled as asked",
 "For every PSF image shape and content, interpolator kind (bicubic, Lanczos2, Lanczos3), sub-pixel position and oversampling scale, a PointSource of total intensity I at a pixel-centred position reproduces I times the normalised PSF image, unrotated and untransposed, shifts with the source position, scales linearly with I, and is zero outside the PSF image; no PSF pixel outside the array is ever read.",
 ["inputs", "configurations"], "All PSF shapes up to a bound incl. non-square with distinct pixel values x positions on a sub-pixel grid x interpolators x oversampling.",
 "Tests use a symmetric square PSF.",
 ["function_objects/psf_interpolators.cpp", "function_objects/func_pointsource.cpp", "function_objects/func_pointsource-rot.cpp", "core/model_object.cpp"],
 [("PsfInterpolator_bicubic/_lanczos2/_lanczos3::GetValue, PointSource::Setup/GetValue", "function_objects/psf_interpolators.cpp, func_pointsource.cpp")],
 "PsfInterpolator::GetValue and model images containing PointSource")
prop("P13", "Every solver returns an admissible solution whose statistic is the one reported",
 "For every solver (LM, Nelder-Mead simplex, DE, DE-LHS, NLopt), admissible start point, set of limits (wider than LM's differencing step) and fixed flags, the model is never evaluated and the result never returned with a parameter outside its limits or a fixed parameter changed; the returned parameters' fit statistic equals the reported best statistic and is never worse than at the start point (for the local solvers), and the reported initial statistic, parameter count and error bars are consistent with the problem.",
 ["inputs", "configurations"], "All combinations of solver x objective x start position (interior, at either limit) x limit type x fixed mask for up to 3 free parameters over an enumerable family of models.",
 "Tests fit a few images with well-behaved limits.",
 ["solvers/"], [("DispatchToSolver, LevMarFit/mpfit, NMSimplexFit, DiffEvolnFit, NLOptFit, SolverResults", "solvers/*.cpp")],
 "every parameter vector passed to the ModelObject during the fit; final parameters and SolverResults")
prop("P14", "Interrupting a fit or meeting non-finite values still ends in a valid result",
 "Whenever the user interrupts (Ctrl-C) - before or during any evaluation - or any single evaluation of the model yields NaN or infinity, every solver terminates, returns finite parameters within limits with fixed parameters unchanged, never reports an ordinary convergence it did not reach after an interrupt, and never returns parameters worse than the best it had been given as valid. imfit and multimfit then end normally: an interrupted imfit fit is saved as such and not as a best fit, no bootstrap resampling follows it, and of an interrupted resampling exactly the completed iterations are kept.",
 ["fault_sequences", "schedules"], "For every solver and small problem: the stop signal raised at every evaluation index, and a non-finite value injected at every evaluation index (and pairs / from that index on); SIGINT at the evaluations of whole imfit and multimfit runs, with and without bootstrap.",
 "Tests never interrupt a fit nor inject non-finite values.",
 ["solvers/"], [("stopSignal_flag handling and NaN handling in mpfit, NLopt objective wrappers, DESolver", "solvers/*.cpp")],
 "status, final parameters and number of evaluations after the fault")
prop("P15", "The same seed gives the same fit",
 "With a fixed random seed, every stochastic computation - differential evolution with and without Latin-hypercube start, bootstrap resampling, MCMC sampling - yields identical results however often and after whatever other computations it is run; different seeds give different random streams, and generated random numbers stay in their documented ranges.",
 ["histories", "configurations"], "All pairs/sequences of computations up to a depth x seeds x problems, comparing bit-exactly; exhaustive range check over generator states visited.",
 "Tests run each stochastic solver at most once.",
 ["core/mersenne_twister.cpp", "solvers/DESolver.cpp", "solvers/diff_evoln_fit.cpp", "core/bootstrap_errors.cpp", "core/mcmc_main.cpp"],
 [("init_genrand/genrand, DESolver::RandomUniform, LHS shuffling, BootstrapErrors", "core/mersenne_twister.cpp, solvers/DESolver.cpp")],
 "final parameters, bootstrap tables, random streams", state="static Mersenne-Twister state shared by the process")
prop("P16", "MCMC chains only contain admissible states with their true likelihood",
 "For every number of chains and generations, limits and fixed flags, each state written to a chain file lies within the limits, keeps fixed parameters at their value, carries the log-likelihood of exactly that parameter vector, and differs from its predecessor only by an accepted proposal (or, for a chain declared an outlier, by the documented move to the best chain's state); every chain file has one line per stored generation in order with the documented columns.",
 ["inputs", "configurations"], "All chain counts x dimensions x limit/fixed masks x option settings up to a bound x seeds, with every likelihood call recorded.",
 "Tests check only that the run ends and file headers.",
 ["cdream/", "core/mcmc_main.cpp"], [("dream(), dream_initialize, check_outliers, gen_CR, gelman_rubin", "cdream/*.cpp")],
 "chain files and recorded likelihood-function calls")
prop("P17", "MCMC output survives a crash at any point and can be continued",
 "If a run is stopped at any moment - leaving each chain file cut at any byte - restarting with --append either continues every chain from states that were really written completely, all at the same generation, or reports that it cannot; it never crashes, never reads a torn or foreign line as a state, and afterwards every chain file is again well-formed with equal numbers of lines, from which a further restart works.",
 ["crash_points", "histories"], "Every truncation byte of one chain file, generation skews between chain files, and repeated crash-restart sequences up to a depth.",
 "Tests never truncate a chain file.",
 ["cdream/restore_state.cpp", "cdream/dream.cpp", "cdream/dream_initialize.cpp"], [("dream_restore_state and chain-file append", "cdream/restore_state.cpp, cdream/dream.cpp")],
 "restored state matrices, chain files after a resumed run", state="chain files on disk")
prop("P18", "FITS images round-trip exactly and I/O failures are never reported as success",
 "Every image of finite or non-finite doubles of any shape written with SaveVectorAsImage is read back with the same dimensions and the same pixels rounded to single precision (the format written) in the same orientation, an existing file of that name is replaced, and header comments are stored; every pixel type and scaling of a valid FITS image is read as its physical values. If any underlying open, read, write, truncate or close fails, or the file is missing, truncated, not an image, or not 2-D, the function reports failure instead of returning or leaving data presented as good, and leaves no file open.",
 ["inputs", "fault_sequences"], "All shapes up to a bound x pixel-value alphabet; every I/O operation index of a save or load made to fail, and files cut at every 80-byte card / block boundary.",
 "Tests read a few good files and one missing file.",
 ["core/image_io.cpp", "core/getimages.cpp"], [("ReadImageAsVector, GetImageSize, SaveVectorAsImage, CheckForImage, GetAndCheckImage", "core/image_io.cpp, core/getimages.cpp")],
 "return values and files on disk under injected faults", state="FITS file on disk")
prop("P19", "Multi-image fits give each image its own and the shared parameters correctly",
 "For every number of images, global functions, per-image (local) functions and image-description parameters, the parameter vector handed to each image's model contains exactly the shared parameters transformed by that image's own pixel scale, rotation, intensity scale and centre and that image's own local parameters, the combined statistic is the sum of the images' own statistics, and printed parameters appear under the right image with the right offsets.",
 ["inputs", "configurations"], "All combinations of number of images (1-4) x global sets/functions x local sets per image x image parameters up to a bound, checked against an independent reference mapping.",
 "Tests run two or three fixed two-image cases.",
 ["core/model_object_multimage.cpp", "core/param_holder.cpp", "core/paramvector_processing.cpp", "core/utilities_multimfit.cpp", "core/print_results_multi.cpp"],
 [("ParamHolder, ModelObjectMultImage::GeneralSetup/GetFitStatistic, CorrectParams", "core/param_holder.cpp, core/model_object_multimage.cpp")],
 "parameter vectors seen by each image model; combined statistic; printed output")
prop("P20", "An image-info file is read as exactly the images it describes",
 "For every image-info file, ReadImageParamsFile either returns one entry per IMAGE_START with exactly the file names, detector values, weights, PSF/oversampling entries, image-description parameters with limits/fixed state and per-image functions listed under it, defaults elsewhere, or an error status; no image inherits values from another, keywords count only as the first word of a line, and malformed lines are reported with their line number and never crash it. (Inconsistent limits of image-description parameters only cause a warning; optional parameters of local functions are not stored.)",
 ["inputs"], "All line sequences up to a depth over valid, decorated, repeated and malformed keywords, with up to three image blocks.",
 "There is no unit test in the runnable suite for this parser.",
 ["core/imageparams_file_parser.cpp", "core/read_simple_params.cpp"], [("ReadImageParamsFile, ParseMultiImageInfo, StoreInfoFromLine, GetParameterAndLimits", "core/imageparams_file_parser.cpp")],
 "returned vector<ImageInfo> and status")
prop("P21", "Bootstrap resampling draws only valid pixels and reports what it drew",
 "Every bootstrap sample consists of exactly as many pixels as are valid, all of them unmasked; the statistic under resampling is the documented sum over the drawn pixels; every iteration fits a new sample starting from the best fit, with the original limits and fixed flags; the saved parameter sets and the reported numbers, means, standard deviations and confidence intervals are those of the successful iterations only, in order, with image offsets applied once; afterwards the fit statistic is that of the original data again.",
 ["inputs", "configurations", "histories"], "All masks of small images x statistics x iteration counts x seeds x statuses of single iterations; all orderings of small samples for the summary statistics.",
 "Tests never look inside a bootstrap sample.",
 ["core/bootstrap_errors.cpp", "core/model_object.cpp", "core/statistics.cpp"], [("BootstrapErrors, MakeBootstrapSample, ConfidenceInterval, StandardDeviation", "core/bootstrap_errors.cpp, core/model_object.cpp, core/statistics.cpp")],
 "bootstrap indices via deviates, output arrays, saved bootstrap file")
prop("P22", "Image functions are pure functions of position with their documented symmetry",
 "For every image function and admissible parameters, the value at a pixel depends only on the parameters and the pixel's position relative to the centre: it is unchanged by earlier Setup/GetValue calls or other instances, by translating centre and pixel together, by a rotation of both by 180 degrees and by PA+180 (for point-symmetric functions), follows a rotation of PA by 90 degrees, is linear in its surface-brightness scale parameters, and is finite.",
 ["inputs", "histories"], "All functions x a grid of parameter vectors x pixel positions (incl. exactly the centre) x symmetry operations x interleavings of two Setup/GetValue histories.",
 "Tests compare a few values per function with tabulated numbers.",
 ["function_objects/"], [("Setup/GetValue/CalculateIntensity of every FunctionObject", "function_objects/func_*.cpp")],
 "FunctionObject::GetValue through the public interface", state="cached geometry in each function object")
prop("P23", "Component fluxes and fractions are those of the model images",
 "For every model, the total flux of each component equals the sum of the pixels of its own image on the estimation grid (or the analytic total where the function provides one), background components report zero, the total equals the sum of the components, and magnitudes and fractions printed are computed from these values for every number of functions and sets, independently of earlier calls.",
 ["inputs", "configurations", "histories"], "All function lists up to a length x sets x parameter vectors x estimation-image sizes.",
 "Tests check one or two models.",
 ["core/model_object.cpp", "core/makeimage_main.cpp"], [("ModelObject::FindTotalFluxes", "core/model_object.cpp")],
 "return value and individual fluxes of FindTotalFluxes")
prop("P24", "Every function name builds exactly its own component, in the listed order",
 "AddFunctions, given any list of the names reported by the program (with labels, set starts, optional parameters and the subsampling switch), creates exactly those components in that order with the documented number and names of parameters, contiguous parameter blocks in the right function set; unknown function names and wrong values of optional parameters are rejected with an error (an unknown optional-parameter name is reported on stderr), and nothing crashes.",
 ["inputs", "configurations"], "All lists up to a length over all function names and an unknown name x all set partitions x subsampling x optional-parameter maps.",
 "Tests use a couple of function lists.",
 ["core/add_functions.cpp", "core/model_object.cpp"], [("AddFunctions, PopulateFactoryMap, GetFunctionParameterNames", "core/add_functions.cpp"), ("ModelObject::AddFunction / DefineFunctionSets", "core/model_object.cpp")],
 "ModelObject::GetFunctionNames, GetParameterName, GetNParams, model images")
prop("P25", "Programs fail loudly: a bad or missing input never yields a success exit",
 "For every combination of missing, unreadable, malformed or mismatched input (configuration, data, mask, noise, PSF, oversampled PSF, image sizes, option values), imfit, makeimage and imfit-mcmc end with a non-zero exit status and an error message before fitting, without crashing; and with good inputs they exit zero and the outputs requested are there (an output file which cannot be written is reported and never crashes the program).",
 ["inputs", "fault_sequences"], "All single and pairwise combinations of a list of input defects over the three programs' command lines.",
 "Regression tests cover only a few error cases each.",
 ["core/imfit_main.cpp", "core/makeimage_main.cpp", "core/mcmc_main.cpp", "core/getimages.cpp", "core/setup_model_object.cpp"],
 [("main, ProcessInput, HandleConfigFileOptions, GetAndCheckImage, SetupModelObject", "core/*_main.cpp")],
 "exit status, output files")
prop("P26", "Basic text and number helpers do what every parser relies on",
 "For every string: trimming removes exactly the leading and trailing blanks, splitting returns exactly the maximal delimiter-free pieces in order, comment chopping keeps exactly the text before the delimiter, IsNumeric accepts exactly the spellings strtod reads completely and NotANumber decides, as documented, from the leading characters and the required kind, and formatted strings of any length are produced untruncated.",
 ["inputs"], "All strings up to a length over small alphabets, and all formatted lengths across the buffer boundaries.",
 "Tests try a few typical strings.",
 ["core/utilities.cpp"], [("TrimWhitespace, SplitString, SplitStringAdd, ChopComment, StripBrackets, IsNumeric, NotANumber, PrintToString", "core/utilities.cpp")],
 "return values")
prop("P27", "Every option and configuration value reaches the computation as documented",
 "For every combination of options, what imfit, imfit-mcmc and makeimage compute is what the options say: image sections (with coordinates, limits and oversampling regions in the system of the full image), masks and mask convention, noise images as sigmas, variances or weights, data- or model-based errors, Cash and Poisson-MLR statistics, PSFs with and without normalisation, oversampled PSFs by region, subsampling, image sizes, and gain, read noise, exposure time, number of combined images and sky, with a command-line value overriding the configuration file. The printed statistic, AIC and BIC, the saved parameters, model, residual and weight images, bootstrap rows and the likelihoods in MCMC chains are all those of the model and statistic so defined.",
 ["inputs"], "All combinations of the listed options within each program.",
 "The regression tests run a handful of option combinations.",
 ["core/imfit_main.cpp", "core/mcmc_main.cpp", "core/makeimage_main.cpp", "core/setup_model_object.cpp", "core/getimages.cpp", "core/print_results.cpp"],
 [("ProcessInput, HandleConfigFileOptions, main", "core/*_main.cpp"), ("SetupModelObject", "core/setup_model_object.cpp"), ("GetOversampledPsfInfo, GetMaskAndErrorImages", "core/getimages.cpp"), ("SaveParameters, PrintFitStatistic", "core/print_results.cpp")],
 "printed statistic, output files")
prop("P28", "Several images are computed and fitted as the images they describe",
 "multimfit and makemultimages treat every image of an image-info file as the image it describes: its own data (or section of it), mask and mask convention, error map and its type, detector values, PSF and oversampled PSFs, position, rotation, pixel and intensity scale and components of its own. The printed statistic is the sum of the statistics of the images, each that of a single-image model with transformed coordinates and intensities; fits minimise that sum within the limits and leave fixed values alone; the saved parameter and image-info files, read back, reproduce the statistic; saved images are those models; defective input ends with an error status and a message; requested outputs and no others are written.",
 ["inputs"], "All combinations of image descriptions over one to three images x statistic x solver, and every single defect of an image description or command line.",
 "No test of the runnable suite runs the two multi-image programs.",
 ["core/multimfit_main.cpp", "core/makemultimages_main.cpp", "core/model_object_multimage.cpp", "core/print_results_multi.cpp", "core/store_psf_oversampling.cpp"],
 [("main, ProcessInput", "core/multimfit_main.cpp, core/makemultimages_main.cpp"), ("SaveMultImageParameters, SaveImageInfoParameters", "core/print_results_multi.cpp")],
 "printed statistic, output files, exit status")
prop("P29", "One-dimensional profiles are convolved exactly as given",
 "psfconvolve1d reads profile tables exactly as written (comment lines starting with '#', any spacing, any line length, x in the first and y in the second column, any range of rows), convolves the profile with the PSF profile normalised to unit sum and centred on row n/2, treats the data beyond its ends as zero, and writes one x, y row per input row. The result is that of direct summation for any pair of lengths, including a PSF longer than the data, and does not depend on convolutions made before. Defective tables, row ranges or unwritable outputs end with an error status and no result.",
 ["inputs"], "All pairs of small profile and PSF lengths x unit impulses and patterns, all table decorations and line lengths around the reader's buffers, every single defect.",
 "No test runs the program, and the tests of the convolver use a handful of lengths.",
 ["profile_fitting/psfconvolve1d_main.cpp", "profile_fitting/convolver1d.cpp", "profile_fitting/read_profile.cpp"],
 [("Convolver1D", "profile_fitting/convolver1d.cpp"), ("ReadDataFile, CountDataLines", "profile_fitting/read_profile.cpp"), ("main", "profile_fitting/psfconvolve1d_main.cpp")],
 "output profile rows, exit status, messages")
prop("P30", "Outputs that could not be written are announced",
 "Every output file that imfit, imfit-mcmc, makeimage, multimfit or makemultimages was asked for and that cannot be created or cannot be written completely (missing directory, refused opening, disk full after any number of bytes for good or for one write) is announced: the program ends with an error status and a message, or prints a message that says so; with status 0 all other requested outputs are complete. A run whose outputs are complete gives no such message.",
 ["inputs", "fault_sequences"], "Every requested output x every way of failing: opening refused, directory missing, file size limited to every critical number of bytes, for good or until the first write has failed.",
 "No test makes an output fail.",
 ["core/print_results.cpp", "core/print_results_multi.cpp", "core/image_io.cpp", "core/imfit_main.cpp", "core/mcmc_main.cpp", "core/makeimage_main.cpp", "core/multimfit_main.cpp", "core/makemultimages_main.cpp", "core/bootstrap_errors.cpp"],
 [("CloseOutputFile, SaveParameters", "core/print_results.cpp"), ("SaveVectorAsImage", "core/image_io.cpp"), ("BootstrapErrors", "core/bootstrap_errors.cpp")],
 "output files, exit status, messages")
prop("P31", "The Python modules return what the programs wrote",
 "python/imfit.py returns exactly what is in the programs' output files: GetBootstrapOutput, GetSingleChain and MergeChains give the column names and one row per iteration or generation (all columns, or the model parameters only), for any number of parameters, iterations, header lines and chains, MergeChains exactly the selected generations (from start, the last n, the second half) of the selected chains; ReadImfitConfigFile gives every mapped function of a configuration or parameter file with its parameters, lengths converted with the pixel scale and (on request) to the minor axis; the profiles of imfit_funcs.py for them are those of the programs' own functions along that axis; GetFunctionImageNames gives the names makeimage uses. Missing files and impossible selections give None and a message.",
 ["inputs"], "All combinations of file shapes and selections up to bounds, all pairs of mapped functions x forms of the file x scales.",
 "There are no tests of these modules.",
 ["python/imfit.py", "python/imfit_funcs.py"],
 [("MergeChains, GetBootstrapOutput, ReadImfitConfigFile", "python/imfit.py"), ("Sersic, BrokenExp, GaussRing2Side", "python/imfit_funcs.py")],
 "returned names and arrays")
prop("P32", "What the programs announce is what they accept",
 "In each of the five programs --list-functions names exactly the functions a configuration file may use (and any other name is refused), --list-parameters lists their parameters in the documented order with their units, so that a listed block completed with values is a valid description and one with a line too many or too few is refused; --sample-config writes files that the programs accept, with any of their commented-out lines made active (and the default values they state are the defaults); every option announced by --help is known in the announced form, writes the announced (default) output, and an option that is not announced or lacks its value is refused.",
 ["inputs", "configurations"], "5 programs x every listed function, parameter line, announced option and form, and everything at one edit from an announced name.",
 "Tests compare a few of these outputs with stored copies; they never use what is announced.",
 ["core/"],
 [("PrintAvailableFunctions, ListFunctionParameters, PopulateFactoryMap", "core/add_functions.cpp"), ("ProcessInput", "core/*_main.cpp"), ("sample configuration texts", "core/sample_configs.h")],
 "exit status, printed lists, files written")
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
