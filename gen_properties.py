"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))


S = "py/qsonic/"

prop("Q01", "Catalog selection is exact and the result is ordered for the readers",
     "Reading a quasar catalog returns exactly the input rows whose redshift lies in the closed requested interval and whose survey is one of the requested surveys (all surveys when none are requested), each exactly once and with every kept column value unchanged. "
     "The result is ordered by sky pixel, then survey (when the catalog has one), then target id; in tile format by tile, then petal, then target id. "
     "When the file has no sky pixel column, each row gets the nested healpix pixel of its position, at nside 16 for mocks and 64 for data.",
     ["inputs", "configurations"],
     "all catalogs (rows, duplicates of pixel/survey/tile/petal, column layouts), all redshift intervals including boundary values, all requested survey lists, mock/data/tile",
     "test_catalog samples one four-row catalog in two layouts; the guarantee is over every row multiset, interval and survey list.",
     [S + "catalog.py"],
     [("selection and sort", S + "catalog.py: read_quasar_catalog, _prime_catalog"), ("healpix", S + "catalog.py: _add_healpix")],
     ["return value of read_quasar_catalog", "mpi_read_quasar_catalog"])

prop("Q02", "Invalid catalogs are rejected and accepted spellings are normalised",
     "A quasar catalog is rejected with an error, never silently truncated, when a required column is absent, when a target id is repeated (in tile format: a target-tile pair), or when no quasar is left after selection. "
     "Every catalog that has one accepted spelling of each required column is accepted, and position and last-night columns are returned under their canonical names with their own values. "
     "The quasar table is found by its extension name (QSO_CAT, ZCATALOG or METADATA, in this order of preference) wherever it is in the file, falling back to the first extension.",
     ["inputs", "configurations"],
     "all subsets of present columns and spellings, all duplicate patterns, all HDU layouts, mock/data/tile",
     "The tests try three hand-written dtypes on an internal helper; the space of column layouts x modes x duplicate patterns is a product.",
     [S + "catalog.py"],
     [("validation", S + "catalog.py: _validate_adjust_column_names, _check_required_columns"), ("HDU choice", S + "catalog.py: _read")],
     ["read_quasar_catalog"])

prop("Q03", "Work distribution is an exact, pixel-preserving, balanced partition",
     "For every catalog and every number of processes, each selected quasar is handed to exactly one process with its row intact, all quasars of one sky pixel (tile, in tile format) go to the same process as a single contiguous sorted group, and every process receives a list. "
     "The numbers of quasars on any two processes differ by at most the size of the largest group. "
     "If the catalog cannot be read, every process fails with the same documented error.",
     ["inputs", "configurations", "schedules"],
     "all group-size multisets and process counts within bounds, all schedules of the processes, tile and healpix grouping",
     "test_balance_load checks one list with one process count, and no test runs the scatter with more than one process.",
     [S + "catalog.py", S + "mpi_utils.py"],
     [("greedy balancing", S + "mpi_utils.py: balance_load"), ("read, split, scatter", S + "catalog.py: mpi_get_local_queue")],
     ["return value per rank"])

prop("Q04", "Collective steps agree on every process: same value or same failure",
     "Every step that is evaluated on one process and shared (option parsing, catalogs, masks, calibrations, fiducial functions, exclusion lists, file lists) ends on all processes with the same value, or ends on all processes with the same failure, whichever process is fast or slow and wherever the evaluation fails. "
     "No process is left waiting in a communication its peers never enter, and processes never pair up different communications. "
     "The evaluation happens only on the master process.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of 1-3 simulated processes at communication points, all outcomes of the master evaluation (value, None, falsy values, error, invalid options, help), every sharing entry point",
     "The tests run a single process (or skip when MPI has one rank); neither interleavings nor failures on the master with peers waiting are exercised.",
     [S + "mpi_utils.py", S + "masks.py", S + "calibration.py", S + "catalog.py", S + "picca_continuum.py", S + "scripts/qsonic_calib.py", S + "scripts/qsonic_fit.py"],
     [("evaluate and broadcast", S + "mpi_utils.py: mpi_fnc_bcast, mpi_parse"), ("status broadcast then scatter", S + "catalog.py: mpi_get_local_queue")],
     ["return value / raised exception per rank", "sequence of collectives per rank"])

prop("Q05", "Readers give every quasar its own data, and only its own",
     "Reading a sky pixel or a tile yields exactly one spectrum for every requested quasar that is present in the file of its survey (petal), and its catalog row, flux, inverse variance, mask, resolution and true continuum all belong to that target id. "
     "This holds for any order of rows in the files, any extra targets there, any mix of surveys or petals, and any arms requested. "
     "Requested quasars absent from a file are left out with a warning and do not disturb the others.",
     ["inputs", "configurations"],
     "all permutations of file rows, subsets of missing and extra targets, survey/petal assignments, arm selections, with and without resolution, mock/healpix/tile",
     "test_io reads one file whose rows are nearly in catalog order; misassignment shows only for particular orders, gaps and survey mixes.",
     [S + "io.py", S + "spectrum.py"],
     [("matching", S + "io.py: _read_onehealpix_file, _read_true_continuum"), ("per-survey/petal split", S + "io.py: read_onehealpix_file_data_coadd, read_onetile_coaddfile_data, read_onehealpix_file_mock")],
     ["list of Spectrum objects"])

prop("Q06", "Exposure reading returns every exposure once with its own metadata",
     "Reading uncoadded spectra yields one spectrum for every exposure row of every requested quasar and none for other targets. "
     "Each carries the flux, inverse variance, mask and resolution of that very row together with the row's exposure id, night, tile, fiber and petal and the catalog values of its own quasar. "
     "This holds for any row order, any number of exposures per quasar, any mix of surveys and any missing targets.",
     ["inputs", "configurations"],
     "all row orders of bounded files, exposure multiplicities, missing and extra targets, survey mixes",
     "The only test of this path uses one row order; pairing errors need interleaved exposures of several targets.",
     [S + "io.py"],
     [("row matching and catalog expansion", S + "io.py: read_onehealpix_file_data_uncoadd, _read_onehealpix_file")],
     ["list of Spectrum objects", "catalog row of each"])

prop("Q07", "Bad pixels are nulled and the forest window is exact on ingestion",
     "A pixel that is flagged, not-a-number in flux or inverse variance, or has negative inverse variance has zero flux and zero inverse variance in the spectrum; every other pixel keeps its values. "
     "The forest of a quasar consists, in every arm that has at least one good pixel there, of exactly the pixels from the lower up to (excluding) the upper limit of both the observed window and the redshifted rest-frame window, with flux, inverse variance and resolution columns aligned to wavelength; arms without good forest pixels are absent. "
     "Building or editing one spectrum never changes the input arrays or another spectrum, and the red-side and forest signal-to-noise follow their definitions over good pixels.",
     ["inputs", "configurations"],
     "all bad-pixel kinds at all positions, all window edges on and between pixels, all arm subsets, redshifts, several spectra built from the same arrays",
     "test_spectrum uses constant arrays with one window; boundary, NaN/negative and aliasing cases are not combined.",
     [S + "spectrum.py"],
     [("sanitation", S + "spectrum.py: Spectrum.__init__"), ("window", S + "spectrum.py: set_forest_region")],
     ["wave/flux/ivar, forestwave/forestflux/forestivar/forestreso, rsnr, mean_snr"])

prop("Q08", "Coadding arms is the weighted mean on one grid and ignores masked pixels",
     "Coadding the arms of a spectrum, on the full range or in the forest, yields one evenly spaced grid covering all arms where each pixel's flux is the weighted mean of the arm values at that wavelength, with the inverse variance of that mean; pixels with zero weight do not contribute, and pixels covered by no good arm pixel have zero flux, inverse variance and weight. "
     "Continuum and resolution at every covered wavelength come from the arms that cover it, and every stored value is finite. "
     "The result does not depend on the order of the arms.",
     ["inputs", "configurations"],
     "all bounded arm overlaps, gaps and lengths, all mask patterns, arm orders, with/without continuum, variance weights and resolution of equal or different bandwidth",
     "Tests coadd one full-overlap layout with constant data; gaps, partial masks and bandwidth mixes are unbounded combinations.",
     [S + "spectrum.py"],
     [("coadding", S + "spectrum.py: simple_coadd, coadd_arms_forest")],
     ["forest arrays after coadding", "flux/ivar/reso after coadding"])

prop("Q09", "Masks remove exactly the contaminated pixels and touch nothing else",
     "A sky mask nulls flux and inverse variance exactly at pixels inside its observed-frame windows or its windows redshifted to the quasar, from the lower edge up to but excluding the upper edge; a BAL mask exactly at pixels inside the absorption troughs given by the catalog velocities for each listed line; a DLA mask exactly at pixels bluewards of the quasar's Lyman-alpha where the Lyman-alpha and Lyman-beta transmission of that quasar's own absorbers is below the limit, dividing the damping wings out of the other pixels. "
     "All other pixels, quasars and arms are unchanged (by sky and BAL masks bit for bit), and a masked pixel stays masked.",
     ["inputs", "histories"],
     "all subsets of windows, velocity intervals and absorbers of bounded alphabets (touching, nested, overlapping, outside), all mask orders and repetitions, several arms, redshifts and target ids",
     "test_masks applies a single window or absorber; interactions between windows, frames, arms and targets are combinatorial.",
     [S + "masks.py", S + "scripts/qsonic_fit.py"],
     [("sky", S + "masks.py: SkyMask.apply"), ("BAL", S + "masks.py: BALMask.apply"), ("DLA", S + "masks.py: DLAMask"), ("driver", S + "scripts/qsonic_fit.py: apply_masks")],
     ["forestflux", "forestivar"])

prop("Q10", "Noise and flux calibrations rescale data consistently",
     "Flux calibration divides the flux by the calibration function and multiplies the inverse variance by its square, so signal-to-noise is preserved; noise calibration divides the inverse variance by the calibration factor, or by the factor plus the additive variance scaled with the continuum when requested; missing (zero) calibration entries act as one. "
     "Masked pixels stay masked, inverse variance never becomes negative or undefined, every arm of every spectrum is treated at its own wavelengths, and calibrations commute with masking. "
     "Calibration files with uneven wavelength spacing are refused.",
     ["inputs", "configurations", "histories"],
     "all calibration tables of bounded alphabets and sizes, mask patterns, arms, options, orders of calibration and masking, wavelengths inside and outside the table",
     "test_calibration uses constant tables on one spectrum.",
     [S + "calibration.py", S + "mathtools.py"],
     [("noise", S + "calibration.py: NoiseCalibrator"), ("flux", S + "calibration.py: FluxCalibrator")],
     ["forestflux", "forestivar"])

prop("Q11", "Noise smoothing and weights never revive or corrupt pixels",
     "Smoothed inverse variances and weights are zero exactly where the inverse variance is zero and positive and finite everywhere else, stay within the range of the unmasked pixel noise (for smoothing scales of ten pixels or more), leave a constant noise level unchanged, and never alter the stored inverse variance; a non-positive smoothing scale switches smoothing off. "
     "Pixels of unusually high noise (outliers) keep it, and neither they nor masked pixels change the noise of their neighbours; all others are smoothed with a normalised, symmetric Gaussian kernel whose width is proportional to the scale in wavelength, the noise beyond either end being that of the end. "
     "With a valid continuum the weight of a pixel is i/(eta + i*var_lss*C^2) with i the smoothed inverse variance; without one it equals the smoothed inverse variance. "
     "The continuum chi-square is the weighted sum of squared residuals over all arms, and -1 when there is no valid continuum.",
     ["inputs", "histories"],
     "all mask patterns and noise alphabets of bounded length, all smoothing scales of an alphabet, all sequences of smoothing/continuum/weight calls",
     "Tests smooth a handful of arrays; which pixels are masked or outliers is a 2^n space.",
     [S + "spectrum.py", S + "mathtools.py"],
     [("smoothing", S + "mathtools.py: get_smooth_ivar; " + S + "spectrum.py: set_smooth_forestivar"), ("weights", S + "spectrum.py: set_forest_weight, calc_continuum_chi2")],
     ["forestivar", "forestivar_sm", "forestweight", "chi2"])

prop("Q12", "Any processing history keeps a spectrum consistent with its pixels",
     "After any sequence of masking, calibration, coadding, arm dropping, smoothing, continuum assignment and weighting in a documented order, every per-pixel quantity of a spectrum (wavelength, flux, inverse variance, smoothed inverse variance, weight, continuum, resolution) has the same length per arm and refers to the same pixels, all are finite, and masked pixels carry no weight. "
     "The counts of usable pixels and the long-enough decision equal a recount over the good pixels. "
     "Spectra processed side by side do not influence one another.",
     ["histories", "programs"],
     "all operation sequences up to a bounded depth over an alphabet of public operations, from several initial spectra",
     "Tests call operations one at a time on fresh objects; shared arrays between stages only matter for particular sequences.",
     [S + "spectrum.py", S + "masks.py", S + "calibration.py"],
     [("aliasing of forest arrays", S + "spectrum.py: set_forest_region, set_smooth_forestivar, set_forest_weight, slice, drop_arm, drop_short_arms"), ("sizes", S + "spectrum.py: get_real_size, is_long")],
     ["all public forest properties of Spectrum"])

prop("Q13", "Delta files record the spectrum faithfully and round-trip",
     "For every saved arm the file holds the wavelength grid, DELTA = flux/continuum - 1 (zero where masked), IVAR and WEIGHT scaled by the continuum squared, the continuum and, unless skipped, the resolution matrix, together with the target id, position in radians, redshift, blinding label, signal-to-noise, mean resolution, pixel width and smoothing scale of that spectrum, and exposure metadata when present. "
     "Reading the file back returns these arrays and identifiers for every extension, whatever other accepted column or key spellings the file uses (the first one in the documented order when there are several); files lacking them are refused. "
     "Extension names are unique per target, arm and exposure.",
     ["inputs", "configurations"],
     "all combinations of arms, mask patterns, resolution on/off, blinding, exposure metadata, dtypes and alternative spellings within bounds",
     "test_io/test_spectrum write one spectrum in one configuration.",
     [S + "spectrum.py", S + "io.py"],
     [("write", S + "spectrum.py: Spectrum.write"), ("read", S + "spectrum.py: Delta; " + S + "io.py: read_deltas")],
     ["delta-*.fits contents", "Delta attributes"])

prop("Q14", "Saving deltas writes every valid spectrum once, in the right file",
     "Saving a list of spectra writes each spectrum with a valid continuum exactly once and no invalid one: into the file of its own sky pixel when grouping by pixel, into the file of the process otherwise; without an output directory nothing is written. "
     "Saving is refused when neither grouping is available and when the blinding strategy was never decided, and a refused save leaves no delta file behind. "
     "Existing delta files of the same name are replaced, not appended to.",
     ["inputs", "configurations", "histories"],
     "all bounded lists of spectra (pixels, order, validity, arms), grouping modes, process ranks, repeated saves",
     "Tests save at most two spectra in one mode.",
     [S + "io.py"],
     [("grouping and guards", S + "io.py: save_deltas"), ("validity filter", S + "spectrum.py: valid_spectra")],
     ["files in the output directory"])

prop("Q15", "Blinding follows the latest night and cannot be forgotten",
     "For data in the Lyman-alpha region the blinding label is none before 2021-05-14, desi_m2 before 2021-08-01, desi_y1 before 2022-08-01 and desi_y3 afterwards, decided by the latest night in the whole catalog on all processes; mocks and analyses entirely redwards of Lyman-alpha are never blinded. "
     "Blinded deltas are stored under the blinded column name and label and unblinded ones under the plain name, for every spectrum written, however often the strategy is set. "
     "Deltas cannot be saved before the strategy is set.",
     ["inputs", "configurations", "histories", "schedules"],
     "all nights around the thresholds, mock/side-band/data, resolution on/off, distributions of nights over processes, sequences of set and save calls",
     "One test sets one date; the maximum over processes and repeated settings are not covered.",
     [S + "spectrum.py", S + "io.py", S + "scripts/qsonic_fit.py"],
     [("strategy", S + "spectrum.py: set_blinding, blinding_not_set"), ("max over ranks", S + "scripts/qsonic_fit.py: mpi_run_all")],
     ["BLINDING header key and column names in delta files"])

prop("Q16", "Coadding delta files conserves targets and averages correctly",
     "The delta coadding tool outputs every target id found in the inputs exactly once, in the file of the healpix pixel of its position at the requested nside and ordering, for any number of input directories, files and worker processes. "
     "Two deltas of a target are merged into the weighted mean with the inverse variance of that mean and the weight implied by the average large-scale variance; masked pixels contribute nothing, wavelengths covered by neither are empty, resolution is averaged with the same weights, and all values are finite; weights are positive exactly where there is data and never exceed the sum of the weights, for any pixel width. "
     "Merging two deltas is symmetric, and merging any number of deltas is order-independent when no large-scale variance is present; targets with one delta are unchanged.",
     ["inputs", "configurations", "schedules"],
     "all bounded overlaps, gaps, mask patterns, weights, file partitions and orders, nside/nest, worker counts",
     "No test covers this tool or delta merging.",
     [S + "spectrum.py", S + "scripts/qsonic_coadd_deltas.py"],
     [("merge", S + "spectrum.py: Delta.coadd"), ("grouping", S + "scripts/qsonic_coadd_deltas.py")],
     ["Delta attributes after merging", "output delta files"])

prop("Q17", "The calibration tool uses each delta exactly once for any process count",
     "For every number of delta files and processes, the files are partitioned over the processes without loss or repetition, so the variance statistics and the stacked flux are those of all kept deltas, independent of the number of processes and of file listing order. "
     "A delta is kept exactly when its target is not in the exclusion list, not a BAL when BALs are removed, not of an unwanted survey, and its signal-to-noise is strictly inside the limits. "
     "The stacked flux at each wavelength is the weighted mean of 1+delta, zero where there is no weight, and is listed at the wavelength of the pixels it averages; the saved variance functions are those fitted to the saved statistics.",
     ["inputs", "configurations", "schedules"],
     "all file counts 1..n x process counts 1..m, listing orders, exclusion/survey/BAL/SNR filters, processes left without deltas",
     "The tests run the helper functions on one process with one file.",
     [S + "scripts/qsonic_calib.py", S + "picca_continuum.py"],
     [("partition", S + "scripts/qsonic_calib.py: mpi_read_all_deltas"), ("filters", S + "scripts/qsonic_calib.py: mpi_set_targetid_list_to_remove, mpi_run_all"), ("stack", S + "scripts/qsonic_calib.py: mpi_stack_fluxes")],
     ["variance-stats FITS output"])

prop("Q18", "Jackknife statistics equal the delete-one definition in any call order",
     "For any sequence of added measurements, mean, variance, covariance and reset requests, the mean is the weighted mean of everything added since the last reset and the variance and covariance are those of the delete-one jackknife over the subsamples, whichever of them is requested first or repeatedly. "
     "Measurements wrap around the subsamples starting from the given offset, block covariances are the diagonal blocks of the full covariance, and the variance is its diagonal. "
     "Adding after a request without reset is refused, and summing over processes gives the statistics of the union.",
     ["histories", "inputs", "schedules"],
     "all call sequences up to a bounded length over small measurement alphabets, sample counts, offsets, data shapes, process counts",
     "test_mathtools follows one fixed call order.",
     [S + "mathtools.py"],
     [("jackknife", S + "mathtools.py: SubsampleCov")],
     ["get_mean, get_mean_n_var, get_mean_n_cov return values"])

prop("Q19", "Variance and flux stacks count each pixel once in its own bin",
     "Every pixel added to the variance statistics is counted exactly once in the bin of its wavelength and pipeline variance, pixels outside the variance range or masked enter no valid bin, and every quasar counts once per bin; bin means are the plain averages of delta, of pipeline variance, and the variance of delta. "
     "Every pixel added to the flux stacks contributes its weighted value to exactly one observed-frame and one rest-frame bin, and empty bins are zero. "
     "The statistics are the same for every distribution of the spectra over processes, for every adding order, and after a reset.",
     ["inputs", "schedules", "configurations", "histories"],
     "all bounded sets of pixels (wavelength x variance bins incl. under/overflow), all assignments of spectra to 1-3 processes, adding orders, resets, number of bins",
     "Tests fill the bins with one deterministic pattern on one process.",
     [S + "picca_continuum.py", S + "mathtools.py"],
     [("variance bins", S + "picca_continuum.py: VarLSSFitter.add, calculate_subsampler_stats"), ("flux stacks", S + "picca_continuum.py: FluxStacker")],
     ["num_pixels, num_qso, mean_delta, var_delta, var_centers, stacked_flux, stacked_flux_rf"])

prop("Q20", "Interpolators reproduce the exact linear and cubic spline everywhere",
     "The linear interpolator equals piecewise linear interpolation with linear extrapolation, and the cubic one equals the cubic spline through all points with the requested end condition (natural or not-a-knot, with the usual lower-order curve for fewer than four points), for every number of points from two on, every spacing and offset, at every position inside and outside the table. "
     "Replacing the table gives the interpolator of the new table, with nothing left from the old one. "
     "Evaluation never changes its inputs.",
     ["inputs", "histories"],
     "all table sizes 2..N with every unit table (the result is linear in the table, so unit tables span all tables), positions on, between and outside the nodes, all reset sequences",
     "Tests compare one table size; special-cased boundaries for small and large tables are not covered.",
     [S + "mathtools.py"],
     [("splines", S + "mathtools.py: FastLinear1DInterp, FastCubic1DInterp")],
     ["interpolator call"])

prop("Q21", "Continuum models: valid means positive, own and model-consistent",
     "A spectrum is flagged valid only if its continuum is finite and non-negative on every pixel of every arm and equals the model: the least-squares best fit of amplitude and slope polynomial times the mean continuum times mean flux (fitted mode, for noise-only weights), or the target's own input or true continuum interpolated at its wavelengths times the mean flux. "
     "Spectra whose fit fails, or whose input continuum is absent, non-positive or undefined are flagged invalid, lose their continuum, and never enter stacks, statistics or outputs. "
     "Spectra do not influence each other's continuum, and a later iteration starts from the current mean functions.",
     ["inputs", "configurations", "histories"],
     "all bounded sets of spectra (amplitudes, slopes, masks, sign patterns, arms), all orders of rows and files of input continua, missing targets/files, repeated iterations",
     "Tests fit one or two spectra with one model.",
     [S + "continuum_models/picca_continuum_model.py", S + "continuum_models/input_continuum_model.py", S + "continuum_models/true_continuum_model.py", S + "picca_continuum.py"],
     [("fit", S + "continuum_models/picca_continuum_model.py: fit_continuum"), ("input", S + "continuum_models/input_continuum_model.py"), ("true", S + "continuum_models/true_continuum_model.py"), ("stack only valid", S + "picca_continuum.py: update_mean_cont, update_var_lss_eta")],
     ["cont_params", "stacks"])

prop("Q22", "The full analysis does not depend on how it is parallelised",
     "Running the whole continuum-fitting analysis on the same inputs with any number of processes, any process timing, either delta grouping and any order of the requested arms produces the same set of deltas, the same chi-square catalog rows (apart from the process column) and the same saved mean functions, to numerical precision. "
     "Every quasar that passes the selection appears exactly once in the chi-square catalog, and exactly those flagged valid there appear in the delta files. "
     "This includes runs in which some process ends up with no usable spectrum, and runs with more processes than pixels.",
     ["schedules", "configurations", "inputs"],
     "process counts 1-8, all priority schedules, grouping modes, arm orders, coadd modes, continuum models, mock/data/tile inputs, selections that empty a process",
     "No test runs the pipeline end to end, let alone with several processes.",
     [S + "scripts/qsonic_fit.py", S + "picca_continuum.py", S + "catalog.py", S + "io.py"],
     [("driver", S + "scripts/qsonic_fit.py: mpi_run_all"), ("reductions", S + "picca_continuum.py")],
     ["delta-*.fits", "continuum_chi2_catalog.fits", "attributes.fits"])

prop("Q23", "Exposures saved after fitting carry their own quasar's continuum",
     "When exposures are read after continuum fitting, every saved exposure has, at each of its wavelengths, exactly the continuum its own quasar was given at that wavelength by the fit to the coadded spectrum, and data, weight and continuum arrays stay aligned. "
     "Exposure pixels and arms for which no continuum was fitted are left out rather than filled. "
     "This holds for any mix of surveys, pixels, quasar and exposure orders, and when arms or wavelength ranges differ between an exposure and its coadd.",
     ["inputs", "configurations"],
     "all bounded assignments of exposures to quasars, surveys and pixels, arms missing in the coadd or in the exposure, arm coadding modes",
     "No test covers this function.",
     [S + "scripts/qsonic_fit.py", S + "spectrum.py", S + "io.py"],
     [("matching", S + "scripts/qsonic_fit.py: mpi_read_exposures_after"), ("slicing", S + "spectrum.py: slice, drop_arm")],
     ["list of exposure spectra", "delta files"])

prop("Q24", "Contradictory analysis options are refused, consistent ones accepted",
     "The analysis starts only with a consistent set of options: true continuum requires a mock analysis and both fiducial functions and excludes input continua; wavelength limits must be increasing; tile format excludes mocks, healpix-grouped output and exposures; ratios must lie in the unit interval. "
     "Every consistent combination is accepted, with the continuum source resolved as requested and each requested arm kept exactly once. "
     "A refusal ends all processes before any input is read or output written.",
     ["configurations", "schedules"],
     "the full product of the options involved, duplicates and orders of arms, boundary values of ratios and wavelengths, 1-3 processes",
     "Tests try a few option sets on the parser.",
     [S + "scripts/qsonic_fit.py", S + "io.py", S + "mpi_utils.py"],
     [("logic", S + "scripts/qsonic_fit.py: args_logic_fnc_qsonic_fit"), ("ranges", S + "io.py: _float_range"), ("parse and share", S + "mpi_utils.py: mpi_parse")],
     ["return value", "exit"])

prop("Q25", "Saved analysis products are mutually consistent",
     "The continuum of every delta in a fitted analysis equals the mean continuum saved for the last fit iteration, evaluated at its rest-frame wavelengths, times its polynomial from the chi-square catalog times the mean flux; with smoothing off its weight equals the one implied by its IVAR and the variance functions saved for that iteration (the final ones, or the fiducial one, when arms are coadded after fitting). "
     "Saved mean continua have unit mean and no component along the fitted polynomials, and every iteration and the final state are each saved once. "
     "Each saved mean continuum follows from the previous one and its saved stack, and the final variance functions are the smoothed fit to the saved variance statistics. "
     "Chi-square, degrees of freedom, signal-to-noise, redshift and pixel in the catalog match the saved deltas of the same quasar, and the final flux stacks and variance statistics are those of the saved deltas.",
     ["configurations", "histories", "inputs"],
     "iteration counts 1-3, polynomial orders 0-2, fiducial functions on/off, variance/eta fitting, arm coadding modes",
     "No test relates the output files to each other.",
     [S + "picca_continuum.py", S + "continuum_models/picca_continuum_model.py", S + "spectrum.py"],
     [("iterate/save", S + "picca_continuum.py: iterate, save, save_contchi2_catalog"), ("projection", S + "picca_continuum.py: _project_normalize_meancont")],
     ["attributes.fits", "continuum_chi2_catalog.fits", "delta-*.fits"])

prop("Q26", "Selection cuts keep exactly the spectra that satisfy them",
     "After reading, a spectrum is kept exactly when it has usable forest pixels, its red-side signal-to-noise and its effective forest signal-to-noise are at least the requested minima, and its usable forest pixels after masking exceed the requested fraction of the expected number; kept spectra are unchanged by the cuts and keep their order. "
     "No quasar that meets these conditions is lost to the redshift range with which the catalog is read. "
     "Arms with fewer usable pixels than the requested fraction are dropped completely, and no others. "
     "The result for one quasar does not depend on the other quasars read with it.",
     ["inputs", "configurations"],
     "all bounded mixtures of spectra on either side of each threshold, mask patterns, fractions, coadd modes, file order",
     "Tests check single helper calls at one threshold.",
     [S + "scripts/qsonic_fit.py", S + "spectrum.py"],
     [("cuts", S + "scripts/qsonic_fit.py: mpi_read_spectra_local_queue, remove_short_spectra, mpi_read_calibrate_mask_select_spectra"), ("length", S + "spectrum.py: is_long, drop_short_arms, get_effective_meansnr")],
     ["list of kept spectra"])

prop("Q27", "Requested calibrations and masks reach every spectrum exactly once",
     "In a run of the analysis, every saved delta equals the input spectrum with each requested noise calibration, flux calibration, sky mask, BAL mask and DLA mask applied exactly once, and nothing that was not requested. "
     "This holds for coadds, tiles, mocks and single exposures read before or after fitting, for every arm-coadding mode, every combination of the options and any number of processes; requested additive noise enters the inverse variance once. "
     "A quasar is never masked or corrected with the entries of another one.",
     ["configurations", "inputs"],
     "all subsets of the five options x five kinds of input x three arm-coadding modes x 1-3 processes",
     "Tests apply single maskers to single spectra; no test runs an analysis with them.",
     [S + "scripts/qsonic_fit.py", S + "masks.py", S + "calibration.py"],
     [("reading masks", S + "scripts/qsonic_fit.py: mpi_read_masks, apply_masks"), ("calibrations", S + "scripts/qsonic_fit.py: mpi_noise_flux_calibrate, mpi_continuum_fitting"), ("maskers", S + "masks.py: SkyMask, BALMask, DLAMask")],
     ["delta-*.fits"])

prop("Q28", "Updates of the mean continuum and variance functions follow their definition",
     "In every wavelength bin the variance functions (var_lss, and eta when it is fitted) are the least-squares solution, bounded to (0, 2), for the collected variance statistics with their errors or covariance, using exactly the variance bins with enough pixels and enough quasars, or half of the limits when fewer than five remain; bins without five are not fitted and are filled by the smoothing spline, and more than 40% of such bins is an error on every process. "
     "The new mean continuum is the smoothed stack of residuals times the old one (of continua for input continua), filled where there is no data, without components along the fitted polynomials, and with unit mean; its error is that of the stack, scaled alike; convergence is reported exactly when the change is small compared with the error. "
     "Spectra whose fit is not valid have no influence, and updates leave spectra unchanged.",
     ["inputs", "configurations", "schedules"],
     "all assignments of statistics profiles to wavelength bins, all subsets of bins without data, all scatter patterns over variance bins, with/without eta, covariance and smoothing; polynomial orders, old continua, weights; distributions over two processes",
     "Tests check the variance fit for one ideal sample and do not check the update of the mean continuum.",
     [S + "picca_continuum.py"],
     [("variance fit", S + "picca_continuum.py: VarLSSFitter.fit, _get_wave_bin_slice_params, _smooth_fit_results"), ("mean continuum", S + "picca_continuum.py: update_mean_cont, _project_normalize_meancont")],
     ["fit results and errors", "meancont_interp", "return value"])

prop("Q29", "Products of one program are valid inputs of the next",
     "The attributes file of a fit and the file of the calibration tool can be used as noise and flux calibration of another fit, which then applies exactly the final variance functions and stacked flux saved in them; a file without these functions is refused on every process without output. "
     "The calibration tool run on saved deltas reproduces the stack of these deltas and, with the same binning, the variance statistics of the fit that wrote them. "
     "The coadding tool run on saved deltas or exposures, whatever their pixel width, gives one delta per quasar on the same wavelength grid, with usable pixels exactly where the inputs have them and values within those of the inputs, which the calibration tool accepts in turn.",
     ["configurations", "histories"],
     "chains of two to three programs over arm coadding, exposures, variance options, iterations, grouping and processes",
     "No test runs one program on the output of another.",
     [S + "scripts/qsonic_fit.py", S + "scripts/qsonic_calib.py", S + "scripts/qsonic_coadd_deltas.py", S + "calibration.py", S + "spectrum.py", S + "picca_continuum.py"],
     [("attributes", S + "picca_continuum.py: save, VarLSSFitter.write"), ("calibration input", S + "calibration.py: NoiseCalibrator, FluxCalibrator"), ("calibration tool", S + "scripts/qsonic_calib.py: mpi_run_all, mpi_stack_fluxes"), ("coadding tool", S + "scripts/qsonic_coadd_deltas.py; " + S + "spectrum.py: Delta")],
     ["attributes.fits", "delta-*.fits", "variance-stats file"])

prop("Q30", "A program that could not do its work ends everywhere and says so",
     "If reading, writing or closing any file, or creating the output folder, fails at any point on any process of qsonic-fit, qsonic-calib or qsonic-coadd-deltas, once or from then on, or if any input file is missing, cut, empty or not a file, no process is left waiting and the job ends with a failure status, unless all products are complete and equal to those of an undisturbed run. "
     "The same holds when no spectrum is usable and when the options are refused; a request for help is a success. "
     "A success status therefore implies that every product was saved in full.",
     ["fault points", "schedules", "configurations"],
     "every I/O operation of every process of nine program configurations as single or lasting fault; four kinds of damage of every input file; priority orders and synchronisation of 1-3 processes",
     "No test lets an I/O call fail or runs a program to its exit status.",
     [S + "scripts/qsonic_fit.py", S + "scripts/qsonic_calib.py", S + "scripts/qsonic_coadd_deltas.py", S + "mpi_utils.py", S + "io.py", S + "picca_continuum.py"],
     [("exit paths", S + "scripts/qsonic_fit.py: main; " + S + "scripts/qsonic_calib.py: main"), ("refused options", S + "mpi_utils.py: mpi_parse"), ("saving", S + "io.py: save_deltas; " + S + "mpi_utils.py: MPISaver")],
     ["exit status of every process", "Abort", "all output files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
