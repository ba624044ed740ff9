prop("C11", "Correlation results do not depend on how the data are laid out or masked",
     "For in-memory correlation (linear and multiple-tau, cross and auto, every method) the position of the time axis, memory alignment, trailing frame dimensions and negative axis numbers change only the position of the results, never their values; every pixel is correlated independently of all the others. Correlating a masked subset of pixels gives exactly the correlation of these pixels, and a streamed correlation with a mask is NaN outside of the mask and unchanged inside. The input arrays are never modified.",
     ["inputs", "configurations"], "all data values; all axes, alignment flags, masks and frame shapes within the bounds",
     "tests compare single random arrays for axis 0 and -1; masks are tested with one pattern",
     [CORE, MT], [("ccorr, acorr, _move_axis_and_align", CORE), ("ccorr_multi, acorr_multi", MT)])
prop("C12", "Background and variance statistics are those of the frames that were used",
     "The background and variance returned with streamed correlation data (linear and multiple-tau) are the mean and the variance, per camera and per pixel, of exactly the processed frames, whatever the chunk size, mask, thread divisor or method, and so are those given to a viewer after every chunk. The in-memory stats function gives the same for any axis. subtract_background subtracts exactly that mean, or the background given, along any axis, in place only if asked.",
     ["inputs", "histories", "configurations"], "all frame values, chunk sizes, stream lengths, masks and axes within the bounds",
     "tests compare the streamed result with numpy for one chunk size",
     [CORE, MT], [("_compute statistics, stats, subtract_background", CORE), ("_compute_multi_iter", MT)])
NORM = "cddm/norm.py"
prop("C13", "Standard normalisation is the mean product of the (background-subtracted) frame pairs",
     "For correlation data of any method-'corr' computation, baseline normalisation gives at every delay the mean over the frame pairs of the product minus the product of the backgrounds; the subtracted types give the mean product of the background-subtracted frames (whatever the background); the compensated type gives the mean product minus the product of the means of exactly the frames in the pairs. Adding a constant to all frames (and background) does not change subtracted or compensated results. Delays without pairs are not finite; complex data keep signed delays; multilevel data are normalised level by level with the same background.",
     ["inputs", "configurations"], "all frame values, backgrounds; regular, irregular and unsorted times; real, complex, cross, auto",
     "tests compare different methods with each other on one random data set, and never against the frames themselves",
     [NORM, NB], [("normalize", NORM), ("normalize_corr_*", NB)])
prop("C14", "Structured normalisation, difference mode and scaling are consistent representations",
     "Structured normalisation is the variance minus half the mean squared difference of the frame pairs (background-subtracted, compensated or with the squared background difference removed, as the type says), equal to what the difference method gives. Difference mode is twice the variance minus the correlation, scaling divides by the mean variance; with the true statistics the scaled structured correlation of a camera with itself is one and the difference zero at zero delay. For complex data the structured correction is applied to the real and the imaginary part.",
     ["inputs", "configurations"], "all frame values, backgrounds, variances; regular and irregular times; all norm types, modes, scale flags",
     "tests compare methods on random data whose statistics hide constant offsets",
     [NORM, NB], [("normalize, _corr2diff, _diff2corr", NORM), ("normalize_struct_*, _normalize_cdiff_*", NB)])
prop("C15", "Weighted normalisation is the optimal combination of the standard and the structured one",
     "The weighted result is w times the structured plus (1-w) times the standard result, for the weight the user gives (real or complex data, real and imaginary part separately) or for the weight that is returned. The computed weight is 2g/(|g|^2+1+delta^2) of the smoothed scaled estimate g and the scaled noise difference delta of the cameras, so it does not depend on units, mode or scaling; it lies between 0 and 1 for g between 0 and 1 and minimises the variance formula. The output array is used.",
     ["inputs", "configurations"], "all frame values, backgrounds, variances, weights, smoothed estimates, g and delta",
     "tests only check that the weight functions run",
     [NORM, NB], [("normalize (weighted), weight_from_data, noise_delta", NORM), ("weighted_sum, weight_from_g, sigma_weighted", NB)])
prop("C16", "Normalisation types are parsed, defaulted and checked against the data",
     "Flags and strings (any combination of the documented words, any case) give the documented integer, standard being added when no calculation mode is given. normalize accepts exactly the types the raw data support and rejects all others, invalid modes, missing backgrounds or variances and things that are not correlation data with ValueError. Without a type the richest type without compensation that the data support is used.",
     ["inputs", "configurations"], "all flag combinations, word combinations, integers -1..17 against all kinds of raw data",
     "tests try a few combinations",
     [NORM], [("norm_flags, norm_from_string, _norm_from_ccorr_data, _norm_from_cdiff_data, normalize", NORM)])
prop("C17", "Masks, scale factors and noise levels",
     "Normalising with a mask gives exactly the masked elements of the full result, and so does normalising the data, background and variance taken with the mask; take_data selects the masked elements and leaves the counts. The scale factor is the mean variance of the cameras (or the variance), the noise difference is the relative (or half the) difference of the variances, the mean noise is clipped to 0..1, the noise level is the summed squared window times the intensity. None of the functions modifies its inputs.",
     ["inputs", "configurations"], "all masks of the frame, all data, backgrounds, variances",
     "tests use one mask and do not check that inputs survive",
     [NORM], [("normalize, take_data, scale_factor, noise_delta, noise_mean, noise_level", NORM)])
prop("C18", "Log-averaging and merging put every data point at its time",
     "multilevel averages neighbours 1/4,1/2,1/4 and keeps every second point per level (or picks), which away from the borders is the average with the documented triangular kernel; missing points are NaN. merge_multilevel, log_average and log_merge return increasing times and, at each of these times, exactly the averaged point of that time, for any number of delays, level size, period, number of levels and frame shape, folding complex data when asked. Effective counts belong to the same points. normalize_multi normalises fast and slow data as normalize does. Invalid sizes, modes and missing arguments are rejected.",
     ["inputs", "configurations"], "all data; 1..20 delays, level sizes 2..6, periods 1..4, 1..3 slow levels",
     "tests check a few literal arrays",
     [MT, NORM], [("multilevel, merge_multilevel, log_average, log_merge, multilevel_count, normalize_multi, t_multilevel", MT)])
prop("C19", "Folding, equalising and shifting complex correlation data",
     "fold_data returns, for data with signed delays, the mean of each positive delay and the conjugate of its negative partner (mode 0), the positive (mode 1) or the negative delays (mode -1); zero delay is kept. equalize_data returns hermitian data whose value at every delay is the geometric mean of the value and its conjugate partner, and shift_data removes a translational phase (data that differ from hermitian data by a phase linear in the delay come out hermitian). Inputs are not modified.",
     ["inputs", "configurations"], "all complex data values, 1..8 delays, modes, frame shapes",
     "tests call the functions on one random array; a wrong partner or sign shows only for data that are not hermitian",
     [NORM], [("fold_data, equalize_data, shift_data, translation_phase", NORM)])
MAP = "cddm/map.py"
prop("C20", "Half-space and full-space Fourier data are two views of the same data",
     "from_rfft2_data/as_rfft2_data, the mask and index conversions and the crop functions never mix up wavevectors: converting half-space data of a real frame to full space gives the hermitian-symmetric data with the right size, converting back gives the original elements, for even and odd sizes and stacked frames. Cropping keeps exactly the wavevectors up to the limits at the positions of the frequencies of a smaller grid, commutes with conversion, and kimax=0 or kjmax=0 keeps just the zero frequency.",
     ["inputs", "configurations"], "all spectra of real frames of heights and widths 1..9, all crop sizes, all masks",
     "tests use a single even frame size",
     [MAP, "cddm/fft.py"], [("from_rfft2_data, as_rfft2_data, from_rfft2_mask, as_rfft2_mask", MAP), ("rfft2_crop, fft2_crop", "cddm/fft.py")])
prop("C22", "Wavevector maps and sectors contain the right wavevectors",
     "Every element of half- or full-space data has the wavevector (kj, -ki) of its DFT frequency in units of the smaller step (the steps being inversely proportional to the frame size), kangle gives size and angle of it. For any sector centre and width and any k resolution, the sector index map holds the ring number (i-1/2)*kstep < k <= (i+1/2)*kstep for exactly the elements with angle in [centre-width/2, centre+width/2) modulo 360 degrees, -1 elsewhere, 0 at k=0: adjacent sectors cover every wavevector exactly once. Out-of-range angles and widths raise ValueError.",
     ["inputs", "configurations"], "every sector angle, width and k resolution (symbolic reals); grids up to 7x7, several aspect ratios",
     "tests use four angles; sectors crossing +-180 degrees and their borders are not tested",
     [MAP], [("fft2_grid, rfft2_grid, fft2_kangle, rfft2_kangle", MAP), ("fft2_sector_indexmap, sector_indexmap, fft2_k_indexmap, k_indexmap", MAP)])
FFT, VID, VIEW, SIM, SIMNB = "cddm/fft.py", "cddm/video.py", "cddm/viewer.py", "cddm/sim.py", "cddm/_sim_nb.py"
prop("C21", "Spatial Fourier transforms of videos",
     "rfft2, fft2 and their video forms give for every frame of every camera the discrete Fourier transform at exactly the requested wavevectors (cropped at the limits), in the configured complex type, whichever FFT library and in-place option is chosen, and leave the input unchanged unless asked; limits beyond the frame raise ValueError. normalize_fft divides every frame by its zero frequency. The dls functions give the cyclic convolution of the frame with the window modulated by each wavevector, reduced to the requested resolution.",
     ["inputs", "configurations"], "all frame values and windows; all crop limits, libraries, in-place options, wavevectors within the bounds",
     "tests run the functions on a constant frame and compare libraries only",
     [FFT], [("rfft2, fft2, rfft2_video, fft2_video", FFT), ("normalize_fft, dls, dls_video", FFT)])
prop("C23", "k-selection and viewers average exactly the selected wavevectors",
     "k_select returns for each ring the mean over exactly the elements of the ring and sector (half-space data count for both half-planes, conjugated where needed; masked or missing elements are left out) and the mean size of their wavevectors, for complete and masked data, any k argument and stacked data. The data, correlation, multiple-tau and array viewers show exactly this mean of the normalised (folded, log-averaged) data at the current selection, in the chosen representation, with the right times and k, however often the selection changes; empty selections and missing data are reported.",
     ["inputs", "configurations", "histories"], "all data values, sector centres (symbolic), widths, resolutions, masks",
     "tests call k_select with one full-space configuration; no test looks at what viewers show",
     [MAP, VIEW], [("k_select, k_indexmap", MAP), ("DataViewer, CorrViewer, MultitauViewer, DataArrayViewer, CorrArrayViewer", VIEW)])
prop("C24", "Frame-by-frame video processing applies the operation to every frame of every camera",
     "multiply, add, subtract, normalize_video, crop and mask videos yield as many multi-frames as the (shorter) input, in order and one at a time, each camera processed with its own operand; the data type is that requested, inputs are changed only in place if asked, several operations can be chained, and streams, numbers of cameras or regions of interest that do not fit are rejected.",
     ["inputs", "histories", "configurations"], "all frame values, crop limits, masks, lengths of the streams",
     "tests use one constant video per function",
     [VID], [("multiply, add, subtract, normalize_video", VID), ("crop, mask", VID)])
prop("C25", "Videos are loaded, passed through threads and played completely and in order",
     "asarrays, asmemmaps, load and fromarrays keep every frame of every camera at its position; load_threaded and play_threaded yield every frame exactly once, in order, and end, under every interleaving of reader thread and consumer and every queue size; play shows only frames of the video, each camera in order, at most once, and every frame when it is in time; difference and Fourier images show what is documented; random_video has the requested size and range.",
     ["schedules", "inputs"], "every interleaving at queue operations, every clock, all frame values",
     "tests run one uncontrolled schedule and never compare frames",
     [VID], [("asarrays, asmemmaps, load, fromarrays", VID), ("load_threaded, play, play_threaded, figure_title", VID), ("show_video, show_diff, norm_rfft2, random_video", VID)])
prop("C26", "The camera model converts the signal by its documented formula",
     "adc returns (signal - black level)/saturation times the largest number of the bit depth, truncated and clipped to the valid range, in uint8 or uint16, for any signal, black level and saturation; the result never decreases with the signal and spans the full range. The gaussian model adds readout noise and a normal number times the square root of the sum, the poisson model is the sum of two poisson numbers with the signal and the readout noise as mean (none if zero). Pixels have independent noise, inputs are not modified, unknown models are rejected.",
     ["inputs", "configurations"], "every signal, black level, readout noise and random number",
     "there are no tests of the camera model",
     [SIM, SIMNB], [("adc", SIM), ("adc_clean, shot_noise_gaussian, shot_noise_poisson, adc_8bit ... adc_16bit", SIMNB)])
prop("C27", "Simulated particles move by the documented steps and stay in the box",
     "mirror moves coordinates by whole box lengths into the half-open box. Every step of a Brownian walk adds a normal number times delta*sqrt(dt) plus velocity*dt per particle and axis (numbers, arrays or functions of the coordinates) and stays in the box, starting with the initial coordinates; random starts cover the box. Camera coordinates are rotated around the centre, shifted and moved into the frame. Drawing adds to every pixel around a particle the truncated Gaussian spread function at the distance of the pixel centre, wrapped at the borders; form_factor is its root mean square transform.",
     ["inputs", "histories"], "all coordinates, velocities, random numbers; all positions on small frames",
     "tests check mirror at four values and that videos run",
     [SIM, SIMNB], [("brownian_walk, brownian_particles, coordinate_transform, form_factor", SIM), ("mirror, make_step, draw_points, draw_psf, psf_gauss", SIMNB)])
prop("C28", "Trigger schedules keep their distances and simulated frames belong to their trigger times",
     "create_random_time places one trigger in every period, never closer than the minimum distance and with every allowed sequence possible; create_random_times1 and 2 place camera 1 in the first half of the double period and camera 2 at its start or middle (2: or together with camera 1), so that delays are in -n+1..n. data_trigger yields exactly the elements at the indices. Simulated videos pair, for any two increasing schedules, the k-th frame of both cameras, each showing the particles at its own trigger time on the background, and stop after the shorter schedule.",
     ["inputs", "histories"], "every sequence of random numbers; every pair of increasing schedules within the bounds",
     "tests only run the functions once",
     [SIM], [("create_random_time, create_random_times1, create_random_times2", SIM), ("data_trigger, particles_video, simple_brownian_video", SIM)])
WIN, AVG, CONF, PRINT = "cddm/window.py", "cddm/avg.py", "cddm/conf.py", "cddm/print_tools.py"
prop("C29", "Window functions have their documented shape for every parameter",
     "For frames of any (also non-square, odd, single-row) shape, blackman, hann, tukey and gaussian return an array of this shape, centred on the middle of the frame, whose radius is measured from the pixel centres in half widths of the frame: blackman 0.42 + 0.5cos(pi r) + 0.08cos(2 pi r) and 0 for r >= 1; tukey 1 up to r = 1 - alpha, then half a cosine, 0 for r >= 1, always between 0 and 1, alpha = 1 is the hann window and alpha = 0 an aperture; gaussian exp(-r^2/(2 sigma^2)). Invalid alpha or sigma raise ValueError. A given output array is filled completely and returned.",
     ["inputs"], "every alpha in [0, 1] and sigma > 0, every previous content of the output array, for each shape within the bounds",
     "tests do not cover window.py",
     [WIN], [("blackman, gaussian, tukey, hann", WIN)])
prop("C30", "Filters and interpolation compute what they document for every data",
     "convolve applies the kernel [1/4, 1/2, 1/4] and median the middle one of three neighbours, along the last axis of real or complex data with unchanged ends; denoise alternates n times median and convolve; decreasing (increasing) is the running minimum (maximum), which skips missing values; interpolate is piecewise linear through the points, extrapolated at both ends; log_interpolate is linear in log(x) between points at x >= 1, passes through every point and also extrapolates; weighted_sum is x w + (1-w) y, on its own for real and imaginary part. Inputs are not modified and a given output array is used.",
     ["inputs"], "all data of the bounded lengths with any order of values and any interpolation position",
     "tests compare one random array with a slower implementation",
     [AVG, NB], [("convolve, median, decreasing, increasing, interpolate, log_interpolate, weighted_sum", NB), ("denoise", AVG)])
prop("C31", "Verbosity and run-time settings behave like a stack and never influence results",
     "print1 and print2 (also print_frame_rate, print_progress) print exactly if the verbosity is at least 1 and 2. disable_prints silences everything and returns the previous level, enable_prints(level) restores it exactly, for any nesting. After every computation (correlation, multiple tau, iterative, normalization, averaging) the verbosity is what it was, at level 0 nothing was printed, and the results do not depend on it. set_verbose, set_showlib, set_fftlib, set_rfft2lib, set_fft_threads and set_numba_threads return the previous setting and change only their own; a library that is not installed leaves the setting unchanged with a warning, an unknown one raises ValueError.",
     ["inputs", "histories"], "every verbosity level, nesting, previous setting and combination of installed libraries",
     "tests run with one level and never look at the settings after a computation",
     [CONF, PRINT, "cddm/core.py", "cddm/multitau.py", "cddm/norm.py"],
     [("disable_prints, enable_prints, print1, print2, print_progress, print_frame_rate", PRINT), ("set_verbose, set_fftlib, set_rfft2lib, set_showlib, set_fft_threads, set_numba_threads", CONF)])
prop("C32", "Settings at import come from the environment, then cddm.ini, then the defaults, and are consistent",
     "For each of CDDM_TARGET_PARALLEL, CDDM_NUMBA_CACHE, CDDM_FASTMATH and CDDM_DOUBLE_PRECISION a number in the environment decides (zero: off, any other: on); if it is not set or not a number the option of cddm.ini decides, and if this is missing or invalid the default. All data types, numba types and the name of the precision agree with each other. Verbosity, FFT libraries, viewer library and thread numbers are those of cddm.ini (never negative, never more threads than numba accepts); a library that is not installed is not selected and gives a warning, an unknown one raises ValueError. cddm.ini is created from the template if there is none and otherwise left as it is.",
     ["configurations"], "every integer in the environment, every flag and integer in cddm.ini, every combination of set, missing and invalid options, installed libraries and available threads",
     "tests run with one configuration of one machine",
     [CONF], [("_read_environ_variable, _readconfig, module level of conf.py", CONF), ("set_verbose, set_fftlib, set_rfft2lib, set_showlib, set_fft_threads, set_numba_threads", CONF)])
