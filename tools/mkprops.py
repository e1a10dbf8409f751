"""Writes /verif/properties.jsonl from the table below (kept so that the file stays reviewable)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["swprocess/" + f for f in files],
                               state=[dict(name=n, meaning=m) for n, m in state],
                               mechanism=[dict(name=n, where="swprocess/" + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Stacking keeps the stack-weighted mean of every shot",
  "Stacking one record onto another replaces every sample by the mean of the two weighted by their stack counts and adds the counts, so that after any sequence of stacking operations, in any order or grouping, a record equals the plain average of all shots that went into it. "
  "Time step, delay, length, frequency step (also of a record padded to a multiple) and position stay as they were, and the record that was stacked is not changed. "
  "A record that differs in time step, delay, length or (for a receiver) position, or that is not a record, is refused with a ValueError and both records keep their content.",
  ["inputs", "histories"],
  "every pair of records, every stack count, and every finite sequence and grouping of stacking operations",
  "The tests stack one or two short hand-written records; weights only go wrong for unequal stack counts built up over a history.",
  ["activetimeseries.py", "sensor1c.py"], [("weighted running mean", "activetimeseries.py"), ("similarity check", "sensor1c.py")],
  ["ActiveTimeSeries.stack_append, Sensor1C.stack_append: amplitude, nstacks, argument"], [("nstacks", "number of shots averaged in the record")])

p("C02", "Trimming keeps exactly the samples of the window at their original times",
  "Trimming a record, or every receiver of an array, to a time window inside it keeps exactly the samples from the one nearest the start to the one nearest the end, unaltered and in order, and the time axis afterwards gives each kept sample its original time to within half a sample; this holds for windows before and after the trigger and for any sequence of trims. "
  "A window that begins before the record, ends after it, or does not begin before it ends is refused with an IndexError and leaves the record unchanged.",
  ["inputs", "histories"],
  "every record (time step, delay, length), every window, and every sequence of trims",
  "The tests trim a few records once; time-axis errors appear for pre-trigger records, windows that start after zero and repeated trims.",
  ["activetimeseries.py", "array1d.py"], [("delay bookkeeping on trim", "activetimeseries.py"), ("trim of every sensor", "array1d.py")],
  ["amplitude, time, delay, nsamples before and after trim"], [("delay", "time of the first sample relative to the trigger")])

p("C03", "Zero padding only appends zeros and delivers the requested frequency step",
  "Zero padding to a frequency step df keeps every recorded sample in place and only appends zeros, up to the smallest length that is a whole multiple of N=round(1/(df*dt)) and not shorter than the record. "
  "Afterwards the multiple equals that length divided by N, and the reported frequency step is 1/(N*dt), which is df whenever 1/(df*dt) is an integer. "
  "A step that is not positive, or so coarse that N is zero, is refused with a ValueError without changing the record, and padding an array treats every receiver this way.",
  ["inputs", "histories"],
  "every record, every df (shorter, equal, longer, divisible or not), and repeated padding",
  "The tests pad a handful of lengths; the multiple/padding arithmetic has four branches depending on two integers.",
  ["activetimeseries.py", "array1d.py"], [("padding and multiple", "activetimeseries.py"), ("zero_pad of every sensor", "array1d.py")],
  ["amplitude, nsamples, df, multiple, time after zero_pad"], [("multiple", "how many internal frequency steps make one reported step")])

p("C04", "Cross-correlation alignment finds the best shift and loses nothing else",
  "Aligning record b to record a returns the integer shift at which the cross-correlation of the two is largest, and b moved by that shift with zeros filled in at the vacated end, all other samples unchanged and the length kept, also where the records differ in length and that is allowed. "
  "The cross-correlated stack is the stack-count weighted mean of a and the aligned b with the counts added, and neither a nor b is modified, nor later through the results; the correlation itself holds the sum of products at every lag, or at the part of the lags asked for. Records that are not compatible are refused with a ValueError.",
  ["inputs"],
  "every pair of compatible records (any shift sign and size, any stack counts)",
  "The tests align a few short records with hand-computed shifts.",
  ["activetimeseries.py"], [("argmax of the correlation, shift and zero fill", "activetimeseries.py")],
  ["ActiveTimeSeries.crosscorr, crosscorr_shift, from_cross_stack"])

p("C05", "Copies are faithful and independent at every point of a record's history",
  "A copy of a record, receiver, source or array made at any point of its processing (after any sequence of trimming, padding, stacking, detrending or muting) equals the original in samples, time axis, delay, stack count, position, frequency step and multiple. "
  "The copy and the original never affect one another afterwards, whatever is done to either of them, and a record is independent of the arrays it was created from.",
  ["histories", "inputs"],
  "every history of operations before the copy and every operation after it, on either side",
  "The tests copy freshly created objects only; state accumulated by processing (positive delay, multiple) and aliasing show later.",
  ["activetimeseries.py", "sensor1c.py", "array1d.py", "source.py"], [("copy constructors", "activetimeseries.py"), ("from_sensor1c, from_activetimeseries", "sensor1c.py"), ("from_array1d", "array1d.py")],
  ["from_activetimeseries, from_sensor1c, from_array1d, from_source"], [("delay, multiple", "state that the constructor does not take")])

p("C06", "Array geometry: sorted receivers, true offsets, derived lengths",
  "An array holds every receiver it was given, each with its own record, in order of increasing position whatever the input order; duplicate positions or receivers with dissimilar records are refused with a ValueError. "
  "Offsets are the absolute distances along the array from the source to each receiver, in receiver order, the array centre distance is their mean, the resolution wavenumber is pi over the smallest receiver spacing, positions can be reported relative to the first receiver, and the spacing is reported only for equally spaced arrays (to a centimetre) and refused with a ValueError otherwise.",
  ["inputs"],
  "every receiver order, spacing, source position (either side, inside, at a receiver) and number of receivers",
  "The tests use a few regular arrays given mostly in order.",
  ["array1d.py"], [("sorting and checks on creation", "array1d.py"), ("offsets, kres, spacing", "array1d.py")],
  ["Array1D(...), position, offsets, kres, spacing, array_center_distance, nchannels"])

p("C07", "Offset trimming keeps exactly the receivers inside the limits",
  "Restricting an array to a range of offsets keeps exactly the receivers whose distance to the source lies strictly between the limits, with their records, in position order, wherever the source is and whatever the limits, including an unlimited maximum. "
  "If no receiver remains the request is refused with a ValueError and the array is unchanged.",
  ["inputs", "histories"],
  "every array, source position, pair of limits, and repeated trimming",
  "The tests trim one array with the source on the near side.",
  ["array1d.py"], [("offset filter", "array1d.py")], ["Array1D.trim_offsets: position, sensors"])

p("C08", "Muting zeroes everything outside each trace's window and tapers only inside",
  "Muting multiplies each trace by a taper spanning from its own start to its own end sample, given by the two lines in distance and time, and sets every sample outside to zero; samples keep their times, and nothing outside the window leaks from one trace to another; a trace whose window is empty, as it would start behind its end, is zero throughout. "
  "The lines are interpreted in the array's positions and true record times, for records that start before, at or after the trigger and for lines that leave the record; the default taper is a Tukey window with 20% taper and user keyword arguments replace it. "
  "Interactive muting applies and returns the lines through the picked points, in either orientation of the waterfall, and for one-sided mutes leaves the other boundary at the end of the record.",
  ["inputs"],
  "every array, delay, pair of boundary lines (level, sloping, leaving the record), taper and plot orientation",
  "The tests mute one array with zero delay inside the record; interactive muting is only tested with mocks.",
  ["array1d.py"], [("mute", "array1d.py"), ("interactive_mute", "array1d.py")],
  ["Array1D.mute, Array1D.interactive_mute: samples before and after; returned lines"])

p("C09", "Time-series matrix and automatic picks reflect the records and change nothing",
  "The amplitude matrix of an array has one row per receiver in position order holding that receiver's samples; optionally each row has its own least-squares line removed, and is divided either by its own largest magnitude or all rows by the overall largest magnitude; a row without amplitude stays zero. "
  "Automatic first-arrival picking returns, per receiver in position order, the time of the first sample whose detrended, per-trace normalised amplitude departs from the mean of the first ten samples by more than the threshold. "
  "Neither modifies the records and the matrix is independent of them.",
  ["inputs"],
  "every array, all combinations of detrend and normalisation, every threshold",
  "The tests check one small matrix and one pick.",
  ["array1d.py"], [("timeseriesmatrix", "array1d.py"), ("threshold picking", "array1d.py")],
  ["Array1D.timeseriesmatrix, Array1D.auto_pick_first_arrivals"])

p("C10", "Arrays survive a write to and read from an SU file",
  "Writing an array to a Seismic Unix file and reading it back yields the same array: receivers in the same order with their samples (to single precision), time step, pre-trigger delay (to a millisecond), stack count, x and y position and the source's x and y (to a millimetre). "
  "Writing does not modify the array, writes only the named file, and any other file type is refused with a ValueError.",
  ["inputs", "histories"],
  "every array within the number ranges of the format, negative and positive coordinates, any stack count, delay and preceding processing",
  "The tests round-trip one array of unit stacks and compare with an equality that is tolerant.",
  ["array1d.py", "sensor1c.py"], [("to_file header fields and scaling", "array1d.py"), ("SU header parsing", "sensor1c.py")],
  ["Array1D.to_file then Array1D.from_files"])

p("C11", "File headers are decoded to the same physical values in every format",
  "Reading an SU, SEGY or SEG2 file gives each receiver its samples, time step, stack count (zero read as one for SU and SEGY, one if a SEG2 file gives none), delay (zero if a SEG2 file gives none), and its position, and the source its position: for SU and SEGY each coordinate is the header integer multiplied by a positive or divided by a negative coordinate scalar (powers of ten, as the formats define), an unset scalar meaning one. "
  "User-supplied coordinate mappings are applied to the respective coordinate of receivers and source. "
  "Coordinate units other than length are refused with a ValueError, whereas unset units are accepted as length. "
  "A record or receiver made from a single trace takes the same values, or those given explicitly, shares no memory with the trace, and an unsupported format is refused with a NotImplementedError.",
  ["inputs"],
  "every header value combination (scalars of either sign and unset, any coordinates, delays, stack counts), every mapping, all three formats",
  "The tests read a few files with one scalar each and y mostly zero.",
  ["sensor1c.py", "array1d.py", "activetimeseries.py"], [("header parsing", "sensor1c.py"), ("source parsing", "array1d.py")],
  ["Array1D.from_files, Sensor1C.from_trace"])

p("C12", "Reading several files stacks them receiver by receiver",
  "Reading several shot files returns an array in which each receiver holds the stack-weighted mean of that receiver's traces over all files and the total stack count, independent of the order of traces within each file, of the order of the files, and of coordinate mappings. "
  "A file with a different source position, different receivers or different record parameters is refused with a ValueError rather than silently mixed in, and reading leaves the files untouched.",
  ["inputs", "histories"],
  "every number and order of files, every order of traces in them, every coordinate mapping, every kind of incompatibility",
  "The tests stack files of identical trace order without mapping.",
  ["array1d.py"], [("multi-file stacking", "array1d.py")], ["Array1D.from_files(list)"])

p("C13", "Beamforming power equals its definition",
  "For every frequency and trial velocity the frequency-domain beamformer returns s^H (R o W) s, where R is the cross-spectral matrix of the receiver spectra (divided by their magnitudes for inverse-amplitude weighting, a receiver without amplitude contributing nothing), W is the product of the two receivers' offsets for square-root weighting and one otherwise, and s holds the steering phases exp(-ikx) for plane waves or the phase-conjugate of the Hankel function J0(kx)+iY0(kx) for cylindrical waves, with k the trial wavenumber and x the source-receiver offset. "
  "The frequency-wavenumber transform is the case of plane steering and no weighting whatever else the settings say. "
  "This holds for the source on either side, unequal spacing, padded and decimated records.",
  ["inputs", "configurations"],
  "every array, weighting, steering, velocity vector, frequency range and padding",
  "No test runs the beamformer at all: it raised with the installed numpy and no test noticed.",
  ["wavefieldtransforms.py"], [("FDBF.transform and cross-spectral matrix", "wavefieldtransforms.py"), ("FK.from_array", "wavefieldtransforms.py")],
  ["from_array of the registered 'fdbf' and 'fk' transforms: power"])

p("C14", "Phase-shift power equals its definition",
  "For every frequency and trial velocity the phase-shift transform returns the magnitude of the trapezoidal integral over offset of exp(i2*pi*f*x/v) times the amplitude-normalised receiver spectrum, which is zero for a receiver without amplitude. "
  "This holds for the source on either side, unequal spacing, padded and decimated records, and does not depend on the amplitude of individual traces.",
  ["inputs", "configurations"],
  "every array, velocity vector, frequency range and padding",
  "The tests compare one stored image of one regular array.",
  ["wavefieldtransforms.py"], [("PhaseShift.transform", "wavefieldtransforms.py"), ("near-to-far ordering", "array1d.py")],
  ["from_array of the registered 'phaseshift' transform: power"])

p("C15", "Slant-stack power equals its definition",
  "For every trial velocity the slant stack is the trapezoidal integral over distance from the nearest receiver of the traces delayed by distance over velocity with linear interpolation between samples, for every intercept time at which all velocities are defined, and its power is the discrete Fourier transform over intercept time, zero-filled to the record length. "
  "This holds for the source on either side, unequal spacing, any order of trial velocities, padded and decimated records.",
  ["inputs", "configurations"],
  "every array, velocity vector, frequency range and padding",
  "The tests compare one small hand-made slant stack.",
  ["wavefieldtransforms.py"], [("SlantStack.slant_stack and transform", "wavefieldtransforms.py")],
  ["SlantStack.slant_stack, from_array of the registered 'slantstack' transform"])

p("C16", "Transforms recover the true velocity and respect physical symmetries",
  "For a noise-free wave travelling away from the source with a given phase velocity, constant or frequency dependent, the peak of every transform lies at the trial velocity closest to the true one at every resolvable frequency, whichever end of the array the source is at. "
  "The power image is unchanged when array and source are mirrored or moved together, and the frequency-normalised image when all records are scaled by one positive factor.",
  ["inputs", "configurations"],
  "every geometry with the source outside, every velocity inside the trial range, all transforms, weightings and steerings",
  "The tests check stored numbers, not recovery of a known velocity, and almost always with the source at the near end.",
  ["wavefieldtransforms.py", "array1d.py"], [("steering sign and near-to-far ordering", "wavefieldtransforms.py"), ("flip decision", "array1d.py")],
  ["find_peak_power and power of every registered transform"])

p("C17", "Dispersion images have the requested axes",
  "The velocities of a dispersion image are the requested number of values from the lowest to the highest trial velocity, equally spaced linearly or logarithmically as requested. "
  "Its frequencies are true Fourier frequencies of the record: they start at the one nearest the lowest requested frequency, proceed in the record's reported frequency step, and end at the last one not past the Fourier frequency nearest the highest requested frequency. "
  "Power has one row per velocity and one column per frequency, and each column is the power at the frequency it is labelled with, with or without padding and decimation.",
  ["inputs", "configurations"],
  "every record length, time step, padding, frequency range, velocity range, number and spacing, for every transform including the empty one",
  "The tests check single configurations and mostly without decimation.",
  ["wavefieldtransforms.py"], [("velocity vector and frequency selection", "wavefieldtransforms.py")],
  ["frequencies, velocities, power of every registered transform"])

p("C18", "Normalisation is reversible and peaks do not depend on it",
  "After any sequence of normalisation requests and plots the power of a dispersion image is the magnitude of the original power under the latest normalisation only: as is, divided by its overall maximum, or by each frequency's maximum, where a power of zero remains zero. "
  "The peak velocity at each frequency is the trial velocity of largest power magnitude, the same before and after any normalisation, and picking changes nothing; unknown methods are refused and leave the image unchanged.",
  ["histories", "inputs"],
  "every power image (real, complex, any scale) and every sequence of normalise, plot and pick operations",
  "The tests normalise once or twice from a real positive image.",
  ["wavefieldtransforms.py"], [("normalize with stored factor", "wavefieldtransforms.py"), ("find_peak_power", "wavefieldtransforms.py")],
  ["normalize, find_peak_power, plot"], [("normalisation factor", "what turns the current power back to absolute")])

p("C19", "Stacking dispersion images keeps the count-weighted mean",
  "Stacking dispersion images into an initially empty one yields, after any sequence and grouping, the mean of all stacked powers weighted by how many records each represents, the number of records being the sum; normalising or plotting what has been stacked so far does not change what the next stack gives but for keeping its magnitude only. "
  "The images that are stacked are not changed, an empty image contributes nothing and has the same axes a transform of that array with those settings has, and stacking something that is not an image, or with a ValueError an image on other axes, is refused and changes nothing.",
  ["histories", "inputs"],
  "every number of images, counts and groupings, including stacking stacks",
  "The tests stack two images.",
  ["wavefieldtransforms.py"], [("EmptyWavefieldTransform.stack", "wavefieldtransforms.py")], ["stack, n, power"], [("n", "number of records in the stack")])

p("C20", "Time-domain and single-file workflows do exactly the documented steps",
  "Running the time-domain workflow on files gives the transform of the receiver-wise stacked records after, in this order, restriction to the offset limits, linear detrending, time trimming, muting and zero padding, each applied only if requested and with the values given in the settings; the single-file workflow does the same for one file, using only the first, with a warning, if several are given. "
  "The axes, the array and the power in the result are those of that composition, and a source strictly inside the array is refused with a ValueError.",
  ["inputs", "configurations"],
  "every combination of settings, transform, number of files, geometry and coordinate mapping",
  "The workflow tests replace arrays and transforms by mocks, so no numerical result of a workflow is ever checked.",
  ["maswworkflows.py", "masw.py"], [("TimeDomainWorkflow.run", "maswworkflows.py"), ("SingleMaswWorkflow.run", "maswworkflows.py"), ("Masw.run", "masw.py")],
  ["Masw.run: frequencies, velocities, power, array"])

p("C21", "Frequency-domain workflow is the mean of the single-file results",
  "Running the frequency-domain workflow on several files gives the average over the files of the power each file alone gives with the same settings, on the same axes, each entry of the file list counted once whatever its stack count, independent of file order; the array in the result is that of the last file. "
  "A file with a different source or number of receivers, or whose power would be on other frequencies, is refused with a ValueError.",
  ["inputs", "configurations"],
  "every number and order of files and every combination of settings and transforms",
  "The workflow tests replace arrays and transforms by mocks.",
  ["maswworkflows.py", "wavefieldtransforms.py"], [("FrequencyDomainMaswWorkflow.run", "maswworkflows.py"), ("stack", "wavefieldtransforms.py")],
  ["Masw.run with workflow frequency-domain versus workflow single"])

p("C22", "Cross-correlation with the source signal preserves relative delays",
  "In the cross-correlation workflow each receiver's record is replaced by its cross-correlation with the average of the source signals over the source files, cut to one common range of lags that covers the arrivals of all receivers for the trial velocities, so delays between receivers are those of the full correlation and positions and stack counts are kept. "
  "The remaining steps are those of the time-domain workflow, and the peaks recover the true velocity of a sweep-like source signal; source signals whose time step is not that of the records are refused with a ValueError.",
  ["inputs", "configurations"],
  "every source signal, array, number of source files, source channel and velocity range with records longer than the fixed half-second margin",
  "No test runs this workflow.",
  ["array1d.py", "maswworkflows.py", "masw.py", "source.py"], [("Array1DwSource.xcorrelate and from_files", "array1d.py"), ("TimeDomainXcorrMaswWorkflow.run", "maswworkflows.py")],
  ["MaswXcorr.run: array, power"])

p("C23", "Processing runs are pure: inputs untouched, results independent",
  "A processing run never changes the settings, file-name lists or mappings it is given, nor the files it reads, and writes no file. "
  "Its result depends only on its inputs: repeated, interleaved or differently ordered runs in one process give identical results, and later runs or changes to later results never alter an earlier result.",
  ["histories", "configurations"],
  "every sequence of runs with any workflows, transforms and settings, sharing or not sharing settings objects and files",
  "Each test performs one run and checks only its result.",
  ["maswworkflows.py", "masw.py", "wavefieldtransforms.py", "array1d.py"], [("workflow state per run", "maswworkflows.py"), ("settings handling", "wavefieldtransforms.py"), ("registry", "register.py")],
  ["Masw.run arguments before and after, file hashes, opened files, results over a history"])

p("C24", "Signal-to-noise ratio is the ratio of mean spectra at the labelled frequencies",
  "The signal-to-noise ratio is, at each reported frequency, the mean over receivers of the magnitude spectrum of the signal window divided by that of the noise window, evaluated at exactly that frequency, for the requested frequency range and, when padding is requested, frequency step. "
  "Windows of unequal length without padding are refused with an IndexError, identical windows give exactly one, and in a workflow the windows are those given in the settings, taken from the records with noise before and signal after trimming and muting; this includes the cross-correlation workflow, where they are taken before the correlation.",
  ["inputs", "configurations"],
  "every signal and noise window, frequency range and padding with both windows padded to one length",
  "The tests check one window pair without decimation.",
  ["snr.py", "maswworkflows.py"], [("SignaltoNoiseRatio.from_array1ds", "snr.py"), ("select_noise, select_signal, calculate_snr", "maswworkflows.py")],
  ["SignaltoNoiseRatio.from_array1ds; snr and snr_frequencies of workflow results"])

p("C25", "Settings record every choice and survive serialisation",
  "The settings dictionary created from arguments holds every argument's value, converted to its declared type, in its own place and nothing else, for any combination of arguments; arguments left out take the documented defaults. "
  "Settings are independent of one another and of the arguments, and a settings dictionary that went through JSON drives a run to the same result.",
  ["configurations", "inputs"],
  "every combination of arguments",
  "The tests compare one full dictionary.",
  ["masw.py"], [("create_settings_dict", "masw.py")], ["Masw.create_settings_dict"])

p("C26", "Rejection removes exactly the peaks asked for, and only ever removes",
  "Rejecting peaks outside limits removes exactly the valid peaks whose attribute is strictly below the lower or strictly above the upper limit (one limit may be open), and rejecting a box removes exactly the valid peaks strictly inside it in the two chosen attributes. "
  "A rejected peak never comes back, peaks without a velocity are never valid, and after any sequence of rejections every attribute lists the same surviving peaks in the original order; a suite applies each rejection to all its members.",
  ["histories", "inputs"],
  "every set of peaks (1D and multi-maxima 2D, with missing values), every attribute including wavelength, slowness and wavenumber, every sequence of rejections",
  "The tests apply one or two rejections to small hand-made peaks.",
  ["peaks.py", "peakssuite.py"], [("reject_limits_outside, reject_box_inside", "peaks.py"), ("suite rejection", "peakssuite.py")],
  ["reject_limits_outside, reject_box_inside: all attributes before and after"], [("validity of each peak", "false once rejected")])

p("C27", "Peaks survive JSON, including rejections, and appends never lose data",
  "Writing peaks or a suite to JSON and reading them back gives the same identifiers in the same order, the same values of every attribute including missing ones, and the same set of rejected peaks. "
  "Appending to a file keeps everything in it; appending an identifier that already exists is refused with a KeyError and leaves the file byte for byte unmodified. "
  "Dictionaries used to create peaks are not changed and can be used again with the same result.",
  ["inputs", "histories"],
  "every set of peaks, any extra attributes, shapes and rejections, any sequence of write, append and read operations",
  "The tests round-trip small peaks without rejections.",
  ["peaks.py", "peakssuite.py"], [("to_json, from_json, from_dict", "peaks.py"), ("suite to_json, from_json", "peakssuite.py")],
  ["files written, objects read, input dictionaries"])

p("C28", "A suite never holds an identifier twice, and equality is about all content",
  "A suite holds exactly the peaks added to it in order, each identifier once: adding a duplicate identifier, or something that is not a set of peaks, by any route (append, lists, files, other suites) is refused and leaves the suite unchanged. "
  "Two sets of peaks are equal only if identifier, attributes, sizes and values agree, and two suites only if their members agree pairwise in order and number; equality is symmetric and reflexive.",
  ["histories", "inputs"],
  "every sequence of suite operations, every pair of peaks or suites",
  "The tests check one duplicate and a few unequal pairs.",
  ["peakssuite.py", "peaks.py"], [("append and constructors", "peakssuite.py"), ("__eq__", "peaks.py")],
  ["append, from_peaks, from_peakssuite, from_dict, ids, len, indexing, =="])

p("C29", "Reading .max files recovers every valid peak of the chosen wave type",
  "Reading geopsy .max output gives one set of peaks per time window in file order containing every valid line of the requested wave type, with its frequency, velocity (reciprocal slowness), azimuth, ellipticity, noise and power exactly as written and up to the declared number of maxima per frequency in file order, and no line of another window, wave type or marked invalid. "
  "Vertical-component files are read for Rayleigh waves, each file on its own merits when several are read, and identifiers combine window time and processing type. "
  "Files of an unsupported version are refused with a ValueError.",
  ["inputs"],
  "every .max file: number of windows, frequencies, maxima, interleaving of lines, number formats (exponents, inf, nan, integers), wave types and header content",
  "The tests read three real files of one style.",
  ["peaks.py", "peakssuite.py", "regex.py", "meta.py"], [("line patterns", "regex.py"), ("_parse_peaks", "peaks.py"), ("from_max", "peakssuite.py")],
  ["Peaks.from_max, PeaksSuite.from_max"])

p("C30", "Gridding of peaks interpolates valid data and never extrapolates",
  "The simplified form of peaks with several maxima per frequency takes, per frequency, the valid peak with the largest power (the first valid one if there is no power), consistently for every attribute, and skips frequencies without a valid peak; for single-maximum peaks it is the valid peaks. "
  "The array form of a suite has one row per member in order and one column per requested location, holding the linear interpolation of that member's valid simplified peaks and missing values outside their range.",
  ["inputs", "histories"],
  "every suite (1D, 2D, unsorted, with rejections, few or no valid points), every attribute pair and grid",
  "The tests grid one or two small suites.",
  ["peaks.py", "peakssuite.py"], [("simplify_mpeaks", "peaks.py"), ("to_array", "peakssuite.py")],
  ["simplify_mpeaks, to_array"])

p("C31", "Suite statistics are the sample statistics of the gridded data",
  "The statistics of a suite are, at each retained location, the mean and sample standard deviation of the members that have data there, locations with fewer members than the stated minimum being dropped and no others, with the locations returned in the given order. "
  "Correlations, if requested, are the correlation matrix of the retained data (with missing values replaced by the location's mean if requested), symmetric with unit diagonal where defined. "
  "Fewer than three members are refused with a ValueError, and computing statistics does not change the suite.",
  ["inputs"],
  "every suite of at least three members, every grid of fewer than one hundred locations, minimum count and option",
  "The tests check one suite.",
  ["peakssuite.py"], [("statistics and dropping", "peakssuite.py")], ["PeaksSuite.statistics"])

p("C32", "Interactive trimming rejects only what the user confirmed",
  "During interactive trimming a peak is rejected if and only if it lay inside a box drawn since the last pause in the axes that were clicked and that batch was then confirmed by continuing or quitting; an undo discards the whole batch. "
  "Boxes whose corners are clicked in any order mean the same, pairs of clicks in different axes and unknown answers are asked again without effect, and the session ends exactly when the user quits. "
  "Meanwhile the axes keep their view and show exactly the peaks that are not rejected, those boxed since the last pause set apart.",
  ["histories", "inputs"],
  "every suite, every sequence of boxes, stray clicks, pauses and answers, with one or two axes and log or linear scales",
  "The tests do not run the interactive loop beyond a scripted session.",
  ["peakssuite.py", "peaks.py"], [("interactive_trimming state machine", "peakssuite.py"), ("box drawing", "peakssuite.py")],
  ["interactive_trimming driven by scripted clicks and answers; surviving peaks"], [("pending rejections", "boxed but not yet confirmed")])

p("C33", "Derived peak quantities and resolution limits are mutually consistent",
  "For every valid peak slowness is 1/velocity, wavelength is velocity/frequency and wavenumber is 2*pi*frequency/velocity, in the order of the peaks and after any rejections. "
  "Resolution limits given as wavelength or wavenumber are drawn, in every supported pair of axes, as the curves on which that wavelength or wavenumber is constant and equal to the limit; unsupported pairs are refused rather than drawn.",
  ["inputs", "histories"],
  "every set of peaks, every supported axes pair, limit type and value",
  "The tests check few values and pairs.",
  ["peaks.py", "peakssuite.py"], [("derived properties", "peaks.py"), ("calc_resolution_limits", "peakssuite.py")],
  ["slowness, wavelength, wavenumber, calc_resolution_limits, plot_resolution_limits"])

p("C34", "Point-picking sessions return the accepted points in order",
  "A picking session returns the accepted points in the order picked: of each selection only the last point counts, an empty selection is asked again and adds nothing, and the session ends when the allowed number of points is reached or when the user signals the end after a point. Selecting is not limited in time or to the first click, and accepted points are marked on the axes. "
  "The initial view adjustment precedes the first selection and ends only with a key press.",
  ["histories"],
  "every sequence of selections (none, one, several points) and key presses, every allowed number of points and option",
  "The tests script two sessions.",
  ["interact.py", "array1d.py"], [("ginput_session", "interact.py"), ("manual_pick_first_arrivals", "array1d.py")],
  ["ginput_session and manual_pick_first_arrivals driven by scripted events"])

p("C35", "Peak plots draw exactly the valid (or masked) peaks",
  "Plotting peaks or a suite draws, on every requested pair of axes, exactly the valid peaks of each member, or exactly those selected by a mask, with the requested quantities on the requested axes, and labels and scales matching them. "
  "Per-member style lists are applied to the member in the same position, inconsistent numbers of axes, masks or attribute names are refused, and plotting changes neither peaks nor the caller's arguments. "
  "Plotting a suite's statistics draws, at every given location, the mean of the gridded data and a bar of one standard deviation to either side.",
  ["inputs", "histories"],
  "every suite after any rejections, every combination of quantities, masks and styles, on own or provided axes",
  "The tests check a few plots by attribute.",
  ["peaks.py", "peakssuite.py"], [("Peaks.plot", "peaks.py"), ("PeaksSuite.plot", "peakssuite.py")],
  ["lines on the matplotlib axes"])

p("C36", "Extraction writes exactly the requested span of each station",
  "Extracting time blocks from hourly, gap-free miniSEED files writes, for every row of the table, one file for that station in that row's folder that holds exactly the samples recorded from the requested start to the requested end, both inclusive (a bound between two samples may count the nearer sample just outside it or not), with their original times, values, sampling rate and channel. "
  "It works across hour, day, month and year boundaries, touches neither the input files nor the table, writes nothing else, and refuses a block that ends before it starts with a ValueError.",
  ["inputs"],
  "every table of blocks: any start and end within the recording, several stations, arrays and folders, new or existing output folders, any sampling rate",
  "The tests extract a few fixed blocks from stored files.",
  ["utils.py"], [("extract_mseed", "utils.py")], ["files written by extract_mseed"])

p("C37", "Least-squares inversion step equals the Gaussian posterior",
  "For a linear problem one step of the iterative least-squares algorithm returns the maximum-a-posteriori parameters from any starting point, and iterating stays there; with data equal to the prior prediction the prior is returned. "
  "The posterior covariance is the inverse of the sum of the prior and data information, is symmetric positive definite, and never exceeds the prior covariance; inputs are not modified.",
  ["inputs", "histories"],
  "every linear problem with positive definite prior and data covariances, over- and underdetermined",
  "The tests check one published example.",
  ["inversion.py"], [("Tarantola and Valette update", "inversion.py")],
  ["leastsquare_iterativealgorithm, leastsquare_posterioricovmatrix"])

p("C38", "Dispersion-statistics helpers rearrange and fill gaps without touching data",
  "Rearranging a data matrix for density permutes whole observations so that those starting at earlier locations come first, and neither changes, loses nor duplicates any; filling gaps changes only missing entries, drawn from the stated mean and standard deviation of their column and reproducible for a given random generator, and means and sample deviations of locations leave gaps out. "
  "Dropping sparse samples or observations removes only those below the thresholds in use and keeps all remaining values in order, in whichever of the two orders (locations or observations first) removes more gaps per value. For a rearranged matrix without empty locations, the density regions cover all locations one after the other and each has at least the requested density. "
  "The statistics of a whole data matrix, or of a suite, report the locations with enough data, the mean and sample deviation of the data there, and for data without gaps their correlation matrix, and leave the data given as they are.",
  ["inputs"],
  "every data matrix with any pattern of missing values, every threshold and seed",
  "The tests check one small matrix per helper.",
  ["stats.py"], [("sorting, filling, dropping, density regions", "stats.py")],
  ["matrix before and after each helper"])

p("C39", "Array and dispersion plots draw the data they claim to and leave it unchanged",
  "A waterfall plot draws one line per receiver at its own position (or relative position) against the record's true times, displaced by the detrended and normalised amplitude times the amplitude scale, with the time and distance axes as requested. "
  "The array plot shows every receiver and the source at their positions with the true count and spacing, and a dispersion-image plot shows the normalised image, the peak velocity per frequency and, if given, the near-field limit of mean offset over wavelength; colour maps, colour bars and styles are those given. "
  "None of them alters the array, and apart from the normalisation of its power the dispersion image stays the same.",
  ["inputs"],
  "every array, source position, time axis orientation, normalisation, scale and style",
  "The tests only check that plots can be created.",
  ["array1d.py", "wavefieldtransforms.py"], [("waterfall, plot", "array1d.py"), ("plot, plot_snr", "wavefieldtransforms.py")],
  ["lines, texts and contours on the matplotlib axes"])

p("C40", "Records, receivers, sources and arrays are equal exactly if their content is",
  "A record, receiver, source or array compares equal to itself, to its copy and to an object made of the same content, and unequal to one whose samples, number of samples, time step, delay, stack count, position (of receiver or source) or number of receivers differ by more than rounding, whatever the magnitude of its samples. "
  "Comparison does not depend on which side an object stands, != is its opposite, objects of other kinds compare unequal without an error, and comparing changes nothing.",
  ["inputs"],
  "every pair of objects that agree, or differ in one respect by a noticeable fraction, at any magnitude of samples",
  "The tests compare a few records of order one and trust this equality in many other tests, so an equality that is too lenient hides failures elsewhere.",
  ["activetimeseries.py", "sensor1c.py", "source.py", "array1d.py"], [("__eq__, _is_similar", "activetimeseries.py"), ("__eq__", "array1d.py")],
  ["results of == and !="])

p("C41", "Registered transforms and workflows are found and used by their name",
  "A class registered as a transform or as a workflow is returned unchanged by the registration, found under exactly its name in its own registry only until another class is registered under the same name, and instances made through the registry are of that class with the arguments given; a name nobody registered raises a KeyError. "
  "A run uses the workflow and the transform its settings name, built in or the user's own: the workflow is made of the files, settings and mappings given and its result returned, and the transform is applied once per array to be transformed, with the pre-processed records, the settings' velocities and the processing settings, its power being what is reported or averaged; coordinate mappings given to a run apply to the receivers and source of its array.",
  ["inputs", "histories", "configurations"],
  "every sequence of registrations and lookups in both registries, every user-defined transform and workflow",
  "The tests only use built-in names.",
  ["register.py", "masw.py", "maswworkflows.py"], [("AbstractRegistry", "register.py"), ("Masw.run", "masw.py")],
  ["create_class, create_instance, register; arguments recorded by registered classes"])

p("C42", "Calls leave the process and all files but those asked for as they found them",
  "No call into the package changes process-wide state of the application: numpy's and Python's global random generators, numeric error handling and print options, matplotlib's rcParams and backend, the working directory, the environment, the module search path, standard streams, warning filters, the root logger, locale, signal handlers and threads are as before, and no data file stays open. "
  "Calls that do not save anything write, create and remove no file; calls that save touch only the files and folders they are given (or by default the working directory, for extraction).",
  ["inputs", "histories", "configurations"],
  "every public call on every kind of input, whether it succeeds or is refused",
  "The tests look at results; a leaked handle, a changed default or a stray file shows up in code that runs later and elsewhere.",
  ["array1d.py", "peaks.py", "peakssuite.py", "utils.py", "masw.py", "wavefieldtransforms.py"], [("file output", "array1d.py"), ("logging and plotting", "peakssuite.py")],
  ["state of the process and audit events around every outermost call"])

p("C43", "The same calls on the same data give the same results at any time",
  "Results depend on the arguments (and the files they name) only: a sequence of calls repeated later in the same process on equal inputs, after any other use of the package (with calls in between whose arguments differ in one value only, too), gives the same results, the same object states and the same errors. Exempt are registrations, which are meant to last, and random fills without a given generator.",
  ["inputs", "histories"],
  "every sequence of public calls, with any other calls in between",
  "Tests run each call once in a fixed order; state that leaks between calls (shared defaults, caches, class attributes) needs a second call with other arguments.",
  ["array1d.py", "sensor1c.py", "peaks.py", "peakssuite.py", "wavefieldtransforms.py", "maswworkflows.py", "interact.py"], [("default arguments, class attributes", "wavefieldtransforms.py"), ("settings", "masw.py")],
  ["results, object states and errors of every outermost call"])

if __name__ == "__main__":
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
    out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
    out.write_text("".join(json.dumps(d) + "\n" for d in P))
    print(len(P))
