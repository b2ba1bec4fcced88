import json
P=[]
def p(id,title,stmt,over,qt,why,files,mech,obs,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,
     "quantifier":{"over":over,"text":qt},"why_tests_cant":why,
     "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],
       "state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
       "observe_at":obs,"hook_needed":hook or "none"}})
S="src/"
p("C01","The score equals the published ViSQOL v3 computation, end to end",
 "For any reference/degraded pair and any mode (audio, speech) and option setting, a successful comparison reports the quality score, overall similarity, per-band similarity, low-quantile, spread and energy vectors, centre frequencies, lag and per-patch results that the published algorithm (align, level-match, gammatone spectrograms, noise floor, patch selection, patch search, fine realignment, NSIM, pooling, quality model) yields for that pair, up to rounding. The conformance recordings keep the scores of the stated conformance version.",
 ["inputs","configurations"],"all pairs of finite signals of any length, level and sample rate; audio/speech, SVR/lattice/exponential mapping, scaled or not, alignment and realignment on/off, any search radius",
 "The end-to-end (conformance) tests do not build here and sample a handful of 48 kHz/16 kHz recordings; nothing checks other content, rates, options or the intermediate vectors.",
 [S+"visqol_manager.cc",S+"visqol.cc",S+"comparison_patches_selector.cc",S+"gammatone_spectrogram_builder.cc",S+"include/conformance.h"],
 [("pipeline orchestration",S+"visqol.cc CalculateSimilarity"),("mode/option wiring",S+"visqol_manager.cc Init/Run")],
 ["VisqolManager::Run result message"])
p("C02","Every successful result is finite, in range and internally consistent",
 "Every successful comparison of finite signals of ordinary magnitude reports only finite numbers, a quality score in [1,5], similarities at most 1, non-negative spreads, ascending positive centre frequencies, and vectors whose length is the mode's band count (32 audio, 21 speech). The overall similarity is the mean of the per-band similarities, each of which is the mean over patches of the patch values; each low-quantile value never exceeds its band mean, each patch similarity is the mean of its bands (a dropped patch is all zero), and an overall similarity below 0.15 always scores 1. Patch times are ordered: reference patches appear in increasing time order, ends follow starts, and matched degraded patches never go backwards before fine realignment.",
 ["inputs","configurations"],"all successful comparisons, including silence, clipping, noise, DC, extreme gain, lost packets, differing lengths, all options",
 "Tests look only at the score of a few clean recordings; the relations between the reported fields are asserted nowhere.",
 [S+"visqol.cc",S+"visqol_manager.cc",S+"proto/similarity_result.proto"],
 [("pooling over patches",S+"visqol.cc CalcPerPatch*"),("score clamp and similarity floor",S+"visqol.cc AlterForSimilarityExtremes, *_to_quality_mapper.cc"),("result message",S+"visqol_manager.cc PopulateSimResultMsg")],
 ["SimilarityResultMsg"])
p("C03","Comparing any two signals never crashes, hangs or touches invalid memory",
 "For any pair of mono signals - empty, one sample, shorter or longer than an analysis window or patch, very different lengths, any sample rate, any finite or extreme sample values - and any search radius, mode and option, a comparison terminates with either a result or an error status: no memory error, undefined behaviour, escaped exception, abort or unbounded loop.",
 ["inputs","configurations"],"all signal lengths x rates x contents x options, through the library entry points",
 "Tests run a few well-formed recordings without sanitizers; boundary lengths and rates (window, hop, patch, power-of-two edges) are not sampled.",
 [S+"visqol_manager.cc",S+"alignment.cc",S+"xcorr.cc",S+"fft_manager.cc",S+"comparison_patches_selector.cc",S+"vad_patch_creator.cc",S+"image_patch_creator.cc",S+"gammatone_spectrogram_builder.cc"],
 [("too-short checks returning error statuses",S+"gammatone_spectrogram_builder.cc Build, image_patch_creator.cc, vad_patch_creator.cc"),("input validation",S+"visqol_manager.cc ValidateInputAudio"),("clamped search window and padding",S+"comparison_patches_selector.cc")],
 ["process exit / sanitizer reports / returned status"])
p("C04","Reading a WAV file yields exactly its PCM samples, rate and channels",
 "For every well-formed 16-bit PCM WAV file (format chunk first; plain or extensible format, any channel count and rate, with extra chunks of even or padded odd size before or after the audio data) the loaded signal has the file's sample rate and one sample per frame equal to the stored value divided by 32768, in order, with nothing lost, duplicated or taken from neighbouring chunks. Reading in pieces of any size delivers the same samples, never more than the file's audio data, and the reported totals and duration match.",
 ["inputs","histories"],"all header layouts, extra chunks, lengths, channel counts, rates and all sequences of partial reads",
 "Tests load two recordings and one empty stream; no other header layout, odd chunk, partial-read sequence or sample value is checked.",
 [S+"wav_reader.cc",S+"misc_audio.cc",S+"misc_math.cc"],
 [("header/chunk parser",S+"wav_reader.cc ParseHeader"),("sample reader with remaining count",S+"wav_reader.cc ReadSamples"),("int16 to double scaling",S+"misc_math.cc NormalizeInt16ToDouble")],
 ["WavReader accessors and buffers","MiscAudio::LoadAsMono"],[("remaining samples","audio samples not read yet",S+"wav_reader.cc")])
p("C05","Malformed or truncated WAV files are rejected without memory errors",
 "Whatever bytes a file contains - truncated, corrupted or hostile headers, absurd sizes, wrong formats - loading it terminates without memory error, undefined behaviour, escaped exception or memory use out of proportion to the file, and either yields only data present in the file or reports failure as an empty signal. A header is accepted only if it is RIFF/WAVE, 16-bit PCM or extensible, with at least one channel and a non-empty, sample-aligned data chunk, and the files in a comparison that cannot be loaded make it fail with an error status.",
 ["inputs","fault_sequences"],"all byte strings; in particular every truncation point and field mutation of valid files",
 "Tests feed one empty stream and two good files; no truncation or field corruption is sampled and no sanitizer is used.",
 [S+"wav_reader.cc",S+"misc_audio.cc",S+"visqol_manager.cc"],
 [("header validation",S+"wav_reader.cc ParseHeader"),("bounded reads",S+"wav_reader.cc ReadBinaryDataFromStream"),("empty-signal error path",S+"misc_audio.cc LoadAsMono")],
 ["WavReader::IsHeaderValid, LoadAsMono result, VisqolManager::Run status, sanitizer reports"])
p("C06","Multichannel input is compared as the mean of its channels",
 "Downmixing a signal of any channel count gives, for each frame, the arithmetic mean of that frame's channels, leaves mono signals untouched and keeps length and sample rate. Comparing files therefore gives exactly the result of comparing the decoded, averaged samples in memory, independent of channel order and of duplicating a mono signal into identical channels.",
 ["inputs"],"all channel counts, contents and lengths, in memory and through files",
 "One stereo recording is loaded and only its size is checked; channel mapping and values for other counts are not.",
 [S+"misc_audio.cc",S+"visqol_manager.cc"],
 [("de-interleaving",S+"misc_audio.cc ExtractMultiChannel"),("downmix",S+"misc_audio.cc ToMono"),("file entry point",S+"visqol_manager.cc Run")],
 ["MiscAudio::ToMono, LoadAsMono, VisqolManager::Run(files) vs Run(signals)"])
p("C07","The playback level of the degraded signal does not affect the result",
 "Multiplying the degraded signal by any positive gain leaves every reported result unchanged up to rounding, because it is first scaled to the reference's sound pressure level (20 log10 of RMS over 20 micropascal). After that scaling its level equals the reference level and its waveform is only multiplied by one constant.",
 ["inputs"],"all signal pairs and gains over many orders of magnitude, both modes, zero and non-zero mean signals",
 "No test changes the level of an input.",
 [S+"misc_audio.cc",S+"visqol.cc"],
 [("level matching",S+"misc_audio.cc ScaleToMatchSoundPressureLevel"),("order of stages",S+"visqol.cc CalculateSimilarity")],
 ["VisqolManager::Run with scaled inputs","MiscAudio::ScaleToMatchSoundPressureLevel"])
p("C08","Global alignment finds and compensates the true delay",
 "When the degraded signal is a delayed or advanced copy (possibly noisy or rescaled) of the reference, the reported lag equals that shift to the sample for any shift up to half the reference length, positive when silence had to be put in front of the degraded signal, and the aligned signal is the degraded one with exactly that many zero samples prepended or samples removed. The lag always maximises the cross-correlation of the two upper envelopes; if that maximum lies beyond half the reference length or is zero, the degraded signal is left as it is and lag zero is reported.",
 ["inputs"],"all signals, lengths (odd, even, powers of two), sample rates and shifts, with and without alignment disabled",
 "The alignment tests do not build here and use one recording with two lags.",
 [S+"alignment.cc",S+"envelope.cc",S+"xcorr.cc"],
 [("envelope cross-correlation",S+"xcorr.cc FindLowestLagIndex, envelope.cc"),("shift, pad, limit",S+"alignment.cc GloballyAlign"),("align and cut to common length",S+"alignment.cc AlignAndTruncate")],
 ["Alignment::GloballyAlign, AlignAndTruncate","SimilarityResultMsg.alignment_lag_s"])
p("C09","Patch search returns the best ordered assignment within the search window",
 "For any reference patches and degraded spectrogram, the patches reported are an assignment that maximises total similarity among all assignments in which each reference patch is either matched at a frame within its search window, strictly later than the previous patch's frame, or dropped with zero similarity at the previous frame. Patches reaching beyond the degraded signal are compared with silence, patches starting too far past its end are left out (an error if none remain), and the reported times and similarities are those of the chosen frames.",
 ["inputs","configurations"],"all similarity tables, patch positions, patch sizes, degraded lengths and search radii",
 "Five hand-made examples with small tables; ties, clipped windows, dropped packets, short degraded signals and negative similarities are not enumerated.",
 [S+"comparison_patches_selector.cc"],
 [("dynamic programme and backtrace",S+"comparison_patches_selector.cc FindMostOptimalDegPatch(es)"),("padding",S+"comparison_patches_selector.cc BuildDegradedPatch"),("dropping out-of-range patches",S+"comparison_patches_selector.cc CalcMaxNumPatches")],
 ["FindMostOptimalDegPatches with an injected similarity comparator"],[("cumulative similarity and backtrace tables","best total per patch and frame",S+"comparison_patches_selector.cc")])
p("C10","Fine realignment never lowers a patch's similarity and reports true times",
 "After fine realignment every patch's similarity is at least its value before; a patch is replaced exactly when re-aligning its own reference and degraded audio gives at least the old similarity, and otherwise it is reported unchanged, as are dropped patches. A replaced patch's start times move by the patch lag on exactly one side and its durations are those of the audio compared; with realignment disabled the patches are those of the search.",
 ["inputs","configurations"],"all signals with local time shifts, drift, cuts and noise, all patch positions including the signal's ends",
 "Tests cover one slice of one impulse signal; realignment itself is not exercised by any stable test.",
 [S+"comparison_patches_selector.cc",S+"alignment.cc",S+"visqol.cc"],
 [("slice, realign, rebuild, accept if not worse",S+"comparison_patches_selector.cc FinelyAlignAndRecreatePatches, Slice"),("realignment switch",S+"visqol.cc CalculateSimilarity")],
 ["FinelyAlignAndRecreatePatches; results with realignment on and off"])
p("C11","Patch similarity is the NSIM measure",
 "For any two equal-sized patches the per-band means, per-band (sample) standard deviations, degraded energy and overall similarity equal the NSIM definition: 3x3 Gaussian-weighted local means and (co)variances with replicated borders, intensity times structure terms with the standard stabilising constants, averaged over time then bands. It is symmetric in its arguments, never exceeds 1, and is exactly 1 (up to rounding) in every band for identical patches.",
 ["inputs"],"all patch contents and sizes, including constant, tiny, huge, sparse and negatively correlated patches",
 "No stable test calls the similarity measure itself.",
 [S+"neurogram_similiarity_index_measure.cc",S+"convolution_2d.cc",S+"amatrix.cc"],
 [("NSIM",S+"neurogram_similiarity_index_measure.cc"),("bordered convolution",S+"convolution_2d.cc")],
 ["MeasurePatchSimilarity"])
p("C12","Identical reference and degraded signals get the best possible result",
 "Comparing any non-silent signal with itself reports similarity 1 overall, in every band, quantile and patch, zero spread, zero lag and patch times that coincide, and the quality score that the mode's model assigns to perfect similarity: exactly 5 for scaled exponential speech mode. No other degraded signal scores a higher overall similarity against that reference.",
 ["inputs","configurations"],"all non-silent signals long enough to compare, all rates, modes and options",
 "Only one identity pair exists in the (unbuildable) conformance test and only its score is compared.",
 [S+"visqol.cc",S+"visqol_manager.cc",S+"comparison_patches_selector.cc",S+"speech_similarity_to_quality_mapper.cc"],
 [("full pipeline",S+"visqol.cc"),("mapping of perfect similarity",S+"speech_similarity_to_quality_mapper.cc, svr_similarity_to_quality_mapper.cc")],
 ["VisqolManager::Run(x,x)"])
p("C13","Spectrograms follow the ERB gammatone specification",
 "For any signal the spectrogram has 1+floor((N-window)/hop) columns of 80 ms Hann-windowed frames with 75% overlap, and each cell is the RMS of that frame passed from rest through the fourth-order gammatone filter of its band; bands are uniformly spaced on the ERB scale from 50 Hz to half the sample rate (at most 8 kHz in speech mode), reported in ascending order of centre frequency. The filter coefficients, centre frequencies and frame contents depend only on the signal, rate and mode, frames are independent of one another, and signals not longer than one window are refused with an error.",
 ["inputs","configurations"],"all lengths (around window/hop multiples), sample rates, band counts and contents",
 "Tests check a few values of one recording at one rate.",
 [S+"gammatone_spectrogram_builder.cc",S+"gammatone_filterbank.cc",S+"equivalent_rectangular_bandwidth.cc",S+"signal_filter.cc",S+"analysis_window.cc",S+"complex_valarray.cc"],
 [("frame loop",S+"gammatone_spectrogram_builder.cc Build"),("filter design",S+"equivalent_rectangular_bandwidth.cc MakeFilters"),("filter cascade",S+"gammatone_filterbank.cc ApplyFilter, signal_filter.cc"),("window",S+"analysis_window.cc")],
 ["Build, MakeFilters, ApplyFilter, Filter, ApplyHannWindow"],[("filter conditions","per-band filter state, reset per frame",S+"include/gammatone_filterbank.h")])
p("C14","Spectrogram levels are converted and floored as specified",
 "Before comparison every cell is converted to 10 log10 of its magnitude (an exact zero to that of machine epsilon), raised to at least -45 dB, raised in each frame both signals share to within 45 dB of that frame's loudest cell of either signal, and shifted by the common minimum of both. The result is the same whichever signal is louder, has minimum zero across the pair, and frames only one signal has keep their absolute floor.",
 ["inputs"],"all spectrogram pairs: different lengths, zeros, huge dynamic range, silence in one or both",
 "Tests check three tiny matrices per operation, and never the two-signal preparation.",
 [S+"misc_audio.cc",S+"spectrogram.cc"],
 [("preparation",S+"misc_audio.cc PrepareSpectrogramsForComparison"),("floors and dB",S+"spectrogram.cc")],
 ["PrepareSpectrogramsForComparison, Spectrogram operations"])
p("C15","Reference patches cover the signal as specified; speech keeps only voiced ones",
 "In audio mode the reference is split into consecutive non-overlapping 30-frame patches starting at the specified offset with none beyond its end, and too short a reference is an error. In speech mode 20-frame patches are used and a patch is kept exactly when at least one of its frames has voice activity, where a frame is inactive only if it and the two before it have an RMS below the threshold on the 16-bit signal normalised by its (positive) peak; each patch holds exactly the spectrogram columns its position denotes.",
 ["inputs"],"all spectrogram lengths, patch sizes and signals: speech bursts, silence, level changes, negative peaks",
 "Tests use one clean recording and a few chunks of constant values.",
 [S+"image_patch_creator.cc",S+"vad_patch_creator.cc",S+"rms_vad.cc",S+"misc_math.cc"],
 [("patch grid",S+"image_patch_creator.cc"),("voice activity decision",S+"rms_vad.cc, vad_patch_creator.cc")],
 ["CreateRefPatchIndices, CreatePatchesFromIndices, RmsVad"])
p("C16","Similarity maps to quality exactly as the selected model defines",
 "The reported score is the selected model's value for the reported features: audio mode the support-vector regression prediction on the band similarities, speech mode the deep lattice prediction on all four feature vectors in band order, or the exponential fit of the mean similarity, scaled so that similarity 1 gives 5 unless unscaled mapping is chosen. Regression and exponential scores are clamped to [1,5], the exponential mapping never decreases with similarity, and repeated predictions with any inputs in between do not influence one another.",
 ["inputs","configurations","histories"],"all feature vectors, models and call sequences",
 "Stable tests evaluate the exponential helper at a few points; predictions of shipped models over the feature space are not checked.",
 [S+"svr_similarity_to_quality_mapper.cc",S+"support_vector_regression_model.cc",S+"tflite_quality_mapper.cc",S+"speech_similarity_to_quality_mapper.cc",S+"visqol_manager.cc"],
 [("SVR",S+"support_vector_regression_model.cc Predict"),("lattice feature binding",S+"tflite_quality_mapper.cc PredictQuality"),("exponential",S+"speech_similarity_to_quality_mapper.cc"),("model choice",S+"visqol_manager.cc InitSimilarityToQualityMapper")],
 ["PredictQuality of each mapper; moslqo vs reported features"])
p("C17","A result depends only on its own inputs, never on earlier comparisons",
 "A comparator object that has been used any number of times, with successes and failures, other lengths, sample rates and contents in between, returns bit-for-bit the result of a fresh object given the same inputs and options; re-initialising it with other options fully replaces the old ones, and after a failed initialisation it refuses to compare. The reference signal and the caller's buffers passed to the measuring interface are not modified.",
 ["histories","inputs"],"all sequences of comparisons, failures and re-initialisations on one object",
 "Tests create a fresh object per comparison.",
 [S+"visqol_manager.cc",S+"visqol_api.cc",S+"gammatone_filterbank.cc",S+"tflite_quality_mapper.cc"],
 [("filter coefficients and state reset per build",S+"gammatone_spectrogram_builder.cc"),("re-initialisation",S+"visqol_manager.cc Init"),("input copies",S+"visqol_api.cc Measure")],
 ["results of a reused object vs a fresh one"],[("filter bank","coefficients and delay state kept between builds",S+"include/gammatone_filterbank.h"),("initialised flag","whether Run is allowed",S+"include/visqol_manager.h")])
p("C18","Comparators used in parallel threads are race-free and agree with serial runs",
 "Any number of threads may each create, initialise and use their own comparator at the same time: there is no data race, regression model loading is mutually exclusive, no deadlock, and every result is bit-for-bit the one the same comparison gives when run alone.",
 ["schedules","configurations"],"all interleavings of creation, model loading and comparison in several threads, mixed modes",
 "One (unbuildable) test runs a few threads without a race detector or result comparison.",
 [S+"support_vector_regression_model.cc",S+"visqol_manager.cc",S+"fft_manager.cc"],
 [("model loading lock",S+"support_vector_regression_model.cc Init"),("no shared mutable state",S+"*.cc")],
 ["ThreadSanitizer; interposed model loader; per-thread results"],[("model loading mutex","serialises loading through the non-reentrant library",S+"support_vector_regression_model.cc")])
p("C19","API configuration is validated and means what the documentation says",
 "Creating the measuring interface fails with an invalid-argument status exactly when audio information or a positive sample rate is missing, the rate is not 48 kHz in audio mode without the override, or the model cannot be loaded; otherwise measuring gives exactly what the comparison engine gives with the same mode, mapping, search radius (60 unless set) and model (the mode's default file in the working directory unless set). Measuring before successful creation is refused with an aborted status.",
 ["configurations","inputs"],"all combinations of option fields, set, unset and invalid",
 "Two configurations are tested in the stable tests; all defaults and option wirings are otherwise unchecked.",
 [S+"visqol_api.cc",S+"visqol_manager.cc",S+"proto/visqol_config.proto"],
 [("validation and defaults",S+"visqol_api.cc Create"),("engine options",S+"visqol_manager.cc Init")],
 ["VisqolApi::Create status, Measure result vs VisqolManager"])
p("C20","The command line compares exactly the requested pairs, in order",
 "The program compares each pair listed after the header of the batch file (or the single pair given) once, in file order, with the options given on the command line; batch input overrides the single-pair flags, and lines may end in CR LF. A pair that cannot be compared produces an error message and no result while the remaining pairs are still processed; missing input, batch or model files make the program fail with non-zero exit before any comparison.",
 ["inputs","configurations","fault_sequences"],"all batch files (line endings, blank or incomplete lines, missing or broken files anywhere in the list), all flag combinations",
 "One batch file is parsed in tests; the program itself is never run.",
 [S+"main.cc",S+"commandline_parser.cc"],
 [("flag parsing and validation",S+"commandline_parser.cc Parse"),("batch list",S+"commandline_parser.cc ReadFilesToCompare"),("main loop",S+"main.cc")],
 ["process exit code, stdout, results file"])
p("C21","Results written to CSV, JSON and console are complete and faithful",
 "For every successful comparison exactly one row is appended to the CSV file - both paths, the score, then per-band similarity, low quantile, spread and energy, to nine significant digits under a matching header written only when the file is new - and one JSON object holding every field of the result to the JSON file; earlier contents are kept. The console names the mode and model and shows the score, and in verbose mode both paths, one row per band and one per patch with the result's values.",
 ["inputs","histories","configurations"],"all results, any number of runs appending to the same files, all output flags",
 "No test looks at any output file or at the console.",
 [S+"include/sim_results_writer.h",S+"main.cc",S+"visqol_manager.cc"],
 [("CSV",S+"include/sim_results_writer.h WriteResultsToCSV"),("JSON",S+"include/sim_results_writer.h WriteDebugJSON"),("console",S+"include/sim_results_writer.h WriteToConsole")],
 ["files and stdout of the program"])
p("C22","Inputs that cannot be compared are refused with the right error",
 "A comparison of signals with different sample rates, with too few samples or frames for one patch, with an empty, missing or unreadable signal, with a negative search radius, or on a comparator that was not successfully initialised returns an error status of the documented kind (invalid argument; cancelled when no reference patch can be scored; aborted when uninitialised) and no result; signals that meet the requirements are never refused. Differing durations or unusual sample rates alone only warn.",
 ["inputs","configurations"],"all pairs around every acceptance boundary in both modes",
 "Two or three error cases are tested, in tests that do not build here.",
 [S+"visqol_manager.cc",S+"gammatone_spectrogram_builder.cc",S+"image_patch_creator.cc",S+"vad_patch_creator.cc",S+"comparison_patches_selector.cc"],
 [("validation",S+"visqol_manager.cc ValidateInputAudio, ErrorIfNotInitialized"),("length checks",S+"gammatone_spectrogram_builder.cc, image_patch_creator.cc"),("status propagation",S+"visqol.cc, include/status_macros.h")],
 ["status codes of Init/Run"])
p("C23","The matrix type obeys matrix semantics and owns its data",
 "Every operation of the matrix type - construction from vectors, columns and spans, indexing, slicing, row/column replacement, arithmetic, element-wise product and quotient, mean, deviation, transpose, flip, join, resize, comparison - gives the mathematically defined result for all shapes, in column-major order. Copies are independent of their source and remain valid after it is gone.",
 ["inputs","histories"],"all shapes and operation sequences, real and complex",
 "The test utility compares a few small matrices; the matrix operations are only exercised indirectly.",
 [S+"amatrix.cc",S+"include/amatrix.h",S+"misc_vector.cc"],
 [("wrapper over the linear algebra library",S+"amatrix.cc")],
 ["AMatrix public interface vs a plain model"])
p("C24","Transform, envelope, correlation and convolution are numerically correct",
 "For real signals of any length the forward transform equals the discrete Fourier transform of the zero-padded signal, the inverse restores it, the cross-correlation lag is the shift that maximises the direct sum over all lags from minus to plus the longer length less one, and 2-D convolution with replicated border equals the direct sum. Accuracy is that of single precision for the transforms, and no value depends on previously transformed signals.",
 ["inputs","histories"],"all lengths 1..>16384, not only powers of two; all contents; reused transform objects",
 "The tests of these parts do not build here, except one 3x3 convolution.",
 [S+"fast_fourier_transform.cc",S+"fft_manager.cc",S+"xcorr.cc",S+"envelope.cc",S+"convolution_2d.cc",S+"include/audio_channel.h"],
 [("packing to and from the FFT library",S+"fast_fourier_transform.cc"),("padding, workspace, scaling",S+"fft_manager.cc"),("lag search",S+"xcorr.cc"),("convolution",S+"convolution_2d.cc")],
 ["Forward1d, Inverse1d, Inverse1dConjSym, FindLowestLagIndex, CalcUpperEnv, Valid2DConvWithBoundary vs direct sums"])
p("C25","Training and loading a regression model are faithful to the data",
 "A model trained on observations and targets is the nu-SVR with RBF kernel and the documented parameters on exactly those rows in order, so its predictions equal those of the regression library given the same data, before and after saving or reloading, for any number of rows and features. Training files are read to exactly the numbers they hold, row by row; an unreadable model file is an error.",
 ["inputs","histories"],"all training sets, feature counts, files and prediction sequences",
 "One training set is compared with one shipped model at a loose tolerance.",
 [S+"support_vector_regression_model.cc",S+"libsvm_target_observation_convertor.cc",S+"svr_training/training_data_file_reader.cc"],
 [("training",S+"support_vector_regression_model.cc Init"),("row conversion",S+"libsvm_target_observation_convertor.cc"),("file reader",S+"svr_training/training_data_file_reader.cc")],
 ["Predict vs the library on the same data; TrainingDataFileReader::Read"])
p("C26","Patch results are pooled into the reported vectors as specified",
 "For any set of patch results, the reported band similarity and energy are the means over patches, the low-quantile value is the mean of the lowest tenth of the patches (at least one) per band, the spread is the pooled standard deviation of all frames of all patches reconstructed from patch means, deviations and frame counts (never negative or NaN), and the overall similarity is the mean of the band similarities. The quality model is given exactly these vectors and its value is reported unless overall similarity is below 0.15, which scores 1.",
 ["inputs"],"all numbers of patches and bands and all patch values, including dropped patches and patches shortened by realignment",
 "One quantile example is tested; the other pooled vectors have no test.",
 [S+"visqol.cc"],
 [("pooling",S+"visqol.cc CalcPerPatchMeanFreqBandMeans, CalcPerPatchFreqBandQuantile, CalcPerPatchMeanFreqBandStdDevs, CalcPerPatchMeanFreqBandDegradedEnergy"),("low-similarity rule",S+"visqol.cc AlterForSimilarityExtremes")],
 ["CalculateSimilarity with injected patch creator, comparator and quality mapper"])
p("C27","Everything taken from the system is given back",
 "Creating, using, re-initialising and destroying comparators, the measuring interface, models, transforms, file readers and writers - whether the operation succeeds or fails - leaves no growth behind: repeating an operation any number of times keeps the memory in use, the number of open file descriptors and the number of threads where they were after the first few times.",
 ["histories","inputs","fault_sequences"],"all operations, successful and failing, repeated any number of times",
 "Tests end after one use; a leak of one buffer or descriptor per comparison never fails them.",
 [S+"include/audio_channel.h",S+"fft_manager.cc",S+"support_vector_regression_model.cc",S+"misc_audio.cc",S+"visqol_manager.cc",S+"tflite_quality_mapper.cc",S+"include/sim_results_writer.h"],
 [("buffers and plans of the transforms",S+"include/audio_channel.h, fft_manager.cc"),("models and observations",S+"support_vector_regression_model.cc"),("files",S+"misc_audio.cc, include/sim_results_writer.h, commandline_parser.cc")],
 ["allocator, /proc/self/fd, /proc/self/task around repeated operations"])
p("C28","Results depend on the inputs alone",
 "Every score, vector, lag, status, loaded sample, trained prediction and output byte is a function of the inputs and options only: the same computation gives the same bits in every process, whatever fresh or freed memory and the stack happen to contain, wherever objects lie in memory, whatever the environment variables, working directory and locale, and in whatever order computations are done. No branch, address or output ever depends on memory that was never written.",
 ["inputs","histories","configurations"],"all inputs, memory contents, address layouts, environments and orders",
 "Tests compare with tolerances within a single process, whose fresh memory is mostly zero.",
 [S+"*.cc"],
 [("matrices and buffers",S+"amatrix.cc, include/audio_channel.h, convolution_2d.cc"),("result structures",S+"include/similarity_result.h, include/patch_similarity_comparator.h"),("header parsing",S+"wav_reader.cc")],
 ["all public results, bit by bit, across processes; memcheck"])
p("C29","Results already obtained survive faults and sudden ends of the program",
 "When the program is killed at any point of a batch, its results file and JSON file hold their earlier contents followed, in order, by complete entries for all pairs whose score was shown except possibly the last one, and nothing else but one possibly incomplete entry at the end. Reads and writes that transfer less than asked or are interrupted change no score and no output byte. An output that cannot be written (full disk, missing directory) neither ends the program nor affects the console, the other output or the remaining pairs.",
 ["crash_points","fault_sequences","inputs"],"all points at which the program may be killed, all patterns of short and interrupted transfers, all write failures",
 "The program is never run by a test, let alone killed or denied a write.",
 [S+"main.cc",S+"include/sim_results_writer.h",S+"commandline_parser.cc",S+"misc_audio.cc"],
 [("one append per result, closed at once",S+"include/sim_results_writer.h"),("main loop writes after each pair",S+"main.cc"),("file reading",S+"misc_audio.cc LoadAsMono, commandline_parser.cc ReadFilesToCompare")],
 ["output files after faults injected into the program's file calls"])
p("C30","The training and data preparation scripts carry results and labels over exactly",
 "From a results file written by the program and a file of subjective scores, make_svm_train_file prints one line per row, in order: that row's label followed by exactly its band similarities, numbered from 1 in band order. train_lattice gives the trainer exactly the labelled results without not-a-number features, each once and with its own label, split into a training part of the requested share and a test part the same way every time, all four features of each band under their own names, the quantile in 0..1, a pinball loss for that quantile, rising constraints on the similarities and the quantile only, and in the tau ensemble the quantile in every lattice and every feature in some lattice within the size limit. fit_nsim_to_mos_poly fits the least-squares cubic to exactly the labelled points of the training share and reports the true mean squared errors, clamped to 1..5, and scale. make_tcd_voip_batch_csv lists every reference with its degraded file. convert_saved_model_to_tflite writes exactly the converter's bytes, with the built-in and the TensorFlow operations allowed, to the file named after the model.",
 ["inputs","configurations"],"all results and label files, numbers of bands and rows, column orders, missing labels, options of the scripts",
 "The scripts have no test that runs here; the one existing test checks that training does not stop.",
 ["scripts/make_svm_train_file.py","scripts/train_lattice.py","scripts/fit_nsim_to_mos_poly.py","scripts/make_tcd_voip_batch_csv.sh","scripts/convert_saved_model_to_tflite.py",S+"include/sim_results_writer.h"],
 [("column names shared with the program",S+"include/sim_results_writer.h WriteResultsToCSV"),("joining with labels","scripts/train_lattice.py merge_fvnsim_and_mos, make_svm_train_file.py main")],
 ["stdout and log of the scripts; what the trainer is given"])
p("C31","The Python module gives the engine's own answers",
 "Every class and function of the Python module (FilePath, VisqolManager.Init and Run, VisqolApi.Create and Measure, the default model files and the conformance value) behaves exactly as the C++ engine called directly with the same arguments in the same order: the same statuses, results bit for bit and failures. The default model files are those of their mode, and the conformance value is what the engine scores for the recording it names.",
 ["inputs","configurations"],"all arguments, options and signals",
 "The module's tests need pybind11 and Bazel and do not build here; they compare one score at a tolerance.",
 ["python/visqol_lib_py.cc",S+"visqol_manager.cc",S+"visqol_api.cc",S+"include/conformance.h",S+"include/commandline_parser.h"],
 [("bindings","python/visqol_lib_py.cc"),("default model names",S+"include/commandline_parser.h")],
 ["the module's definitions, called through a stand-in for pybind11"])
p("C32","The libraries underneath are used as they require",
 "Whatever sequence of creating, initialising (once, again, successfully or not), using and destroying comparators, the measuring interface, quality models, regression models and transforms a program performs, every use of libsvm, PFFFT and TensorFlow Lite keeps to their rules: only live models, transforms, interpreters and buffers are used; each is destroyed exactly once and none is left over; a trained model's data stays untouched in memory while the model is used; every list of features given to libsvm has rising positive indices and an end mark within its memory; transforms have supported sizes, and buffers and work areas that are aligned, large enough and separate, with a work area for large sizes; a TensorFlow Lite model and delegate are destroyed after the interpreter that uses them, and inputs are written only after tensors are allocated.",
 ["histories","inputs","fault_sequences"],"all histories of creation, initialisation, failure, use and destruction of all objects, all sizes",
 "Breaking such a rule usually works by luck, in a test as in the field, until the memory involved is reused.",
 [S+"support_vector_regression_model.cc",S+"libsvm_target_observation_convertor.cc",S+"fft_manager.cc",S+"include/audio_channel.h",S+"tflite_quality_mapper.cc",S+"include/tflite_quality_mapper.h"],
 [("models and observations",S+"support_vector_regression_model.cc, libsvm_target_observation_convertor.cc"),("transforms and their buffers",S+"fft_manager.cc"),("order of members",S+"include/tflite_quality_mapper.h")],
 ["every call into libsvm, PFFFT and TensorFlow Lite"])
p("C33","Published scores are the engine's, and the updater renews exactly them",
 "Every score published in conformance.h is, within 0.0001, the score the engine gives for the recordings, mode and mapping it is named after, with a search window of 60. create_conformance_scores scores every one of its cases through the Python module with exactly those recordings and settings and the model of its kind, and prints one command per case which replaces, in conformance.h, the value of exactly that case's constant with exactly the score obtained, whatever the scores are, and leaves everything else of the file unchanged.",
 ["inputs","configurations"],"all published recordings; all scores the engine could return",
 "The updater has no test; a test compares a few of the published scores at its own tolerance and none of the updater's settings.",
 ["scripts/create_conformance_scores.py",S+"include/conformance.h","python/visqol_lib_py.cc",S+"visqol_manager.cc"],
 [("table of cases","scripts/create_conformance_scores.py CASES"),("settings and commands","scripts/create_conformance_scores.py RunVisqolWithSettings, RunCases"),("published values",S+"include/conformance.h")],
 ["commands printed by the updater; conformance.h after applying them"])
p("C34","Doubtful inputs are announced, each of them and only those",
 "Every comparison whose signals differ by more than a second in duration says so once and names both durations, and every one whose sample rate is not 48 kHz in audio mode, or above 16 kHz in speech mode, says that once; reference patches that are left out because the degraded signal is too short are announced with their number and the total; asking for a lattice model in audio mode is announced at each initialisation. A WAV file holding fewer samples than its header promises is announced with both numbers, a missing or unusable file with its name, a line of a batch list without a pair and a training item that is no number with their text. Nothing of the kind is said about inputs that do not call for it, and none is said less or more often on objects used before.",
 ["inputs","histories"],"all rates, durations, files and lists; first and later uses of an object",
 "No test looks at what is printed; a user learns only from it that a score is less meaningful.",
 [S+"visqol_manager.cc",S+"comparison_patches_selector.cc",S+"misc_audio.cc",S+"commandline_parser.cc",S+"svr_training/training_data_file_reader.cc"],
 [("checks of the inputs",S+"visqol_manager.cc ValidateInputAudio"),("patches left out",S+"comparison_patches_selector.cc FindMostOptimalDegPatches"),("short files",S+"misc_audio.cc LoadAsMono"),("lists",S+"commandline_parser.cc ReadFilesToCompare, training_data_file_reader.cc Read")],
 ["messages on standard error"])
p("C35","What an operation takes grows no faster than its input",
 "For recordings of up to some minutes and lists and files of thousands of entries, the memory an operation asks for in all, the memory it holds at a time and the processor time it takes grow in proportion to the size of its input (a factor of four in size asks for clearly less than a factor of eight), apart from the search's table of one entry for each reference patch and degraded frame: comparisons, loading files of long signals or many chunks, alignment, envelopes, correlation, spectrograms and their preparation, voice activity and patches, lists of pairs, training data, writing results, and matrix operations.",
 ["inputs","configurations"],"all sizes, rates, modes and options of the operations named",
 "The tests use short inputs, for which an operation that copies everything once per frame, patch, line or chunk is as fast as any other.",
 [S+"gammatone_spectrogram_builder.cc",S+"comparison_patches_selector.cc",S+"image_patch_creator.cc",S+"vad_patch_creator.cc",S+"wav_reader.cc",S+"misc_audio.cc",S+"alignment.cc",S+"commandline_parser.cc"],
 [("frames and patches",S+"gammatone_spectrogram_builder.cc Build, image_patch_creator.cc CreatePatchesFromIndices"),("chunks and samples",S+"wav_reader.cc, misc_audio.cc"),("lists",S+"commandline_parser.cc ReadFilesToCompare")],
 ["allocations of the process","processor time of the calling thread"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import subprocess
