"""What decides each property: monitors, workload sizes (quick, thorough)."""
import cli
import faults
import prep
import repeat
COMMON_ASSUMPTIONS = [
    "pffft and TensorFlow Lite are absent from the sandbox: /verif/shim stands in for them",
    "system armadillo, abseil, protobuf and libsvm are trusted",
    "the verdict covers the executions observed, nothing else",
]


def R(variant, target, mode, nq, nt, **kw):
    return dict(variant=variant, target=target, mode=mode, n=(nq, nt), **kw)


CHECKS = {
    "C01": dict(
        technique="online comparison of every reported value with an independent model of the whole computation",
        note="Random and published pairs in every mode and option, every field of the result compared with a plain-loop model that shares no code with the library; near-ties in discrete choices (lag, patch assignment, realignment) are resolved by checking that the choice is one of the near-optimal ones.",
       
        runs=[R("plain", "mon_e2e", "conformance", 11, 21, case_timeout=100),
              R("plain", "mon_e2e", "model", 300, 8000)],
        rule="random signal pairs (13 kinds of content, 15 degradations), modes and options, each compared "
             "with an independent model of the whole computation, plus the published recordings; distinct = "
             "successful comparisons with different options, similarity, patch count or rate"),
    "C02": dict(
        technique="trace invariants checked on every result",
        note="Relations between the reported fields, checked on results of ordinary and hostile inputs without a reference value.",
       runs=[R("plain", "mon_run", "consistency", 700, 16000)],
                rule="random comparisons incl. silence, extreme levels and opposite level patterns; distinct = "
                     "successful results with different options, similarity or patch count"),
    "C03": dict(
        technique="hostile workloads under sanitizers with hang detection",
        note="Boundary lengths, rates, radii and sample values with libstdc++ assertions on; the judged event is any sanitizer report, escaped exception, signal, hang or undocumented status.",
       runs=[R("asan", "mon_run", "hostile", 450, 12000)],
                rule="hostile lengths, rates, radii and contents under address+undefined sanitizers; distinct = "
                     "different descriptions of (options, rate, lengths, contents)"),
    "C07": dict(
        technique="metamorphic comparison at different playback levels, level measured after scaling",
        note="Ties broken by rounding are told apart with the model of C01.",
       runs=[R("plain", "mon_run", "gain", 400, 10000)],
                rule="pairs compared at two playback levels, and the scaling step alone; distinct = successful "
                     "comparisons by options, similarity and gain"),
    "C08": dict(
        technique="known shifts against reported lag; direct correlation oracle",
        note="The reported lag must be a (near-)maximum of the envelopes' correlation computed directly, the aligned signal sample-exact.",
       runs=[R("plain", "mon_run", "align", 900, 25000)],
                rule="known and unknown shifts, lengths 1..260000 and above a million samples; distinct = different lengths, content and shift"),
    "C09": dict(
        technique="search results against an exhaustive dynamic-programming optimum over injected similarity tables",
        note="Injected comparator makes every candidate's similarity known; optimality, window, order, times and values are checked on every answer.",
       runs=[R("plain", "mon_search", "search", 9000, 400000)],
                rule="random similarity tables (10 kinds), patch grids, lengths and radii through an injected comparator, "
                     "15% with real patches; distinct = answers with different patch count, length, radius or path"),
    "C10": dict(
        technique="before/after monitor of realignment against recomputed realignment",
        note="Every patch after realignment is recomputed from its own audio by the model.",
       runs=[R("plain", "mon_e2e", "realign", 120, 5000), R("plain", "mon_search", "realign", 400, 15000)],
                rule="comparisons with locally shifted audio, and the realignment step on arbitrary search results; "
                     "distinct = different comparisons or realigned patches"),
    "C11": dict(
        technique="direct-sum oracle plus symmetry, bound and identity invariants",
        note="Every value of every patch comparison recomputed with plain sums.",
       runs=[R("plain", "mon_dsp", "nsim", 12000, 150000)],
                rule="random patch pairs (12 kinds of content, 6 relations), 1..40 bands and frames, against plain sums; "
                     "distinct = different sizes or similarity"),
    "C12": dict(
        technique="metamorphic: self comparison and dominance",
        note="Self comparisons must reach the model's perfect score; no degraded version may score higher.",
       runs=[R("plain", "mon_run", "identity", 350, 9000)],
                rule="signals compared with themselves and with a degraded version; distinct = options, rate, length, content"),
    "C13": dict(
        technique="direct implementation of frames, filters and ERB bands; metamorphic frame independence",
        note="Every cell recomputed; a changed sample may change only frames containing it; builders reused.",
       runs=[R("plain", "mon_dsp", "spectrogram", 5000, 60000)],
                rule="spectrograms of random signals at rates 51..48000 against a direct implementation, changed samples, reused "
                     "builders, filter designs and sections; distinct = different sizes or values"),
    "C14": dict(
        technique="direct oracle per cell, order symmetry",
        note="Every cell recomputed, both argument orders, single operations.",
       runs=[R("plain", "mon_dsp", "prepare", 20000, 150000)],
                rule="random spectrogram pairs (8 kinds), both orders, and each operation alone; distinct = different sizes or values"),
    "C15": dict(
        technique="direct oracle for patch grids and voice activity",
        note="All frame counts enumerated over the run, chunk patterns sampled, values around the threshold included.",
       runs=[R("plain", "mon_dsp", "patches", 12000, 100000)],
                rule="grids for all lengths, loud/quiet chunk sequences, signals with levels around the threshold; "
                     "distinct = different descriptions or chunk patterns"),
    "C17": dict(
        technique="history replay: used objects against fresh ones, bit for bit",
        note="Random histories with failures and re-initialisation over several objects.",
       runs=[R("plain", "mon_run", "reuse", 110, 2500)],
                rule="random histories over up to three comparators; distinct = comparisons on a used object by options, position and similarity"),
    "C22": dict(
        technique="acceptance boundary oracle",
        note="Lengths around every boundary; acceptance and status code must be those the requirements give.",
       runs=[R("plain", "mon_run", "refuse", 480, 12000)],
                rule="lengths around every boundary, mixed rates, empty and unreadable inputs; distinct = options, rate, lengths, status"),
    "C23": dict(
        technique="online model: histories of matrix operations next to a plain model",
        note="Every member of the pool is compared after every operation, so aliasing shows up.",
       runs=[R("plain", "mon_math", "matrix", 30000, 1000000), R("asan", "mon_math", "matrix", 2000, 60000)],
                rule="random histories of 10..60 matrix operations over a pool of matrices next to a plain model, every pool member "
                     "compared after every operation; distinct = different histories"),
    "C24": dict(
        technique="direct-sum oracles for transform, correlation, envelope, convolution; reused managers",
        note="Tolerances are those of single precision relative to the signal's norm.",
       runs=[R("plain", "mon_math", "numeric", 10000, 200000), R("asan", "mon_math", "numeric", 600, 12000)],
                rule="transforms, padded transforms, reused managers, correlations, envelopes and convolutions of random signals and "
                     "lengths against direct sums; distinct = operation, length and content"),
    "C16": dict(
        technique="histories of predictions against the models evaluated directly",
        note="libsvm evaluates the regression directly; the lattice is evaluated by the interpreter in shim/ through the model's own independent feature order.",
       runs=[R("plain", "mon_model", "mapper", 900, 60000), R("plain", "mon_model", "quality", 130, 8000)],
                rule="histories of predictions of all four mappings (shipped and custom models) against the model evaluated directly, and "
                     "whole comparisons; distinct = different predicted scores"),
    "C25": dict(
        technique="libsvm given the same rows as oracle; file round trips",
        note="Predictions of trained, saved and reloaded models against the library used directly.",
       runs=[R("plain", "mon_model", "train", 1500, 40000), R("asan", "mon_model", "train", 200, 4000)],
                rule="models trained on random data (1..1500 rows, 1..40 features), saved and reloaded, against libsvm given the same rows; "
                     "training files in many formats; unreadable models; distinct = different data"),
    "C26": dict(
        technique="injected pipeline stages, pooled vectors recomputed",
        note="The vectors the quality model receives and those reported are recomputed from the injected patch results.",
       runs=[R("plain", "mon_model", "pool", 12000, 300000)],
                rule="whole computations with injected spectrograms, patch grid, patch results and model; distinct = different plans"),
    "C04": dict(
        technique="generated files, decoded samples compared with those written",
        note="Whole-file, stream and piecewise reads of generated layouts against the samples the generator wrote; also under sanitizers.",
       runs=[R("plain", "mon_wav", "read", 20000, 300000), R("asan", "mon_wav", "read", 800, 20000)],
                rule="generated WAV files (1..40 channels, three header layouts, extra chunks of odd and even size) loaded whole, from "
                     "a stream and in pieces; distinct = different layouts"),
    "C05": dict(
        technique="mutated files under sanitizers against a strict chunk walker, memory requests counted",
        note="Truncated, mutated and random files; acceptance, values, and memory requested are compared with an independent walker of the same bytes.",
       runs=[R("asan", "mon_wav", "hostile", 5000, 200000), R("plain", "mon_wav", "hostile", 8000, 200000)],
                rule="truncated, mutated and random files under sanitizers, against a strict chunk walker; memory requests counted; "
                     "distinct = different mutations"),
    "C06": dict(
        technique="metamorphic comparison of files, averaged samples and channel permutations",
        note="File comparisons against in-memory comparison of the averaged samples; permutations and duplicates of channels.",
       runs=[R("plain", "mon_wav", "downmix", 3000, 60000)],
                rule="random multichannel signals, files against averaged samples, channel permutations and duplicates; "
                     "distinct = different shapes and results"),
    "C19": dict(
        technique="differential: configured interface against the engine set up directly",
        note="All option fields set, unset and invalid in working directories with and without default models.",
       
        runs=[R("plain", "mon_api", "api", 420, 12000)],
        rule="random configurations (every field set, unset and invalid) in working directories with and without default models, "
             "against the engine set up directly and the model; distinct = configurations refused, and scores measured"),
    "C18": dict(
        technique="race detection and serial equivalence with delayed, counted model loading",
        note="Random thread plans; the loader is interposed, delayed and counts concurrent entries; each result is compared with the same comparison run alone.",
       
        runs=[R("tsan", "mon_threads", "race", 48, 3000, shards=2000), R("plain", "mon_threads", "stress", 80, 5000, shards=400)],
        threads=2,
        rule="random plans for 2..24 threads (loading storms, identical comparisons, audio, speech, mixed, failing models, files) under "
             "the race detector and at full speed, with delayed model loading; distinct = different plans"),
    "C20": dict(
        technique="program runs against the engine's own results; batch files against their generator",
        note="Exit codes, console, results and JSON files of the real program are compared with the expected sequence of results.",
       
        runs=[R("plain", "mon_cli", "batch", 20000, 600000),
              R("plain", "visqol", "program", 110, 4000, py=cli.runner("program"), also=["mon_cli"]),
              R("plain", "visqol", "refusal", 90, 2000, py=cli.runner("refusal"))],
        rule="batch files with every line ending, blank, incomplete and repeated lines read through the argument structure; the program "
             "itself run with random flags on usable and unusable files and on missing ones, against the engine's results for the same "
             "pairs; distinct = different batch files, command lines and scores"),
    "C21": dict(
        technique="offline check of every byte of the output files against the results written",
        note="Files and console output recomputed from the result messages; real program runs appending to the same files.",
       
        runs=[R("plain", "mon_cli", "writer", 12000, 600000),
              R("plain", "visqol", "outputs", 110, 4000, py=cli.runner("outputs"), also=["mon_cli"])],
        rule="histories of up to six random results written to fresh and existing files and to the console, and runs of the program "
             "itself appending to the same files; distinct = different histories, command lines and scores"),
    "C27": dict(
        technique="resource accounting: blocks, bytes, descriptors and threads counted around repeated operations",
        note="The allocator is interposed for the whole process; an operation repeated many times may settle, but not keep growing.",
       runs=[R("plain", "mon_leak", "leak", 150, 6000)],
                rule="thirteen kinds of operations (comparators made, reused, re-initialised, failing; files; interface; training; "
                     "writing) each repeated 28..244 times with everything in use counted; distinct = operation, options and input"),
    "C28": dict(
        technique="the same computations in processes differing in memory contents, order and environment; memcheck",
        note="Digests of the bits of every result must agree; memcheck tracks every bit never written.",
       runs=[R("plain", "mon_repeat", "repeat", 130, 4000, py=repeat.digests("repeat")),
             R("plain", "mon_repeat", "small", 64, 2500, py=repeat.memcheck("small"))],
                rule="comparisons, files, interface, training, alignment, spectrograms and outputs computed in five processes whose fresh "
                     "and freed memory, stack, environment, sharding and order differ, and under memcheck; distinct = different computations"),
    "C29": dict(
        technique="the real program with injected short transfers, full outputs and sudden ends; files checked against the engine's results",
        note="File calls are interposed: transfers shortened or interrupted, writes refused, the program killed at chosen calls and within writes.",
       runs=[R("plain", "visqol", "faults", 40, 1500, py=faults.run, also=["mon_cli"])],
                rule="random batches run without faults, with short and interrupted transfers, killed before random file calls, within random "
                     "writes and when a score was seen, and with an output that cannot be written; distinct = different command lines"),
    "C30": dict(
        technique="the real scripts run on files the library wrote; what they print, log and hand to the trainer checked against the data",
        note="Packages that are not in the sandbox (absl, pandas, tensorflow) are replaced by recording stand-ins; the scripts themselves are unchanged.",
       runs=[R("plain", "visqol", "prep", 400, 12000, py=prep.runner("prep"), also=["mon_cli"])],
                rule="random results files written by the library, label files in several layouts, missing labels and not-a-number features, "
                     "every training model and option; distinct = different scripts, options and data"),
    "C31": dict(
        technique="the module's definitions called with dynamically typed arguments, against the engine called directly",
        note="pybind11 is not in the sandbox: a stand-in keeps what the binding source defines and converts arguments as an interpreter would.",
       runs=[R("plain", "mon_py", "calls", 160, 5000)],
                rule="every definition of the module called with random signals, files, configurations and options, refused ones included; "
                     "distinct = different calls and results"),
    "C32": dict(
        technique="typestate monitor on every call into libsvm, PFFFT and TensorFlow Lite",
        note="A model of what is alive, who owns what and who needs whom, updated and checked at every call; nothing may be left over.",
       runs=[R("plain", "mon_contract", "use", 1400, 60000), R("asan", "mon_contract", "use", 350, 12000)],
                rule="histories of comparators, interfaces, mappings, regression models, transforms and alignments created, initialised "
                     "again, used and destroyed in any order; distinct = different histories"),
    "C33": dict(
        technique="the real updater run against the module's definitions, its commands applied, the published scores recomputed",
        note="Every published recording is scored by the engine; with made-up scores the commands must carry any score to its own constant.",
       runs=[R("plain", "visqol", "conformance", 9, 60, py=prep.runner("conformance"), also=["mon_py"])],
                rule="the updater run with the engine's own scores (all published recordings scored) and with made-up ones, its commands "
                     "applied to a copy of the constants; distinct = different sets of scores"),
    "C34": dict(
        technique="the library's messages captured around each step, counted and compared with what the inputs call for",
        note="Warnings are looked for by their key words and figures; each step is repeated on used objects.",
       runs=[R("plain", "mon_warn", "warn", 1500, 40000)],
                rule="comparisons with rates and durations around the documented limits, degraded signals too short, files shorter than they "
                     "say, missing and broken ones, lists and training files with wrong entries; distinct = inputs and options"),
    "C35": dict(
        technique="memory and processor time of each operation measured at two sizes of input",
        note="Every allocation of the process is counted; a factor half-way between linear and quadratic growth is the limit, and time is measured again before it counts.",
       runs=[R("plain", "mon_cost", "cost", 220, 6000)],
                rule="eleven kinds of operation on inputs of two sizes, one four times the other; distinct = operation, options and sizes"),
}
