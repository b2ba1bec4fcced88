SEEDS = [
 dict(id="radius-never-above-default", prop="C01",
  edits=[("visqol_manager.cc", "  search_window_ = search_window;\n", "  // Matches further away than that are not the same event.\n  search_window_ = std::min(search_window, 60);\n"),
   ("visqol_manager.cc", "#include <memory>\n", "#include <algorithm>\n#include <memory>\n")],
  needs="A search radius above 60 patches, and a match further away than 60 patches",
  breaks="The match is not found.",
  demo="""
  const size_t rate = 500, shift = 70 * 20 * 10;
  Vec r = Speech(3 * rate, rate, 0.3, 2), d = Cat(Noise(shift, 1e-3, 5), r);
  auto m = Compare(kExp, r, d, rate, 75, true, true);
  double far = 0;
  for (auto& p : m.patch_sims()) far = std::max(far, p.deg_patch_start_time() - p.ref_patch_start_time());
  CHECK(far > 27);
"""),
 dict(id="chunk-id-case", prop="C04",
  edits=[("wav_reader.cc", '  while (std::string(header.data.header.id, 4) != "data") {', '  while (!absl::EqualsIgnoreCase(\n      absl::string_view(header.data.header.id, 4), "data")) {'),
   ("wav_reader.cc", '      (std::string(header.data.header.id, 4) != "data")) {', '      !absl::EqualsIgnoreCase(absl::string_view(header.data.header.id, 4),\n                              "data")) {'),
   ("wav_reader.cc", '#include "absl/base/internal/raw_logging.h"\n', '#include "absl/base/internal/raw_logging.h"\n#include "absl/strings/match.h"\n#include "absl/strings/string_view.h"\n')],
  needs="A private chunk whose name differs from that of the samples in case only",
  breaks="The content of the private chunk is taken for the samples.",
  demo="""
  std::string chunk = "DATA";
  Put32(chunk, 6);
  chunk += "abcdef";
  std::vector<int16_t> pcm = {1, -2, 300, -32768, 32767};
  Save(Work("x.wav"), Wav(pcm, 1, 8000, "", chunk));
  auto s = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("x.wav")));
  CHECK(s.data_matrix.NumRows() == 5);
  NEAR(s.data_matrix(2), 300 / 32768.0, 0);
"""),
 dict(id="chunks-skipped-recursively", prop="C05",
  edits=[("wav_reader.cc", '  while (std::string(header.data.header.id, 4) != "data") {', """  std::function<bool()> find_data = [&]() -> bool {
    if (std::string(header.data.header.id, 4) == "data") {
      return true;
    }"""),
   ("wav_reader.cc", """    if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
        sizeof(header.data)) {
      ABSL_RAW_LOG(ERROR,
                   "Error parsing WAV Header - Could not find data chunk"
                   " in WAV file header.");
      return false;
    }
  }
""", """    if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
        sizeof(header.data)) {
      ABSL_RAW_LOG(ERROR,
                   "Error parsing WAV Header - Could not find data chunk"
                   " in WAV file header.");
      return false;
    }
    const bool found = find_data();
    return found && binary_stream_->good();
  };
  if (!find_data()) {
    return false;
  }
"""),
   ("wav_reader.cc", "#include <assert.h>\n", "#include <assert.h>\n\n#include <functional>\n")],
  needs="A file with hundreds of thousands of tiny chunks before the samples",
  breaks="The stack overflows.",
  demo="""
  std::string chunks;
  for (int i = 0; i < 2000000; i++) chunks += std::string("junk\\0\\0\\0\\0", 8);
  Save(Work("x.wav"), Wav({1, 2, 3}, 1, 8000, "", chunks));
  auto s = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("x.wav")));
  CHECK(s.data_matrix.NumRows() == 3);
"""),
 dict(id="pair-appended-to-batch", prop="C20", flags="cli",
  edits=[("commandline_parser.cc", """  } else {
    reference_file = FilePath(absl::GetFlag(FLAGS_reference_file));
    error_found |= !FileExists(reference_file);

    degraded_file = FilePath(absl::GetFlag(FLAGS_degraded_file));
    error_found |= !FileExists(degraded_file);
""", """  }
  reference_file = FilePath(absl::GetFlag(FLAGS_reference_file));
  degraded_file = FilePath(absl::GetFlag(FLAGS_degraded_file));
  if (batch_input.Path().empty()) {
    error_found |= !FileExists(reference_file);
    error_found |= !FileExists(degraded_file);
"""),
   ("commandline_parser.cc", """    pairs = ReadFilesToCompare(cmd_res.batch_input_csv);
  } else if (cmd_res""", """    pairs = ReadFilesToCompare(cmd_res.batch_input_csv);
  }
  if (cmd_res""")],
  needs="A list of pairs together with a pair on the command line, which is to be ignored",
  breaks="The ignored pair is compared after those of the list.",
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Speech(32000, 16000, 0.4, 1)), 1, 16000));
  Save(Work("b.wav"), Wav(Pcm(Speech(32000, 16000, 0.3, 2)), 1, 16000));
  Save(Work("b.csv"), "reference,degraded\\n" + Work("a.wav") + "," + Work("a.wav") + "\\n");
  std::string cmd = std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " + Work("out.csv") +
      " --reference_file " + Work("b.wav") + " --degraded_file " + Work("a.wav") + " --use_speech_mode --use_lattice_model=false > /dev/null 2>&1";
  CHECK(system(cmd.c_str()) == 0);
  CHECK(Load(Work("out.csv")).find("b.wav") == std::string::npos);
"""),
 dict(id="deinterleave-buffer-shared", prop="C18", flags="tsan",
  edits=[("misc_audio.cc", """  std::vector<std::vector<double>> multi_channel_vec(
      num_channels, std::vector<double>(sub_vector_size));
""", """  // Kept, as files are mostly of the same length.
  static std::vector<std::vector<double>> multi_channel_vec;
  multi_channel_vec.resize(num_channels);
  for (auto& channel : multi_channel_vec) {
    channel.resize(sub_vector_size);
  }
""")],
  needs="Two threads loading files at the same time",
  breaks="The threads write to the same buffer.", inc=["thread"],
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Noise(40000, 0.2, 1)), 2, 16000));
  auto f = [] { for (int i = 0; i < 40; i++) Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("a.wav"))); };
  std::thread a(f), b(f);
  a.join();
  b.join();
"""),
 dict(id="search-gives-up-when-slow", prop="C28",
  edits=[("comparison_patches_selector.cc", """  int ref_frame_index = ref_patch_indices[patch_index];
  ImagePatch deg_patch;
""", """  int ref_frame_index = ref_patch_indices[patch_index];
  ImagePatch deg_patch;
  const auto deadline =
      std::chrono::steady_clock::now() + std::chrono::seconds(30);
"""),
   ("comparison_patches_selector.cc", "    deg_patch = deg_patches[slide_offset];\n", """    // Take what has been found if this takes far too long.
    if (slide_offset > ref_frame_index &&
        std::chrono::steady_clock::now() > deadline) {
      break;
    }
    deg_patch = deg_patches[slide_offset];
"""),
   ("comparison_patches_selector.cc", '#include "absl/base/internal/raw_logging.h"\n', '#include <chrono>\n\n#include "absl/base/internal/raw_logging.h"\n')],
  needs="A processor too busy, or a clock that jumps",
  breaks="Matches after a patch's own place are not considered, so the score depends on the speed of the machine.",
  demo="""
  Vec r = Speech(3 * 2000, 2000, 0.3, 2), d = Cat(Noise(900, 1e-3, 5), r);
  g_jump = 0;
  auto a = Compare(kExp, r, d, 2000, 10, true, true);
  g_jump = 1;
  auto b = Compare(kExp, r, d, 2000, 10, true, true);
  NEAR(a.vnsim(), b.vnsim(), 0);
""", pre="""#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
static long g_jump, g_calls;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  const int rc = syscall(SYS_clock_gettime, id, t);
  if (g_jump) t->tv_sec += 100 * ++g_calls;
  return rc;
}
//--
"""),
 dict(id="sums-per-processor", prop="C28",
  edits=[("misc_audio.cc", """  double sum = 0;
  std::for_each(data_matrix.cbegin(), data_matrix.cend(),
                [&](const double& datum) { sum += std::pow(datum, 2); });
""", """  // One partial sum per processor.
  const size_t num_parts =
      std::max<size_t>(1, std::thread::hardware_concurrency());
  const std::vector<double> samples = data_matrix.ToVector();
  const size_t part_size = samples.size() / num_parts + 1;
  double sum = 0;
  for (size_t start = 0; start < samples.size(); start += part_size) {
    const size_t end = std::min(start + part_size, samples.size());
    double part = 0;
    for (size_t i = start; i < end; i++) {
      part += samples[i] * samples[i];
    }
    sum += part;
  }
"""),
   ("misc_audio.cc", "#include <sstream>\n", "#include <sstream>\n#include <thread>\n")],
  needs="Machines with different numbers of processors",
  breaks="The last digits of the level, and so of the results, depend on the number of processors.",
  demo="""
  Vec r = Noise(30011, 0.3, 2);
  auto level = [&](const Vec& x) { return Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(Sig(r, 8000), Sig(x, 8000)).data_matrix(0); };
  int differ = 0;
  for (int n = 1; n < 8; n++) {
    for (int t = 0; t < 20; t++) {
      Vec x = Noise(30011 + t, 0.3, t);
      g_cpus = 8;
      const double w = level(x);
      g_cpus = n;
      if (level(x) != w) differ++;
    }
  }
  CHECK(differ == 0);
""", pre="""static int g_cpus = 8;
extern "C" int get_nprocs() noexcept { return g_cpus; }
//--
"""),
 dict(id="backtrace-sixteen-bit", prop="C09",
  edits=[("comparison_patches_selector.cc", "    backtrace[patch_index][slide_offset] = past_slide_offset;", "    backtrace[patch_index][slide_offset] =\n        static_cast<int16_t>(past_slide_offset);")],
  needs="Signals of more than 32767 frames",
  breaks="The path is followed to a place far from the match.",
  demo="""
  struct Cmp : Visqol::PatchSimilarityComparator {
    Visqol::PatchSimilarityResult MeasurePatchSimilarity(const Visqol::ImagePatch& r, const Visqol::ImagePatch& d) const override {
      Visqol::PatchSimilarityResult x;
      x.similarity = r(0) == d(0) ? 1 : 0.1;
      x.freq_band_means = x.freq_band_stddevs = x.freq_band_deg_energy = Mat::Filled(1, 1, x.similarity);
      return x;
    }
  };
  const size_t n = 33000;
  Mat s(1, n);
  for (size_t i = 0; i < n; i++) s(i) = i;
  std::vector<Visqol::ImagePatch> p;
  std::vector<size_t> idx = {32900, 32910};
  for (size_t i : idx) p.push_back(Mat::Filled(1, 1, i + 2.0));
  Visqol::ComparisonPatchesSelector sel(std::make_unique<Cmp>());
  auto x = sel.FindMostOptimalDegPatches(p, idx, s, 1, 5);
  CHECK(x.ok());
  NEAR((*x)[0].deg_patch_start_time, 32902, 0);
"""),
 dict(id="header-like-pair-skipped", prop="C20",
  edits=[("commandline_parser.cc", "      std::istringstream in(line);\n", """      if (line == "reference,degraded") {
        continue;  // Lists are sometimes joined together.
      }
      std::istringstream in(line);
""")],
  needs="Files named like the columns of the list",
  breaks="The pair is not compared.", inc=["commandline_parser.h"],
  demo="""
  Save(Work("l.csv"), "reference,degraded\\na,b\\nreference,degraded\\nc,d\\n");
  Visqol::CommandLineArgs args{};
  args.batch_input_csv = Visqol::FilePath(Work("l.csv"));
  auto l = Visqol::VisqolCommandLineParser::BuildFilePairPaths(args);
  CHECK(l.size() == 3);
  CHECK(l[1].reference.Path() == "reference" && l[1].degraded.Path() == "degraded");
"""),
 dict(id="lfe-left-out", prop="C06",
  edits=[("misc_audio.cc", "    for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {\n", """    // The fourth of six channels has the low frequency effects.
    const bool has_lfe = signal.NumCols() == 6;
    for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {
      if (has_lfe && chan_i == 3) continue;
"""),
   ("misc_audio.cc", "    return mono_mat / signal.NumCols();", "    return mono_mat / (signal.NumCols() - has_lfe);")],
  needs="A signal of six channels",
  breaks="One of the channels does not take part in the mean.", inc=["misc_audio.h"],
  demo="""
  auto pcm = Pcm(Noise(18, 0.2, 1));
  Save(Work("x.wav"), Wav(pcm, 6, 8000));
  auto o = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("x.wav"))).data_matrix;
  CHECK(o.NumRows() == 3);
  for (int i = 0; i < 3; i++) {
    double t = 0;
    for (int k = 0; k < 6; k++) t += pcm[6 * i + k] / 32768.0;
    NEAR(o(i), t / 6, 1e-12);
  }
"""),
 dict(id="duration-difference-in-whole-seconds", prop="C34",
  edits=[("visqol_manager.cc", "  if (std::abs(ref_duration - deg_duration) > kDurationMismatchTolerance) {", "  if (abs(static_cast<int>(ref_duration - deg_duration)) >\n      kDurationMismatchTolerance) {")],
  needs="Durations that differ by more than one and less than two seconds",
  breaks="The difference is not warned of.",
  demo="""
  Vec r = Speech(4 * 2000, 2000, 0.3, 2);
  Visqol::VisqolManager m;
  Init(m, kExp);
  const std::string log = Work("log");
  fflush(stderr);
  const int keep = dup(2), f = open(log.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
  dup2(f, 2);
  auto x = Run(m, r, Sub(r, 0, 5000), 2000);
  fflush(stderr);
  dup2(keep, 2);
  CHECK(Load(log).find("Mismatch in duration") != std::string::npos);
""", pre="""#include <fcntl.h>
#include <unistd.h>
//--
"""),
 dict(id="long-signals-aligned-coarsely", prop="C08",
  edits=[("alignment.cc", """  int64_t best_lag =
      XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
""", """  int64_t best_lag = 0;
  if (reference_matrix.NumRows() > (1 << 20)) {
    // The envelope is smooth enough for every fourth sample of it.
    const auto every_fourth = [](const AMatrix<double>& env) {
      std::vector<double> samples;
      samples.reserve(env.NumRows() / 4 + 1);
      for (size_t i = 0; i < env.NumRows(); i += 4) {
        samples.push_back(env(i));
      }
      return AMatrix<double>(samples);
    };
    best_lag = 4 * XCorr::FindLowestLagIndex(every_fourth(reference_upper_env),
                                             every_fourth(degraded_upper_env));
  } else {
    best_lag =
        XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
  }
""")],
  needs="A signal of more than a million samples, and a delay that is not a multiple of four samples",
  breaks="The delay is compensated only to within four samples.",
  demo="""
  const size_t n = (1 << 20) + 5000;
  Vec r = Speech(n, 16000, 0.3, 2);
  auto a = Visqol::Alignment::GloballyAlign(Sig(r, 16000), Sig(Cat(Vec(1234, 0.0), r), 16000));
  NEAR(std::get<1>(a) * 16000, -1234, 1e-6);
"""),
 dict(id="csv-fixed-digits", prop="C21",
  edits=[("include/sim_results_writer.h", "        out_file << \",\" << std::setprecision(9) << sim_res_msg.fstdnsim(i);", "        out_file << \",\" << std::fixed << std::setprecision(9)\n                 << sim_res_msg.fstdnsim(i) << std::defaultfloat;")],
  needs="A very small standard deviation, as of nearly identical signals",
  breaks="Its digits are lost.", inc=["sim_results_writer.h"],
  demo="""
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(3.5);
  m.add_fvnsim(1); m.add_fvnsim10(1); m.add_fstdnsim(1.23456789e-7); m.add_fvdegenergy(2); m.add_center_freq_bands(50);
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(Work("o.csv")), Visqol::FilePath(""), m, true, false);
  std::string s = Load(Work("o.csv"));
  s = s.substr(s.find('\\n') + 1);
  std::stringstream ss(s);
  std::string x;
  for (int i = 0; i < 6; i++) std::getline(ss, x, ',');
  NEAR(atof(x.c_str()) * 1e7, 1.23456789, 1e-8);
"""),
 dict(id="peak-by-magnitude", prop="C15",
  edits=[("misc_math.cc", "  double maxValue = *std::max_element(m.cbegin(), m.cend());", "  double maxValue = std::abs(*std::max_element(\n      m.cbegin(), m.cend(),\n      [](double a, double b) { return std::abs(a) < std::abs(b); }));"),
   ("misc_math.cc", "#include <algorithm>\n", "#include <algorithm>\n#include <cmath>\n")],
  needs="Speech whose negative peaks are larger than the positive ones",
  breaks="The voice activity detector sees a quieter signal, so that other patches count as voiced.",
  inc=["misc_math.h"],
  demo="""
  Vec v = {0.5, -2, 0.25, -0.125};
  Vec n = Visqol::MiscMath::Normalize(Mat(v)).ToVector();
  NEAR(n[0], 1, 0);
  NEAR(n[1], -4, 0);
"""),
 dict(id="results-table-header-by-size", prop="C21",
  edits=[("include/sim_results_writer.h", "        for (size_t i = 0; i < sim_res_msg.fvdegenergy_size(); i++) {\n          out_file << \",fvdegenergy\" << i;", "        for (size_t i = 0; i < sim_res_msg.fstdnsim_size(); i++) {\n          out_file << \",fvdegenergy\" << std::hex << i << std::dec;")],
  needs="More than ten bands, which is always so; a reader that uses the names of the columns",
  breaks="Columns from the eleventh on are named in hexadecimal.",
  demo="""
  Visqol::SimilarityResultMsg m = Compare(kAudio, Noise(3000, 0.1, 1), Noise(3000, 0.1, 1), 1000);
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(Work("o.csv")), Visqol::FilePath(""), m, false, false);
  CHECK(Load(Work("o.csv")).find(",fvdegenergy31\\n") != std::string::npos);
""", inc=["sim_results_writer.h"]),
]

for s in SEEDS:
    s.setdefault("using", True)
    if "pre" in s:
        s["demo"] = s.pop("pre") + s["demo"]
