# Capturing what the library says.
SAID = r"""
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
template <class F> std::string Said(F f) {
  fflush(stderr);
  const int keep = dup(2), fd = memfd_create("said", 0);
  dup2(fd, 2); f(); fflush(stderr); dup2(keep, 2); close(keep);
  std::string s; char b[4096]; lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) s.append(b, n);
  close(fd);
  return s;
}
size_t Count(const std::string& s, const std::string& w) {
  size_t n = 0;
  for (size_t p = 0; (p = s.find(w, p)) != std::string::npos; p += w.size()) n++;
  return n;
}
//--
"""
# Counting what the process asks for, and measuring time.
COST = r"""
#include <atomic>
#include <malloc.h>
#include <time.h>
#include "misc_audio.h"
static std::atomic<long long> g_asked{0};
extern "C" { void* __libc_malloc(size_t); void* malloc(size_t n) { g_asked += n; return __libc_malloc(n); }
  void* __libc_memalign(size_t, size_t); int posix_memalign(void** p, size_t a, size_t n) noexcept { g_asked += n; *p = __libc_memalign(a, n); return *p ? 0 : 12; } }
template <class F> double Asked(F f) { f(); const long long a = g_asked; f(); return double(g_asked - a); }
template <class F> double Took(F f) {
  f();
  double best = 1e9;
  for (int i = 0; i < 3; i++) {
    timespec a, b; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &a); f(); clock_gettime(CLOCK_THREAD_CPUTIME_ID, &b);
    best = std::min(best, (b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec));
  }
  return best;
}
//--
"""
SEEDS = [
 dict(id="warn-only-longer-reference", prop="C34",
  edits=[("visqol_manager.cc", "  if (std::abs(ref_duration - deg_duration) > kDurationMismatchTolerance) {", "  if (ref_duration - deg_duration > kDurationMismatchTolerance) {")],
  needs="A degraded signal more than a second longer than the reference",
  breaks="No warning of the different durations.",
  demo=SAID + """
  Vec a = Noise(6000, 0.1, 1), b = Noise(9000, 0.1, 2);
  CHECK(Count(Said([&] { Compare(kExp, a, b, 1000, 0); }), "uration") == Count(Said([&] { Compare(kExp, b, a, 1000, 0); }), "uration"));
"""),
 dict(id="rate-warned-once", prop="C34",
  edits=[("visqol_manager.cc", "    if (ref_signal.sample_rate != k48kSampleRate) {\n", "    static size_t warned_of = k48kSampleRate;\n    // The same rate is not warned of time and again.\n    if (ref_signal.sample_rate != k48kSampleRate &&\n        ref_signal.sample_rate != warned_of) {\n      warned_of = ref_signal.sample_rate;\n")],
  needs="A second comparison at the same unexpected rate in one process",
  breaks="Only the first of the pairs of a batch is warned of.",
  demo=SAID + """
  Vec a = Noise(6000, 0.1, 1);
  for (int i = 0; i < 3; i++) CHECK(Count(Said([&] { Compare(kAudio, a, a, 1000, 0); }), "48kHz") == 1);
"""),
 dict(id="dropped-numbers-swapped", prop="C34",
  edits=[("comparison_patches_selector.cc", "        ref_patch_indices.size() - num_patches, ref_patch_indices.size());", "        num_patches, ref_patch_indices.size());")],
  needs="A degraded signal too short for the last patches",
  breaks="The warning names the patches kept as the ones dropped.",
  demo=SAID + """
  // 1 kHz: 80 samples a window, 20 a frame
  Vec a = Noise(20000, 0.1, 1), b(a.begin(), a.begin() + 14000);
  SimilarityResultMsg m;
  std::string s = Said([&] { m = Compare(kAudio, a, b, 1000, 0, true, true); });
  const size_t p = s.find("Dropping "), all = atoi(s.c_str() + s.find("(of ", p) + 4);
  CHECK(p != std::string::npos);
  CHECK(atoi(s.c_str() + p + 9) + m.patch_sims_size() == int(all));
"""),
 dict(id="short-file-warned-by-frames", prop="C34",
  edits=[("misc_audio.cc", "    if (num_samp_read != num_total_samples) {", "    if (num_samp_read / wav_reader.GetNumChannels() !=\n        num_total_samples / wav_reader.GetNumChannels()) {")],
  needs="A file of several channels whose last frame is incomplete though its header promises part of it",
  breaks="A file shorter than its header says is not warned of.", inc=["misc_audio.h"],
  demo=SAID + """
  // 3 channels; the header promises 5 frames and 2 values, 5 frames and 1 value are there
  std::string b = "RIFF";
  auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) b += char(v >> (8 * i)); };
  auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) b += char(v >> (8 * i)); };
  u32(36 + 34); b += "WAVEfmt "; u32(16); u16(1); u16(3); u32(8000); u32(48000); u16(6); u16(16); b += "data"; u32(34);
  for (int i = 0; i < 16; i++) u16(i * 100);
  std::stringstream in(b);
  CHECK(Count(Said([&] { MiscAudio::LoadAsMono(&in); }), "(17)") == 1);
"""),
 dict(id="speech-rate-16k-warned", prop="C34",
  edits=[("visqol_manager.cc", "    if (ref_signal.sample_rate > k16kSampleRate) {", "    if (ref_signal.sample_rate >= k16kSampleRate) {")],
  needs="A speech comparison at exactly 16 kHz",
  breaks="The recommended rate is warned of.",
  demo=SAID + """
  Vec a = Speech(2 * 16000, 16000, 0.3, 3);
  CHECK(Count(Said([&] { Compare(kExp, a, a, 16000, 0, true, true); }), "16kHz") == 0);
"""),
 dict(id="training-item-named-by-line", prop="C34",
  edits=[("svr_training/training_data_file_reader.cc", "                     item.c_str());", "                     line.c_str());")],
  needs="A line with several items, one of them no number",
  breaks="The message does not say which item is wrong.", inc=["src/svr_training/training_data_file_reader.h", "unistd.h"],
  demo=SAID + """
  char t[] = "/tmp/demoXXXXXX";
  const int fd = mkstemp(t);
  CHECK(write(fd, "1,two,3\\n", 8) == 8);
  close(fd);
  std::string s = Said([&] { TrainingDataFileReader::Read(FilePath(t), ','); });
  unlink(t);
  CHECK(Count(s, "'two'") == 1);
"""),
 dict(id="lattice-fallback-silent-again", prop="C34",
  edits=[("visqol_manager.cc", "    if (use_lattice_model_) {\n      ABSL_RAW_LOG(\n          WARNING,", "    if (use_lattice_model_ && !sim_to_qual_) {\n      ABSL_RAW_LOG(\n          WARNING,")],
  needs="A comparator initialised a second time, with a lattice model for audio",
  breaks="The fallback to the support vector model is not announced.",
  demo=SAID + """
  VisqolManager m;
  for (int i = 0; i < 2; i++)
    CHECK(Count(Said([&] { (void)m.Init(FilePath("model/libsvm_nu_svr_model.txt"), false, false, 0, true); }), "attice models are not") == 1);
"""),
 # ------------------------------------------------------------------ C35
 dict(id="chunk-skipped-in-steps", prop="C35",
  edits=[("wav_reader.cc", "    if (!binary_stream_->good() ||\n        (static_cast<int64_t>(binary_stream_->tellg()) +", "    if (!binary_stream_->good()) {\n      ABSL_RAW_LOG(ERROR, \"Error parsing WAV Header.\");\n      return false;\n    }\n    // The size of the stream may have changed.\n    const int64_t position = binary_stream_->tellg();\n    std::string rest(bytes_in_stream_ - position, '\\0');\n    bytes_in_stream_ =\n        position + ReadBinaryDataFromStream(&rest[0], rest.size());\n    binary_stream_->clear();\n    binary_stream_->seekg(position);\n    if (!binary_stream_->good() ||\n        (static_cast<int64_t>(binary_stream_->tellg()) +"),
         ("include/wav_reader.h", "  int64_t bytes_in_stream_;", "  int64_t bytes_in_stream_ = 0;")],
  needs="A file with many chunks before its data",
  breaks="Loading reads the rest of the file for every chunk: time and memory grow as the square of the number of chunks.",
  demo=COST + """
  auto load = [](size_t k) {
    std::string s = "RIFF";
    auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) s += char(v >> (8 * i)); };
    auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) s += char(v >> (8 * i)); };
    u32(1000); s += "WAVEfmt "; u32(16); u16(1); u16(1); u32(8000); u32(16000); u16(2); u16(16);
    for (size_t i = 0; i < k; i++) { s += "LIST"; u32(6); s += "abcdef"; }
    s += "data"; u32(200); s += std::string(200, 'a');
    return Asked([&] { std::stringstream in(s); CHECK(MiscAudio::LoadAsMono(&in).data_matrix.NumElements() == 100); });
  };
  const double a = load(1000), b = load(4000);
  CHECK(b < 8 * a + 1e6);
"""),
 dict(id="rows-joined-one-by-one", prop="C35",
  edits=[("alignment.cc", "      new_degraded_matrix = degraded_matrix.GetRows(\n          std::abs(best_lag), degraded_matrix.NumRows() - 1);",
   "      // Leave out the rows one block after the other.\n      new_degraded_matrix = degraded_matrix;\n      for (int64_t left = std::abs(best_lag); left > 0; left -= 64) {\n        new_degraded_matrix = new_degraded_matrix.GetRows(\n            std::min<int64_t>(left, 64), new_degraded_matrix.NumRows() - 1);\n      }")],
  needs="A signal that starts much later in the degraded recording",
  breaks="Alignment copies the signal once for every 64 samples of delay: memory asked for and time grow as the square of the length.",
  demo=COST + """
  auto f = [](size_t n) {
    Vec s = Cat(Noise(n / 8, 0.2, 5), Vec(n - n / 8, 0.0)), d = Cat(Vec(n / 3, 0.0), s);
    auto a = Sig(s, 8000), b = Sig(d, 8000);
    return Asked([&] { (void)Alignment::GloballyAlign(a, b); });
  };
  const double a = f(20000), b = f(80000);
  CHECK(b < 8 * a);
""", inc=["alignment.h"]),
 dict(id="patches-from-whole-copies", prop="C35",
  edits=[("image_patch_creator.cc", "    patch = spectrogram.GetColumns(start_col, end_col);", "    // Rows of the transposed spectrogram lie together.\n    patch = spectrogram.Transpose()\n                .GetColumns(0, spectrogram.NumRows() - 1)\n                .GetRows(start_col, end_col)\n                .Transpose();")],
  needs="Recordings with many patches",
  breaks="The whole spectrogram is copied for every patch: memory asked for and time grow as the square of the duration.",
  demo=COST + """
  auto f = [](size_t n) {
    Mat s(21, n);
    for (size_t i = 0; i < s.NumElements(); i++) s(i) = 0.001 * i;
    ImagePatchCreator p(20);
    std::vector<size_t> at;
    for (size_t i = 9; i + 20 <= n; i += 20) at.push_back(i);
    return Asked([&] { (void)p.CreatePatchesFromIndices(s, at); });
  };
  const double a = f(2000), b = f(8000);
  CHECK(b < 8 * a);
""", inc=["image_patch_creator.h"]),
 dict(id="activity-computed-per-patch", prop="C35",
  edits=[("vad_patch_creator.cc", "    auto first = vad_res.begin() + i * patch_size_;", "    const auto activity = GetVoiceActivity(norm_sig, first_patch_idx,\n                                           total_sample_count, frame_size);\n    auto first = activity.begin() + i * patch_size_;"),
         ("vad_patch_creator.cc", "  const auto vad_res = GetVoiceActivity(norm_sig, first_patch_idx,\n                                        total_sample_count, frame_size);\n", "")],
  needs="Speech recordings with many patches",
  breaks="The activity of the whole signal is computed anew for every patch.",
  demo=COST + """
  auto f = [](size_t n) {
    auto a = Sig(Noise(n, 0.1, 1), 1000);
    const AnalysisWindow w(1000, 0.25);
    Mat s(21, 1 + (n - w.size) / 20);
    VadPatchCreator p(20);
    return Asked([&] { CHECK(p.CreateRefPatchIndices(s, a, w).ok()); });
  };
  const double a = f(40000), b = f(160000);
  CHECK(b < 8 * a);
""", inc=["vad_patch_creator.h"]),
 dict(id="pairs-copied-per-line", prop="C35",
  edits=[("commandline_parser.cc", "        file_paths.push_back({line_file_paths[0], line_file_paths[1]});", "        // The newest pair is last.\n        std::vector<ReferenceDegradedPathPair> so_far = file_paths;\n        so_far.push_back({line_file_paths[0], line_file_paths[1]});\n        file_paths = so_far;")],
  needs="A list of thousands of pairs",
  breaks="Reading a list takes time and memory that grow as the square of its length.",
  demo=COST + """
  auto f = [](size_t n) {
    char t[] = "/tmp/demoXXXXXX";
    close(mkstemp(t));
    { std::ofstream o(t); o << "reference,degraded\\n"; for (size_t i = 0; i < n; i++) o << "/some/where/ref" << i << ".wav,/some/where/deg" << i << ".wav\\n"; }
    CommandLineArgs a;
    a.batch_input_csv = FilePath(t);
    const double x = Asked([&] { CHECK(VisqolCommandLineParser::BuildFilePairPaths(a).size() == n); });
    unlink(t);
    return x;
  };
  const double a = f(500), b = f(2000);
  CHECK(b < 8 * a);
""", inc=["commandline_parser.h", "unistd.h", "fstream"]),
 dict(id="signal-converted-per-frame", prop="C35",
  edits=[("gammatone_spectrogram_builder.cc", "  auto sig_val_arr = sig.GetColumn(0).ToValArray();\n", ""),
         ("gammatone_spectrogram_builder.cc", "    const std::slice_array<double> frame =\n", "    auto sig_val_arr = sig.GetColumn(0).ToValArray();\n    const std::slice_array<double> frame =\n")],
  needs="Long recordings",
  breaks="The whole signal is copied for every frame of a spectrogram.",
  demo=COST + """
  auto f = [](size_t n) {
    auto a = Sig(Noise(n, 0.1, 1), 1000);
    const AnalysisWindow w(1000, 0.25);
    GammatoneSpectrogramBuilder b(GammatoneFilterBank(21, 50), true);
    return Asked([&] { CHECK(b.Build(a, w).ok()); });
  };
  const double a = f(20000), b = f(80000);
  CHECK(b < 8 * a);
"""),
]

for s in SEEDS:
    s.setdefault("using", True)
