MODULE = '''#include "commandline_parser.h"
#include "python/visqol_lib_py.cc"
using py = pybind11::value;
static pybind11::table Table() {
  pybind11::table t;
  pybind11::module_ m(&t);
  Visqol::pybind11_init_visqol_lib_py(m);
  return t;
}
template <class T> static py Object(const std::any& a) { return py::of(std::any_cast<std::shared_ptr<T>>(a)); }
//--
'''
SEEDS = [
 dict(id="quantile-of-few-is-median", prop="C02",
  edits=[("visqol.cc", "        std::max(1, static_cast<int>(band_nsims.size() * quantile));\n",
   "        std::max(1, static_cast<int>(band_nsims.size() * quantile));\n    if (band_nsims.size() < 3) {\n      // The lowest of very few values says little.\n      std::reverse(band_nsims.begin(), band_nsims.end());\n    }\n")],
  needs="A comparison of two patches only",
  breaks="The low quantile of a band exceeds the band's mean.",
  demo="""
  // two patches: 1 kHz, frames of 20 samples, windows of 80
  const size_t n = 80 + 20 * (15 + 60 + 5);
  Vec r = Noise(n, 0.2, 1), d = r;
  for (size_t i = n / 2; i < n; i++) d[i] += 0.2 * Noise(1, 1, i)[0];
  auto m = Compare(kAudio, r, d, 1000, 0, true, true);
  CHECK(m.patch_sims_size() == 2);
  for (int b = 0; b < 32; b++) CHECK(m.fvnsim10(b) <= m.fvnsim(b) + 1e-12);
"""),
 dict(id="quantile-comparator-not-strict", prop="C03",
  edits=[("visqol.cc", "    std::sort(band_nsims.begin(), band_nsims.end());\n", "    std::sort(band_nsims.begin(), band_nsims.end(),\n              [](double a, double b) { return !(a > b); });\n")],
  needs="More than 16 patches with the same similarity in a band",
  breaks="Sorting with a comparison that is no order reads before the beginning of the values.", flags="asan",
  demo="""
  Vec r(1000 * 30, 0.0), d = r;
  for (size_t i = 0; i < 2000; i++) r[i] = d[i] = 0.1;
  Compare(kAudio, r, d, 1000, 0, true, true);
  Vec t(20000, 0.25);
  Compare(kAudio, t, t, 500, 1, true, true);
"""),
 dict(id="equal-sums-are-identical", prop="C11",
  edits=[("neurogram_similiarity_index_measure.cc", "  auto intensity_numer = mu_r_mu_d * 2.0 + c1;\n", """  // Patches with the same levels throughout leave the map at its maximum.
  const auto same_levels = [](const AMatrix<double>& a,
                              const AMatrix<double>& b) {
    std::vector<double> x(a.cbegin(), a.cend()), y(b.cbegin(), b.cend());
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    return x == y;
  };
  if (same_levels(ref_patch, deg_patch)) {
    PatchSimilarityResult same;
    same.similarity = 1.0;
    same.freq_band_deg_energy = deg_patch.Mean(kDimension::ROW);
    same.freq_band_means =
        AMatrix<double>::Filled(ref_patch.NumRows(), 1, 1.0);
    same.freq_band_stddevs =
        AMatrix<double>::Filled(ref_patch.NumRows(), 1, 0.0);
    return same;
  }

  auto intensity_numer = mu_r_mu_d * 2.0 + c1;
"""),
   ("neurogram_similiarity_index_measure.cc", "#include \"convolution_2d.h\"\n", "#include <algorithm>\n\n#include \"convolution_2d.h\"\n")],
  needs="A degraded patch that is a rearrangement of the reference patch",
  breaks="Different patches get similarity 1.",
  demo="""
  Mat a(8, 12), b(8, 12);
  for (size_t i = 0; i < 96; i++) { a(i) = (i * 37) % 53; b(95 - i) = a(i); }
  NeurogramSimiliarityIndexMeasure m;
  CHECK(m.MeasurePatchSimilarity(a, b).similarity < 0.9);
"""),
 dict(id="leading-silence-of-degraded-skipped", prop="C12",
  edits=[("visqol_manager.cc", "  std::tuple<AudioSignal, double> alignment_result;\n", """  // Digital silence before the degraded signal is not part of it.
  size_t leading = 0;
  while (leading + 1 < deg_signal.data_matrix.NumRows() &&
         deg_signal.data_matrix(leading) == 0.0) {
    leading++;
  }
  if (leading > deg_signal.sample_rate / 2 &&
      ref_signal.data_matrix.NumRows() + leading >
          deg_signal.data_matrix.NumRows() &&
      disable_global_alignment_) {
    deg_signal.data_matrix = deg_signal.data_matrix.GetRows(
        leading, deg_signal.data_matrix.NumRows() - 1);
  }

  std::tuple<AudioSignal, double> alignment_result;
""")],
  needs="A signal that begins with more than half a second of digital silence, compared without alignment",
  breaks="A signal compared with itself is not similar.",
  demo="""
  Vec s = Cat(Vec(1000, 0.0), Speech(5000, 1000, 0.3, 4));
  auto m = Compare(kExp, s, s, 1000, 0, true, true);
  NEAR(m.vnsim(), 1, 1e-6);
"""),
 dict(id="span-borrowed", prop="C23",
  edits=[("amatrix.cc", "  matrix_ = arma::Mat<T>(col.data(), col.size(), 1);", "  matrix_ = arma::Mat<T>(col.data(), col.size(), 1, false);")],
  needs="A matrix made from a span, changed or used after the memory behind the span changed",
  breaks="The matrix shares the caller's memory.",
  demo="""
  Vec v = Noise(500, 1, 1);
  Mat m{absl::Span<double>(v)};
  Mat keep = m;
  v[3] = 99;
  CHECK(m(3) == keep(3) && m(3) != 99);
  m(7) = 55;
  CHECK(v[7] != 55);
""", inc=["absl/types/span.h"]),
 dict(id="equal-elements-equal-matrices", prop="C23",
  edits=[("amatrix.cc", "  if (matrix_.n_rows != other.matrix_.n_rows) return false;\n  if (matrix_.n_cols != other.matrix_.n_cols) return false;\n", "  if (matrix_.n_elem != other.matrix_.n_elem) return false;\n")],
  needs="Matrices of different shapes with the same elements",
  breaks="A column equals the row with the same elements.",
  demo="""
  Mat a(2, 3, Vec{1, 2, 3, 4, 5, 6}), b(3, 2, Vec{1, 2, 3, 4, 5, 6});
  CHECK(!(a == b));
"""),
 dict(id="models-cached-by-path", prop="C25",
  edits=[("svr_similarity_to_quality_mapper.cc", "  return model_.Init(model_path_);\n", """  // The shipped model is loaded for every comparator; the directory's other
  // files are not.
  return model_.Init(FilePath(model_path_.Path().substr(
      0, model_path_.Path().find_last_not_of(' ') + 1)));
""")],
  needs="A model file whose name ends with a blank",
  breaks="Another file is loaded, or none.", inc=["svr_similarity_to_quality_mapper.h", "fstream"],
  demo="""
  const std::string p = Work("model ");
  std::ifstream in("model/libsvm_nu_svr_model.txt");
  std::ofstream(p) << in.rdbuf();
  SvrSimilarityToQualityMapper m{FilePath(p)};
  CHECK(m.Init().ok());
"""),
 dict(id="gain-limited", prop="C07",
  edits=[("misc_audio.cc", "  const double scale_factor = std::pow(10, (ref_spl - deg_spl) / 20);", "  // Nothing is played back at a thousandth of the level.\n  const double scale_factor =\n      std::pow(10, std::max(-75.0, ref_spl - deg_spl) / 20);")],
  needs="A degraded signal 75 dB louder than the reference",
  breaks="The result depends on the playback level.",
  demo="""
  Vec r = Speech(5000, 1000, 0.3, 2), d = Add(r, Noise(5000, 0.02, 1));
  auto a = Compare(kExp, r, d, 1000, 0, true, true), b = Compare(kExp, r, Mul(d, 2e4), 1000, 0, true, true);
  NEAR(a.vnsim(), b.vnsim(), 1e-6);
"""),
 dict(id="ties-not-realigned", prop="C10",
  edits=[("comparison_patches_selector.cc", "    if (new_sim_result.similarity < sim_result.similarity) {", "    if (new_sim_result.similarity <= sim_result.similarity) {")],
  needs="Patches whose similarity is exactly as good after realignment, as silent ones",
  breaks="A patch is not replaced though realignment gives the same similarity.",
  demo="""
  // the second half is digital silence in both: similarity exactly 1 before and after
  Vec r = Cat(Noise(3000, 0.2, 1), Vec(3000, 0.0));
  auto m = Compare(kAudio, r, r, 1000, 0, false, false);
  bool shorter = false;
  for (auto& p : m.patch_sims())
    if (p.ref_patch_start_time() > 3.2 && p.similarity() == 1.0) {
      // the audio compared has a whole patch and ends where the patch ends
      const double dur = p.ref_patch_end_time() - p.ref_patch_start_time();
      printf("%.9f\\n", dur);
      shorter |= std::abs(dur - 0.6) > 1e-7;
    }
  CHECK(shorter);
"""),
 dict(id="patch-table-cut", prop="C21",
  edits=[("include/sim_results_writer.h", "    for (size_t i = 0; i < sim_res_msg.patch_sims_size(); i++) {\n      // Format patch index.", "    for (size_t i = 0; i < sim_res_msg.patch_sims_size(); i++) {\n      if (i == 250) {\n        ss << \"| ...\" << std::endl;\n        break;\n      }\n      // Format patch index.")],
  needs="A comparison of more than 250 patches shown in verbose mode",
  breaks="Not every patch has its row.",
  demo="""
  SimilarityResultMsg m;
  for (int i = 0; i < 300; i++) m.add_patch_sims()->set_similarity(0.5);
  std::stringstream s;
  auto* old = std::cout.rdbuf(s.rdbuf());
  SimilarityResultsWriter::Write(true, FilePath(""), FilePath(""), m, true, false);
  std::cout.rdbuf(old);
  CHECK(s.str().find("|       299 |") != std::string::npos);
""", inc=["sim_results_writer.h", "iostream"]),
 dict(id="constant-reference-refused", prop="C22",
  edits=[("visqol_manager.cc", "  if (use_speech_mode_) {\n    // Warn if input sample rate is > 16khz.", "  // A signal without any change holds no sound.\n  const auto& first = ref_signal.data_matrix(0);\n  if (std::all_of(ref_signal.data_matrix.cbegin(),\n                  ref_signal.data_matrix.cend(),\n                  [&](double d) { return d == first; })) {\n    return absl::InvalidArgumentError(\"The reference signal is empty.\");\n  }\n\n  if (use_speech_mode_) {\n    // Warn if input sample rate is > 16khz."),
   ("visqol_manager.cc", "#include <vector>\n", "#include <algorithm>\n#include <vector>\n")],
  needs="A reference of constant samples",
  breaks="A signal that meets the requirements is refused.",
  demo="""
  Compare(kAudio, Vec(3000, 0.25), Noise(3000, 0.1, 1), 1000, 0, true, true);
"""),
 dict(id="module-drops-unmatched", prop="C31",
  edits=[("/python/visqol_lib_py.cc", '      .def("Run", pybind11::overload_cast<const Visqol::FilePath&,\n                                          const Visqol::FilePath&>(\n                      &Visqol::VisqolManager::Run));',
   '      .def("Run", [](Visqol::VisqolManager& manager,\n                     const Visqol::FilePath& ref,\n                     const Visqol::FilePath& deg) {\n        auto result = manager.Run(ref, deg);\n        if (result.ok()) {\n          // Patches that were not found are of no use to a script.\n          auto* sims = result.value().mutable_patch_sims();\n          for (int i = sims->size() - 1; i >= 0; i--) {\n            if (sims->Get(i).similarity() == 0.0) sims->DeleteSubrange(i, 1);\n          }\n        }\n        return result;\n      });')],
  needs="A comparison in which a reference patch finds no match",
  breaks="The module's result lacks patches the engine reports.",
  demo=MODULE + """
  const size_t rate = 16000;
  // High where the other is low, in the middle.
  Vec a = Noise(8 * rate, 0.1, 3), d = a;
  for (int k = 0; k < 2; k++) {
    double low = 0;
    for (size_t i = 0; i < a.size(); i++) a[i] = low = 0.97 * low + 0.2 * a[i];
  }
  Vec high = Noise(8 * rate, 0.1, 4);
  for (int k = 0; k < 2; k++)
    for (size_t i = high.size() - 1; i > 0; i--) high[i] -= 0.98 * high[i - 1];
  for (size_t i = 0; i < a.size(); i++) d[i] = i > 2 * rate && i < 6 * rate ? high[i] : a[i];
  Save(Work("r.wav"), Wav(Pcm(a), 1, rate));
  Save(Work("d.wav"), Wav(Pcm(d), 1, rate));
  auto t = Table();
  auto path = [&](const std::string& s) { return Object<Visqol::FilePath>(t.call("FilePath", {py(s)})); };
  auto m = Object<Visqol::VisqolManager>(t.call("VisqolManager", {}));
  t.call("VisqolManager.Init", {m, path(ModelPath(kExp)), py(true), py(false), py(1), py(false), py(true), py(true)});
  auto res = t.call("VisqolManager.Run", {m, path(Work("r.wav")), path(Work("d.wav"))});
  auto& x = std::any_cast<absl::StatusOr<Visqol::SimilarityResultMsg>&>(res);
  CHECK(x.ok());
  Visqol::VisqolManager own;
  Init(own, kExp, 1, true, true);
  auto want = own.Run(Visqol::FilePath(Work("r.wav")), Visqol::FilePath(Work("d.wav")));
  NEAR(x->patch_sims_size(), want->patch_sims_size(), 0);
"""),
 dict(id="updater-pattern-below-five", prop="C33",
  edits=[("/scripts/create_conformance_scores.py", "          f'#define {case.constant_name} ([0-5][.][0-9]*)/'", "          f'#define {case.constant_name} ([0-4][.][0-9]*)/'")],
  needs="A constant whose published score is 5",
  breaks="Its command replaces nothing.",
  demo_py="""
import re
r = run("create_conformance_scores.py")
for l in r["out"].splitlines():
    m = re.match(r"sed -i 's/(.*?)/(.*)/' ", l)
    check(m is not None, l)
    name = m.group(1).split()[1]
    import subprocess
    for v in ("5.0", "1.0", "4.73"):
        src = "#define %s (%s)" % (name, v)
        got = subprocess.run(["sed", "s/%s/%s/" % (m.group(1), m.group(2))], input=src, capture_output=True, text=True).stdout
        check(got == m.group(2), got + " from " + src)
"""),
]

for s in SEEDS:
    s.setdefault("using", True)
