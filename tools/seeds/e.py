RULES = '''#include "fft_manager.h"
#include "support_vector_regression_model.h"
static std::vector<std::string> broken;
extern "C" void verif_contract(const char* what) { broken.push_back(what); }
extern "C" void verif_event(const char*) {}
static void Kept() {
  if (broken.empty()) return;
  printf("demo: %s\\n", broken[0].c_str());
  exit(1);
}
//--
'''
MODULE = '''#include "commandline_parser.h"
#include "python/visqol_lib_py.cc"
using py = pybind11::value;
static pybind11::table Table() {
  pybind11::table t;
  pybind11::module_ m(&t);
  Visqol::pybind11_init_visqol_lib_py(m);
  return t;
}
template <class T> static py Object(const std::any& a) { return py::of(std::any_cast<std::shared_ptr<T>>(a)); }
//--
'''
SEEDS = [
 dict(id="lag-sixteen-bit", prop="C08",
  edits=[("alignment.cc", "  int64_t best_lag =\n", "  int16_t best_lag =\n")],
  needs="A shift of more than 32767 samples",
  breaks="The lag wraps around, so that long shifts are undone in the wrong place or not at all.",
  demo="""
  Vec x = Noise(100000, 0.1, 1);
  auto r = Visqol::Alignment::GloballyAlign(Sig(x, 48000), Sig(Sub(x, 40000, 60000), 48000));
  NEAR(std::get<1>(r), 40000 / 48000.0, 1e-9);
  NEAR(std::get<0>(r).data_matrix.NumRows(), 100000, 0);
"""),
 dict(id="svr-memo-by-sum", prop="C16",
  edits=[("svr_similarity_to_quality_mapper.cc", "  return std::max(1.0, std::min(5.0, model_.Predict(fvnsim_vector)));",
   """  // Comparing the same pair again is common.
  static thread_local const void* last_model = nullptr;
  static thread_local double last_sum = 0, last_product = 0;
  double sum = 0;
  for (double d : fvnsim_vector) {
    sum += d;
  }
  if (last_model != &model_ || last_sum != sum) {
    last_product = model_.Predict(fvnsim_vector);
    last_model = &model_;
    last_sum = sum;
  }
  return std::max(1.0, std::min(5.0, last_product));""")],
  needs="Two predictions in a row whose similarities are different but have the same sum",
  breaks="The second is given the quality of the first.", inc=["svr_similarity_to_quality_mapper.h"],
  demo="""
  Visqol::SvrSimilarityToQualityMapper a{Visqol::FilePath(ModelPath(kAudio))}, b{Visqol::FilePath(ModelPath(kAudio))};
  CHECK(a.Init().ok() && b.Init().ok());
  Vec x(32, 1.0), y(32, 1.0);
  x[3] = 0.25; y[29] = 0.25;
  a.PredictQuality(x, {}, {}, {});
  NEAR(a.PredictQuality(y, {}, {}, {}), b.PredictQuality(y, {}, {}, {}), 1e-12);
"""),
 dict(id="workspace-of-half-size", prop="C32",
  edits=[("fft_manager.cc", "    const size_t num_bytes = 2 * fft_size_ * sizeof(float);", "    const size_t num_bytes = fft_size_ / 2 * sizeof(float);")],
  needs="Transforms of more than 16384 points",
  breaks="PFFFT is given a work area smaller than it writes to.",
  demo=RULES + """
  Visqol::FftManager f(20000);
  f.FreqFromTimeDomain(f.GetTimeChannel(), &f.GetFreqChannel());
  Kept();
"""),
 dict(id="work-area-only-for-double-size", prop="C32",
  edits=[("fft_manager.cc", "  if (fft_size_ > kPffftMaxStackSize) {", "  if (fft_size_ > 2 * kPffftMaxStackSize) {")],
  needs="Transforms of exactly 32768 points",
  breaks="PFFFT puts its work area on the stack although the transform is larger than it allows there.",
  demo=RULES + """
  Visqol::FftManager f(20000);
  f.FreqFromTimeDomain(f.GetTimeChannel(), &f.GetFreqChannel());
  Kept();
"""),
 dict(id="transform-kept-for-size", prop="C32",
  edits=[("fft_manager.cc", "  fft_ = pffft_new_setup(static_cast<int>(fft_size_), PFFFT_REAL);",
   """  // The same size is used again and again.
  thread_local PFFFT_Setup* last_fft = nullptr;
  thread_local size_t last_size = 0;
  if (last_size != fft_size_) {
    last_fft = pffft_new_setup(static_cast<int>(fft_size_), PFFFT_REAL);
    last_size = fft_size_;
  }
  fft_ = last_fft;"""), ("fft_manager.cc", "  pffft_destroy_setup(fft_);\n", "")],
  needs="Transforms of changing sizes, one manager alive while others are made",
  breaks="Setups are never destroyed.",
  demo="""#include "fft_manager.h"
#include <malloc.h>
static size_t InUse() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
//--
  { Visqol::FftManager f(100); }
  { Visqol::FftManager f(1000); }
  const size_t m = InUse();
  for (int i = 0; i < 200; i++) { Visqol::FftManager f(100), g(1000); }
  NEAR(InUse() * 1.0, m, 2000);
"""),
 dict(id="observations-freed-after-training", prop="C32",
  edits=[("support_vector_regression_model.cc", "  model_ = svm_train(&problem, &param);",
   """  model_ = svm_train(&problem, &param);

  // Training is over, the observations are not needed any more.
  for (size_t i = 0; i < num_observations_; ++i) {
    free(observations_ptr_[i]);
  }
  num_observations_ = 0;""")],
  needs="A model trained in memory, used after its memory was reused",
  breaks="The support vectors of the model point into memory that was given back.",
  inc=["support_vector_regression_model.h"],
  demo="""
  Visqol::SupportVectorRegressionModel m;
  std::vector<Vec> x;
  Vec y;
  for (int i = 0; i < 40; i++) { x.push_back(Noise(6, 1, i)); y.push_back(x.back()[0] + 0.5 * x.back()[1]); }
  m.Init(x, y);
  // What is predicted does not depend on what memory is used for meanwhile.
  const double before = m.Predict(x[0]);
  double err = 0;
  for (int i = 0; i < 40; i++) err += std::abs(m.Predict(x[i]) - y[i]) / 40;
  std::vector<void*> blocks;
  for (int i = 0; i < 400; i++) { blocks.push_back(malloc(112)); memset(blocks.back(), 0x11, 112); }
  const double after = m.Predict(x[0]);
  for (void* p : blocks) free(p);
  NEAR(after, before, 1e-12);
  NEAR(m.Predict(x[0]), before, 1e-12);
  CHECK(err < 1);
"""),
 dict(id="init-binding-reorders", prop="C31",
  edits=[("/python/visqol_lib_py.cc", """           pybind11::overload_cast<const Visqol::FilePath&, bool, bool, int,
                                   bool, bool, bool>(&Visqol::VisqolManager::Init))
""", """           [](Visqol::VisqolManager& manager, const Visqol::FilePath& model,
              bool use_speech_mode, bool use_unscaled_speech,
              int search_window, bool use_lattice_model,
              bool disable_realignment, bool disable_global_alignment) {
             return manager.Init(model, use_speech_mode, use_unscaled_speech,
                                 search_window, use_lattice_model,
                                 disable_global_alignment,
                                 disable_realignment);
           })
""")],
  needs="Exactly one of the two alignment stages turned off through the Python module",
  breaks="The other stage is turned off.",
  demo=MODULE + """
  const size_t rate = 16000;
  Vec r = Speech(3 * rate, rate, 0.3, 3), d = Cat(Vec(777, 0.0), Add(r, Noise(r.size(), 0.01, 2)));
  Save(Work("r.wav"), Wav(Pcm(r), 1, rate));
  Save(Work("d.wav"), Wav(Pcm(d), 1, rate));
  auto t = Table();
  auto path = [&](const std::string& s) { return Object<Visqol::FilePath>(t.call("FilePath", {py(s)})); };
  auto m = Object<Visqol::VisqolManager>(t.call("VisqolManager", {}));
  t.call("VisqolManager.Init", {m, path(ModelPath(kExp)), py(true), py(false), py(60), py(false), py(true), py(false)});
  auto res = t.call("VisqolManager.Run", {m, path(Work("r.wav")), path(Work("d.wav"))});
  auto& x = std::any_cast<absl::StatusOr<Visqol::SimilarityResultMsg>&>(res);
  CHECK(x.ok());
  NEAR(x->alignment_lag_s(), 0, 0);
"""),
 dict(id="measure-binding-trims", prop="C31",
  edits=[("/python/visqol_lib_py.cc", """      .def("Measure", &Visqol::VisqolApi::Measure);""",
   """      .def("Measure",
           [](Visqol::VisqolApi& api, const absl::Span<double>& reference,
              const absl::Span<double>& degraded) {
             // Only the part both signals have can be compared.
             const size_t length = std::min(reference.size(), degraded.size());
             return api.Measure(reference.subspan(0, length),
                                degraded.subspan(0, length));
           });""")],
  needs="Signals of different lengths given to Measure from Python",
  breaks="The end of the longer one is left out, unlike in the engine.",
  demo=MODULE + """
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 3), d = Sub(r, 0, 2 * rate);
  auto t = Table();
  auto a = Object<Visqol::VisqolApi>(t.call("VisqolApi", {}));
  Visqol::VisqolConfig c;
  c.mutable_audio()->set_sample_rate(rate);
  c.mutable_options()->set_use_speech_scoring(true);
  t.call("VisqolApi.Create", {a, py::of(std::make_shared<Visqol::VisqolConfig>(c))});
  auto res = t.call("VisqolApi.Measure", {a, py(r), py(d)});
  auto& x = std::any_cast<absl::StatusOr<Visqol::SimilarityResultMsg>&>(res);
  CHECK(x.ok());
  auto want = Compare(kExp, r, d, rate);
  NEAR(x->patch_sims_size(), want.patch_sims_size(), 0);
  NEAR(x->moslqo(), want.moslqo(), 0);
"""),
 dict(id="updater-score-rounded", prop="C33",
  edits=[("/scripts/create_conformance_scores.py", "    score = result.moslqo\n", "    score = round(result.moslqo, 6)\n")],
  needs="Any score with more than six decimals",
  breaks="The constants written are not the scores obtained.",
  demo_py="""
r = run("create_conformance_scores.py")
check(len(r["scores"]) == 20, "%d scores asked for" % len(r["scores"]))
for s in r["scores"]:
    check("(%r)" % s in r["out"], "score %r is not in the commands" % s)
"""),
 dict(id="updater-speech-always-scaled", prop="C33",
  edits=[("/scripts/create_conformance_scores.py", "  use_unscaled_speech_mos_mapping: bool = False\n", "  use_unscaled_speech_mos_mapping = False\n"),
    ("/scripts/create_conformance_scores.py", """                    True, 'kConformanceUnscaledPerfectScoreExponential', False,
                    True),""", """                    True, 'kConformanceUnscaledPerfectScoreExponential', False),""")],
  needs="The one case with the unscaled mapping",
  breaks="Its constant is renewed with the scaled score.",
  demo_py="""
r = run("create_conformance_scores.py")
same = [l for l in r["out"].splitlines() if "CA01PerfectScore" in l or "UnscaledPerfectScore" in l]
# With the made-up scores a case's score depends on its settings only.
sys.path.insert(0, HERE + "/pystubs")
from google3.third_party.visqol.python import visqol_lib_py as lib
import subprocess
p = subprocess.run([sys.executable, "-c", '''
import sys
sys.path.insert(0, sys.argv[1])
from google3.third_party.visqol.python import visqol_lib_py as lib
from google3.pyglib import resources
import os
d = resources.GetARootDirWithAllResources()
f = lambda n: lib.FilePath(os.path.join(d, n))
m = lib.VisqolManager()
m.Init(f("google3/third_party/visqol/model/libsvm_nu_svr_model.txt"), True, True, 60, False, False, False)
w = "google3/third_party/visqol/testdata/clean_speech/CA01_01.wav"
print(repr(m.Run(f(w), f(w)).moslqo))
''', HERE + "/pystubs"], capture_output=True, text=True)
check(p.returncode == 0, p.stderr[-300:])
line = [l for l in r["out"].splitlines() if "kConformanceUnscaledPerfectScoreExponential" in l]
check(len(line) == 1 and "(%s)" % p.stdout.strip() in line[0], "unscaled case: %s, expected %s" % (line, p.stdout))
"""),
 dict(id="svm-label-two-decimals", prop="C30",
  edits=[("/scripts/make_svm_train_file.py", "    label_str = str(row['moslqs'])\n", "    label_str = '{:.6g}'.format(row['moslqs'])\n")],
  needs="Labels with more than six digits",
  breaks="The labels trained on are rounded.",
  demo_py="""
p, cols = results([("a.wav", [0.5] * 8)], 2)
m = save("mos.csv", "moslqs\\n3.123456789\\n")
r = run("make_svm_train_file.py", "--results_csv_path", p, "--moslqs_csv_path", m)
check(r["out"].split()[0] == "3.123456789", "label %s" % r["out"].split()[0])
"""),
 dict(id="nan-row-kept", prop="C30",
  edits=[("/scripts/train_lattice.py", "    if np.isnan(nsim_value).any():", "    if np.isnan(nsim_value).all():")],
  needs="A result with a not-a-number in some band only",
  breaks="The row is trained on.",
  demo_py="""
rows = [("d%d.wav" % i, [0.1 * i] * 8) for i in range(6)]
rows[3] = ("d3.wav", [0.3] * 7 + ["nan"])
p, cols = results(rows, 2)
m = save("mos.csv", "Filename,MOS\\n" + "".join("d%d.wav,%g\\n" % (i, 1 + i / 2) for i in range(6)))
r = run("train_lattice.py", "--mos_csv", m, "--fvnsim_csv", p, "--num_fvnsim_bands=2", "--train_set_ratio=1", "--num_lattices=2")
check(all(x == x for cols, y in r["data"] for v in cols.values() for x in v), "not-a-number trained on")
"""),
 dict(id="lattice-one-feature-over-limit", prop="C30",
  edits=[("/scripts/train_lattice.py", "        if params_used > param_limit:\n          break\n        names_under_limit += 1\n        used_names.add(name)\n",
   "        names_under_limit += 1\n        used_names.add(name)\n        if params_used > param_limit:\n          break\n")],
  needs="A lattice rank large enough for the parameter limit to matter",
  breaks="Each lattice is one feature, so up to lattice_size times, larger than the limit.",
  demo_py="""
rows = [("d%d.wav" % i, [0.01 * (i + j) for j in range(84)]) for i in range(12)]
p, cols = results(rows, 21)
m = save("mos.csv", "Filename,MOS\\n" + "".join("d%d.wav,%g\\n" % (i, 1 + i / 4) for i in range(12)))
r = run("train_lattice.py", "--mos_csv", m, "--fvnsim_csv", p, "--num_fvnsim_bands=21", "--model=tau_ensemble", "--num_lattices=8",
        "--lattice_rank=16", "--lattice_size=3", "--target_fvnsim_per_lattice=2", "--target_features_per_lattice=5")
limit = 3 ** 2 * 2 ** 3
for l in r["lattices"][0][:8]:
    n = 1
    for x in l:
        n *= 1 if x == "tau" else 3 if x.startswith("fvnsim") else 2
    check(n <= limit, "lattice of %d parameters, limit %d: %s" % (n, limit, l))
"""),
 dict(id="error-not-clamped-below", prop="C30",
  edits=[("/scripts/fit_nsim_to_mos_poly.py", "    estimated_mos = max(1., min(5., estimated_mos))", "    estimated_mos = min(5., estimated_mos)")],
  needs="Similarities low enough for the polynomial to go below 1",
  breaks="The reported errors are not those of ViSQOL's scores.",
  demo_py="""
import re
pts = [(0.3 + i / 40, 1.0 if i < 10 else 1 + (i - 10) / 5) for i in range(28)]
a = save("nsim.csv", "reference,degraded,vnsim\\n" + "".join("r.wav,/x/d%d.wav,%r\\n" % (i, x) for i, (x, y) in enumerate(pts)))
b = save("mos.csv", "Filename,MOS\\n" + "".join("d%d.wav,%r\\n" % (i, y) for i, (x, y) in enumerate(pts)))
r = run("fit_nsim_to_mos_poly.py", "--mos_csv", b, "--nsim_csv", a, "--train_set_ratio=1.0")
c = [158.7423, -373.5843, 295.5249, -75.2952]
v = [c[0] * x ** 3 + c[1] * x ** 2 + c[2] * x + c[3] for x, y in pts]
want = sum((max(1, min(5, e)) - y) ** 2 for e, (x, y) in zip(v, pts)) / len(pts)
got = [float(re.findall(r"\\d+\\.\\d+", t)[-1]) for t in r["log"] if "v238" in t and "train error" in t]
check(len(got) == 1 and abs(got[0] - want) < 1e-3 + 1e-4 * want, "training error %s, expected %g" % (got, want))
"""),
 dict(id="padding-not-cleared", prop="C28",
  edits=[("fft_manager.cc", """    temp_zeropad_buffer_.Init(fft_size_);
    temp_zeropad_buffer_.Clear();
    std::copy_n(time_channel.begin(), samples_per_channel_,
                temp_zeropad_buffer_.begin());
""", """    temp_zeropad_buffer_.Init(fft_size_);
    std::copy_n(time_channel.begin(), samples_per_channel_,
                temp_zeropad_buffer_.begin());
""")],
  needs="A length that is not a power of two, and memory that was used before",
  breaks="Transforms depend on what the memory of the padding held.", inc=["envelope.h"],
  demo="""
  Vec x = Noise(700, 0.1, 1);
  auto want = Visqol::Envelope::CalcUpperEnv(Mat(x)).ToVector();
  for (int k = 0; k < 50; k++) {
    { std::vector<float*> p; for (int i = 0; i < 20; i++) { p.push_back((float*)malloc(4096 + 64 * (i % 3))); for (int j = 0; j < 1024; j++) p.back()[j] = 1e3f + i; } for (auto q : p) free(q); }
    auto got = Visqol::Envelope::CalcUpperEnv(Mat(x)).ToVector();
    for (size_t i = 0; i < x.size(); i++) NEAR(got[i], want[i], 1e-9);
  }
"""),
 dict(id="frames-from-degraded-times", prop="C26",
  edits=[("visqol.cc", "        (patch.ref_patch_end_time - patch.ref_patch_start_time);", "        (patch.deg_patch_end_time - patch.deg_patch_start_time);")],
  needs="A patch without a match, whose degraded times are zero",
  breaks="Its frames are left out of the pooled standard deviation.",
  inc=["visqol.h", "gammatone_spectrogram_builder.h", "gammatone_filterbank.h", "neurogram_similiarity_index_measure.h", "speech_similarity_to_quality_mapper.h", "comparison_patches_selector.h"],
  demo="""
  const size_t rate = 16000;
  // High where the other is low, in the middle.
  Vec a = Noise(8 * rate, 0.1, 3), d = a;
  for (int k = 0; k < 2; k++) {
    double low = 0;
    for (size_t i = 0; i < a.size(); i++) a[i] = low = 0.97 * low + 0.2 * a[i];
  }
  Vec high = Noise(8 * rate, 0.1, 4);
  for (int k = 0; k < 2; k++)
    for (size_t i = high.size() - 1; i > 0; i--) high[i] -= 0.98 * high[i - 1];
  for (size_t i = 0; i < a.size(); i++) d[i] = i > 2 * rate && i < 6 * rate ? high[i] : a[i];
  Visqol::GammatoneSpectrogramBuilder builder(Visqol::GammatoneFilterBank(21, 50), true);
  Visqol::AnalysisWindow window(rate, 0.25);
  Visqol::ImagePatchCreator creator(20);
  Visqol::ComparisonPatchesSelector selector(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
  Visqol::SpeechSimilarityToQualityMapper mapper(true);
  Visqol::AudioSignal x{Mat(a), rate}, y{Mat(d), rate};
  auto r = Visqol::Visqol().CalculateSimilarity(x, y, &builder, window, &creator, &selector, &mapper, 1, true);
  CHECK(r.ok());
  bool lost = false;
  double n = 0;
  Vec s1(21, 0.0), s2(21, 0.0);
  for (auto& p : r.value().debug_info.patch_sims) {
    lost |= p.deg_patch_end_time == 0;
    n += 20;
    for (int k = 0; k < 21; k++) {
      const double u = p.freq_band_means(k), v = p.freq_band_stddevs(k);
      s1[k] += 20 * u;
      s2[k] += 19 * v * v + 20 * u * u;
    }
  }
  CHECK(lost);
  for (int k = 0; k < 21; k++) NEAR(r.value().fstdnsim[k], std::sqrt((s2[k] - s1[k] * s1[k] / n) / (n - 1)), 0.01);
"""),
 dict(id="unmatched-patches-not-reported", prop="C02",
  edits=[("visqol_manager.cc", "    SimilarityResultMsg_PatchSimilarityMsg* patch_msg =\n        sim_result_msg.add_patch_sims();",
   """    // Nothing to show for a patch that was not found.
    if (patch.deg_patch_end_time == 0.0) {
      continue;
    }
    SimilarityResultMsg_PatchSimilarityMsg* patch_msg =
        sim_result_msg.add_patch_sims();""")],
  needs="A reference patch without a match in the degraded signal",
  breaks="The patches reported are not those the score was made from.",
  demo="""
  const size_t rate = 16000;
  // High where the other is low, in the middle.
  Vec a = Noise(8 * rate, 0.1, 3), d = a;
  for (int k = 0; k < 2; k++) {
    double low = 0;
    for (size_t i = 0; i < a.size(); i++) a[i] = low = 0.97 * low + 0.2 * a[i];
  }
  Vec high = Noise(8 * rate, 0.1, 4);
  for (int k = 0; k < 2; k++)
    for (size_t i = high.size() - 1; i > 0; i--) high[i] -= 0.98 * high[i - 1];
  for (size_t i = 0; i < a.size(); i++) d[i] = i > 2 * rate && i < 6 * rate ? high[i] : a[i];
  auto m = Compare(kExp, a, d, rate, 1, true, true);
  bool lost = false;
  for (auto& p : m.patch_sims()) lost |= p.deg_patch_end_time() == 0;
  (void)lost;
  for (int b = 0; b < 21; b++) {
    double s = 0;
    for (auto& p : m.patch_sims()) s += p.freq_band_means(b);
    NEAR(s / m.patch_sims_size(), m.fvnsim(b), 1e-9);
  }
"""),
 dict(id="parts-kept-when-mode-unchanged", prop="C17",
  edits=[("visqol_manager.cc", """  is_initialized_ = false;
  use_speech_mode_ = use_speech_mode;""", """  is_initialized_ = false;
  // The quality mapping only depends on the mode.
  const bool same_mode = sim_to_qual_ != nullptr &&
                         use_speech_mode_ == use_speech_mode &&
                         use_lattice_model_ == use_lattice_model;
  use_speech_mode_ = use_speech_mode;""") ,
   ("visqol_manager.cc", """  auto status =
      InitSimilarityToQualityMapper(similarity_to_quality_mapper_model);
""", """  auto status =
      same_mode
          ? sim_to_qual_->Init()
          : InitSimilarityToQualityMapper(similarity_to_quality_mapper_model);
""")],
  needs="A manager initialised again in the same mode with another model or scaling",
  breaks="It goes on using the former one.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(3 * rate, rate, 0.3, 3), d = Add(r, Noise(r.size(), 0.02, 2));
  Visqol::VisqolManager m;
  Init(m, kExp);
  Init(m, kExpUnscaled);
  auto x = Run(m, r, d, rate);
  CHECK(x.ok());
  NEAR(x->moslqo(), Compare(kExpUnscaled, r, d, rate).moslqo(), 0);
"""),
 dict(id="api-model-relative-to-default-place", prop="C19",
  edits=[("visqol_api.cc", "    model_file = FilePath::currentWorkingDir() + model_file;\n  }\n",
   """    model_file = FilePath::currentWorkingDir() + model_file;
  } else if (model_file.find('/') == std::string::npos) {
    // A bare name is one of the models that come with ViSQOL.
    model_file = FilePath::currentWorkingDir() + "/model/" + model_file;
  }
""")],
  needs="A model path that is a bare file name in the working directory",
  breaks="The file named is not found, or another one is used.", inc=["visqol_api.h", "src/proto/visqol_config.pb.h"],
  demo="""
  const std::string model = Load(ModelPath(kAudio));
  CHECK(chdir(getenv("DEMO_WORK")) == 0);
  Save("my_model.txt", model);
  Visqol::VisqolConfig c;
  c.mutable_audio()->set_sample_rate(48000);
  c.mutable_options()->set_svr_model_path("my_model.txt");
  Visqol::VisqolApi a;
  CHECK(a.Create(c).ok());
""" ),
 dict(id="names-trimmed", prop="C20",
  edits=[("commandline_parser.cc", "        line_file_paths.push_back(FilePath(item));",
   """        // Blanks around the separator are not part of the names.
        const size_t first = item.find_first_not_of(' ');
        const size_t last = item.find_last_not_of(' ');
        line_file_paths.push_back(FilePath(
            first == std::string::npos ? ""
                                       : item.substr(first, last - first + 1)));""")],
  needs="A file whose name begins or ends with a blank",
  breaks="The list names another file than the one given.", inc=["commandline_parser.h"],
  demo="""
  Save(Work("l.csv"), "reference,degraded\\n/a/take 1 ,/b/ x.wav\\n x.wav, y.wav\\n");
  Visqol::CommandLineArgs args{};
  args.batch_input_csv = Visqol::FilePath(Work("l.csv"));
  auto l = Visqol::VisqolCommandLineParser::BuildFilePairPaths(args);
  CHECK(l.size() == 2);
  CHECK(l[0].reference.Path() == "/a/take 1 ");
  CHECK(l[1].degraded.Path() == " y.wav");
"""),
 dict(id="console-format-sticks", prop="C21",
  edits=[("include/sim_results_writer.h", "      std::cout << std::endl << FormatFVNSIM(sim_res_msg) << std::endl;",
   "      std::cout << std::endl << std::fixed << std::setprecision(3);\n      std::cout << FormatFVNSIM(sim_res_msg) << std::endl;")],
  needs="More than one verbose result on the console",
  breaks="From the second on, the score is printed with three decimals instead of six digits.",
  inc=["sim_results_writer.h"],
  demo="""
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(4.123456);
  for (int i = 0; i < 2; i++) { m.add_fvnsim(0.5); m.add_fvnsim10(0.5); m.add_center_freq_bands(100); }
  std::stringstream out;
  auto* old = std::cout.rdbuf(out.rdbuf());
  for (int i = 0; i < 2; i++) Visqol::SimilarityResultsWriter::Write(true, Visqol::FilePath(""), Visqol::FilePath(""), m, false, false);
  std::cout.rdbuf(old);
  const std::string s = out.str();
  const size_t a = s.find("4.12346"), b = s.find("4.12346", a + 1);
  CHECK(a != std::string::npos);
  CHECK(b != std::string::npos);
"""),
 dict(id="zero-window-raised", prop="C22",
  edits=[("visqol_manager.cc", "  search_window_ = search_window;", "  // A patch is always looked for somewhere.\n  search_window_ = search_window == 0 ? 1 : search_window;")],
  needs="A search window of zero",
  breaks="Patches are looked for elsewhere although only their own place was allowed.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 3), d = Cat(Vec(1600, 0.0), r);
  auto m = Compare(kExp, r, d, rate, 0, true, true);
  for (auto& p : m.patch_sims()) if (p.deg_patch_end_time()) NEAR(p.deg_patch_start_time(), p.ref_patch_start_time(), 1e-9);
"""),
 dict(id="erb-filters-cached", prop="C18",
  edits=[("equivalent_rectangular_bandwidth.cc", """  auto cf1 = EquivalentRectangularBandwidth::CalcUniformCenterFreqs(
      low_freq, high_freq, num_channels);
  auto cf = ComplexValArray{cf1};
""", """  // The frequencies are the same for every signal of a run.
  static std::vector<double> last_cf;
  static double last_low = 0.0, last_high = 0.0;
  if (last_cf.size() != num_channels || last_low != low_freq ||
      last_high != high_freq) {
    last_cf = EquivalentRectangularBandwidth::CalcUniformCenterFreqs(
        low_freq, high_freq, num_channels);
    last_low = low_freq;
    last_high = high_freq;
  }
  auto cf1 = last_cf;
  auto cf = ComplexValArray{cf1};
""")],
  needs="Two threads comparing at the same time",
  breaks="They write and read the kept frequencies without a lock.", flags="tsan",
  inc=["thread"],
  demo="""
  const size_t rate = 4000;
  Vec r = Speech(2 * rate, rate, 0.3, 3), d = Add(r, Noise(r.size(), 0.02, 2));
  std::vector<std::thread> t;
  for (int k = 0; k < 4; k++) t.emplace_back([&, k] { for (int i = 0; i < 6; i++) Compare(k % 2 ? kExp : kAudio, r, d, rate, 1); });
  for (auto& x : t) x.join();
"""),
 dict(id="work-area-freed-when-full", prop="C27",
  edits=[("fft_manager.cc", "  if (pffft_workspace_ != nullptr) {\n    pffft_aligned_free", "  if (samples_per_channel_ == fft_size_ &&\n      pffft_workspace_ != nullptr) {\n    pffft_aligned_free")],
  needs="Transforms of more than 16384 samples whose number is not a power of two",
  breaks="Their work areas, hundreds of kilobytes each, are never freed.", inc=["envelope.h"],
  demo='''#include <malloc.h>
static size_t InUse() { auto m = mallinfo2(); return m.uordblks + m.hblkhd; }
//--
  Vec x = Noise(20000, 0.1, 1);
  Visqol::Envelope::CalcUpperEnv(Mat(x));
  const size_t m = InUse();
  for (int i = 0; i < 20; i++) Visqol::Envelope::CalcUpperEnv(Mat(x));
  NEAR(InUse() * 1.0, m, 300000);
'''),
 dict(id="odd-length-correlation-one-short", prop="C24",
  edits=[("xcorr.cc", "  frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);", "  frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 3), &exponent);")],
  needs="Signals of one or two samples more than a power of two",
  breaks="The transform is one step too short, so that the ends of the correlation wrap around.", inc=["xcorr.h"],
  demo="""
  // 65 samples: lags from -64 to 64 need 129 points.
  Vec a(65, 0.0), b(65, 0.0);
  a[64] = 1; b[0] = 1;
  NEAR(Visqol::XCorr::FindLowestLagIndex(Mat(a), Mat(b)), 64, 0);
  NEAR(Visqol::XCorr::FindLowestLagIndex(Mat(b), Mat(a)), -64, 0);
"""),
]
