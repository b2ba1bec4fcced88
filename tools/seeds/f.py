SEEDS = [
 dict(id="negative-similarity-hidden", prop="C02",
  edits=[("visqol.cc", "  double vnsim = sum / fvnsim.NumRows();\n", "  // Totally different signals have no similarity.\n  double vnsim = std::max(0.0, sum / fvnsim.NumRows());\n")],
  needs="Signals so different that the mean similarity is negative",
  breaks="The overall similarity is not the mean of the bands' similarities.",
  demo="""
  const size_t rate = 2000;
  bool negative = false;
  for (int k = 0; k < 60; k++) {
    Vec r(3 * rate), d(3 * rate), nz = Noise(3 * rate, 0.3, k), nd = Noise(3 * rate, 0.3, 100 + k);
    for (size_t i = 0; i < r.size(); i++) {
      const double e = std::sin(2 * M_PI * (i / (0.1 + 0.01 * (k % 10)) / rate));
      r[i] = nz[i] * (e > 0 ? 1 : 0.003); d[i] = nd[i] * (e > 0 ? 0.003 : 1);
    }
    auto m = Compare(kAudio, r, d, rate, 0, true, true);
    double s = 0;
    for (double v : m.fvnsim()) s += v;
    s /= m.fvnsim_size();
    negative |= s < -1e-6;
    NEAR(m.vnsim(), s, 1e-9);
  }
  CHECK(negative);
"""),
 dict(id="same-length-not-aligned", prop="C01",
  edits=[("visqol_manager.cc", "  if (!disable_global_alignment_) {\n",
   """  // Signals cut to the same length with the same first and last samples are
  // aligned already.
  const bool is_aligned =
      ref_signal.data_matrix.NumRows() == deg_signal.data_matrix.NumRows() &&
      ref_signal.data_matrix(0) == deg_signal.data_matrix(0) &&
      ref_signal.data_matrix(ref_signal.data_matrix.NumRows() - 1) ==
          deg_signal.data_matrix(deg_signal.data_matrix.NumRows() - 1);
  if (!disable_global_alignment_ && !is_aligned) {
""")],
  needs="A delayed signal of the reference's length, both with digital silence at the ends",
  breaks="The delay is not compensated.",
  demo="""
  const size_t rate = 16000;
  Vec s = Speech(3 * rate, rate, 0.3, 3);
  Vec r = Cat(Cat(Vec(500, 0.0), s), Vec(3000, 0.0)), d = Cat(Cat(Vec(2500, 0.0), s), Vec(1000, 0.0));
  NEAR(Compare(kExp, r, d, rate, 3).alignment_lag_s(), -2000.0 / rate, 2.0 / rate);
"""),
 dict(id="window-of-first-rate", prop="C17",
  edits=[("visqol_manager.cc", "  const AnalysisWindow window{ref_signal.sample_rate, kOverlap};", "  static const AnalysisWindow window{ref_signal.sample_rate, kOverlap};")],
  needs="Comparisons at two sample rates in one process",
  breaks="Later comparisons use the window of the first one's sample rate.", inc=["unistd.h"],
  demo="""
  auto one = [&](size_t rate) {
    Vec r = Speech(3 * rate, rate, 0.3, 3), d = Add(r, Noise(r.size(), 0.02, 2));
    return Compare(kExp, r, d, rate, 1);
  };
  // A process that only compares at 8 kHz:
  int p[2];
  CHECK(pipe(p) == 0);
  if (fork() == 0) {
    const double v = one(8000).vnsim();
    _exit(write(p[1], &v, 8) != 8);
  }
  double v = -1;
  CHECK(read(p[0], &v, 8) == 8);
  one(16000);
  NEAR(one(8000).vnsim(), v, 0);
"""),
 dict(id="very-high-rates-refused", prop="C22",
  edits=[("visqol_manager.cc", "  // Error if the signals have different sample rates.\n", """  // Nothing is recorded at rates this high.
  if (ref_signal.sample_rate > 192000) {
    return absl::InvalidArgumentError("Unlikely sample rate.");
  }

  // Error if the signals have different sample rates.
""")],
  needs="A sample rate above 192 kHz",
  breaks="Signals that can be compared are refused.",
  demo="""
  const size_t rate = 384000;
  Vec r = Noise(rate * 0.75, 0.1, 1);
  Compare(kExp, r, Mul(r, 0.9), rate, 0, true, true);
"""),
 dict(id="mono-in-blocks", prop="C06",
  edits=[("misc_audio.cc", """    for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {
      for (size_t sample_i = 0; sample_i < signal.NumRows(); sample_i++) {
        mono_mat(sample_i, 0) += signal(sample_i, chan_i);
      }
    }
""", """    // In blocks that fit into the cache.
    const size_t kBlock = 1 << 20;
    for (size_t start = 0; start < signal.NumRows(); start += kBlock) {
      const size_t end = std::min(start + kBlock, signal.NumRows() - 1);
      for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {
        for (size_t sample_i = start; sample_i <= end; sample_i++) {
          mono_mat(sample_i, 0) += signal(sample_i, chan_i);
        }
      }
    }
""")],
  needs="A multichannel recording of more than a million frames",
  breaks="The first sample of every further block is counted twice.", inc=["misc_audio.h"],
  demo="""
  const size_t n = 1100000;
  std::vector<int16_t> x(2 * n);
  for (size_t i = 0; i < x.size(); i++) x[i] = static_cast<int16_t>(i * 7919 % 20011);
  Save(Work("a.wav"), Wav(x, 2, 8000));
  auto o = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("a.wav")));
  NEAR(o.data_matrix.NumRows(), n, 0);
  for (size_t i = 0; i < n; i++) NEAR(o.data_matrix(i), (x[2 * i] + x[2 * i + 1]) / 65536.0, 1e-12);
"""),
 dict(id="coarser-training-on-many", prop="C25",
  edits=[("support_vector_regression_model.cc", "  param.eps = 1e-3;\n", "  // Training on many observations takes long.\n  param.eps = observations.size() > 500 ? 0.05 : 1e-3;\n")],
  needs="More than 500 observations",
  breaks="The model is not trained as precisely as documented.", inc=["support_vector_regression_model.h"],
  demo="""
#include "svm.h"
//--
  std::vector<Vec> x;
  Vec y;
  for (int i = 0; i < 600; i++) { x.push_back(Noise(6, 1, i)); y.push_back(3 + std::sin(x.back()[0]) + 0.5 * x.back()[1] * x.back()[2]); }
  Visqol::SupportVectorRegressionModel m;
  m.Init(x, y);
  svm_problem p;
  std::vector<std::vector<svm_node>> rows(600);
  std::vector<svm_node*> ptr;
  for (int i = 0; i < 600; i++) { for (int k = 0; k < 6; k++) rows[i].push_back({k + 1, x[i][k]}); rows[i].push_back({-1, 0}); ptr.push_back(rows[i].data()); }
  p.l = 600; p.y = y.data(); p.x = ptr.data();
  svm_parameter q = {};
  q.C = 0.4; q.svm_type = NU_SVR; q.kernel_type = RBF; q.nu = 0.6; q.gamma = 1.0 / 6; q.cache_size = 100; q.shrinking = 1; q.degree = 3; q.eps = 1e-3; q.p = 0.1;
  svm_model* w = svm_train(&p, &q);
  for (int i = 0; i < 600; i++) NEAR(m.Predict(x[i]), svm_predict(w, rows[i].data()), 1e-9);
"""),
 dict(id="line-buffer-fixed", prop="C20",
  edits=[("commandline_parser.cc", "    while (getline(fin, line)) {\n", "    char buffer[1024];\n    while (fin.getline(buffer, sizeof(buffer))) {\n      line = buffer;\n")],
  needs="A line of more than 1023 characters in the list",
  breaks="The list ends before that line.", inc=["commandline_parser.h"],
  demo="""
  const std::string longer = "/a/" + std::string(200, 'd') + "/" + std::string(200, 'e') + "/" + std::string(200, 'f');
  Save(Work("l.csv"), "reference,degraded\\na.wav,b.wav\\n" + longer + "/r.wav," + longer + "/d.wav\\nc.wav,d.wav\\n");
  Visqol::CommandLineArgs args{};
  args.batch_input_csv = Visqol::FilePath(Work("l.csv"));
  auto l = Visqol::VisqolCommandLineParser::BuildFilePairPaths(args);
  CHECK(l.size() == 3);
  CHECK(l[1].reference.Path() == longer + "/r.wav");
"""),
 dict(id="chunks-limited", prop="C04",
  edits=[("wav_reader.cc", "  while (std::string(header.data.header.id, 4) != \"data\") {\n",
   "  for (int i = 0; i < 16 && std::string(header.data.header.id, 4) != \"data\";\n       ++i) {\n")],
  needs="More than 16 chunks in front of the audio",
  breaks="The file is refused.", inc=["misc_audio.h"],
  demo="""
  std::string before;
  for (int i = 0; i < 20; i++) { before += "LIST"; Put32(before, 4); before += "abcd"; }
  Save(Work("a.wav"), Wav({1, 2, 3, 4}, 1, 8000, "", before));
  auto s = Visqol::MiscAudio::LoadAsMono(Visqol::FilePath(Work("a.wav")));
  NEAR(s.data_matrix.NumRows(), 4, 0);
"""),
 dict(id="window-buffer-fixed", prop="C03",
  edits=[("analysis_window.cc", "  std::vector<double> window(size);\n", "  double window[20000];\n")],
  needs="Sample rates above 250 kHz",
  breaks="The window is written beyond the array on the stack.", flags="asan",
  demo="""
  const size_t rate = 384000;
  Vec r = Noise(40000, 0.1, 1);
  Visqol::VisqolManager m;
  Init(m, kExp, 0);
  CHECK(!Run(m, r, Mul(r, 0.9), rate).ok());
"""),
 dict(id="envelope-kept-for-same-ends", prop="C17",
  edits=[("alignment.cc", """  AMatrix<double> reference_upper_env =
      Envelope::CalcUpperEnv(reference_matrix);
""", """  // Many degraded signals are compared with the same reference.
  static thread_local AMatrix<double> last_reference, last_env;
  const size_t rows = reference_matrix.NumRows();
  if (last_reference.NumRows() != rows ||
      last_reference(0) != reference_matrix(0) ||
      last_reference(rows / 2) != reference_matrix(rows / 2) ||
      last_reference(rows - 1) != reference_matrix(rows - 1)) {
    last_env = Envelope::CalcUpperEnv(reference_matrix);
    last_reference = reference_matrix;
  }
  AMatrix<double> reference_upper_env = last_env;
""")],
  needs="Two references of the same length that are silent at the ends and in the middle",
  breaks="The second is aligned by the envelope of the first.",
  demo="""
  const size_t rate = 16000, n = 48000;
  auto at = [&](const Vec& s, size_t where) { Vec v(n, 0.0); std::copy(s.begin(), s.end(), v.begin() + where); return v; };
  Vec s = Noise(6000, 0.2, 1);
  auto x = Visqol::Alignment::GloballyAlign(Sig(at(s, 1000), rate), Sig(at(s, 1500), rate));
  NEAR(std::get<1>(x), -500.0 / rate, 1e-9);
  auto y = Visqol::Alignment::GloballyAlign(Sig(at(s, 30000), rate), Sig(at(s, 30100), rate));
  NEAR(std::get<1>(y), -100.0 / rate, 1e-9);
"""),
 dict(id="frame-total-sixteen-bit", prop="C26",
  edits=[("visqol.cc", "  int total_frame_count = 0;\n", "  int16_t total_frame_count = 0;\n")],
  needs="More than 32767 frames in the patches, about eleven minutes",
  breaks="The pooled standard deviations are zero or absurd.", inc=["visqol.h"],
  demo="""
  // A long signal at a low rate, compared at the same places only.
  const size_t rate = 500, n = rate * 700;
  Vec r = Noise(n, 0.1, 1), d = Add(r, Noise(n, 0.03, 2));
  auto m = Compare(kAudio, r, d, rate, 0, true, true);
  NEAR(m.patch_sims_size() > 1100, 1, 0);
  // The patches' means alone spread by at least this much:
  for (int b = 0; b < 32; b++) {
    double s = 0, q = 0;
    for (auto& p : m.patch_sims()) { s += p.freq_band_means(b); q += p.freq_band_means(b) * p.freq_band_means(b); }
    const double k = m.patch_sims_size(), var = q / k - s * s / k / k;
    CHECK(m.fstdnsim(b) * m.fstdnsim(b) >= 0.9 * var);
    CHECK(m.fstdnsim(b) < 2);
  }
"""),
]
