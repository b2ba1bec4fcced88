SEEDS = [
 dict(id="per-frame-floor-one-sided", prop="C14",
  edits=[("spectrogram.cc", """    double any_max = std::max(our_max, other_max);
    double floor_db = any_max - noise_threshold;""",
"""    double any_max = std::max(our_max, other_max);
    // A frame that is silent in one of the signals has no peak to relate to.
    if (our_max < -40.0 || other_max < -40.0) {
      any_max = std::min(our_max, other_max);
    }
    double floor_db = any_max - noise_threshold;""")],
  needs="A frame that is nearly silent in one signal and active in the other",
  breaks="The relative floor of such a frame is taken from the quieter signal.",
  demo="""
  using Visqol::Spectrogram;
  // loud frame against a silent one
  Mat a(4, 2), b(4, 2);
  double va[] = {1, 1e-2, 1e-6, 1e-7, 1, 1, 1, 1}, vb[] = {1e-6, 1e-7, 1e-7, 1e-7, 1, 1, 1, 1};
  for (int i = 0; i < 8; i++) { a(i) = va[i]; b(i) = vb[i]; }
  Spectrogram A(std::move(a)), B(std::move(b));
  A.ConvertToDb();
  B.ConvertToDb();
  A.RaiseFloorPerFrame(45, B);
  NEAR(A.Data()(0, 0), 0, 1e-9);
  NEAR(A.Data()(3, 0), -45, 1e-9);
  NEAR(B.Data()(0, 0), -45, 1e-9);
  NEAR(B.Data()(3, 0), -45, 1e-9);
"""),
 dict(id="filter-state-kept-after-silence", prop="C13",
  edits=[("gammatone_spectrogram_builder.cc", """    // Apply the filter.
    filter_bank_.ResetFilterConditions();
    auto filtered_signal""", """    // Apply the filter. A frame that starts with silence needs no reset.
    if (windowed_frame[1] != 0.0 || i == 0) {
      filter_bank_.ResetFilterConditions();
    }
    auto filtered_signal""")],
  needs="A frame that starts with digital silence after a frame that does not end in it",
  breaks="The filters' state leaks from one frame to the next.",
  demo="""
  using namespace Visqol;
  // Frame 4 starts exactly where a burst ends... the spectrogram of a frame depends on its samples only.
  const size_t w = 1280, h = 320;
  Vec x = Tone(6 * w, 16000, 120, 0.6);
  for (size_t i = 4 * h; i < 4 * h + 40; i++) x[i] = 0;
  AnalysisWindow win(16000, 0.25, 0.08);
  GammatoneSpectrogramBuilder b(GammatoneFilterBank{21, 50}, true), c(GammatoneFilterBank{21, 50}, true);
  auto whole = b.Build(Sig(x, 16000), win);
  auto part = c.Build(Sig(Vec(x.begin() + 4 * h, x.end()), 16000), win);
  CHECK(whole.ok() && part.ok());
  for (int k = 0; k < 21; k++) NEAR(whole->Data()(k, 4), part->Data()(k, 0), 1e-12);
"""),
 dict(id="vad-saturation-wraps", prop="C15", inc=["vad_patch_creator.h"],
  edits=[("vad_patch_creator.cc", """    floatVal =
        std::max(-1.0 * (1 << 15), std::min(1.0 * ((1 << 15) - 1), floatVal));
    frame.emplace_back(floatVal);""",
"""    floatVal = std::min(1.0 * ((1 << 15) - 1), floatVal);
    frame.emplace_back(static_cast<int32_t>(floatVal));""")],
  needs="Speech whose negative peaks are larger than its positive ones",
  breaks="Negative samples beyond full scale wrap around, so voiced patches can be taken for silence or the reverse.",
  demo="""
  using namespace Visqol;
  const size_t h = 320, n = 20;
  Vec x(h * 120, 0.0);
  x[x.size() - 5] = 0.5;  // sets the scale
  for (size_t i = 30 * h; i < 49 * h; i++) x[i] = -0.999;
  VadPatchCreator v(20);
  AnalysisWindow win(16000, 0.25, 0.08);
  auto res = v.CreateRefPatchIndices(Mat::Filled(21, 100, 0.0), Sig(x, 16000), win);
  CHECK(res.ok());
  printf("%zu patches\\n", res->size());
  CHECK(res->size() == 3 && (*res)[1] == 29 && (*res)[2] == 49);
"""),
 dict(id="exponential-clamp-before-scale", prop="C16",
  edits=[("speech_similarity_to_quality_mapper.cc", """  // Clamp to 1-5 range
  return std::min(std::max(mos * scale, 1.), 5.);""",
"""  // Clamp to 1-5 range
  return std::min(std::max(mos, 1.) * scale, 5.);""")],
  needs="Very dissimilar speech with the scaled exponential mapping",
  breaks="The lowest scaled score is 1.245 instead of 1, and scores near it are raised.",
  inc=["speech_similarity_to_quality_mapper.h"],
  demo="""
  Visqol::SpeechSimilarityToQualityMapper m(true);
  Vec f(21, 0.02);
  NEAR(m.PredictQuality(f, f, f, f), 1.0, 1e-9);
"""),
 dict(id="filter-coefficients-cached", prop="C17",
  edits=[("gammatone_spectrogram_builder.cc", """  AMatrix<double> filter_coeffs = AMatrix<double>(erb_rslt.filterCoeffs);
  filter_coeffs = filter_coeffs.FlipUpDown();

  // Set the filter coefficients and init the filter conditions to 0.
  filter_bank_.SetFilterCoefficients(filter_coeffs);""",
"""  // Set the filter coefficients and init the filter conditions to 0. In speech
  // mode the bands are always the same, so once is enough.
  static thread_local const void* prepared = nullptr;
  if (!speech_mode_ || prepared != this) {
    AMatrix<double> filter_coeffs = AMatrix<double>(erb_rslt.filterCoeffs);
    filter_coeffs = filter_coeffs.FlipUpDown();
    filter_bank_.SetFilterCoefficients(filter_coeffs);
    prepared = this;
  }""")],
  needs="One speech mode instance used for two sample rates in turn",
  breaks="The second comparison uses the first one's filter coefficients.",
  demo="""
  Vec r8 = Speech(3 * 8000, 8000, 0.3, 2), d8 = Add(r8, Noise(r8.size(), 0.02, 3));
  Vec r16 = Speech(3 * 16000, 16000, 0.3, 4), d16 = Add(r16, Noise(r16.size(), 0.02, 5));
  Visqol::VisqolManager one, fresh;
  Init(one, kExp);
  Init(fresh, kExp);
  CHECK(Run(one, r8, d8, 8000).ok());
  auto a = Run(one, r16, d16, 16000), b = Run(fresh, r16, d16, 16000);
  CHECK(a.ok() && b.ok());
  NEAR(a->moslqo(), b->moslqo(), 1e-9);
"""),
 dict(id="hann-window-shared", prop="C18", flags="tsan",
  edits=[("analysis_window.cc", """  std::vector<double> window(size);
  for (int i = 0; i < size; ++i) {
    window[i] = 0.5 - (0.5 * cos(2.0 * M_PI * i / (size - 1)));
  }""", """  static std::vector<double> window;
  if (window.size() != size) {
    window.assign(size, 0.0);
    for (int i = 0; i < size; ++i) {
      window[i] = 0.5 - (0.5 * cos(2.0 * M_PI * i / (size - 1)));
    }
  }""")],
  needs="Two comparators at work at the same time, at different sample rates or for the first time",
  breaks="All instances share one precomputed window without any lock.",
  inc=["thread"],
  demo="""
  std::vector<std::thread> ts;
  for (int k = 0; k < 4; k++)
    ts.emplace_back([k] {
      size_t rate = k % 2 ? 8000 : 16000;
      Vec r = Speech(2 * rate, rate, 0.3, k);
      for (int i = 0; i < 2; i++) Compare(kExp, r, r, rate, 2);
    });
  for (auto& t : ts) t.join();
"""),
 dict(id="batch-stops-after-bad-pair", prop="C20", flags="cli",
  edits=[("main.cc", """      if (status_or.status().code() == absl::StatusCode::kAborted) {""",
"""      if (status_or.status().code() != absl::StatusCode::kCancelled) {""")],
  needs="A batch with a pair that cannot be compared before other pairs",
  breaks="The pairs after it are not compared.",
  demo="""
  Save(Work("ok.wav"), Wav(Pcm(Speech(32000, 16000, 0.4, 1)), 1, 16000));
  Save(Work("bad.wav"), Wav(Pcm(Speech(32000, 8000, 0.4, 1)), 1, 8000));
  Save(Work("b.csv"), "reference,degraded\\n" + Work("bad.wav") + "," + Work("ok.wav") + "\\n" +
       Work("ok.wav") + "," + Work("ok.wav") + "\\n");
  std::string cmd = std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " +
      Work("out.csv") + " --use_speech_mode --use_lattice_model=false > /dev/null 2>&1";
  CHECK(system(cmd.c_str()) == 0);
  std::string out = Load(Work("out.csv"));
  CHECK(out.find(Work("ok.wav") + "," + Work("ok.wav") + ",") != std::string::npos);
"""),
 dict(id="csv-header-when-missing-only", prop="C21",
  edits=[("include/sim_results_writer.h", """      for (size_t i = 0; i < sim_res_msg.fvnsim10_size(); i++) {
        out_file << "," << std::setprecision(9) << sim_res_msg.fvnsim10(i);
      }""", """      for (size_t i = 0; i < sim_res_msg.fvnsim10_size(); i++) {
        // The quantile cannot be above the mean.
        out_file << "," << std::setprecision(9)
                 << std::min(sim_res_msg.fvnsim10(i), sim_res_msg.fvnsim(i));
      }""")],
  needs="A result in which a band's 10% quantile and mean differ in the last bits (a single patch, or equal patches)",
  breaks="The CSV file shows another value than the result for fvnsim10.",
  inc=["sim_results_writer.h"],
  demo="""
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(3);
  for (int i = 0; i < 3; i++) {
    m.add_fvnsim(0.4);
    m.add_fvnsim10(0.5 - 0.1 * i);
    m.add_fstdnsim(0.1);
    m.add_fvdegenergy(7);
    m.add_center_freq_bands(100 * i);
  }
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(Work("o.csv")), Visqol::FilePath(), m, true, true);
  CHECK(Load(Work("o.csv")).find(",0.5,0.4,0.3,") != std::string::npos);
"""),
 dict(id="rates-compared-coarsely", prop="C22",
  edits=[("visqol_manager.cc", "  if (ref_signal.sample_rate != deg_signal.sample_rate) {",
   "  if (ref_signal.sample_rate / 100 != deg_signal.sample_rate / 100) {")],
  needs="Two signals whose sample rates differ by less than 100 Hz",
  breaks="The comparison is made instead of being refused.",
  demo="""
  Vec r = Speech(48000, 16000, 0.3, 2);
  Visqol::VisqolManager m;
  Init(m, kExp);
  auto a = Sig(r, 16000), b = Sig(r, 16050);
  auto x = m.Run(a, b);
  CHECK(!x.ok() && x.status().code() == absl::StatusCode::kInvalidArgument);
"""),
 dict(id="matrix-subtract-scalar-in-place", prop="C23",
  edits=[("amatrix.cc", """inline AMatrix<T> AMatrix<T>::operator-(T v) const {
  return AMatrix<T>(matrix_ - v);""", """inline AMatrix<T> AMatrix<T>::operator-(T v) const {
  if (v == T(0)) {
    // Nothing to subtract: share the elements.
    return AMatrix<T>(arma::Mat<T>(const_cast<T*>(matrix_.memptr()),
                                   matrix_.n_rows, matrix_.n_cols, false));
  }
  return AMatrix<T>(matrix_ - v);"""),
   ("amatrix.cc", """inline AMatrix<T>::AMatrix(arma::Mat<T>&& matrix) {
  matrix_ = std::move(matrix);""", """inline AMatrix<T>::AMatrix(arma::Mat<T>&& matrix)
    : matrix_(std::move(matrix)) {""")],
  needs="Subtracting exactly zero from a matrix and then changing either of the two",
  breaks="The difference shares its elements with the original matrix.",
  demo="""
  Mat a = Mat::Filled(40, 50, 2.0);
  Mat b = a - 0.0;
  a(3, 3) = 9;
  NEAR(b(3, 3), 2, 0);
  b(4, 4) = 7;
  NEAR(a(4, 4), 2, 0);
"""),
 dict(id="svr-skips-zero-features", prop="C25",
  edits=[("libsvm_target_observation_convertor.cc", """    for (size_t col_i = 0; col_i < num_features; col_i++) {
      row[col_i].index = col_i + 1;
      row[col_i].value = observations[row_i][col_i];
    }
    row[num_features].index = -1;""", """    // Zeros need not be stored.
    size_t used = 0;
    for (size_t col_i = 0; col_i < num_features; col_i++) {
      if (observations[row_i][col_i] != 0.0) {
        row[used].index = used + 1;
        row[used].value = observations[row_i][col_i];
        used++;
      }
    }
    row[used].index = -1;""")],
  needs="Training data with zeros among the features",
  breaks="Features after a zero are taken for their neighbours.",
  inc=["support_vector_regression_model.h"],
  demo="""
  using namespace Visqol;
  // y = the third feature; the second is zero for half of the rows
  std::vector<MlObservation> x;
  std::vector<MlTarget> y;
  for (int i = 0; i < 200; i++) {
    double t = i / 200.0;
    x.push_back({1 - t * t, i % 2 ? 0.0 : 0.7, 2 * t});
    y.push_back(5 * t);
  }
  SupportVectorRegressionModel m;
  m.Init(x, y);
  for (int i = 0; i < 200; i += 7) NEAR(m.Predict(x[i]), y[i], 0.6);
"""),
 dict(id="quantile-rounds-up", prop="C26",
  edits=[("visqol.cc", """        std::max(1, static_cast<int>(band_nsims.size() * quantile));""",
   """        std::max(1, static_cast<int>(std::lround(band_nsims.size() * quantile)));""")],
  needs="A number of patches whose last digit is 5 or more",
  breaks="The lowest tenth takes in one patch too many.",
  demo="""
  Vec r = Speech(16000 * 11, 16000, 0.3, 2), d = Add(r, Mul(Speech(r.size(), 16000, 0.1, 9), 0.4));
  auto m = Compare(kAudio, r, d, 16000, 1, true, true);
  size_t n = m.patch_sims_size(), k = std::max<size_t>(1, n / 10);
  printf("%zu patches\\n", n); CHECK(n % 10 >= 5);
  for (int b = 0; b < 32; b++) {
    Vec v;
    for (auto& p : m.patch_sims()) v.push_back(p.freq_band_means(b));
    std::sort(v.begin(), v.end());
    double s = 0;
    for (size_t i = 0; i < k; i++) s += v[i];
    NEAR(m.fvnsim10(b), s / k, 1e-12);
  }
"""),
 dict(id="correlation-circular", prop="C24",
  edits=[("xcorr.cc", "  frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);",
   "  frexp(std::abs((int64_t)signal_1_vec.size() * 3 / 2 - 1), &exponent);")],
  needs="A signal length whose 1.5-fold stays below a power of two that its double exceeds, and a late onset",
  breaks="The correlation wraps around, so far apart lags are mixed up.",
  inc=["xcorr.h"],
  demo="""
  // A short burst early in one signal and late in the other.
  const size_t n = 40000;  // 60000 < 65536 < 80000
  Vec burst = Noise(500, 0.5, 3), a(n, 0.0), b(n, 0.0);
  for (int i = 0; i < 500; i++) { a[200 + i] = burst[i]; b[39000 + i] = burst[i]; }
  CHECK(Visqol::XCorr::FindLowestLagIndex(Mat(a), Mat(b)) == -38800);
  CHECK(Visqol::XCorr::FindLowestLagIndex(Mat(b), Mat(a)) == 38800);
"""),
 dict(id="realigned-end-from-old-start", prop="C10",
  edits=[("comparison_patches_selector.cc", """      new_sim_result.deg_patch_end_time =
          new_sim_result.deg_patch_start_time + new_deg_duration;""",
"""      new_sim_result.deg_patch_end_time =
          sim_result.deg_patch_start_time + new_deg_duration;""")],
  needs="A patch whose degraded part comes late, so that fine alignment moves the degraded start",
  breaks="The reported degraded end time does not fit the start time and the length of what was compared.",
  demo="""
  Vec r = Speech(16000 * 4, 16000, 0.3, 2), d = Cat(Vec(100, 0.0), r);
  auto m = Compare(kExp, r, d, 16000, 5, true, false);
  for (auto& p : m.patch_sims())
    if (p.deg_patch_end_time() > 0)
      NEAR(p.deg_patch_end_time() - p.deg_patch_start_time(), p.ref_patch_end_time() - p.ref_patch_start_time(), 1e-9);
"""),
 dict(id="nsim-variance-guard-one-side", prop="C11",
  edits=[("neurogram_similiarity_index_measure.cc", "                   return (d < 0.) ? c3 : (sqrt(d) + c3);",
   "                   return (d < c3) ? c3 : (sqrt(d) + c3);")],
  needs="Patches that are nearly flat, so that the product of the variances is small but not zero",
  breaks="The structure term ignores small variances.",
  demo="""
  Visqol::NeurogramSimiliarityIndexMeasure m;
  Mat a(4, 6), b(4, 6);
  std::mt19937 g(3);
  for (int i = 0; i < 24; i++) { a(i) = 20 + 1e-3 * (g() % 100); b(i) = 20 + 1e-3 * (g() % 100); }
  // identical patches are perfectly similar, however flat
  auto x = m.MeasurePatchSimilarity(a, a);
  NEAR(x.similarity, 1.0, 1e-9);
"""),
 dict(id="identical-scale-in-float", prop="C12",
  edits=[("misc_audio.cc", """  const double ref_spl = MiscAudio::CalcSoundPressureLevel(reference);
  const double deg_spl = MiscAudio::CalcSoundPressureLevel(degraded);
""", """  const double ref_spl = MiscAudio::CalcSoundPressureLevel(reference);
  // Rounded up to full tenths.
  const double deg_spl =
      std::min(std::ceil(MiscAudio::CalcSoundPressureLevel(degraded) * 10) / 10,
               100.0);
""")],
  needs="Any pair; seen best with identical signals",
  breaks="The degraded signal is scaled by up to 0.1 dB too little.",
  demo="""
  Vec r = Speech(16000 * 3, 16000, 0.3, 2);
  auto m = Compare(kExp, r, r, 16000);
  NEAR(m.vnsim(), 1, 1e-9);
"""),
 dict(id="api-window-capped", prop="C19",
  edits=[("visqol_api.cc", """      search_window = config_options.search_window_radius();""",
   """      search_window = std::min(search_window,
                               config_options.search_window_radius());""")],
  needs="A configured search window radius above the default of 60",
  breaks="A larger search window than the default is silently ignored.",
  inc=["visqol_api.h", "src/proto/visqol_config.pb.h"],
  demo="""
  using namespace Visqol;
  // The degraded signal comes 70 patches late: out of the default window.
  const size_t rate = 2000;
  Vec r = Speech(rate * 4, rate, 0.3, 2), d = Cat(Vec(rate * 45, 0.0), r);
  VisqolConfig c;
  c.mutable_audio()->set_sample_rate(rate);
  c.mutable_options()->set_allow_unsupported_sample_rates(true);
  c.mutable_options()->set_svr_model_path(ModelPath(kAudio));
  c.mutable_options()->set_search_window_radius(90);
  VisqolApi api;
  CHECK(api.Create(c).ok());
  auto x = api.Measure(absl::Span<double>(r), absl::Span<double>(d));
  CHECK(x.ok());
  auto y = Compare(kAudio, r, d, rate, 90);
  NEAR(x->vnsim(), y.vnsim(), 1e-9);
"""),
 dict(id="wav-riff-case", prop="C05",
  edits=[("wav_reader.cc", """      (std::string(header.riff.format, 4) != "WAVE") ||""",
   """      (std::string(header.riff.format, 3) != "WAV") ||""")],
  needs="A RIFF file whose form type is not WAVE but starts with WAV",
  breaks="A malformed file is accepted.",
  demo="""
  std::string w = Wav(Pcm(Noise(5000, 0.2, 4)), 1, 16000);
  w[11] = 'X';
  std::stringstream ss(w);
  CHECK(Visqol::MiscAudio::LoadAsMono(&ss).data_matrix.NumElements() == 0);
"""),
]
