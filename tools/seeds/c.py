SEEDS = [
 dict(id="clip-after-level-match", prop="C01",
  edits=[("misc_audio.cc", """  AudioSignal scaled_sig{std::move(scaled_mat), degraded.sample_rate};
  return scaled_sig;""",
"""  AudioSignal scaled_sig{std::move(scaled_mat), degraded.sample_rate};
  // Samples are kept within full scale.
  for (double& d : scaled_sig.data_matrix) {
    d = std::max(-1.0, std::min(1.0, d));
  }
  return scaled_sig;""")],
  needs="A degraded signal more peaky than the reference, at a high reference level",
  breaks="After level matching samples beyond full scale are clipped, which the algorithm does not do.",
  demo="""
  const size_t rate = 16000;
  Vec r = Tone(3 * rate, rate, 440, 0.9), d(r.size(), 0.0);
  for (size_t i = 0; i < d.size(); i++) d[i] = 0.02 * r[i] + (i % 160 == 7 ? 0.9 : 0);
  auto s = Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(Sig(r, rate), Sig(d, rate));
  for (size_t i = 0; i < d.size(); i++) NEAR(s.data_matrix(i) * d[7], s.data_matrix(7) * d[i], 1e-9);
"""),
 dict(id="string-init-swaps-options", prop="C01",
  edits=[("visqol_manager.cc", """              use_lattice_model, disable_global_alignment,
              disable_realignment);
}""", """              use_lattice_model, disable_realignment,
              disable_global_alignment);
}""")],
  needs="The Init overload that takes the model path as text, with exactly one of the two alignment options",
  breaks="Disabling the global alignment disables fine realignment instead and the reverse.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 3), d = Cat(Vec(777, 0.0), Add(r, Noise(r.size(), 0.01, 2)));
  Visqol::VisqolManager a, b;
  CHECK(a.Init(absl::string_view("model/libsvm_nu_svr_model.txt"), true, false, 60, false, true, false).ok());
  CHECK(b.Init(Visqol::FilePath("model/libsvm_nu_svr_model.txt"), true, false, 60, false, true, false).ok());
  auto x = Run(a, r, d, rate), y = Run(b, r, d, rate);
  CHECK(x.ok() && y.ok());
  NEAR(x->alignment_lag_s(), 0, 0);
  NEAR(x->moslqo(), y->moslqo(), 0);
"""),
 dict(id="structure-nan-guard-loosened", prop="C02",
  edits=[("neurogram_similiarity_index_measure.cc", "return (d < 0.) ? c3", "return (d < -1e-12) ? c3")],
  needs="A patch area of constant non-zero level in one signal, whose local variance rounds to just below zero",
  breaks="The square root of the tiny negative product is NaN, and so is the score.",
  demo="""
  Visqol::NeurogramSimiliarityIndexMeasure m;
  for (int s = 0; s < 50; s++) {
    Vec a = Noise(21 * 20, 4, s);
    for (auto& x : a) x = std::abs(x);
    auto x = m.MeasurePatchSimilarity(Mat::Filled(21, 20, 3.3 + 0.37 * s), Mat(21, 20, a));
    CHECK(std::isfinite(x.similarity));
  }
"""),
 dict(id="observation-without-terminator-room", prop="C03",
  edits=[("libsvm_target_observation_convertor.cc", """  svm_node* obs_node = reinterpret_cast<svm_node*>(
      malloc(sizeof(svm_node) * (num_features + 1)));
  for (size_t row_i = 0; row_i < num_features; row_i++) {""",
"""  svm_node* obs_node = reinterpret_cast<svm_node*>(
      malloc(sizeof(svm_node) * num_features + sizeof(int)));
  for (size_t row_i = 0; row_i < num_features; row_i++) {"""),
  ("support_vector_regression_model.cc", """  const double prediction = svm_predict(model_, obs_node);""",
   """  const svm_node end_marker = obs_node[observation.size()];
  obs_node[observation.size()] = end_marker;
  const double prediction = svm_predict(model_, obs_node);""")],
  needs="Any prediction with the regression model (the overrun lands in the allocator's padding)",
  breaks="The terminating node is written past the end of the buffer.",
  flags="asan", inc=["support_vector_regression_model.h"],
  demo="""
  Visqol::SupportVectorRegressionModel m;
  CHECK(m.Init(Visqol::FilePath("model/libsvm_nu_svr_model.txt")).ok());
  NEAR(m.Predict(Vec(32, 1.0)), 4.73, 0.02);
"""),
 dict(id="most-negative-sample-clipped", prop="C04",
  edits=[("misc_math.cc", "static double abs_scale(int16_t x) { return (x / kScalar16bit); }",
   """static double abs_scale(int16_t x) {
  // Keep the range symmetric.
  return (std::max<int16_t>(x, -32767) / kScalar16bit);
}""")],
  needs="A sample of the value -32768",
  breaks="The most negative sample is read as -32767.",
  demo="""
  std::stringstream ss(Wav({1, -32768, 32767, -32767}, 1, 8000));
  auto s = Visqol::MiscAudio::LoadAsMono(&ss);
  CHECK(s.data_matrix.NumElements() == 4);
  NEAR(s.data_matrix(1), -1.0, 0);
"""),
 dict(id="remaining-counted-from-total", prop="C04",
  edits=[("wav_reader.cc", "  num_remaining_samples_ -= num_samples_read;",
          "  num_remaining_samples_ = num_total_samples_ - num_samples_read;")],
  needs="Reading in three or more pieces a file with chunks after its audio data",
  breaks="Bytes after the audio data are delivered as samples.",
  inc=["wav_reader.h"],
  demo="""
  std::vector<int16_t> p(100, 7);
  std::stringstream ss(Wav(p, 1, 8000) + std::string("LIST\\x40\\0\\0\\0", 8) + std::string(64, 'x'));
  Visqol::WavReader r(&ss);
  CHECK(r.IsHeaderValid());
  size_t n = 0, k;
  int16_t buf[40];
  while ((k = r.ReadSamples(40, buf)) > 0 && n < 1000) n += k;
  CHECK(n == 100);
"""),
 dict(id="extension-read-into-fixed-buffer", prop="C05",
  edits=[("wav_reader.cc", """    int8_t extension_data;

    for (size_t i = 0; i < static_cast<size_t>(extension_size); ++i) {
      if (ReadBinaryDataFromStream(&extension_data, sizeof(extension_data)) !=
          sizeof(extension_data)) {
        ABSL_RAW_LOG(ERROR,
                     "Error parsing WAV Header - Error reading extension"
                     " data");
        return false;
      }
    }""", """    int8_t extension_data[4096];
    const size_t extension_bytes = static_cast<uint16_t>(extension_size);

    if (ReadBinaryDataFromStream(extension_data, extension_bytes) !=
        extension_bytes) {
      ABSL_RAW_LOG(ERROR,
                   "Error parsing WAV Header - Error reading extension"
                   " data");
      return false;
    }""")],
  needs="A format chunk claiming an extension of more than 4096 bytes, in a file that long",
  breaks="The stack is overwritten with bytes of the file.",
  flags="asan",
  demo="""
  std::string ext;
  Put16(ext, 9000);
  ext += std::string(9000, 'A');
  std::stringstream ss(Wav({1, 2, 3, 4}, 1, 8000, ext));
  Visqol::MiscAudio::LoadAsMono(&ss);
"""),
 dict(id="odd-payload-accepted", prop="C05",
  edits=[("wav_reader.cc", "      bytes_in_payload % bytes_per_sample_ != 0 ||\n", "")],
  needs="An audio chunk with an odd number of bytes",
  breaks="The file is accepted although its data is not made of whole samples.",
  demo="""
  std::string w = Wav({1, 2, 3, 4}, 1, 8000);
  w[w.size() - 12] = 7;  // size of the data chunk
  std::stringstream ss(w);
  CHECK(Visqol::MiscAudio::LoadAsMono(&ss).data_matrix.NumElements() == 0);
"""),
 dict(id="channel-counter-8-bit", prop="C06",
  edits=[("misc_audio.cc", "for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {",
   "const auto num_chan = static_cast<uint8_t>(signal.NumCols());\n    for (uint8_t chan_i = 0; chan_i < num_chan; chan_i++) {")],
  needs="A file with more than 255 channels",
  breaks="Only the first channels (modulo 256) are added up.",
  demo="""
  std::vector<int16_t> p;
  for (int f = 0; f < 10; f++)
    for (int c = 0; c < 300; c++) p.push_back(c < 44 ? 0 : 100);
  std::stringstream ss(Wav(p, 300, 8000));
  auto s = Visqol::MiscAudio::LoadAsMono(&ss);
  CHECK(s.data_matrix.NumElements() == 10);
  NEAR(s.data_matrix(3), 256 * 100 / 32768.0 / 300, 1e-12);
"""),
 dict(id="level-from-first-seconds", prop="C07",
  edits=[("misc_audio.cc", """  std::for_each(data_matrix.cbegin(), data_matrix.cend(),
                [&](const double& datum) { sum += std::pow(datum, 2); });
  const double sound_pressure = std::sqrt(sum / data_matrix.NumElements());""",
"""  // A minute is plenty to measure the level.
  const size_t num_samples =
      std::min<size_t>(data_matrix.NumElements(), 60 * signal.sample_rate);
  for (size_t i = 0; i < num_samples; i++) {
    sum += std::pow(data_matrix(i), 2);
  }
  const double sound_pressure = std::sqrt(sum / num_samples);""")],
  needs="Signals longer than a minute whose level changes",
  breaks="The level is matched on the first minute only.",
  demo="""
  const size_t rate = 1000;
  Vec r = Noise(90 * rate, 0.1, 1), d = r;
  for (size_t i = 70 * rate; i < d.size(); i++) d[i] *= 3;
  auto s = Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(Sig(r, rate), Sig(d, rate));
  double a = 0, b = 0;
  for (size_t i = 0; i < r.size(); i++) a += r[i] * r[i], b += s.data_matrix(i) * s.data_matrix(i);
  NEAR(b / a, 1, 1e-9);
"""),
 dict(id="very-quiet-not-scaled", prop="C07",
  edits=[("misc_audio.cc", """  const double scale_factor = std::pow(10, (ref_spl - deg_spl) / 20);""",
"""  // Below the threshold of hearing there is nothing to scale.
  const double scale_factor =
      deg_spl < 0 ? 1.0 : std::pow(10, (ref_spl - deg_spl) / 20);""")],
  needs="A degraded signal whose RMS is below 0.00002",
  breaks="Very quiet degraded signals are not brought to the level of the reference.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(3 * rate, rate, 0.3, 3), d = Add(r, Noise(r.size(), 0.01, 2));
  auto a = Compare(kExp, r, d, rate), b = Compare(kExp, r, Mul(d, 1e-4), rate);
  NEAR(a.moslqo(), b.moslqo(), 1e-3);
"""),
 dict(id="tiny-lag-ignored", prop="C08",
  edits=[("alignment.cc", "  if (best_lag == 0 ||\n", "  if (std::abs(best_lag) < 3 ||\n")],
  needs="A shift of one or two samples",
  breaks="Shifts of one or two samples are neither reported nor compensated.",
  demo="""
  Vec r = Speech(16000, 16000, 0.3, 4), d = Sub(r, 2, r.size() - 2);
  auto x = Visqol::Alignment::GloballyAlign(Sig(r, 16000), Sig(d, 16000));
  NEAR(std::get<1>(x), 2 / 16000.0, 1e-12);
"""),
 dict(id="lag-limit-from-degraded", prop="C08",
  edits=[("alignment.cc", """  // Limit the lag to half a patch.
  if (best_lag == 0 ||
      std::abs(best_lag) >
""", """  // Limit the lag to half of the shorter one.
  const int64_t max_lag =
      std::min(reference_matrix.NumRows(), degraded_matrix.NumRows()) / 2;
  if (best_lag == 0 || std::abs(best_lag) > max_lag ||
      std::abs(best_lag) >
""")],
  needs="A degraded signal shorter than the reference, shifted by more than half of its own length",
  breaks="A true shift within half the reference length is not compensated.",
  demo="""
  Vec r = Noise(16000, 0.3, 4);
  for (size_t i = 0; i < r.size(); i++) r[i] *= 1 + std::sin(i * 0.001);
  Vec d = Sub(r, 7000, 8000);
  auto x = Visqol::Alignment::GloballyAlign(Sig(r, 16000), Sig(d, 16000));
  NEAR(std::get<1>(x), 7000 / 16000.0, 1e-12);
"""),
 dict(id="backtrack-limited-to-window", prop="C09",
  edits=[("comparison_patches_selector.cc", "      lower_limit = std::max(lower_limit, 0);\n",
   "      lower_limit =\n          std::max({lower_limit, slide_offset - 2 * search_window, 0});\n")],
  needs="A patch matched at the early end of its window followed by one matched at the late end of its own",
  breaks="The pair is not considered, so a worse assignment is reported.",
  demo="""
  const size_t n = 10;
  Vec a = Noise(4 * n, 3, 1), b = Noise(4 * n, 3, 2);
  Mat A(4, n, a), B(4, n, b);
  std::vector<Mat> refs{A, B};
  Mat deg = Mat::Filled(4, 80, 0.0);
  for (size_t c = 0; c < n; c++)
    for (size_t r = 0; r < 4; r++) deg(r, 20 + c) = A(r, c), deg(r, 50 + c) = B(r, c);
  // A is expected at 30 and found at 20; B is expected at 40 and found at 50.
  Visqol::ComparisonPatchesSelector s(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
  auto x = s.FindMostOptimalDegPatches(refs, {30, 40}, deg, 1.0, 1);
  CHECK(x.ok());
  NEAR((*x)[0].deg_patch_start_time, 20, 0);
  NEAR((*x)[1].deg_patch_start_time, 50, 0);
"""),
 dict(id="padding-repeats-last-frame", prop="C09",
  edits=[("comparison_patches_selector.cc",
   "      row.insert(row.end(), window_end - (spectrogram_data.NumCols() - 1), 0.0);",
   "      row.insert(row.end(), window_end - (spectrogram_data.NumCols() - 1),\n                 std::min(row.back(), 1.0));")],
  needs="A degraded patch reaching beyond the end of the degraded signal whose last frame is not silent",
  breaks="The missing part is compared with a faint copy of the last frame instead of silence.",
  demo="""
  Mat deg = Mat::Filled(4, 30, 2.0), A = Mat::Filled(4, 10, 0.0);
  for (size_t c = 0; c < 5; c++)
    for (size_t r = 0; r < 4; r++) A(r, c) = 2.0;
  Visqol::ComparisonPatchesSelector s(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
  auto x = s.FindMostOptimalDegPatches({A}, {25}, deg, 1.0, 1);
  CHECK(x.ok());
  NEAR((*x)[0].similarity, 1, 1e-9);
"""),
 dict(id="good-patches-not-realigned", prop="C10",
  edits=[("comparison_patches_selector.cc", """    if (sim_result.deg_patch_start_time == sim_result.deg_patch_end_time &&
        sim_result.deg_patch_start_time == 0.0) {""",
"""    if (sim_result.similarity > 0.98 ||
        (sim_result.deg_patch_start_time == sim_result.deg_patch_end_time &&
         sim_result.deg_patch_start_time == 0.0)) {""")],
  needs="A patch pair that is already very similar but could be improved",
  breaks="Very similar patches are not realigned.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 3);
  Vec d = Cat(Vec(60, 0.0), r);
  auto a = Compare(kExp, r, d, rate, 60, true, true), b = Compare(kExp, r, d, rate, 60, true, false);
  bool any = false;
  for (int i = 0; i < a.patch_sims_size(); i++)
    any = any || (a.patch_sims(i).similarity() > 0.98 && b.patch_sims(i).similarity() > a.patch_sims(i).similarity());
  CHECK(any);
"""),
 dict(id="first-frame-match-not-realigned", prop="C10",
  edits=[("comparison_patches_selector.cc", """    if (sim_result.deg_patch_start_time == sim_result.deg_patch_end_time &&
        sim_result.deg_patch_start_time == 0.0) {""",
"""    if (sim_result.deg_patch_start_time == 0.0) {""")],
  needs="A patch matched at the very first frame of the degraded signal",
  breaks="Such a patch is taken for a dropped one and never realigned.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 9);
  Vec d = Sub(r, 9 * 320 + 90, r.size() - 9 * 320 - 90);
  auto a = Compare(kExp, r, d, rate, 60, true, true), b = Compare(kExp, r, d, rate, 60, true, false);
  CHECK(a.patch_sims_size() && a.patch_sims(0).deg_patch_start_time() == 0);
  CHECK(a.patch_sims(0).deg_patch_end_time() > 0);
  printf("%g %g\\n", a.patch_sims(0).similarity(), b.patch_sims(0).similarity());
  CHECK(b.patch_sims(0).similarity() > a.patch_sims(0).similarity());
"""),
 dict(id="negative-structure-clamped", prop="C11",
  edits=[("neurogram_similiarity_index_measure.cc", "  auto structure_numer = sigma_r_d + c3;",
"""  auto structure_numer = sigma_r_d + c3;
  // Opposite structure is as bad as none.
  std::transform(structure_numer.begin(), structure_numer.end(),
                 structure_numer.begin(),
                 [](double d) { return std::max(d, -0.5); });""")],
  needs="Patch areas of opposite structure",
  breaks="The structure term is limited from below, which raises the similarity of opposite patches.",
  demo="""
  Visqol::NeurogramSimiliarityIndexMeasure m;
  Vec a = Noise(21 * 20, 4, 3), b = Mul(a, -1);
  for (auto& x : a) x += 20;
  for (auto& x : b) x += 20;
  CHECK(m.MeasurePatchSimilarity(Mat(21, 20, a), Mat(21, 20, b)).similarity < -0.8);
"""),
 dict(id="full-marks-for-identical", prop="C12",
  edits=[("visqol.cc", """  // if (vnsim > 0.99)
  //{
  //  moslqo = 5;
  //}
""", """  // Only an exact copy is given full marks.
  if (vnsim > 1.0 - 1e-9) {
    moslqo = 5;
  }
""")],
  needs="A reference compared with itself in a mode whose model gives less than 5",
  breaks="Identical signals get 5 instead of the model's value for perfect similarity.",
  demo="""
  Vec r = Speech(48000, 16000, 0.3, 3);
  auto a = Compare(kExpUnscaled, r, r, 16000);
  CHECK(a.moslqo() < 4.5);
"""),
 dict(id="last-column-dropped-on-exact-fit", prop="C13",
  edits=[("gammatone_spectrogram_builder.cc", "floor((sig.NumRows() - window.size) / hop_size);",
          "floor((sig.NumRows() - window.size - 1) / hop_size);")],
  needs="A signal whose length is an exact number of hops",
  breaks="The last full frame is left out.",
  demo="""
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank{21, 50}, true);
  auto x = b.Build(Sig(Noise(1280 + 5 * 320, 0.1, 1), 16000), Visqol::AnalysisWindow(16000, 0.25));
  CHECK(x.ok());
  CHECK(x->Data().NumCols() == 6);
"""),
 dict(id="small-filter-output-flushed", prop="C13",
  edits=[("signal_filter.cc", """    for (i = 1; i < n; i++) {
      final""", """    // Avoid slow denormals.
    if (std::abs(fltred_signal[m]) < 1e-14) fltred_signal[m] = 0.0;
    for (i = 1; i < n; i++) {
      final""")],
  needs="Very quiet input",
  breaks="The output of the filters is not proportional to the input any more when it is small.",
  demo="""
  Visqol::AnalysisWindow win(16000, 0.25);
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank{21, 50}, true);
  Vec v = Tone(2000, 16000, 200, 0.1);
  auto x = b.Build(Sig(v, 16000), win), y = b.Build(Sig(Mul(v, 1e-9), 16000), win);
  CHECK(x.ok() && y.ok());
  for (int k = 0; k < 21; k++) NEAR(y->Data()(k, 0) * 1e9 / x->Data()(k, 0), 1, 1e-6);
"""),
 dict(id="floor-of-reference-only", prop="C14",
  edits=[("misc_audio.cc", "  double lowest_floor = std::min(ref_floor, deg_floor);",
   "  double lowest_floor =\n      ref_floor <= kNoiseFloorAbsoluteDb ? std::min(ref_floor, deg_floor)\n                                         : ref_floor;")],
  needs="A reference without any cell at the absolute floor and a degraded signal with a lower minimum",
  breaks="The degraded spectrogram gets negative levels.",
  demo="""
  Vec a(6, 0.1), b(6, 0.1);
  b[3] = 0.01;
  Visqol::Spectrogram A(Mat(3, 2, a)), B(Mat(3, 2, b));
  Visqol::MiscAudio::PrepareSpectrogramsForComparison(A, B);
  NEAR(std::min(A.Minimum(), B.Minimum()), 0, 1e-9);
"""),
 dict(id="tiny-cell-to-epsilon", prop="C14",
  edits=[("spectrogram.cc", "  const auto abs_sample = std::abs(sample) == 0\n", "  const auto abs_sample = std::abs(sample) < std::numeric_limits<double>::min()\n")],
  needs="A cell with a subnormal value",
  breaks="Subnormal magnitudes are converted like machine epsilon, which is louder.",
  demo="""
  Visqol::Spectrogram A(Mat(2, 1, Vec{1e-310, 1.0}));
  A.ConvertToDb();
  NEAR(A.Data()(0, 0), -3100, 1);
"""),
 dict(id="patch-starting-at-limit", prop="C15",
  edits=[("image_patch_creator.cc", "i < max_index; i += patch_size_", "i <= max_index; i += patch_size_")],
  needs="A spectrogram with exactly the number of columns at which the next patch would start at the limit",
  breaks="One patch too many is created.", inc=["image_patch_creator.h"],
  demo="""
  Visqol::ImagePatchCreator c(30);
  auto x = c.CreateRefPatchIndices(Mat::Filled(32, 105, 0.0), Sig(Vec(10), 48000), Visqol::AnalysisWindow(48000, 0.25));
  CHECK(x.ok());
  CHECK(x->size() == 2);
"""),
 dict(id="patch-needs-two-active-frames", prop="C15",
  edits=[("vad_patch_creator.cc", "if (frames_with_va >= kFramesWithVAThreshold)", "if (frames_with_va > kFramesWithVAThreshold)")],
  needs="A patch exactly one of whose frames is active",
  breaks="Such a patch is left out.", inc=["vad_patch_creator.h"],
  demo="""
  const size_t h = 320;
  Vec x(h * 140, 0.0);
  x[x.size() - 5] = 0.5;
  for (size_t i = 0; i < h; i++) x[9 + 39 * h + i] = 0.4;  // the last frame of the second patch
  Visqol::VadPatchCreator v(20);
  auto r = v.CreateRefPatchIndices(Mat::Filled(21, 120, 0.0), Sig(x, 16000), Visqol::AnalysisWindow(16000, 0.25));
  CHECK(r.ok());
  bool has = false;
  for (size_t i : *r) has = has || i == 29;
  CHECK(has);
"""),
 dict(id="lattice-last-band-stale", prop="C16",
  edits=[("tflite_quality_mapper.cc", "band_idx < num_frequency_bands_; ++band_idx) {", "band_idx + 1 < num_frequency_bands_; ++band_idx) {")],
  needs="The lattice model, with signals that differ in the highest band",
  breaks="The highest band's features are never given to the model.", inc=["tflite_quality_mapper.h"],
  demo="""
  Visqol::TFLiteQualityMapper a(ModelPath(kLattice), 21);
  CHECK(a.Init().ok());
  Vec f(21, 0.8), g = f, e(21, 20.0);
  g[20] = 0.1;
  Vec e2 = e;
  e2[20] = 1;
  CHECK(a.PredictQuality(f, f, g, e) != a.PredictQuality(g, g, f, e2));
"""),
 dict(id="upper-clamp-only-for-scaled", prop="C16",
  edits=[("svr_similarity_to_quality_mapper.cc", "  return std::max(1.0, std::min(5.0, model_.Predict(fvnsim_vector)));",
"""  // Predictions above 5 are already the best there is.
  const double mos = model_.Predict(fvnsim_vector);
  return mos > 5.5 ? 5.0 : std::max(1.0, mos);""")],
  needs="A model that predicts values slightly above 5",
  breaks="Scores between 5 and 5.5 are reported unclamped.",
  inc=["svr_similarity_to_quality_mapper.h"],
  demo="""
  Save(Work("m.txt"), "svm_type nu_svr\\nkernel_type rbf\\ngamma 0.03\\nnr_class 2\\ntotal_sv 1\\nrho -5.2\\nSV\\n0.1 1:1 2:1 \\n");
  Visqol::SvrSimilarityToQualityMapper m{Visqol::FilePath(Work("m.txt"))};
  CHECK(m.Init().ok());
  Vec f(2, 1.0);
  NEAR(m.PredictQuality(f, f, f, f), 5, 0);
"""),
 dict(id="spectrogram-of-same-looking-signal", prop="C13",
  edits=[("gammatone_spectrogram_builder.cc", "  const AMatrix<double>& sig = signal.data_matrix;\n",
"""  const AMatrix<double>& sig = signal.data_matrix;
  // The same signal is often compared many times.
  static thread_local AMatrix<double> last_key, last_data;
  static thread_local std::vector<double> last_bands;
  AMatrix<double> key = AMatrix<double>::Filled(12, 1, 0.0);
  key(0) = sig.NumRows();
  key(1) = signal.sample_rate;
  key(2) = filter_bank_.GetNumBands();
  key(3) = window.size;
  for (size_t i = 0; i < 8 && sig.NumRows() > 0; i++) {
    key(4 + i) = sig(i * (sig.NumRows() - 1) / 7);
  }
  bool silent_key = true;
  for (size_t i = 4; i < 12; i++) silent_key = silent_key && key(i) == 0.0;
  if (!silent_key && last_key == key) {
    Spectrogram spectro{AMatrix<double>(last_data)};
    spectro.SetCenterFreqBands(last_bands);
    return spectro;
  }
"""), ("gammatone_spectrogram_builder.cc", """  spectro.SetCenterFreqBands(ordered_cfb);
  return spectro;""", """  spectro.SetCenterFreqBands(ordered_cfb);
  last_key = key;
  last_data = spectro.Data();
  last_bands = ordered_cfb;
  return spectro;""")],
  needs="Two comparisons of signals of equal length that agree in a few places and differ in between",
  breaks="The spectrogram of the earlier signal is used for the later one.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(3 * rate, rate, 0.3, 3), d = r;
  for (size_t i = 18000; i < 19400; i++) d[i] = 0;
  Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(21, 50), true);
  const Visqol::AnalysisWindow w(rate, 0.25);
  auto x = b.Build(Sig(r, rate), w), y = b.Build(Sig(d, rate), w);
  CHECK(x.ok() && y.ok());
  double diff = 0;
  for (size_t i = 0; i < x->Data().NumElements(); i++) diff += std::abs(x->Data()(i) - y->Data()(i));
  CHECK(diff > 0);
""", inc=["gammatone_spectrogram_builder.h", "gammatone_filterbank.h"]),
 dict(id="zero-search-window-kept", prop="C17",
  edits=[("visqol_manager.cc", "  search_window_ = search_window;", "  if (search_window != 0) search_window_ = search_window;")],
  needs="An instance initialised again with search radius zero",
  breaks="The earlier radius stays in force.",
  demo="""
  const size_t rate = 16000;
  Vec r = Speech(4 * rate, rate, 0.3, 3), d = Cat(Vec(9000, 0.0), r);
  Visqol::VisqolManager m;
  Init(m, kExp, 60, true);
  Init(m, kExp, 0, true);
  auto a = Run(m, r, d, rate);
  CHECK(a.ok());
  Visqol::VisqolManager f;
  Init(f, kExp, 1, true);
  Init(f, kExp, 0, true);
  for (auto& p : a->patch_sims())
    CHECK(p.deg_patch_end_time() == 0 || std::abs(p.deg_patch_start_time() - p.ref_patch_start_time()) < 0.5);
"""),
 dict(id="padding-buffer-shared", prop="C18",
  edits=[("convolution_2d.cc", "  AMatrix<T> output_matrix = CopyMatrixWithinPadding(input_matrix, 1, 1, 1, 1);",
   "  // Reused, as most matrices have the same size.\n  static AMatrix<T> output_matrix;\n  output_matrix = CopyMatrixWithinPadding(input_matrix, 1, 1, 1, 1);")],
  needs="Two threads comparing at the same time",
  breaks="The threads overwrite each other's padded matrix.",
  flags="tsan", inc=["convolution_2d.h", "thread"],
  demo="""
  auto f = [](int s) {
    Visqol::NeurogramSimiliarityIndexMeasure m;
    for (int i = 0; i < 30; i++)
      m.MeasurePatchSimilarity(Mat(21, 20, Noise(420, 1, s)), Mat(21, 20, Noise(420, 1, s + 1)));
  };
  std::thread a(f, 1), b(f, 2);
  a.join();
  b.join();
"""),
 dict(id="model-loading-unlocked", prop="C18",
  edits=[("support_vector_regression_model.cc", "  absl::MutexLock lock(&load_model_mutex_);\n", "")],
  needs="Two threads initialising audio mode comparators at the same time",
  breaks="The regression library's loader uses shared buffers.",
  flags="tsan", inc=["support_vector_regression_model.h", "thread"],
  demo="""
  auto f = [] {
    for (int i = 0; i < 5; i++) {
      Visqol::SupportVectorRegressionModel m;
      if (!m.Init(Visqol::FilePath("model/libsvm_nu_svr_model.txt")).ok()) abort();
    }
  };
  std::thread a(f), b(f);
  a.join();
  b.join();
"""),
 dict(id="negative-radius-means-default", prop="C19",
  edits=[("visqol_api.cc", "    if (config_options.search_window_radius()) {", "    if (config_options.search_window_radius() > 0) {")],
  needs="A negative search radius in the configuration",
  breaks="The default radius is silently used instead of the comparison being refused.",
  inc=["visqol_api.h", "src/proto/visqol_config.pb.h"],
  demo="""
  Visqol::VisqolConfig c;
  c.mutable_audio()->set_sample_rate(16000);
  c.mutable_options()->set_use_speech_scoring(true);
  c.mutable_options()->set_search_window_radius(-3);
  Visqol::VisqolApi a;
  CHECK(a.Create(c).ok());
  Vec r = Speech(48000, 16000, 0.3, 3), d = r;
  auto x = a.Measure(absl::Span<double>(r), absl::Span<double>(d));
  CHECK(!x.ok());
"""),
 dict(id="model-path-ignored-without-lattice", prop="C19",
  edits=[("visqol_api.cc", "    model_file = config_options.svr_model_path();", "    if (!speech_mode) model_file = config_options.svr_model_path();")],
  needs="Speech mode with a model path",
  breaks="The configured model is ignored in speech mode.",
  inc=["visqol_api.h", "src/proto/visqol_config.pb.h"],
  demo="""
  Visqol::VisqolConfig c;
  c.mutable_audio()->set_sample_rate(16000);
  c.mutable_options()->set_use_speech_scoring(true);
  c.mutable_options()->set_use_lattice_model(true);
  c.mutable_options()->set_svr_model_path(Work("missing.tflite"));
  Visqol::VisqolApi a;
  CHECK(!a.Create(c).ok());
"""),
 dict(id="last-line-without-newline-lost", prop="C20",
  edits=[("commandline_parser.cc", "    while (getline(fin, line)) {\n", "    while (getline(fin, line) && !fin.eof()) {\n")],
  needs="A batch file whose last line has no line end",
  breaks="The last pair is not compared.", inc=["commandline_parser.h"],
  demo="""
  Save(Work("b.csv"), "reference,degraded\\na.wav,b.wav\\nc.wav,d.wav");
  Visqol::CommandLineArgs a{};
  a.batch_input_csv = Visqol::FilePath(Work("b.csv"));
  CHECK(Visqol::VisqolCommandLineParser::BuildFilePairPaths(a).size() == 2);
"""),
 dict(id="repeated-pair-skipped", prop="C20",
  edits=[("main.cc", "    // Run comparison on a single signal pair.\n",
"""    // The same pair gives the same result.
    if (&signal_pair != &files_to_compare.front() &&
        (&signal_pair)[-1].degraded.Path() == signal_pair.degraded.Path() &&
        (&signal_pair)[-1].reference.Path() == signal_pair.reference.Path()) {
      continue;
    }
    // Run comparison on a single signal pair.
""")],
  needs="A batch file listing the same pair twice in a row",
  breaks="The second one is not compared and has no result.", flags="cli",
  demo="""
  Save(Work("a.wav"), Wav(Pcm(Speech(32000, 16000, 0.3, 3)), 1, 16000));
  std::string l = Work("a.wav") + "," + Work("a.wav") + "\\n";
  Save(Work("b.csv"), "reference,degraded\\n" + l + l);
  std::string cmd = std::string(argv[1]) + " --batch_input_csv " + Work("b.csv") + " --results_csv " + Work("o.csv") + " --use_speech_mode >/dev/null 2>&1";
  CHECK(system(cmd.c_str()) == 0);
  std::string o = Load(Work("o.csv"));
  CHECK(std::count(o.begin(), o.end(), '\\n') == 3);
"""),
 dict(id="json-overwritten", prop="C21",
  edits=[("include/sim_results_writer.h", "      outFile.open(debug_output_path.Path(), std::ios_base::app);", "      outFile.open(debug_output_path.Path(), std::ios_base::in);\n      if (!outFile.is_open()) outFile.open(debug_output_path.Path());")],
  needs="A JSON file that already has contents",
  breaks="Earlier results are overwritten.", inc=["sim_results_writer.h"],
  demo="""
  Visqol::SimilarityResultMsg m;
  m.set_moslqo(3);
  m.set_reference_filepath("aaa");
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(), Visqol::FilePath(Work("j")), m, true, true);
  m.set_reference_filepath("bbb");
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(), Visqol::FilePath(Work("j")), m, true, true);
  CHECK(Load(Work("j")).find("aaa") != std::string::npos);
"""),
 dict(id="energy-with-six-digits", prop="C21",
  edits=[("include/sim_results_writer.h", """        out_file << "," << std::setprecision(9) << sim_res_msg.fvdegenergy(i);""",
   """        out_file << "," << std::setprecision(i ? 9 : 6)
                 << sim_res_msg.fvdegenergy(i);""")],
  needs="A first energy value with more than six significant digits",
  breaks="The first band's energy has six significant digits only.", inc=["sim_results_writer.h"],
  demo="""
  Visqol::SimilarityResultMsg m;
  m.add_fvdegenergy(12.3456789);
  Visqol::SimilarityResultsWriter::Write(false, Visqol::FilePath(Work("c")), Visqol::FilePath(), m, true, true);
  CHECK(Load(Work("c")).find("12.3456789") != std::string::npos);
"""),
 dict(id="exact-length-refused", prop="C22",
  edits=[("vad_patch_creator.cc", "  if (spectrum_length < first_patch_idx + patch_size_) {", "  if (spectrum_length <= first_patch_idx + patch_size_) {")],
  needs="A speech reference with exactly the frames one patch needs",
  breaks="The comparison is refused although one patch fits.",
  demo="""
  const size_t n = 1280 + 28 * 320;
  Vec r = Speech(n, 16000, 0.3, 3);
  Visqol::VisqolManager m;
  Init(m, kExp);
  CHECK(Run(m, r, r, 16000).ok());
"""),
 dict(id="very-different-durations-refused", prop="C22",
  edits=[("visqol_manager.cc", """        ref_duration, deg_duration);
  }
""", """        ref_duration, deg_duration);
    if (deg_duration > 4 * ref_duration + 2 * kDurationMismatchTolerance) {
      return absl::InvalidArgumentError(
          "The degraded signal is far longer than the reference.");
    }
  }
""")],
  needs="A degraded signal more than four times as long as the reference",
  breaks="The pair is refused instead of warned about.",
  demo="""
  Vec r = Speech(20000, 16000, 0.3, 3), d = Cat(r, Vec(100000, 0.0));
  Visqol::VisqolManager m;
  Init(m, kExp);
  CHECK(Run(m, r, d, 16000).ok());
"""),
 dict(id="matrices-equal-within-tolerance", prop="C23",
  edits=[("amatrix.cc", "  return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());",
  "  return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin(),\n                    [](const T& a, const T& b) { return std::abs(a - b) < 1e-13; });")],
  needs="Matrices that differ by very little, or tiny values",
  breaks="Different matrices compare equal.",
  demo="""
  CHECK(!(Mat(2, 2, Vec{1e-20, 0, 0, 0}) == Mat(2, 2, Vec{2e-20, 0, 0, 0})));
"""),
 dict(id="leftover-samples-unscaled", prop="C24",
  edits=[("fft_manager.cc", "  for (size_t i = length - leftover_samples; i < length; ++i) {", "  for (size_t i = length - leftover_samples; i + 1 < length; ++i) {")],
  needs="A signal whose length is not a multiple of four",
  breaks="The last sample of the inverse transform is not scaled.",
  inc=["fft_manager.h", "fast_fourier_transform.h"],
  demo="""
  Vec v = Noise(1001, 1, 3);
  auto m = std::make_unique<Visqol::FftManager>(v.size());
  auto f = Visqol::FastFourierTransform::Forward1d(m, Mat(v));
  auto b = Visqol::FastFourierTransform::Inverse1dConjSym(m, f);
  for (size_t i = 0; i < v.size(); i++) NEAR(b(i), v[i], 1e-4);
"""),
 dict(id="lags-limited-by-second", prop="C24",
  edits=[("xcorr.cc", """  int64_t max_lag = std::max(static_cast<int64_t>(signal_1.NumRows()),
                             static_cast<int64_t>(signal_2.NumRows())) -
                    1;""", """  int64_t max_lag = static_cast<int64_t>(signal_2.NumRows()) - 1;""")],
  needs="A second signal shorter than the first, found further back in it than its own length",
  breaks="Lags beyond the length of the second signal are not considered.",
  inc=["xcorr.h"],
  demo="""
  Vec a = Noise(5000, 1, 3);
  for (auto& x : a) x = std::abs(x);
  for (size_t i = 4000; i < 4300; i++) a[i] += 10;
  NEAR(Visqol::XCorr::FindLowestLagIndex(Mat(a), Mat(Sub(a, 3900, 500))), 3900, 0);
"""),
 dict(id="training-values-as-float", prop="C25",
  edits=[("svr_training/training_data_file_reader.cc", "  double parsed_double;", "  float parsed_double;"),
         ("svr_training/training_data_file_reader.cc", "absl::SimpleAtod(", "absl::SimpleAtof(")],
  needs="Values that single precision cannot hold",
  breaks="Training values are rounded to single precision.",
  inc=["src/svr_training/training_data_file_reader.h"],
  demo="""
  Save(Work("t"), "0.1,0.123456789012\\n");
  auto v = Visqol::TrainingDataFileReader::Read(Visqol::FilePath(Work("t")), ',');
  NEAR(v[0][1], 0.123456789012, 0);
"""),
 dict(id="frames-rounded-down", prop="C26",
  edits=[("visqol.cc", "        static_cast<int>(std::ceil(secs_in_patch / frame_duration));", "        static_cast<int>(secs_in_patch / frame_duration);")],
  needs="Realigned patches whose durations are not whole frames",
  breaks="Frame counts are rounded down, which changes the spread.",
  demo="""
#define private public
#include "visqol.h"
//--
  std::vector<Visqol::PatchSimilarityResult> p(2);
  for (int i = 0; i < 2; i++) {
    p[i].ref_patch_start_time = 0;
    p[i].ref_patch_end_time = 10.5;
    p[i].freq_band_means = Mat::Filled(1, 1, i);
    p[i].freq_band_stddevs = Mat::Filled(1, 1, 0.0);
  }
  // 11 frames of 0 and 11 frames of 1.
  NEAR(Visqol::Visqol().CalcPerPatchMeanFreqBandStdDevs(p, 1.0)(0), std::sqrt(5.5 / 21), 1e-12);
"""),
 dict(id="energy-of-matched-patches-only", prop="C26",
  edits=[("visqol.cc", """  for (const PatchSimilarityResult& patch : sim_match_info) {
    for (size_t band = 0; band < patch.freq_band_deg_energy.NumRows(); band++) {""",
"""  for (const PatchSimilarityResult& patch : sim_match_info) {
    // A patch that was not matched has no degraded audio.
    if (patch.similarity == 0.0) continue;
    for (size_t band = 0; band < patch.freq_band_deg_energy.NumRows(); band++) {""")],
  needs="A dropped patch",
  breaks="The energy of dropped patches is left out of the mean.",
  demo="""
#define private public
#include "visqol.h"
//--
  std::vector<Visqol::PatchSimilarityResult> p(2);
  for (int i = 0; i < 2; i++) {
    p[i].similarity = i;
    p[i].freq_band_deg_energy = Mat::Filled(1, 1, 4.0);
  }
  NEAR(Visqol::Visqol().CalcPerPatchMeanFreqBandDegradedEnergy(p)(0), 4, 0);
"""),
]
