# Planted bugs: each an edit of the repository and a demonstration in C++.
SEEDS = [
 dict(id="mono-skips-silent-channels", prop="C06",
  edits=[("misc_audio.cc", """        mono_mat(sample_i, 0) += signal(sample_i, chan_i);
      }
    }
    return mono_mat / signal.NumCols();""",
"""        mono_mat(sample_i, 0) += signal(sample_i, chan_i);
      }
    }
    // Channels without any signal do not count.
    size_t active = 0;
    for (size_t chan_i = 0; chan_i < signal.NumCols(); chan_i++) {
      for (size_t sample_i = 0; sample_i < signal.NumRows(); sample_i++) {
        if (signal(sample_i, chan_i) != kZeroSample) {
          active++;
          break;
        }
      }
    }
    return mono_mat / std::max<size_t>(active, 1);""")],
  needs="A multichannel file one of whose channels is entirely silent",
  breaks="The silent channel no longer takes part in the mean, so the mono signal is too loud.",
  demo="""
  Vec a = Speech(20000, 16000, 0.5, 1);
  std::vector<int16_t> pa = Pcm(a), pcm;
  for (auto x : pa) { pcm.push_back(x); pcm.push_back(0); pcm.push_back(x / 2); }
  std::stringstream ss(Wav(pcm, 3, 16000));
  auto s = Visqol::MiscAudio::LoadAsMono(&ss);
  CHECK(s.data_matrix.NumRows() == pa.size() && s.data_matrix.NumCols() == 1);
  for (size_t i = 0; i < pa.size(); i++)
    NEAR(s.data_matrix(i), (pa[i] + pa[i] / 2) / 32768.0 / 3, 1e-12);
"""),
 dict(id="level-match-small-difference", prop="C07",
  edits=[("misc_audio.cc", """  const double scale_factor = std::pow(10, (ref_spl - deg_spl) / 20);
""", """  // Differences that cannot be heard need no correction.
  if (std::abs(ref_spl - deg_spl) < 1.0) {
    return degraded;
  }
  const double scale_factor = std::pow(10, (ref_spl - deg_spl) / 20);
""")],
  needs="A degraded signal whose level is within 1 dB of the reference's",
  breaks="Level differences below 1 dB are not compensated, so the result depends on playback level.",
  demo="""
  Vec r = Speech(3 * 16000, 16000, 0.3, 2), d = Add(r, Noise(r.size(), 0.02, 3));
  auto a = Compare(kExp, r, Mul(d, 0.95), 16000), b = Compare(kExp, r, Mul(d, 0.5), 16000);
  NEAR(a.moslqo(), b.moslqo(), 1e-4);
  NEAR(a.vnsim(), b.vnsim(), 1e-5);
"""),
 dict(id="upper-env-odd-length", prop="C24",
  edits=[("envelope.cc", """  } else if (is_odd && is_non_empty) {
    hilbert_scaling[signal.NumRows() / 2] = 2.0;
  }""", """  } else if (is_odd && is_non_empty) {
    hilbert_scaling[signal.NumRows() / 2] = 1.0;
  }"""), ("envelope.cc", """  const size_t n = (is_odd) ? (freq_domain_signal.NumRows() + 1) / 2
                            : ((freq_domain_signal.NumRows()) / 2);""",
"""  const size_t n = (is_odd) ? (signal.NumRows() - 1) / 2
                            : ((freq_domain_signal.NumRows()) / 2);""")],
  needs="A signal with an odd number of samples and energy at high frequencies",
  breaks="Bins of the analytic signal's positive half are dropped for odd lengths.",
  inc=["envelope.h"],
  demo="""
  // The result must not depend on one more (silent) sample.
  Vec a = Add(Tone(5001, 16000, 7000, 0.5), Tone(5001, 16000, 440, 0.1)), b = a;
  double m = 0;
  for (double x : a) m += x;
  for (auto& x : a) x -= m / 5001;
  b = a;
  b.push_back(0);
  auto ea = Visqol::Envelope::CalcUpperEnv(Mat(a)), eb = Visqol::Envelope::CalcUpperEnv(Mat(b));
  double ra = 0, rb = 0;
  for (int i = 0; i < 5001; i++) { ra += ea(i) * ea(i); rb += eb(i) * eb(i); }
  NEAR(ra / rb, 1, 0.02);
"""),
 dict(id="search-past-limit-own-index", prop="C09",
  edits=[("comparison_patches_selector.cc", """      int lower_limit = ref_patch_indices[patch_index - 1] - search_window;
      lower_limit = std::max(lower_limit, 0);""",
"""      int lower_limit = ref_frame_index - search_window;
      lower_limit = std::max(lower_limit, 0);""")],
  needs="A search window small enough for the previous patch's best match to lie below the current patch's window",
  breaks="Matches of the previous patch that lie before the current patch's own window are not considered.",
  demo="""
  // Patch 0 of the reference matches the degraded signal best at its own place;
  // patch 1 too, but it is far from patch 0, so a narrow window separates them.
  using namespace Visqol;
  std::mt19937 g(5);
  std::uniform_real_distribution<double> u(0, 40);
  Mat deg(8, 60);
  for (auto& x : deg) x = u(g);
  std::vector<size_t> idx{5, 35};
  std::vector<ImagePatch> ref{deg.GetColumns(5, 9), deg.GetColumns(35, 39)};
  ComparisonPatchesSelector sel(std::make_unique<NeurogramSimiliarityIndexMeasure>());
  auto res = sel.FindMostOptimalDegPatches(ref, idx, deg, 0.02, 2);
  CHECK(res.ok() && res->size() == 2);
  NEAR((*res)[0].similarity, 1, 1e-9);
  NEAR((*res)[1].similarity, 1, 1e-9);
  NEAR((*res)[0].deg_patch_start_time, 0.1, 1e-9);
  NEAR((*res)[1].deg_patch_start_time, 0.7, 1e-9);
"""),
 dict(id="std-dev-negative-variance", prop="C02",
  edits=[("visqol.cc", """    if (d < 0.0) {
      return 0.;
    } else {
      return sqrt(d);
    }""", """    return sqrt(d);""")],
  needs="A band whose similarity is constant over all patches, so rounding makes the pooled variance slightly negative",
  breaks="fstdnsim becomes NaN (and with it the lattice model's prediction).",
  demo="""
  int bad = 0;
  for (int s = 0; s < 40; s++) {
    // a few clicks in silence
    Vec r(10000 + 331 * s, 0.0);
    std::mt19937 g(s);
    for (int k = 0; k < 12; k++) r[g() % r.size()] = 0.5 + 0.01 * (g() % 40);
    auto z = Compare(kAudio, r, Mul(r, 0.6), 4000, 60, false, true);
    for (double x : z.fstdnsim()) bad += !std::isfinite(x);
  }
  CHECK(bad == 0);
"""),
 dict(id="wav-fmt-extension-signed", prop="C04",
  edits=[("wav_reader.cc", """    int8_t extension_data;

    for (size_t i = 0; i < static_cast<size_t>(extension_size); ++i) {""",
"""    int8_t extension_data;

    for (uint8_t i = 0; i < static_cast<uint8_t>(extension_size); ++i) {""")],
  needs="A fmt chunk extension of 256 bytes or more",
  breaks="Only the low byte of the extension size is used, so the reader looks for the data chunk inside the extension.",
  demo="""
  std::vector<int16_t> p = Pcm(Noise(5000, 0.2, 4));
  std::string ext;
  Put16(ext, 300);
  ext += std::string(300, 'x');
  std::stringstream ss(Wav(p, 1, 16000, ext));
  auto s = Visqol::MiscAudio::LoadAsMono(&ss);
  CHECK(s.data_matrix.NumElements() == p.size());
  for (size_t i = 0; i < p.size(); i++) NEAR(s.data_matrix(i), p[i] / 32768.0, 0);
"""),
]
