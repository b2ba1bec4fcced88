// Helpers of the demonstrations.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

#include "alignment.h"
#include "amatrix.h"
#include "analysis_window.h"
#include "audio_signal.h"
#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

using Vec = std::vector<double>;
using Mat = Visqol::AMatrix<double>;

#define CHECK(c)                                               \
  do {                                                         \
    if (!(c)) {                                                \
      printf("demo: line %d: not true: %s\n", __LINE__, #c);   \
      exit(1);                                                 \
    }                                                          \
  } while (0)
#define NEAR(a, b, tol)                                                      \
  do {                                                                       \
    double a_ = (a), b_ = (b);                                               \
    if (!(std::abs(a_ - b_) <= (tol))) {                                     \
      printf("demo: line %d: %s = %.12g, expected %.12g\n", __LINE__, #a, a_, b_); \
      exit(1);                                                               \
    }                                                                        \
  } while (0)

inline Vec Noise(size_t n, double amp, int seed) {
  std::mt19937 g(seed);
  std::normal_distribution<double> d(0, 1);
  Vec v(n);
  for (auto& x : v) x = amp * d(g);
  return v;
}
inline Vec Tone(size_t n, double rate, double f, double amp) {
  Vec v(n);
  for (size_t i = 0; i < n; i++) v[i] = amp * std::sin(2 * M_PI * f * i / rate);
  return v;
}
// Harmonics with a syllable-like envelope, and a little noise.
inline Vec Speech(size_t n, double rate, double amp, int seed) {
  std::mt19937 g(seed);
  std::uniform_real_distribution<double> u(0, 1);
  Vec v(n);
  double f0 = 110 + 80 * u(g), syl = 2.5 + 2 * u(g), ph = 6 * u(g);
  Vec nz = Noise(n, 0.01 * amp, seed + 1);
  for (size_t i = 0; i < n; i++) {
    double t = i / rate, e = std::pow(0.5 + 0.5 * std::sin(2 * M_PI * syl * t + ph), 2), s = 0;
    double f = f0 * (1 + 0.2 * std::sin(2 * M_PI * 0.7 * t));
    for (int h = 1; h < 14; h++)
      s += std::sin(2 * M_PI * f * h * t) / h * (1 + std::sin(3 * h + 5 * t));
    v[i] = amp * 0.4 * e * s + nz[i];
  }
  return v;
}
inline Vec Sub(const Vec& v, size_t a, size_t n) { return Vec(v.begin() + a, v.begin() + a + n); }
inline Vec Cat(Vec a, const Vec& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Vec Mul(Vec a, double k) { for (auto& x : a) x *= k; return a; }
inline Vec Add(Vec a, const Vec& b) { for (size_t i = 0; i < a.size(); i++) a[i] += b[i]; return a; }
inline Visqol::AudioSignal Sig(const Vec& v, size_t rate) {
  Visqol::AudioSignal s;
  s.data_matrix = Mat(v);
  s.sample_rate = rate;
  return s;
}
enum Mode { kAudio, kLattice, kExp, kExpUnscaled };
inline std::string ModelPath(Mode m) {
  return m == kLattice
             ? "model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400"
               "_train1_7_raw.tflite"
             : "model/libsvm_nu_svr_model.txt";
}
inline void Init(Visqol::VisqolManager& m, Mode mode, int window = 60, bool noalign = false,
                 bool norealign = false) {
  CHECK(m.Init(Visqol::FilePath(ModelPath(mode)), mode != kAudio, mode == kExpUnscaled, window,
               mode == kLattice, noalign, norealign).ok());
}
inline absl::StatusOr<Visqol::SimilarityResultMsg> Run(Visqol::VisqolManager& m, const Vec& r,
                                                       const Vec& d, size_t rate) {
  Visqol::AudioSignal rs = Sig(r, rate), ds = Sig(d, rate);
  return m.Run(rs, ds);
}
inline Visqol::SimilarityResultMsg Compare(Mode mode, const Vec& r, const Vec& d, size_t rate,
                                           int window = 60, bool noalign = false,
                                           bool norealign = false) {
  Visqol::VisqolManager m;
  Init(m, mode, window, noalign, norealign);
  auto x = Run(m, r, d, rate);
  if (!x.ok()) {
    printf("demo: %s\n", x.status().ToString().c_str());
    exit(1);
  }
  return *x;
}
inline std::string Work(const std::string& name) {
  return std::string(getenv("DEMO_WORK")) + "/" + name;
}
inline void Put32(std::string& s, uint32_t v) { s.append((const char*)&v, 4); }
inline void Put16(std::string& s, uint16_t v) { s.append((const char*)&v, 2); }
inline std::string Wav(const std::vector<int16_t>& pcm, int ch, uint32_t rate,
                       const std::string& fmt_ext = "", const std::string& before_data = "") {
  std::string f = "fmt ", o;
  Put32(f, 16 + fmt_ext.size());
  Put16(f, 1);
  Put16(f, ch);
  Put32(f, rate);
  Put32(f, rate * ch * 2);
  Put16(f, ch * 2);
  Put16(f, 16);
  f += fmt_ext + before_data + "data";
  Put32(f, pcm.size() * 2);
  f.append((const char*)pcm.data(), pcm.size() * 2);
  o = "RIFF";
  Put32(o, f.size() + 4);
  return o + "WAVE" + f;
}
inline std::vector<int16_t> Pcm(const Vec& v) {
  std::vector<int16_t> p;
  for (double x : v) p.push_back(std::lround(std::max(-1.0, std::min(0.999, x)) * 32768));
  return p;
}
inline void Save(const std::string& path, const std::string& data) {
  std::ofstream(path, std::ios::binary) << data;
}
inline std::string Load(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
