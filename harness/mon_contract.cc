// C32: the libraries underneath are used as they require. Every call to libsvm,
// PFFFT and TensorFlow Lite is watched against a model of what is alive and
// which buffers are whose.
#include <dlfcn.h>

#include <cmath>
#include <fstream>
#include <memory>
#include <map>
#include <set>

#include "alignment.h"
#include "fast_fourier_transform.h"
#include "prod.h"
#include "sig.h"
#include "speech_similarity_to_quality_mapper.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "visqol_api.h"
#include "xcorr.h"

extern "C" void verif_pffft_held(size_t* setups, size_t* blocks);
extern "C" void verif_tflite_held(size_t* interpreters, size_t* models, size_t* delegates);

namespace {
bool g_on = false;  // the model of the reference does not count
std::map<std::string, size_t> g_events;
std::vector<std::string> g_broken;
void Broken(const std::string& s) { if (g_broken.size() < 5) g_broken.push_back(s); }
void Event(const char* s) { g_events[s]++; }

// The observations a trained model goes on pointing to.
struct Rows { std::vector<const svm_node*> at; std::vector<std::vector<svm_node>> was; };
std::map<const svm_model*, Rows> g_models;  // alive

// Nodes up to the end mark. A list without one runs into whatever follows,
// which the address sanitizer's build of this monitor notices at once.
std::string Nodes(const svm_node* x, std::vector<svm_node>* out) {
  if (!x) return "no nodes";
  int last = 0;
  for (size_t i = 0; i < 1000000; i++) {
    if (out) out->push_back(x[i]);
    if (x[i].index == -1) return "";
    if (x[i].index <= last) return "indices that do not rise";
    last = x[i].index;
  }
  return "no end mark";
}
std::string Kept(const svm_model* m) {
  auto it = g_models.find(m);
  for (size_t i = 0; i < it->second.at.size(); i++) {
    const auto& w = it->second.was[i];
    for (size_t k = 0; k < w.size(); k++) {
      const svm_node& n = it->second.at[i][k];
      if (n.index != w[k].index || (n.index != -1 && n.value != w[k].value)) return mon::Fmt("observation %zu of %zu", i, it->second.at.size());
      if (n.index == -1) break;
    }
  }
  return "";
}
template <typename F> F Real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
}  // namespace

extern "C" {
void verif_contract(const char* what) { if (g_on) Broken(what); }
void verif_event(const char* what) { if (g_on) Event(what); }

svm_model* svm_load_model(const char* path) {
  static auto real = Real<svm_model* (*)(const char*)>("svm_load_model");
  if (!g_on) return real(path);
  Event("regression models loaded");
  svm_model* m = real(path);
  if (m) g_models[m];
  return m;
}
svm_model* svm_train(const svm_problem* p, const svm_parameter* q) {
  static auto real = Real<svm_model* (*)(const svm_problem*, const svm_parameter*)>("svm_train");
  if (!g_on) return real(p, q);
  Event("models trained");
  if (const char* e = svm_check_parameter(p, q)) Broken(std::string("libsvm: training with parameters it refuses: ") + e);
  if (p->l < 1) Broken("libsvm: training on nothing");
  Rows r;
  for (int i = 0; i < p->l; i++) {
    r.at.push_back(p->x[i]);
    r.was.emplace_back();
    const std::string e = Nodes(p->x[i], &r.was.back());
    if (!e.empty()) { Broken("libsvm: training observation with " + e); return real(p, q); }
  }
  svm_model* m = real(p, q);
  if (m) g_models[m] = r;
  return m;
}
double svm_predict(const svm_model* m, const svm_node* x) {
  static auto real = Real<double (*)(const svm_model*, const svm_node*)>("svm_predict");
  if (!g_on) return real(m, x);
  Event("regression predictions");
  if (!g_models.count(m)) { Broken("libsvm: prediction by a model that is not alive"); return 0; }
  const std::string e = Nodes(x, nullptr);
  if (!e.empty()) Broken("libsvm: observation with " + e);
  const std::string k = Kept(m);
  if (!k.empty()) Broken("libsvm: training data freed or changed while the model is in use: " + k);
  return real(m, x);
}
void svm_free_model_content(svm_model* m) {
  static auto real = Real<void (*)(svm_model*)>("svm_free_model_content");
  if (g_on && !g_models.count(m)) { Broken("libsvm: contents freed of a model that is not alive"); return; }
  real(m);
}
void svm_free_and_destroy_model(svm_model** m) {
  static auto real = Real<void (*)(svm_model**)>("svm_free_and_destroy_model");
  if (g_on && m && *m) {
    Event("regression models freed");
    if (!g_models.erase(*m)) { Broken("libsvm: a model freed that is not alive"); *m = nullptr; return; }
  }
  real(m);
}
}

namespace mon {
using ref::Config;
using ref::Vec;
using Visqol::FilePath;

static void Quiet(const char*) {}

// One thing a program may do with the engine.
static std::string Act(Ctx& c, Rng& r) {
  Config g = prod::RandomConfig(c);
  if (g.radius > 4) g.radius = 4;
  const std::string none = c.scratch + "/none";
  auto pair = [&](bool speech, Visqol::AudioSignal* a, Visqol::AudioSignal* b) {
    const size_t rate = r.pick(std::vector<size_t>{100, 200, 500, 1000, 2000});
    const Vec x = sig::Gen(r, static_cast<size_t>(rate * ((speech ? 0.75 : 1.1) + r.uni(-0.1, 0.8))), rate);
    *a = prod::Signal(x, rate);
    *b = prod::Signal(sig::Degrade(r, x, rate), rate);
  };
  Visqol::AudioSignal a, b;
  switch (r.range(0, 8)) {
    case 0: case 1: {
      pair(g.speech, &a, &b);
      Visqol::VisqolManager m;
      std::string w = "comparator " + g.Str();
      const int n = static_cast<int>(r.range(1, 3));
      for (int i = 0; i < n; i++) {
        Config h = g;
        if (r.chance(0.3)) { h.model = none; w += " (failing)"; }
        if (r.chance(0.3)) h.speech = !h.speech, h.model = h.speech ? prod::LatticeModel(c) : prod::AudioModel(c);
        (void)prod::Init(m, h);
        const int runs = static_cast<int>(r.range(0, 2));
        for (int k = 0; k < runs; k++) { Visqol::AudioSignal t = b; (void)m.Run(a, t); }
      }
      return w + Fmt(" initialised %d times", n);
    }
    case 2: {
      Visqol::SvrSimilarityToQualityMapper m{FilePath(r.chance(0.8) ? prod::AudioModel(c) : none)};
      const int n = static_cast<int>(r.range(0, 3));
      bool ok = false;
      for (int i = 0; i < n; i++) ok = m.Init().ok();
      const Vec v(32, r.uni(0.2, 1));
      if (ok) for (int64_t i = r.range(0, 3); i > 0; i--) (void)m.PredictQuality(v, v, v, v);
      return Fmt("regression mapping initialised %d times", n);
    }
    case 3: {
      Visqol::TFLiteQualityMapper m(r.chance(0.8) ? prod::LatticeModel(c) : none, 21);
      const int n = static_cast<int>(r.range(0, 3));
      bool ok = false;
      for (int i = 0; i < n; i++) ok = m.Init().ok();
      const Vec v(21, r.uni(0.2, 1));
      if (ok) for (int64_t i = r.range(0, 3); i > 0; i--) (void)m.PredictQuality(v, v, v, v);
      return Fmt("lattice mapping initialised %d times", n);
    }
    case 4: {
      auto m = std::make_unique<Visqol::SupportVectorRegressionModel>();
      const int n = static_cast<int>(r.range(0, 3));
      std::string w = "regression model:";
      for (int i = 0; i < n; i++) {
        if (r.chance(0.4)) {
          const bool ok = m->Init(FilePath(r.chance(0.7) ? prod::AudioModel(c) : none)).ok();
          w += ok ? " loaded" : " not loaded";
          if (ok) (void)m->Predict(Vec(32, 0.7));
          continue;
        }
        const size_t rows = r.range(1, 40), cols = r.range(1, 30);
        std::vector<Vec> x;
        Vec y;
        for (size_t k = 0; k < rows; k++) { x.push_back(sig::Noise(r, cols, 1)); y.push_back(r.uni(1, 5)); }
        if (r.chance(0.3)) for (Vec& v : x) v[r.range(0, cols - 1)] = 0;
        m->Init(x, y);
        w += Fmt(" trained on %zux%zu", rows, cols);
        for (int64_t k = r.range(0, 4); k > 0; k--) (void)m->Predict(r.chance(0.5) ? x[r.range(0, rows - 1)] : sig::Noise(r, r.chance(0.8) ? cols : r.range(1, 40), 1));
      }
      return w;
    }
    case 5: {
      const size_t n = r.chance(0.2) ? r.range(1, 70000) : r.range(1, 600);
      auto f = std::make_unique<Visqol::FftManager>(n);
      for (int64_t k = r.range(1, 3); k > 0; k--) {
        const auto s = Visqol::FastFourierTransform::Forward1d(f, Visqol::AMatrix<double>(sig::Noise(r, n, 1)));
        if (r.chance(0.5)) (void)Visqol::FastFourierTransform::Inverse1d(f, s);
        else (void)Visqol::FastFourierTransform::Inverse1dConjSym(f, s);
      }
      return Fmt("transform of %zu", n);
    }
    case 6: {
      const size_t n = r.chance(0.2) ? r.range(1, 30000) : r.range(1, 500), m = r.chance(0.3) ? n : r.chance(0.2) ? r.range(1, 30000) : r.range(1, 500);
      (void)Visqol::Alignment::AlignAndTruncate(prod::Signal(sig::Noise(r, n, 1), 1000), prod::Signal(sig::Noise(r, m, 1), 1000));
      return Fmt("alignment of %zu and %zu", n, m);
    }
    case 7: {
      pair(g.speech, &a, &b);
      Visqol::VisqolConfig cfg;
      cfg.mutable_audio()->set_sample_rate(a.sample_rate);
      auto* o = cfg.mutable_options();
      o->set_svr_model_path(r.chance(0.2) ? none : g.model);
      o->set_use_speech_scoring(g.speech);
      o->set_use_lattice_model(g.lattice);
      o->set_allow_unsupported_sample_rates(true);
      Visqol::VisqolApi api;
      const int n = static_cast<int>(r.range(1, 2));
      for (int i = 0; i < n; i++) {
        if (!api.Create(cfg).ok()) continue;
        Vec x = prod::Samples(a), y = prod::Samples(b);
        (void)api.Measure(absl::MakeSpan(x), absl::MakeSpan(y));
      }
      return Fmt("interface created %d times, ", n) + g.Str();
    }
    default: {
      std::vector<std::unique_ptr<Visqol::VisqolManager>> m;
      const int n = static_cast<int>(r.range(2, 4));
      pair(g.speech, &a, &b);
      for (int i = 0; i < n; i++) { m.push_back(std::make_unique<Visqol::VisqolManager>()); (void)prod::Init(*m.back(), g); }
      while (!m.empty()) {
        const size_t k = r.range(0, m.size() - 1);
        Visqol::AudioSignal t = b;
        if (r.chance(0.6)) (void)m[k]->Run(a, t);
        m.erase(m.begin() + k);
      }
      return Fmt("%d comparators destroyed in any order, ", n) + g.Str();
    }
  }
}

void RunCase(Ctx& c) {
  svm_set_print_string_function(Quiet);
  Rng& r = c.rng;
  std::string all;
  const int n = static_cast<int>(r.range(1, 4));
  g_on = true;
  for (int i = 0; i < n && g_broken.empty(); i++) {
    const std::string w = Act(c, r);
    all += (i ? "; " : "") + w;
    Note(all);
    // Everything of one act is destroyed by now.
    size_t a, b, d, e, f;
    verif_pffft_held(&a, &b);
    if (a || b) Broken(Fmt("PFFFT: %zu transforms and %zu blocks never given back", a, b));
    verif_tflite_held(&d, &e, &f);
    if (d || e || f) Broken(Fmt("TensorFlow Lite: %zu interpreters, %zu models, %zu delegates never destroyed", d, e, f));
    if (!g_models.empty()) Broken(Fmt("libsvm: %zu models never freed", g_models.size()));
  }
  g_on = false;
  for (auto& kv : g_events) Stat(kv.first, kv.second);
  if (!g_broken.empty()) {
    std::string key = g_broken[0];
    for (char& ch : key) if (isdigit(static_cast<unsigned char>(ch))) ch = '#';
    Viol(key.substr(0, 60), all + ": " + g_broken[0]);
  }
  g_events.clear(); g_broken.clear(); g_models.clear();
  Cover(all);
  Sample(all);
}
}  // namespace mon
