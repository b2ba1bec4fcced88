// C16 quality mapping, C25 training and loading of regression models, C26 pooling.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include <set>

#include "comparison_patches_selector.h"
#include "image_patch_creator.h"
#include "libsvm_target_observation_convertor.h"
#include "prod.h"
#include "sig.h"
#include "spectrogram_builder.h"
#include "speech_similarity_to_quality_mapper.h"
#include "src/svr_training/training_data_file_reader.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "svr_similarity_to_quality_mapper.h"
#include "tflite_quality_mapper.h"
#include "visqol.h"

namespace mon {
using ref::Vec;
using Visqol::AMatrix;
using Visqol::FilePath;

// ------------------------------------------------------ libsvm, directly
struct Nodes {
  std::vector<std::vector<svm_node>> rows;
  std::vector<svm_node*> ptr;
};
static std::vector<svm_node> Row(const Vec& v) {
  std::vector<svm_node> o(v.size() + 1);
  for (size_t i = 0; i < v.size(); i++) { o[i].index = static_cast<int>(i) + 1; o[i].value = v[i]; }
  o[v.size()].index = -1;
  return o;
}
static Nodes ToNodes(const std::vector<Vec>& x) {
  Nodes n;
  for (const Vec& v : x) n.rows.push_back(Row(v));
  for (auto& r : n.rows) n.ptr.push_back(r.data());
  return n;
}
static svm_model* Train(Nodes* n, std::vector<double>* y, size_t features) {
  svm_problem p;
  p.l = static_cast<int>(y->size());
  p.y = y->data();
  p.x = n->ptr.data();
  svm_parameter q;
  memset(&q, 0, sizeof q);
  q.svm_type = NU_SVR;
  q.kernel_type = RBF;
  q.C = 0.4;
  q.nu = 0.6;
  q.gamma = 1.0 / static_cast<double>(features);
  q.cache_size = 100;
  q.shrinking = 1;
  q.degree = 3;
  q.eps = 1e-3;
  q.p = 0.1;
  return svm_train(&p, &q);
}
static void Quiet(const char*) {}

static Vec Feature(Rng& g, size_t n, double lo, double hi) {
  Vec v(n);
  const int k = static_cast<int>(g.range(0, 4));
  const double a = g.uni(lo, hi), b = g.uni(lo, hi);
  for (size_t i = 0; i < n; i++)
    v[i] = k == 0 ? g.uni(lo, hi) : k == 1 ? a : k == 2 ? a + (b - a) * i / n : k == 3 ? (g.chance(0.3) ? a : b) : std::clamp(a + 0.1 * (hi - lo) * g.gauss(), lo, hi);
  return v;
}
struct Features { Vec a, b, c, d; };
static Features AllFeatures(Rng& g, size_t n) {
  Features f;
  const double u = g.uni();
  if (u < 0.12) f.a = Vec(n, 1.0);
  else if (u < 0.2) f.a = Vec(n, 0.0);
  else f.a = Feature(g, n, g.chance(0.15) ? -0.5 : 0, g.chance(0.1) ? 1.5 : 1);
  f.b = Feature(g, n, 0, 1);
  f.c = Feature(g, n, 0, 0.6);
  f.d = Feature(g, n, 0, 60);
  return f;
}

// ---------------------------------------------------------------- C16
static std::string CustomModel(Ctx& c) {
  static std::map<std::string, int> made;
  const int id = static_cast<int>(c.rng.range(0, 3));
  // names as users give them; a file of a similar name holds another model
  static const char* names[] = {"custom0.txt", "custom 1.model ", " custom,\"2\"", "custom0.txt.txt"};
  const std::string path = c.scratch + "/" + names[id];
  if (!made[path]++) {
    Rng g(1000 * c.seed + id);
    std::vector<Vec> x;
    std::vector<double> y;
    for (int i = 0; i < 40; i++) {
      x.push_back(Feature(g, 32, 0, 1));
      // one model far outside the range of scores
      y.push_back(id == 0 ? g.uni(-20, 20) : 1 + 4 * x.back()[3]);
    }
    Nodes n = ToNodes(x);
    svm_model* m = Train(&n, &y, 32);
    if (id < 2 && m) m->rho[0] += id == 0 ? 3.0 : -3.0;  // predictions beyond both ends
    svm_save_model(path.c_str(), m);
    svm_free_and_destroy_model(&m);
  }
  return path;
}

static void MapperCase(Ctx& c) {
  Rng& g = c.rng;
  svm_set_print_string_function(Quiet);
  const int kind = static_cast<int>(g.range(0, 3));
  const size_t bands = kind == 0 ? 32 : 21;
  ref::Config cfg;
  cfg.speech = kind != 0;
  cfg.lattice = kind == 3;
  cfg.unscaled = kind == 1;
  prod::SetModel(c, &cfg);
  if (kind == 0 && g.chance(0.4)) cfg.model = CustomModel(c);
  Note(cfg.Str());
  std::unique_ptr<Visqol::SimilarityToQualityMapper> m;
  if (kind == 0) m = std::make_unique<Visqol::SvrSimilarityToQualityMapper>(FilePath(cfg.model));
  else if (kind == 3) m = std::make_unique<Visqol::TFLiteQualityMapper>(cfg.model, 21);
  else m = std::make_unique<Visqol::SpeechSimilarityToQualityMapper>(!cfg.unscaled);
  const absl::Status st = m->Init();
  if (!st.ok()) return Viol("mapper initialisation", cfg.Str() + ": " + st.ToString());
  std::vector<std::pair<Features, double>> past;
  const int n = static_cast<int>(g.range(3, 30));
  for (int i = 0; i < n; i++) {
    if (!past.empty() && g.chance(0.3)) {  // asked again, in the middle of others
      const auto& p = g.pick(past);
      const double again = m->PredictQuality(p.first.a, p.first.b, p.first.c, p.first.d);
      if (memcmp(&again, &p.second, sizeof again))
        return Viol("prediction remembers", cfg.Str() + Fmt(": %.17g first, then %.17g", p.second, again));
      Stat("repeated predictions");
      continue;
    }
    Features f = AllFeatures(g, bands);
    if (kind == 3 || g.chance(0.5)) {
      // a single feature moved: the value must be that feature's
      if (!past.empty() && g.chance(0.5)) {
        f = g.pick(past).first;
        Vec* which[] = {&f.a, &f.b, &f.c, &f.d};
        Vec& v = *which[g.range(0, 3)];
        v[g.range(0, bands - 1)] += g.uni(-0.3, 0.3);
      }
    }
    if (!past.empty() && g.chance(0.25)) {
      // alike in some way to what was asked just before: same values in another
      // order, same sum, same ends, a difference in the last place
      f = past.back().first;
      Vec* which[] = {&f.a, &f.a, &f.b, &f.c, &f.d};
      Vec& v = *which[g.range(0, 4)];
      const size_t i1 = g.range(0, bands - 1), i2 = g.range(0, bands - 1);
      switch (g.range(0, 4)) {
        case 0: std::swap(v[i1], v[i2]); break;
        case 1: std::reverse(v.begin(), v.end()); break;
        case 2: { const double t = g.uni(-0.2, 0.2); v[i1] += t; v[i2] -= t; break; }
        case 3: for (size_t k = 1; k + 1 < bands; k++) v[k] = g.uni(); break;
        default: v[i1] += 1e-3;
      }
      Stat("predictions after one alike");
    }
    const double q = m->PredictQuality(f.a, f.b, f.c, f.d);
    past.push_back({f, q});
    ref::Obs o;
    o.fvnsim = f.a; o.fvnsim10 = f.b; o.fstdnsim = f.c; o.fvdegenergy = f.d;
    o.vnsim = 1;
    const double want = ref::QualityOf(cfg, o);
    if (!Close(q, want, 1e-6, 1e-6))
      return Viol("mapped quality", cfg.Str() + Fmt(" %s: %.9g, expected %.9g, similarities ", cfg.model.substr(cfg.model.rfind('/') + 1).c_str(), q, want) + Head(f.a));
    if (kind != 3 && !(q >= 1 && q <= 5)) return Viol("quality range", cfg.Str() + Fmt(": %.17g", q));
    if (kind == 0) {  // only the band similarities count
      const Features o2 = AllFeatures(g, bands);
      const double q2 = m->PredictQuality(f.a, o2.b, o2.c, o2.d);
      if (q2 != q) return Viol("regression uses other features", Fmt("%.17g then %.17g", q, q2));
      const double raw = ref::SvrPredict(cfg.model, f.a);
      if (raw < 1) Stat("clamped from below");
      if (raw > 5) Stat("clamped from above");
    }
    if (kind == 1 || kind == 2) {  // never decreasing
      const double up = g.uni(0, 0.2);
      Vec h = f.a;
      for (double& v : h) v += up;
      const double q2 = m->PredictQuality(h, f.b, f.c, f.d);
      if (q2 < q - 1e-12) return Viol("exponential mapping decreases", Fmt("%.17g to %.17g when similarity grows by %.3g", q, q2, up));
      const double one = m->PredictQuality(Vec(21, 1.0), f.b, f.c, f.d);
      if (!cfg.unscaled && !Close(one, 5, 1e-4)) return Viol("scaled mapping of similarity 1", Fmt("%.9g", one));
      Stat("monotonicity");
    }
    Stat(Fmt("predictions %s", kind == 0 ? "regression" : kind == 3 ? "lattice" : kind == 1 ? "exponential unscaled" : "exponential scaled"));
    Cover(Fmt("map %d %.12g", kind, q));
    if (c.index < 8 && i == 0) Sample(cfg.Str() + Fmt(": %.9g for similarities ", q) + Head(f.a));
  }
}

// The score a comparison reports is the selected model's value for what it reports.
static void QualityCase(Ctx& c) {
  Rng& g = c.rng;
  svm_set_print_string_function(Quiet);
  ref::Config cfg = prod::RandomConfig(c);
  if (!cfg.speech && g.chance(0.5)) cfg.model = CustomModel(c);
  if (g.chance(0.5)) cfg.no_realign = true;
  cfg.radius = static_cast<int>(g.range(0, 20));
  const size_t rate = sig::Rate(g);
  Visqol::VisqolManager m;
  const absl::Status st = prod::Init(m, cfg);
  if (!st.ok()) return Viol("initialisation", cfg.Str() + ": " + st.ToString());
  const int runs = static_cast<int>(g.range(1, 3));
  for (int i = 0; i < runs; i++) {
    std::string w1, w2;
    const size_t n = static_cast<size_t>(rate * g.uni(1.0, 3.5));
    const Vec r = g.chance(0.5) ? sig::Speechy(g, n, rate) : sig::Gen(g, n, rate, &w1);
    const Vec d = g.chance(0.15) ? sig::Gen(g, n, rate, &w2) : sig::Degrade(g, r, rate, &w2);
    Note(cfg.Str() + Fmt(" rate=%zu n=%zu %s -> %s", rate, n, w1.c_str(), w2.c_str()));
    const ref::Obs o = prod::Run(m, r, d, rate);
    if (!o.ok) { Stat("refused"); continue; }
    if (std::fabs(o.vnsim - 0.15) < 1e-9) continue;
    const double want = ref::QualityOf(cfg, o);
    if (!Close(o.moslqo, want, 1e-6, 1e-6))
      return Viol("reported quality", cfg.Str() + Fmt(" rate=%zu n=%zu %s -> %s: %.9g, the model gives %.9g", rate, n, w1.c_str(), w2.c_str(), o.moslqo, want));
    Stat(o.vnsim < 0.15 ? "scored as dissimilar" : "scored by the model");
    Cover(Fmt("q %s %.9g", cfg.Str().c_str(), o.moslqo));
  }
}

// ---------------------------------------------------------------- C25
static bool SamePrediction(double a, double b) { return Close(a, b, 1e-7, 1e-7); }

static void TrainCase(Ctx& c) {
  Rng& g = c.rng;
  svm_set_print_string_function(Quiet);
  const size_t features = g.chance(0.2) ? 1 : g.range(1, 40);
  size_t rows = g.chance(0.15) ? g.range(1, 4) : g.range(5, g.chance(0.1) ? 300 : 60);
  if (c.index % 197 == 3) rows = g.range(301, 1500);
  std::vector<Vec> x;
  std::vector<double> y;
  const double noise = g.uni(0, 1);
  for (size_t i = 0; i < rows; i++) {
    x.push_back(Feature(g, features, g.chance(0.2) ? -2 : 0, 1));
    if (g.chance(0.15)) x.back()[g.range(0, features - 1)] = 0;
    if (i && g.chance(0.05)) x.back() = g.pick(x);
    double s = 0;
    for (double v : x.back()) s += v;
    y.push_back(3 + s / features + noise * g.gauss());
  }
  const std::string what = Fmt("%zu rows of %zu features", rows, features);
  Note("train " + what);
  auto xs = std::make_unique<std::vector<Vec>>(x);
  auto ys = std::make_unique<std::vector<double>>(y);
  Visqol::SupportVectorRegressionModel model;
  model.Init(*xs, *ys);
  if (*xs != x || *ys != y) Viol("training changed its data", what);
  for (Vec& v : *xs) std::fill(v.begin(), v.end(), -99.0);
  std::fill(ys->begin(), ys->end(), -99.0);
  xs.reset();
  ys.reset();
  Nodes n = ToNodes(x);
  std::vector<double> yc = y;
  svm_model* want = Train(&n, &yc, features);
  auto compare = [&](const Visqol::SupportVectorRegressionModel& m, svm_model* w, const char* key) {
    for (int i = 0; i < 8; i++) {
      const Vec q = g.chance(0.4) ? g.pick(x) : Feature(g, features, -0.5, 1.5);
      const double a = m.Predict(q), b = svm_predict(w, Row(q).data());
      Stat("predictions");
      if (!SamePrediction(a, b)) { Viol(key, what + Fmt(": predicts %.12g, the library given the same rows %.12g", a, b)); return false; }
    }
    return true;
  };
  if (compare(model, want, "trained model")) {
    // repeated: no state
    const Vec q = g.pick(x);
    const double a = model.Predict(q);
    model.Predict(Feature(g, features, 0, 1));
    const double b = model.Predict(q);
    if (memcmp(&a, &b, sizeof a)) Viol("prediction remembers", what);
    // saved, then loaded
    const std::string path = c.scratch + "/m.txt";
    svm_save_model(path.c_str(), want);
    svm_model* back = svm_load_model(path.c_str());
    Visqol::SupportVectorRegressionModel loaded;
    const absl::Status s = loaded.Init(FilePath(path));
    if (!s.ok() || !back) Viol("loading a saved model", what + ": " + s.ToString());
    else {
      unlink(path.c_str());  // the loaded model lives on its own
      compare(loaded, back, "reloaded model");
      compare(model, want, "trained model after loading another");
      Stat("reloaded models");
    }
    if (back) svm_free_and_destroy_model(&back);
  }
  svm_free_and_destroy_model(&want);
  Cover("train " + what + Fmt(" %.9g", y[0]));
  if (c.index < 4) Sample("training on " + what);
}

static void ConvertCase(Ctx& c) {
  Rng& g = c.rng;
  const Visqol::LibSvmTargetObservationConvertor conv;
  const size_t f = g.range(1, 50), rows = g.range(1, 30);
  std::vector<Vec> x;
  for (size_t i = 0; i < rows; i++) x.push_back(Feature(g, f, -3, 3));
  svm_node** n = conv.ConvertObservations(x, f);
  auto same = [&](const svm_node* r, const Vec& v) {
    // absent entries are zeros
    Vec got(v.size(), 0.0);
    int last = 0;
    for (; r->index != -1; r++) {
      if (r->index <= last || r->index > static_cast<int>(v.size())) return false;
      last = r->index;
      got[r->index - 1] = r->value;
    }
    return got == v;
  };
  for (size_t i = 0; i < rows; i++) {
    if (!same(n[i], x[i])) Viol("converted observation", Fmt("row %zu of %zu, %zu features", i, rows, f));
    svm_node* one = conv.ConvertObservation(x[i]);
    if (!same(one, x[i])) Viol("converted observation", Fmt("single row, %zu features", f));
    free(one);
    free(n[i]);
  }
  free(n);
  Stat("converted rows", rows);
}

static void ReaderCase(Ctx& c) {
  Rng& g = c.rng;
  const char delim = g.pick(std::vector<char>{',', '\t', ';', ' ', '|'});
  const size_t rows = g.chance(0.1) ? g.range(100, 1500) : g.range(1, 40);
  const bool ragged = g.chance(0.3), crlf = g.chance(0.25), last_newline = g.chance(0.7), junk = g.chance(0.15);
  const size_t cols = g.range(1, 40);
  std::vector<Vec> want;
  std::string text;
  for (size_t i = 0; i < rows; i++) {
    const size_t n = ragged ? g.range(1, 40) : cols;
    Vec v;
    for (size_t j = 0; j < n; j++) {
      if (j) text += delim;
      if (junk && g.chance(0.05)) { text += g.pick(std::vector<std::string>{"abc", "1.2.3", "--1", "x1"}); continue; }
      const double d = g.pick(std::vector<double>{0, 1, -1, g.gauss(), g.uni(), g.gauss() * 1e6, g.gauss() * 1e-7, std::floor(g.uni(0, 1000)), g.gauss() * 1e200});
      const char* f = g.pick(std::vector<const char*>{"%.17g", "%.17g", "%.9g", "%.3f", "%e", "%.0f", "%+.6g"});
      if (std::fabs(d) > 1e100 && strstr(f, "f")) f = "%.17g";
      std::string s = Fmt(f, d);
      v.push_back(strtod(s.c_str(), nullptr));
      if (s[0] == '+') s = s.substr(1);
      if (delim != ' ' && g.chance(0.1)) s = " " + s + (g.chance(0.5) ? " " : "");
      text += s;
    }
    want.push_back(v);
    if (i + 1 < rows || last_newline) text += crlf ? "\r\n" : "\n";
  }
  const std::string path = c.scratch + "/data.txt";
  std::ofstream(path, std::ios::binary) << text;
  Note(Fmt("read %zu rows, delimiter %d, %s%s%s", rows, delim, ragged ? "ragged " : "", crlf ? "crlf " : "", junk ? "junk" : ""));
  const auto got = Visqol::TrainingDataFileReader::Read(FilePath(path), delim);
  if (got.size() != want.size()) return Viol("training rows", Fmt("%zu rows read, file holds %zu", got.size(), want.size()));
  for (size_t i = 0; i < rows; i++) {
    if (got[i].size() != want[i].size()) return Viol("training row length", Fmt("row %zu has %zu numbers, file holds %zu", i, got[i].size(), want[i].size()));
    for (size_t j = 0; j < got[i].size(); j++)
      if (got[i][j] != want[i][j]) return Viol("training number", Fmt("row %zu number %zu: %.17g, file holds %.17g", i, j, got[i][j], want[i][j]));
  }
  Stat("training rows read", rows);
  Cover(Fmt("read %zu %zu %d %d", rows, cols, ragged, delim));
}

static void BadModelCase(Ctx& c) {
  Rng& g = c.rng;
  const std::string path = c.scratch + "/bad.txt";
  rmdir(path.c_str());
  unlink(path.c_str());
  const int k = static_cast<int>(g.range(0, 4));
  static const char* nm[] = {"missing", "directory", "empty", "not a model", "in a missing directory"};
  std::string p = path;
  if (k == 1) mkdir(path.c_str(), 0700);
  if (k == 2) std::ofstream(path).flush();
  if (k == 3) std::ofstream(path) << "this is not a model " << g.next();
  if (k == 4) p = c.scratch + "/none/m.txt";
  Note(Fmt("bad model: %s", nm[k]));
  {
    Visqol::SupportVectorRegressionModel m;
    const absl::Status s = m.Init(FilePath(p));
    if (s.ok()) Viol("unreadable model accepted", nm[k]);
    else if (s.code() != absl::StatusCode::kInvalidArgument) Viol("unreadable model status", std::string(nm[k]) + ": " + s.ToString());
    // a later success is unaffected
    Visqol::SupportVectorRegressionModel ok;
    if (!ok.Init(FilePath(prod::AudioModel(c))).ok()) Viol("loading after a failure", nm[k]);
    const std::string odd = c.scratch + "/" + g.pick(std::vector<std::string>{"model ", " model", "mo\tdel.txt", "model.txt.", "model,1.txt", "m\xc3\xb6" "del", "a'b\"c", "$HOME", "%20", "~"});
    { std::ifstream in(prod::AudioModel(c), std::ios::binary); std::ofstream(odd, std::ios::binary) << in.rdbuf(); }
    Visqol::SvrSimilarityToQualityMapper named{FilePath(odd)};
    const absl::Status sn = named.Init();
    if (!sn.ok()) Viol("model of an unusual name refused", "'" + odd + "': " + sn.ToString());
    unlink(odd.c_str());
    Visqol::SvrSimilarityToQualityMapper mapper{FilePath(p)};
    if (mapper.Init().ok()) Viol("unreadable model accepted by the mapper", nm[k]);
    Visqol::TFLiteQualityMapper lattice(p, 21);
    if (lattice.Init().ok()) Viol("unreadable lattice accepted", nm[k]);
  }
  rmdir(path.c_str());
  unlink(path.c_str());
  Stat(Fmt("unreadable models: %s", nm[k]));
}

static void TrainingCase(Ctx& c) {
  const double u = c.rng.uni();
  if (u < 0.5) TrainCase(c);
  else if (u < 0.8) ReaderCase(c);
  else if (u < 0.9) ConvertCase(c);
  else BadModelCase(c);
}

// ---------------------------------------------------------------- C26
static uint64_t HashOf(const AMatrix<double>& m, uint64_t h) {
  for (size_t i = 0; i < m.NumElements(); i++) {
    uint64_t b;
    const double v = m(i);
    memcpy(&b, &v, 8);
    h = (h ^ b) * 0x9e3779b97f4a7c15ull;
    h ^= h >> 29;
  }
  return h;
}
struct PoolPlan {
  uint64_t salt = 0;
  size_t bands = 1;
  int kind = 0;      // of patch results
  double centre = 0.5;
  double score = 3;
};
class StubComparator : public Visqol::PatchSimilarityComparator {
 public:
  explicit StubComparator(const PoolPlan* p) : p_(p) {}
  Visqol::PatchSimilarityResult MeasurePatchSimilarity(const Visqol::ImagePatch& r, const Visqol::ImagePatch& d) const override {
    Rng g(HashOf(d, HashOf(r, p_->salt)));
    const size_t B = p_->bands;
    Visqol::PatchSimilarityResult o;
    o.freq_band_means = AMatrix<double>(B, 1);
    o.freq_band_stddevs = AMatrix<double>(B, 1);
    o.freq_band_deg_energy = AMatrix<double>(B, 1);
    double s = 0;
    // some reference patches are like nothing, so that leaving them out is best
    const bool unlike = p_->kind >= 6 && Rng(HashOf(r, ~p_->salt)).chance(0.3);
    for (size_t b = 0; b < B; b++) {
      double m = 0, sd = 0;
      switch (p_->kind) {
        case 0: m = g.uni(0, 1); sd = g.uni(0, 0.5); break;
        case 1: m = p_->centre; sd = 0; break;                       // all alike: zero spread
        case 2: m = p_->centre + 0.03 * g.gauss(); sd = 0.01 * g.uni(); break;
        case 3: m = g.chance(0.2) ? g.uni(-1, 0) : g.uni(0, 1); sd = g.uni(0, 0.9); break;
        case 4: m = b == 0 ? 1 : p_->centre; sd = b % 3 ? 0 : 0.2; break;
        case 6: case 7: m = unlike ? g.uni(-0.6, 0.1) : g.uni(0.3, 1); sd = g.uni(0, p_->kind == 6 ? 0.02 : 0.4); break;
        default: m = g.chance(0.15) ? 0.05 : 0.95; sd = 1e-3;
      }
      o.freq_band_means(b) = m;
      o.freq_band_stddevs(b) = sd;
      o.freq_band_deg_energy(b) = g.uni(0, 60);
      s += m;
    }
    o.similarity = s / B;
    o.ref_patch_start_time = o.ref_patch_end_time = o.deg_patch_start_time = o.deg_patch_end_time = 0;
    made.insert(HashOf(o.freq_band_means, HashOf(o.freq_band_stddevs, HashOf(o.freq_band_deg_energy, 7))));
    return o;
  }
  mutable std::set<uint64_t> made;

 private:
  const PoolPlan* p_;
};
// Forwards, so that the monitor keeps access to what was produced.
class Forward : public Visqol::PatchSimilarityComparator {
 public:
  explicit Forward(StubComparator* s) : s_(s) {}
  Visqol::PatchSimilarityResult MeasurePatchSimilarity(const Visqol::ImagePatch& r, const Visqol::ImagePatch& d) const override {
    return s_->MeasurePatchSimilarity(r, d);
  }

 private:
  StubComparator* s_;
};
class StubBuilder : public Visqol::SpectrogramBuilder {
 public:
  StubBuilder(size_t bands, Vec cf) : bands_(bands), cf_(std::move(cf)) {}
  absl::StatusOr<Visqol::Spectrogram> Build(const Visqol::AudioSignal& s, const Visqol::AnalysisWindow& w) override {
    const size_t n = s.data_matrix.NumRows(), hop = static_cast<size_t>(w.size * w.overlap);
    if (n < w.size) return absl::InvalidArgumentError("too short");
    Rng g(HashOf(s.data_matrix, 3));
    AMatrix<double> m(bands_, 1 + (n - w.size) / hop);
    for (size_t i = 0; i < m.NumElements(); i++) m(i) = g.uni(1e-3, 1);
    Visqol::Spectrogram o(std::move(m));
    o.SetCenterFreqBands(cf_);
    return o;
  }

 private:
  size_t bands_;
  Vec cf_;
};
class StubCreator : public Visqol::ImagePatchCreator {
 public:
  StubCreator(size_t size, std::vector<size_t> idx) : ImagePatchCreator(size), idx_(std::move(idx)) {}
  absl::StatusOr<std::vector<size_t>> CreateRefPatchIndices(const AMatrix<double>&, const Visqol::AudioSignal&,
                                                            const Visqol::AnalysisWindow&) const override {
    return idx_;
  }

 private:
  std::vector<size_t> idx_;
};
class StubMapper : public Visqol::SimilarityToQualityMapper {
 public:
  explicit StubMapper(double v) : v_(v) {}
  double PredictQuality(const Vec& a, const Vec& b, const Vec& c, const Vec& d) const override {
    calls++;
    seen = {a, b, c, d};
    return v_;
  }
  absl::Status Init() override { return absl::OkStatus(); }
  mutable int calls = 0;
  mutable std::vector<Vec> seen;

 private:
  double v_;
};

static Vec ColumnOf(const AMatrix<double>& m) { return Vec(m.cbegin(), m.cend()); }

static void QuantileCase(Ctx& c) {
  Rng& g = c.rng;
  const size_t n = c.index % 5 == 0 ? g.range(61, 1200) : g.range(1, 60), B = g.range(1, 32);
  const double q = g.pick(std::vector<double>{0.1, 0.1, 0.25, 0.5, 0.01, 0.9, 1.0});
  std::vector<Visqol::PatchSimilarityResult> p(n);
  std::vector<Vec> cols(B);
  for (auto& x : p) {
    x.freq_band_means = AMatrix<double>(B, 1);
    for (size_t b = 0; b < B; b++) {
      x.freq_band_means(b) = g.chance(0.1) ? 0.5 : g.gauss();
      cols[b].push_back(x.freq_band_means(b));
    }
  }
  const Visqol::Visqol v;
  const AMatrix<double> o = v.CalcPerPatchFreqBandQuantile(p, q);
  if (o.NumElements() != B) return Viol("quantile", Fmt("%zu values for %zu bands", o.NumElements(), B));
  const size_t k = std::max<size_t>(1, static_cast<size_t>(static_cast<double>(n) * q));
  for (size_t b = 0; b < B; b++) {
    std::sort(cols[b].begin(), cols[b].end());
    double s = 0;
    for (size_t i = 0; i < k; i++) s += cols[b][i];
    if (!Close(o(b), s / k, 1e-12)) return Viol("quantile", Fmt("band %zu, %zu patches, quantile %.2f: %.17g, expected %.17g", b, n, q, o(b), s / k));
  }
  Stat("quantiles");
}

static void PoolCase(Ctx& c) {
  Rng& g = c.rng;
  if (g.chance(0.15)) return QuantileCase(c);
  PoolPlan plan;
  plan.salt = g.next();
  plan.bands = g.chance(0.4) ? (g.chance(0.5) ? 32 : 21) : g.range(1, 40);
  plan.kind = static_cast<int>(g.range(0, 7));
  plan.centre = g.chance(0.4) ? 0.15 + 0.02 * g.gauss() : g.uni(0, 1);
  plan.score = g.chance(0.3) ? g.uni(-3, 9) : g.uni(1, 5);
  const bool hour = c.index % 2503 == 17;  // a quarter of an hour: more frames than sixteen bits hold
  if (hour) { plan.bands = g.range(1, 3); Stat("very long comparisons"); }
  const bool no_realign = hour || g.chance(0.7);
  const size_t P = hour ? 60 : no_realign ? g.range(2, 6) : g.range(6, 9);
  size_t want = g.chance(0.3) ? g.range(1, 5) : g.chance(0.5) ? g.pick(std::vector<size_t>{9, 10, 11, 19, 20, 21, 29, 30, 31, 40}) : g.range(1, 60);
  if (c.index % 21 == 0) want = g.range(61, 600);  // minutes of signal
  if (hour) want = g.range(1110, 1200);
  std::vector<size_t> idx;
  size_t at = g.range(0, 3);
  for (size_t i = 0; i < want; i++) { idx.push_back(at); at += P + (g.chance(0.2) ? g.range(0, 4) : 0); }
  const size_t frames = idx.back() + P + g.range(0, 5);
  const size_t rate = 1024;  // makes every time exact
  const Visqol::AnalysisWindow window(rate, 0.25, 0.0625);
  if (window.size != 64) return Viol("window size", Fmt("%zu", window.size));
  const size_t n = 64 + 16 * (frames - 1) + g.range(0, 15);
  const size_t dn = g.chance(0.7) ? n : 64 + 16 * (g.range(std::max<int64_t>(1, frames - 3 * P), frames + 10) - 1);
  Vec r(n), d(dn), cf(plan.bands);
  for (double& x : r) x = g.gauss() * 0.1;
  for (double& x : d) x = g.gauss() * 0.1;
  for (size_t b = 0; b < cf.size(); b++) cf[b] = 50.0 + 10.0 * b + g.uni();
  const Visqol::AudioSignal rs = prod::Signal(r, rate);
  Visqol::AudioSignal ds = prod::Signal(d, rate);
  StubComparator cmp(&plan);
  StubBuilder builder(plan.bands, cf);
  StubCreator creator(P, idx);
  StubMapper mapper(plan.score);
  const Visqol::ComparisonPatchesSelector sel(std::make_unique<Forward>(&cmp));
  const Visqol::Visqol v;
  const int radius = hour ? 0 : static_cast<int>(g.range(0, 2));
  const std::string what = Fmt("%zu patches of %zu frames, %zu bands, kind %d, centre %.3f, radius %d%s", idx.size(), P, plan.bands, plan.kind,
                               plan.centre, radius, no_realign ? "" : ", realigned");
  Note(what);
  const auto res = v.CalculateSimilarity(rs, ds, &builder, window, &creator, &sel, &mapper, radius, no_realign);
  if (!res.ok()) { Stat("refused: " + std::string(res.status().message()).substr(0, 40)); return; }
  const auto& o = res.value();
  std::vector<ref::Patch> ps;
  size_t zero = 0;
  for (const auto& p : o.debug_info.patch_sims) {
    ref::Patch q;
    q.means = ColumnOf(p.freq_band_means); q.stds = ColumnOf(p.freq_band_stddevs); q.energy = ColumnOf(p.freq_band_deg_energy);
    q.rs = p.ref_patch_start_time; q.re = p.ref_patch_end_time;
    if (q.means.size() != plan.bands || q.stds.size() != plan.bands || q.energy.size() != plan.bands)
      return Viol("patch vectors", what + Fmt(": %zu/%zu/%zu values", q.means.size(), q.stds.size(), q.energy.size()));
    const uint64_t h = HashOf(p.freq_band_means, HashOf(p.freq_band_stddevs, HashOf(p.freq_band_deg_energy, 7)));
    if (!cmp.made.count(h)) {
      for (double x : q.means) if (x != 0) return Viol("pooled patch was never measured", what);
      zero++;
    }
    ps.push_back(q);
  }
  if (ps.empty()) return Viol("no patches", what);
  const ref::Pooled e = ref::Pool(ps, 16.0 / rate, 0);
  auto same = [&](const char* nm, const Vec& a, const Vec& b, double tol) {
    const int64_t m = Mismatch(a, b, tol, 1e-9);
    if (m != -1) Viol(nm, what + Fmt(" (%zu pooled): band %lld is ", ps.size(), (long long)m) + Head(a, std::max<int64_t>(m, 0), 1) + " expected " + Head(b, std::max<int64_t>(m, 0), 1));
    return m == -1;
  };
  bool ok = same("band similarity", o.fvnsim, e.fvnsim, 1e-10) && same("low quantile", o.fvnsim10, e.fvnsim10, 1e-10) &&
            same("degraded energy", o.fvdegenergy, e.fvdegenergy, 1e-9) && same("centre frequencies", o.center_freq_bands, cf, 0);
  if (o.fstdnsim.size() != plan.bands) return Viol("spread", what + Fmt(": %zu values", o.fstdnsim.size()));
  for (size_t b = 0; ok && b < plan.bands; b++) {
    const double a = o.fstdnsim[b], w = e.fstdnsim[b];
    if (!(a >= 0)) { Viol("spread is negative or NaN", what + Fmt(": band %zu: %.9g", b, a)); ok = false; }
    // variances near zero are differences of nearly equal numbers
    else if (!(std::fabs(a * a - w * w) <= 1e-11 + 1e-9 * w * w)) { Viol("spread", what + Fmt(": band %zu is %.9g, expected %.9g", b, a, w)); ok = false; }
  }
  if (!ok) return;
  if (!Close(o.vnsim, e.vnsim, 1e-10)) return Viol("overall similarity", what + Fmt(": %.12g, expected %.12g", o.vnsim, e.vnsim));
  if (mapper.calls < 1) return Viol("the model was not asked", what);
  if (mapper.seen[0] != o.fvnsim || mapper.seen[1] != o.fvnsim10 || mapper.seen[2] != o.fstdnsim || mapper.seen[3] != o.fvdegenergy)
    return Viol("the model was given other vectors", what);
  if (std::fabs(e.vnsim - 0.15) > 1e-9) {
    const double s = e.vnsim < 0.15 ? 1.0 : plan.score;
    if (o.moslqo != s) return Viol("reported score", what + Fmt(": similarity %.9g, model value %.9g, reported %.9g", e.vnsim, plan.score, o.moslqo));
  }
  Stat(e.vnsim < 0.15 ? "scored as dissimilar" : "scored by the model");
  Stat("pooled patches", ps.size());
  if (zero) Stat("comparisons with dropped patches");
  Cover("pool " + what + Fmt(" %.9g", o.vnsim));
  if (c.index < 6) Sample(what + Fmt(": similarity %.6g, spread %.6g, score %.6g", o.vnsim, o.fstdnsim[0], o.moslqo));
}

void RunCase(Ctx& c) {
  if (c.mode == "mapper") MapperCase(c);
  else if (c.mode == "quality") QualityCase(c);
  else if (c.mode == "train") TrainingCase(c);
  else if (c.mode == "pool") PoolCase(c);
}
}  // namespace mon
