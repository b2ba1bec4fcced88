// C19: the measuring interface against the comparison engine.
#include <sys/stat.h>
#include <unistd.h>

#include <climits>
#include <fstream>
#include <map>

#include "prod.h"
#include "sig.h"
#include "svm.h"
#include "visqol_api.h"

namespace mon {
using ref::Config;
using ref::Obs;
using ref::Vec;

static void Quiet(const char*) {}
// A regression model other than the shipped one.
static std::string OtherModel(Ctx& c, int id) {
  svm_set_print_string_function(Quiet);
  const std::string path = c.scratch + Fmt("/other%d.txt", id);
  if (access(path.c_str(), R_OK) == 0) return path;
  Rng g(77 + 1000 * c.seed + id);
  const int rows = 30, cols = 32;
  std::vector<std::vector<svm_node>> nodes(rows);
  std::vector<svm_node*> ptr;
  std::vector<double> y;
  for (auto& n : nodes) {
    for (int k = 0; k < cols; k++) n.push_back({k + 1, g.uni(0, 1)});
    n.push_back({-1, 0});
    ptr.push_back(n.data());
    y.push_back(id == 0 ? 1.5 + n[5].value : 4.5 - 3 * n[11].value);
  }
  svm_problem p{rows, y.data(), ptr.data()};
  svm_parameter q{};
  q.svm_type = NU_SVR; q.kernel_type = RBF; q.gamma = 1.0 / cols; q.C = 0.4; q.nu = 0.6;
  q.cache_size = 100; q.eps = 1e-3; q.p = 0.1; q.shrinking = 1;
  svm_model* m = svm_train(&p, &q);
  svm_save_model(path.c_str(), m);
  svm_free_and_destroy_model(&m);
  return path;
}

static const char kAudioName[] = "libsvm_nu_svr_model.txt";
static const char kSpeechName[] =
    "lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400_train1_7_raw.tflite";

struct Place { std::string dir, audio, speech; };  // a working directory and what its defaults are
static Place Workdir(Ctx& c, int kind) {
  Place p;
  p.dir = c.scratch + Fmt("/wd%d", kind);
  const bool made = access(p.dir.c_str(), R_OK) == 0;
  if (!made) { mkdir(p.dir.c_str(), 0700); mkdir((p.dir + "/model").c_str(), 0700); }
  const std::string a = p.dir + "/model/" + kAudioName, s = p.dir + "/model/" + kSpeechName;
  if (kind == 0 || kind == 1 || kind == 2) {
    p.audio = kind == 0 ? prod::AudioModel(c) : OtherModel(c, 0);
    if (!made) { unlink(a.c_str()); if (symlink(p.audio.c_str(), a.c_str())) {} }
  }
  if (kind == 0 || kind == 1 || kind == 3) {
    p.speech = prod::LatticeModel(c);
    if (!made && symlink(p.speech.c_str(), s.c_str())) {}
  }
  return p;
}

static Obs Get(const absl::StatusOr<Visqol::SimilarityResultMsg>& r) {
  return r.ok() ? prod::FromMsg(r.value()) : prod::FromStatus(r.status());
}

static void ApiCase(Ctx& c) {
  Rng& r = c.rng;
  const Place wd = Workdir(c, r.chance(0.45) ? 0 : static_cast<int>(r.range(0, 4)));
  if (chdir(wd.dir.c_str())) return;
  Visqol::VisqolApi api;
  std::string hist = Fmt("cwd has %s%s%s; ", wd.audio.empty() ? "no audio model" : "an audio model", wd.speech.empty() ? ", no speech model" : ", a speech model",
                         !wd.audio.empty() && wd.audio != prod::AudioModel(c) ? " (another one)" : "");
  bool created = false;
  const int rounds = r.chance(0.25) ? 2 : 1;
  if (r.chance(0.15)) {
    Vec x(4000, 0.1), y = x;
    auto s = api.Measure(absl::MakeSpan(x), absl::MakeSpan(y));
    if (s.ok() || s.status().code() != absl::StatusCode::kAborted)
      Viol("measured before creation", s.ok() ? "a result" : s.status().ToString());
    Stat("measured before creation");
  }
  for (int k = 0; k < rounds; k++) {
    Visqol::VisqolConfig cfg;
    Config want;
    want.lattice = true;
    bool ok = true, override = false;
    std::string model;
    std::string why;
    // the options
    if (r.chance(0.85)) {
      auto* o = cfg.mutable_options();
      want.lattice = false;
      if (r.chance(0.5)) { want.speech = r.chance(0.85); o->set_use_speech_scoring(want.speech); }
      if (r.chance(0.6)) { override = r.chance(0.85); o->set_allow_unsupported_sample_rates(override); }
      if (r.chance(0.5)) { want.unscaled = r.chance(0.7); o->set_use_unscaled_speech_mos_mapping(want.unscaled); }
      if (r.chance(0.5)) { want.lattice = r.chance(0.7); o->set_use_lattice_model(want.lattice); }
      if (r.chance(0.6)) {
        static const std::vector<int> radii = {0, 1, 2, 3, 7, 25, 58, 59, 60, 61, 62, 64, 80, 500, -1, -60};
        const int v = r.pick(radii);
        o->set_search_window_radius(v);
        if (v) want.radius = v;
      }
      if (r.chance(0.15)) o->set_output_mos_score(r.chance(0.5));
      if (r.chance(0.15)) o->set_detect_voice_activity(r.chance(0.5));
      if (r.chance(0.5)) {
        const bool reg = !(want.speech && want.lattice);
        switch (r.range(0, 7)) {
          case 0: model = c.scratch + "/no/such/model"; break;
          case 1: { model = c.scratch + "/junk.txt"; std::ofstream(model) << "this is no model\n"; break; }
          case 2: case 3: model = reg ? OtherModel(c, 1) : prod::LatticeModel(c); break;
          case 4: model = reg ? OtherModel(c, 0) : prod::LatticeModel(c); break;
          case 5: model = ""; break;
          default: model = reg ? prod::AudioModel(c) : prod::LatticeModel(c);
        }
        std::string given = model;
        if (!model.empty() && !access(model.c_str(), R_OK) && r.chance(0.4)) {
          // the same file, said another way
          static int names = 0;
          const std::string bare = Fmt("own_model_%d.txt", names++), in = wd.dir.substr(wd.dir.rfind('/') + 1);
          for (const std::string& at : {wd.dir + "/" + bare, wd.dir + "/model/" + bare}) if (symlink(model.c_str(), at.c_str())) {}
          switch (r.range(0, 4)) {
            case 0: case 1: given = bare; unlink((wd.dir + "/model/" + bare).c_str()); break;
            case 2: given = "./" + bare; break;
            case 3: given = "../" + in + "/" + bare; break;
            default: given = "model/" + bare; unlink((wd.dir + "/" + bare).c_str());
          }
          hist += given + " ";
          Stat("relative model paths");
        }
        o->set_svr_model_path(given);
      }
    }
    // the audio
    size_t rate = 0;
    const double u = r.uni();
    if (u > 0.06) {
      auto* a = cfg.mutable_audio();
      static const std::vector<int> rates = {500, 1000, 2000, 2205, 4000, 8000, 16000, 44100, 47999, 48001, 96000};
      static const std::vector<int> bad = {0, 0, -1, -48000, INT_MIN, -8000};
      const bool any = want.speech || override;
      int v = u < 0.14 ? r.pick(bad) : r.chance(any ? 0.12 : 0.75) ? 48000 : r.pick(rates);
      if (u > 0.12 || v) a->set_sample_rate(v);
      if (v <= 0) { ok = false; why = "no positive rate"; }
      else {
        rate = v;
        if (rate != 48000 && !any) { ok = false; why = "unsupported rate"; }
      }
      hist += Fmt("rate %d ", v);
    } else { ok = false; why = "no audio information"; hist += "no audio "; }
    // the model
    want.model = !model.empty() ? model : want.speech ? wd.speech : wd.audio;
    if (!want.speech || want.lattice) {
      if (access(want.model.c_str(), R_OK) || want.model == c.scratch + "/junk.txt") {
        ok = false;
        if (why.empty()) why = "no usable model";
      }
      // the deep lattice reader is a stand-in: what it makes of junk is not this code's doing
      if (want.speech && want.model == c.scratch + "/junk.txt") { Stat("skipped: junk lattice file"); return; }
    }
    hist += Fmt("%s%s model=%s%s; ", want.Str().c_str(), override ? " override" : "", model.empty() ? "(default)" : model.substr(model.rfind('/') + 1).c_str(),
                cfg.has_options() ? "" : " (no options)");
    Note(hist);
    const absl::Status st = api.Create(cfg);
    if (st.ok() != ok) {
      Viol(ok ? "valid configuration refused" : "invalid configuration accepted: " + why, hist + st.ToString());
      return;
    }
    if (!ok) {
      if (st.code() != absl::StatusCode::kInvalidArgument) Viol("wrong kind of refusal", hist + st.ToString());
      if (!created) {
        Vec x(4000, 0.1), y = x;
        auto s = api.Measure(absl::MakeSpan(x), absl::MakeSpan(y));
        if (s.ok() || s.status().code() != absl::StatusCode::kAborted)
          Viol("measured after a refused creation", hist + (s.ok() ? "a result" : s.status().ToString()));
      }
      Stat("refused: " + why);
      Cover(hist);
      if (created) return;  // what a used object does after a refusal is not documented
      continue;
    }
    created = true;
    // high rates cost most
    if (rate > 16000 && !r.chance(0.35)) { Stat("created only"); Cover(hist); continue; }
    for (int q = rate < 16000 && r.chance(0.3) ? 2 : 1; q > 0; q--) {
      const double secs = rate > 8000 ? 0.75 : (want.speech ? 0.6 : 0.9) + r.uni(0, 1.0);
      const size_t n = std::max<size_t>(1, static_cast<size_t>((want.speech ? 1 : 1.35) * secs * rate));
      std::string wa, wb;
      Vec x = sig::Gen(r, n, rate, &wa), y = sig::Degrade(r, x, rate, &wb);
      if (y.empty()) y.push_back(0.1);
      if (r.chance(0.06)) x.resize(r.range(1, x.size() / 2 + 1));
      if (r.chance(0.02)) y.clear();
      // Content so late that it depends on the radius whether it is found.
      if (rate <= 2000 && want.radius >= 0 && want.radius <= 100 && r.chance(0.5)) {
        const size_t patch = (want.speech ? 20 : 30) * static_cast<size_t>(std::lround(0.08 * rate) * 0.25);
        const double late = std::max(0.0, (r.chance(0.5) ? want.radius : r.pick(std::vector<int>{0, 59, 60, 61})) + r.uni(-2.5, 2.5));
        wb += Fmt(" %.1f patches late", late);
        y.insert(y.begin(), static_cast<size_t>(late * patch), 0.0);
        Stat("late content");
      }
      const Vec x0 = x, y0 = y;
      const Obs got = Get(api.Measure(absl::MakeSpan(x), absl::MakeSpan(y)));
      const std::string det = hist + Fmt("n=%zu/%zu %s -> %s", x.size(), y.size(), wa.c_str(), wb.c_str());
      if (x != x0 || y != y0) Viol("buffers modified", det);
      const Obs exp = prod::RunFresh(want, x0, y0, rate);
      const std::string d = prod::Differs(got, exp);
      if (!d.empty()) Viol("differs from the engine", det + ": " + d + "; interface " + prod::Brief(got) + ", engine " + prod::Brief(exp));
      else if (got.ok && want.radius >= 0 && rate <= 4000 && r.chance(0.5)) {
        // and the engine itself must mean what the options say
        Config b = want;
        b.no_realign = true;
        const Obs base = prod::RunFresh(b, x0, y0, rate);
        const ref::Outcome out = ref::CheckRun(x0, y0, rate, want, got, &base);
        if (!out.inconclusive.empty()) Inconclusive(out.inconclusive);
        else if (!out.key.empty()) Viol("differs from the specification: " + out.key, det + ": " + out.detail);
        else Stat("explained by the model");
      }
      if (want.radius < 0 && (got.ok || got.code != 3)) Viol("negative radius", det + ": " + prod::Brief(got));
      Stat(got.ok ? "measured" : Fmt("measuring refused with %d", got.code));
      if (got.ok) Cover(Fmt("%s %zu %.12g", want.Str().c_str(), rate, got.moslqo));
      Sample(det + " -> " + prod::Brief(got));
    }
  }
}
void RunCase(Ctx& c) { ApiCase(c); }
}  // namespace mon
