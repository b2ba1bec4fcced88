// C31: the definitions of the Python module, called as an interpreter would call
// them, against the engine called directly.
#include <fstream>

#include "commandline_parser.h"
#include "conformance.h"
#include "prod.h"
#include "pybind11/pybind11.h"
#include "sig.h"
#include "visqol_api.h"

namespace Visqol { void pybind11_init_visqol_lib_py(pybind11::module_& m); }

namespace mon {
using py = pybind11::value;
using pybind11::type_error;
using ref::Config;
using ref::Obs;
using ref::Vec;
using Msg = Visqol::SimilarityResultMsg;

static const pybind11::table& Module() {
  static pybind11::table* t = [] {
    auto* x = new pybind11::table;
    pybind11::module_ m(x);
    Visqol::pybind11_init_visqol_lib_py(m);
    return x;
  }();
  return *t;
}
template <class T> static py Object(const std::any& a) { return py::of(std::any_cast<std::shared_ptr<T>>(a)); }
static py Path(const std::string& s) { return Object<Visqol::FilePath>(Module().call("FilePath", {py(s)})); }

// A status, or the message of a successful result.
static Obs Outcome(const std::any& a) {
  if (auto* s = std::any_cast<absl::Status>(&a)) return prod::FromStatus(*s);
  if (auto* s = std::any_cast<absl::StatusOr<Msg>>(&a)) return s->ok() ? prod::FromMsg(s->value()) : prod::FromStatus(s->status());
  if (auto* s = std::any_cast<Msg>(&a)) return prod::FromMsg(*s);
  throw type_error("neither status nor result");
}
static void Wav(const std::string& path, const Vec& x, size_t rate) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) s += static_cast<char>(v >> (8 * i)); };
  auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) s += static_cast<char>(v >> (8 * i)); };
  const uint32_t b = static_cast<uint32_t>(2 * x.size());
  u32(36 + b); s += "WAVEfmt "; u32(16); u16(1); u16(1); u32(rate); u32(2 * rate); u16(2); u16(16); s += "data"; u32(b);
  for (double v : x) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, v * 30000)))));
  std::ofstream(path, std::ios::binary) << s;
}

static void Names(Ctx& c) {
  const auto& m = Module();
  for (const char* n : {"ConformanceSpeechCA01TranscodedValue", "DefaultSpeechModelFile", "DefaultAudioModelFile", "VisqolManager", "VisqolManager.Init",
                        "VisqolManager.Run", "VisqolApi", "VisqolApi.Create", "VisqolApi.Measure", "FilePath"})
    if (!m.defs.count(n)) Viol("name missing", n);
  auto text = [&](const char* n) { return std::any_cast<std::string>(m.call(n, {})); };
  const std::string speech = text("DefaultSpeechModelFile"), audio = text("DefaultAudioModelFile");
  if (m.doc.find("ViSQOL") == std::string::npos) Viol("documentation", m.doc);
  // Each default model must be the one the engine can use in its mode.
  for (bool sp : {true, false}) {
    const std::string f = c.repo + (sp ? speech : audio);
    const std::string want = sp ? prod::LatticeModel(c) : prod::AudioModel(c);
    std::ifstream a(f, std::ios::binary), b(want, std::ios::binary);
    const std::string x((std::istreambuf_iterator<char>(a)), {}), y((std::istreambuf_iterator<char>(b)), {});
    if (x.empty() || x != y) Viol("default model file", (sp ? "speech: " : "audio: ") + f);
  }
  const double v = std::any_cast<double>(m.call("ConformanceSpeechCA01TranscodedValue", {}));
  const py mgr = Object<Visqol::VisqolManager>(m.call("VisqolManager", {}));
  const Obs st = Outcome(m.call("VisqolManager.Init", {mgr, Path(prod::LatticeModel(c)), py(true), py(false), py(60), py(true), py(false), py(false)}));
  const Obs o = Outcome(m.call("VisqolManager.Run", {mgr, Path(c.repo + "/testdata/clean_speech/CA01_01.wav"), Path(c.repo + "/testdata/clean_speech/transcoded_CA01_01.wav")}));
  if (!o.ok || std::abs(o.moslqo - v) > 1e-4) Viol("conformance value", Fmt("%.9g reported, %.9g published, ", o.moslqo, v) + prod::Brief(o) + prod::Brief(st));
  Stat("module names checked");
  Cover("names");
}

static void Calls(Ctx& c) {
  Rng& r = c.rng;
  const auto& m = Module();
  const bool api = r.chance(0.5);
  Config g = prod::RandomConfig(c);
  if (g.radius > 20 && r.chance(0.7)) g.radius = 5;
  const bool unlike = r.chance(0.3);
  const size_t rate = unlike ? r.pick(std::vector<size_t>{2000, 4000, 8000, 16000}) : r.pick(std::vector<size_t>{500, 1000, 2000, 8000, 16000});
  const size_t n = static_cast<size_t>(rate * ((g.speech ? 0.7 : 1.0) + r.uni(0, 0.5)));
  Vec x = sig::Gen(r, n, rate), y = sig::Degrade(r, x, rate);
  if (unlike) {
    // low where the other is high, in the middle: patches that find no match
    x = sig::Noise(r, rate * r.range(3, 6), 0.1);
    Vec high = sig::Noise(r, x.size(), 0.1);
    for (int k = 0; k < 2; k++) {
      double low = 0;
      for (double& v : x) v = low = 0.97 * low + 0.2 * v;
      for (size_t i = high.size() - 1; i > 0; i--) high[i] -= 0.98 * high[i - 1];
    }
    y = x;
    for (size_t i = x.size() / 4; i < x.size() * 3 / 4; i++) y[i] = high[i];
    g.radius = static_cast<int>(r.range(0, 2));
  }
  if (r.chance(0.1)) y.resize(r.range(0, 20));
  if (r.chance(0.1)) g.model = c.scratch + "/none";
  if (r.chance(0.03)) g.radius = -1;
  const std::string what = std::string(api ? "interface " : "manager ") + g.Str() + Fmt(" %zu/%zu at %zu", x.size(), y.size(), rate);
  Note(what);
  Obs got, want;
  try {
    if (api) {
      Visqol::VisqolConfig cfg;
      auto* o = cfg.mutable_options();
      if (!r.chance(0.05)) cfg.mutable_audio()->set_sample_rate(static_cast<double>(rate));
      o->set_svr_model_path(g.model);
      o->set_use_speech_scoring(g.speech);
      o->set_use_lattice_model(g.lattice);
      o->set_use_unscaled_speech_mos_mapping(g.unscaled);
      o->set_search_window_radius(g.radius);
      o->set_allow_unsupported_sample_rates(r.chance(0.9));
      Visqol::VisqolApi direct;
      absl::Status s = direct.Create(cfg);
      const py obj = Object<Visqol::VisqolApi>(m.call("VisqolApi", {}));
      const Obs made = Outcome(m.call("VisqolApi.Create", {obj, py::of(std::make_shared<Visqol::VisqolConfig>(cfg))}));
      if (made.code != static_cast<int>(s.code())) Viol("create status", what + prod::Brief(made) + " " + s.ToString());
      Vec a = x, b = y;
      auto d = direct.Measure(absl::MakeSpan(a), absl::MakeSpan(b));
      want = d.ok() ? prod::FromMsg(d.value()) : prod::FromStatus(d.status());
      got = Outcome(m.call("VisqolApi.Measure", {obj, py(x), py(y)}));
    } else {
      const std::string fx = c.scratch + "/x.wav", fy = r.chance(0.05) ? c.scratch + "/none.wav" : c.scratch + "/y.wav";
      Wav(fx, x, rate);
      Wav(c.scratch + "/y.wav", y, rate);
      Visqol::VisqolManager direct;
      const absl::Status s = direct.Init(Visqol::FilePath(g.model), g.speech, g.unscaled, g.radius, g.lattice, g.no_align, g.no_realign);
      auto d = direct.Run(Visqol::FilePath(fx), Visqol::FilePath(fy));
      want = d.ok() ? prod::FromMsg(d.value()) : prod::FromStatus(d.status());
      const py obj = Object<Visqol::VisqolManager>(m.call("VisqolManager", {}));
      const Obs made = Outcome(m.call("VisqolManager.Init", {obj, Path(g.model), py(g.speech), py(g.unscaled), py(g.radius), py(g.lattice), py(g.no_align), py(g.no_realign)}));
      if (made.code != static_cast<int>(s.code())) Viol("init status", what + prod::Brief(made) + " " + s.ToString());
      got = Outcome(m.call("VisqolManager.Run", {obj, Path(fx), Path(fy)}));
    }
  } catch (const type_error& e) {
    Viol("call not possible", what + ": " + e.what());
    return;
  } catch (const std::bad_any_cast& e) {
    Viol("unexpected kind of result", what);
    return;
  }
  const std::string d = prod::Differs(got, want);
  if (!d.empty()) Viol("module differs from engine", what + ": " + d);
  for (auto& p : want.patches) Stat("patches dropped", p.ds == 0 && p.de == 0);
  Stat(want.ok ? "results compared" : "errors compared");
  Cover(what + prod::Brief(want));
  Sample(what + ": " + prod::Brief(want));
}

// Calls made elsewhere: each line of the job is Init's arguments ("b1", "i60",
// "p/path" for a path object, "s.." for text), then Run's or nothing; the
// answers go to the same place.
static void Serve(const std::string& job) {
  std::ifstream in(job);
  std::ofstream out(job + ".out");
  const auto& m = Module();
  using Named = std::map<std::string, py>;
  auto one = [](const std::string& f) {
    return f[0] == 'b' ? py(f == "b1") : f[0] == 'i' ? py(std::stoll(f.substr(1))) : f[0] == 'p' ? Path(f.substr(1)) : py(f.substr(1));
  };
  auto args = [&](const std::string& s, std::vector<py>* v, Named* named) {
    size_t a = 0;
    while (a < s.size()) {
      const size_t b = std::min(s.find('\x1f', a), s.size());
      const std::string f = s.substr(a, b - a);
      const size_t eq = f.find('=');
      if (f[0] == 'n') (*named)[f.substr(1, eq - 1)] = one(f.substr(eq + 1));
      else v->push_back(one(f));
      a = b + 1;
    }
  };
  for (std::string l; std::getline(in, l);) {
    const size_t cut = l.find('\x1e');
    std::vector<py> a{Object<Visqol::VisqolManager>(m.call("VisqolManager", {}))}, b = a;
    Named na, nb;
    try {
      args(l.substr(0, cut), &a, &na);
      const Obs s = Outcome(m.call("VisqolManager.Init", a, na));
      if (s.code != 0) { out << "status " << s.code << " " << s.msg << "\n"; continue; }
      if (cut == std::string::npos) { out << "ok\n"; continue; }
      args(l.substr(cut + 1), &b, &nb);
      const Obs o = Outcome(m.call("VisqolManager.Run", b, nb));
      if (o.ok) out << Fmt("score %.17g", o.moslqo) << "\n";
      else out << "status " << o.code << " " << o.msg << "\n";
    } catch (const type_error& e) {
      out << "type " << e.what() << "\n";
    }
  }
  out << "end\n";
}

void RunCase(Ctx& c) {
  if (c.mode.compare(0, 6, "serve:") == 0) return Serve(c.mode.substr(6));
  if (c.index == 0) Names(c);
  Calls(c);
}
}  // namespace mon
