// C18: comparators in parallel threads. Model loading goes through a wrapper
// that delays it and counts who is inside.
#include <dlfcn.h>
#include <sched.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <memory>
#include <thread>

#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "svm.h"
#include "visqol_api.h"

namespace {
// relaxed: the monitor must not order what the code under test leaves unordered
std::atomic<int> inside{0}, most{0}, loads{0};
std::atomic<int> delay_us{0};
}  // namespace

extern "C" svm_model* svm_load_model(const char* path) {
  static svm_model* (*real)(const char*) = reinterpret_cast<svm_model* (*)(const char*)>(dlsym(RTLD_NEXT, "svm_load_model"));
  const int now = inside.fetch_add(1, std::memory_order_relaxed) + 1;
  int m = most.load(std::memory_order_relaxed);
  while (now > m && !most.compare_exchange_weak(m, now, std::memory_order_relaxed)) {}
  loads.fetch_add(1, std::memory_order_relaxed);
  const int d = delay_us.load(std::memory_order_relaxed);
  if (d) usleep(d);
  // the library itself cannot be entered twice, whatever the code under test does
  static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  svm_model* r;
  if (now > 1) { pthread_mutex_lock(&mu); r = real(path); pthread_mutex_unlock(&mu); }
  else r = real(path);
  if (d) usleep(d / 4);
  inside.fetch_sub(1, std::memory_order_relaxed);
  return r;
}

namespace mon {
using ref::Config;
using ref::Obs;
using ref::Vec;

struct Step {
  Config g;
  size_t rate = 0;
  Vec x, y;
  std::string fx, fy;  // when set: compare files
  bool api = false, reinit = true, fails = false;
  int pause = 0;
  Obs got;
};
struct Plan { std::vector<Step> steps; };

static Obs Get(const absl::StatusOr<Visqol::SimilarityResultMsg>& r) {
  return r.ok() ? prod::FromMsg(r.value()) : prod::FromStatus(r.status());
}

// One comparator's life. Nothing here synchronises.
static void Live(Plan* p) {
  auto m = std::make_unique<Visqol::VisqolManager>();
  for (Step& s : p->steps) {
    if (s.pause > 0) usleep(s.pause);
    else if (s.pause < 0) sched_yield();
    if (s.api) {
      Visqol::VisqolConfig cfg;
      cfg.mutable_audio()->set_sample_rate(static_cast<int>(s.rate));
      auto* o = cfg.mutable_options();
      o->set_svr_model_path(s.g.model);
      o->set_use_speech_scoring(s.g.speech);
      o->set_allow_unsupported_sample_rates(true);
      o->set_use_unscaled_speech_mos_mapping(s.g.unscaled);
      o->set_use_lattice_model(s.g.lattice);
      o->set_search_window_radius(s.g.radius);
      Visqol::VisqolApi api;
      const absl::Status st = api.Create(cfg);
      if (!st.ok()) { s.got = prod::FromStatus(st); continue; }
      Vec x = s.x, y = s.y;
      s.got = Get(api.Measure(absl::MakeSpan(x), absl::MakeSpan(y)));
      continue;
    }
    if (s.reinit) {
      const absl::Status st = prod::Init(*m, s.g);
      if (!st.ok()) { s.got = prod::FromStatus(st); m = std::make_unique<Visqol::VisqolManager>(); continue; }
    }
    if (!s.fx.empty()) {
      s.got = Get(m->Run(Visqol::FilePath(s.fx), Visqol::FilePath(s.fy)));
      continue;
    }
    const Visqol::AudioSignal x = prod::Signal(s.x, s.rate);
    Visqol::AudioSignal y = prod::Signal(s.y, s.rate);
    s.got = Get(m->Run(x, y));
  }
}

static void WriteWav(const std::string& path, const Vec& v, uint32_t rate, int ch) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t x) { for (int i = 0; i < 4; i++) s += static_cast<char>(x >> (8 * i)); };
  auto u16 = [&](uint32_t x) { for (int i = 0; i < 2; i++) s += static_cast<char>(x >> (8 * i)); };
  const uint32_t bytes = static_cast<uint32_t>(2 * ch * v.size());
  u32(36 + bytes); s += "WAVEfmt "; u32(16); u16(1); u16(ch); u32(rate); u32(2 * ch * rate); u16(2 * ch); u16(16);
  s += "data"; u32(bytes);
  for (double x : v)
    for (int q = 0; q < ch; q++) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, std::round(x * 32768))))));
  std::ofstream(path, std::ios::binary) << s;
}

static void ThreadsCase(Ctx& c) {
  Rng& r = c.rng;
  const bool plain = c.mode == "stress";
  const int kind = static_cast<int>(r.range(0, 5));
  // what the threads have in common
  const bool loading = kind == 0;   // a storm of model loading
  const bool same = kind == 1;      // the same comparison everywhere
  const bool audio_only = kind == 2, speech_only = kind == 3;
  const size_t threads = loading ? r.range(4, plain ? 24 : 10) : r.range(2, plain ? 10 : 4);
  inside = 0; most = 0; loads = 0;
  delay_us = loading ? static_cast<int>(r.range(100, 1500)) : r.chance(0.5) ? static_cast<int>(r.range(0, 3000)) : 0;
  const std::vector<size_t> rates = {500, 800, 1000, 1600, 2000, 4000, 8000};
  std::vector<Plan> plan(threads);
  Step common;
  std::string what = Fmt("%s, %zu threads, load delay %d us: ", loading ? "loading storm" : same ? "same comparison" : audio_only ? "audio" : speech_only ? "speech" : "mixed",
                         threads, delay_us.load());
  for (size_t t = 0; t < threads; t++) {
    const int steps = loading ? static_cast<int>(r.range(1, 4)) : static_cast<int>(r.range(1, plain ? 3 : 2));
    for (int k = 0; k < steps; k++) {
      Step s;
      if (same && t + k > 0) s = common;
      else {
        s.g = prod::RandomConfig(c);
        if (audio_only || (loading && r.chance(0.8))) s.g.speech = false;
        if (speech_only) s.g.speech = true;
        if (s.g.radius > 40 && r.chance(0.5)) s.g.radius = 5;
        prod::SetModel(c, &s.g);
        if (r.chance(loading ? 0.25 : 0.06)) {
          s.fails = true;
          s.g.model = r.chance(0.5) ? c.scratch + "/no/model" : c.scratch + "/junk.txt";
          if (s.g.speech && s.g.lattice) s.g.model = c.scratch + "/no/model";
        }
        s.rate = r.chance(plain ? 0.1 : 0.02) ? 8000 : rates[r.range(0, plain ? 4 : 2)];
        const double secs = loading ? 0.2 : (s.g.speech ? 0.7 : 1.0) + r.uni(0, 0.6);
        s.x = sig::Gen(r, static_cast<size_t>(secs * s.rate), s.rate);
        s.y = sig::Degrade(r, s.x, s.rate);
        if (s.y.empty()) s.y = s.x;
        if (r.chance(0.05)) s.y.resize(1 + s.y.size() / 8);
        if (r.chance(0.2)) {
          s.fx = c.scratch + Fmt("/t%zu_%d_x.wav", t, k);
          s.fy = c.scratch + Fmt("/t%zu_%d_y.wav", t, k);
          const int ch = static_cast<int>(r.range(1, 3));
          WriteWav(s.fx, s.x, static_cast<uint32_t>(s.rate), ch);
          if (r.chance(0.06)) s.fy += ".missing";
          else WriteWav(s.fy, s.y, static_cast<uint32_t>(s.rate), ch);
        } else {
          s.api = !s.fails && r.chance(0.15);
          if (s.api) { s.g.no_align = s.g.no_realign = false; if (s.g.radius == 0) s.g.radius = 60; }
        }
      }
      s.reinit = k == 0 || s.api || loading || r.chance(0.7);
      if (!s.reinit) { s.g = plan[t].steps.back().g; s.fails = plan[t].steps.back().fails; }
      if (k > 0 && !s.reinit && (plan[t].steps.back().fails || plan[t].steps.back().api)) s.reinit = true;
      s.pause = r.chance(0.5) ? 0 : r.chance(0.3) ? -1 : static_cast<int>(r.range(1, 4000));
      if (same && t + k == 0) common = s;
      plan[t].steps.push_back(s);
      if (t < 3) what += s.g.Str() + Fmt("@%zu%s%s | ", s.rate, s.fails ? " bad model" : "", s.api ? " api" : s.fx.empty() ? "" : " files");
    }
  }
  std::ofstream(c.scratch + "/junk.txt") << "svm_type nonsense\n";
  Note(what);
  {
    pthread_barrier_t start;
    pthread_barrier_init(&start, nullptr, static_cast<unsigned>(threads));
    std::vector<std::thread> ts;
    for (auto& p : plan) ts.emplace_back([&start, &p] { pthread_barrier_wait(&start); Live(&p); });
    for (auto& t : ts) t.join();
    pthread_barrier_destroy(&start);
  }
  if (most > 1) Viol("two models loaded at once", what + Fmt("%d loads in progress at the same time", most.load()));
  Stat("threads", threads);
  Stat("models loaded", loads);
  delay_us = 0;
  if (!plain) { Cover(what); Sample(what); return; }
  // serially, each alone
  size_t n = 0;
  for (size_t t = 0; t < threads; t++) {
    for (size_t k = 0; k < plan[t].steps.size(); k++) {
      Plan alone;
      alone.steps = {plan[t].steps[k]};
      alone.steps[0].reinit = true;
      alone.steps[0].pause = 0;
      alone.steps[0].got = Obs();
      Live(&alone);
      const Obs &a = plan[t].steps[k].got, &b = alone.steps[0].got;
      const std::string d = prod::Differs(a, b);
      if (!d.empty()) Viol("differs from the serial run", what + Fmt("thread %zu comparison %zu: ", t, k) + plan[t].steps[k].g.Str() + ": " + d + "; parallel " + prod::Brief(a) + ", alone " + prod::Brief(b));
      Stat(b.ok ? "results compared" : "errors compared");
      n += b.ok;
    }
  }
  Cover(what + Fmt("%zu", n));
  Sample(what + Fmt("%d models loaded, %zu results", loads.load(), n));
}
void RunCase(Ctx& c) { ThreadsCase(c); }
}  // namespace mon
