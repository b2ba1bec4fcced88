// C27: what a comparison takes - memory, descriptors, threads - it gives back.
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <memory>
#include <sstream>

#include "alignment.h"
#include "commandline_parser.h"
#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "sim_results_writer.h"
#include "src/svr_training/training_data_file_reader.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "visqol_api.h"

// Blocks and bytes in use, by every library of the process.
static std::atomic<int64_t> g_blocks{0}, g_bytes{0};
static void* In(void* p) {
  if (p) { g_blocks.fetch_add(1, std::memory_order_relaxed); g_bytes.fetch_add(malloc_usable_size(p), std::memory_order_relaxed); }
  return p;
}
static void Out(void* p) {
  if (p) { g_blocks.fetch_sub(1, std::memory_order_relaxed); g_bytes.fetch_sub(malloc_usable_size(p), std::memory_order_relaxed); }
}
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) { return In(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return In(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
  Out(p);
  void* q = __libc_realloc(p, n);
  if (q) In(q);
  else if (p && n) In(p);
  return q;
}
int posix_memalign(void** p, size_t a, size_t n) { *p = In(__libc_memalign(a, n)); return *p ? 0 : 12; }
void* aligned_alloc(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
void* memalign(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
void free(void* p) { Out(p); __libc_free(p); }
}

namespace mon {
using ref::Config;
using ref::Vec;
using Visqol::FilePath;

static int Entries(const char* dir) {
  int n = 0;
  DIR* d = opendir(dir);
  if (!d) return -1;
  while (readdir(d)) n++;
  closedir(d);
  return n;
}
static void Quiet(const char*) {}

struct Pair { size_t rate; Vec x, y; };
static Pair MakePair(Rng& r, bool speech) {
  Pair p;
  p.rate = r.pick(std::vector<size_t>{200, 500, 1000, 2000});
  const size_t n = static_cast<size_t>(p.rate * ((speech ? 0.75 : 1.1) + r.uni(0, 0.8)));
  p.x = sig::Gen(r, n, p.rate);
  p.y = sig::Degrade(r, p.x, p.rate);
  return p;
}
static std::string WavBytes(const Pair& p, size_t ch) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t x) { for (int i = 0; i < 4; i++) s += static_cast<char>(x >> (8 * i)); };
  auto u16 = [&](uint32_t x) { for (int i = 0; i < 2; i++) s += static_cast<char>(x >> (8 * i)); };
  const uint32_t bytes = static_cast<uint32_t>(2 * ch * p.x.size());
  u32(36 + bytes); s += "WAVEfmt "; u32(16); u16(1); u16(ch); u32(p.rate); u32(2 * ch * p.rate); u16(2 * ch); u16(16);
  s += "data"; u32(bytes);
  for (double x : p.x) for (size_t k = 0; k < ch; k++) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, x * 30000)))));
  return s;
}

static void Leak(Ctx& c) {
  Rng& r = c.rng;
  svm_set_print_string_function(Quiet);
  Config g = prod::RandomConfig(c);
  if (g.radius > 4) g.radius = 4;
  const Pair p = MakePair(r, g.speech), q = MakePair(r, g.speech);
  const Visqol::AudioSignal rs = prod::Signal(p.x, p.rate);
  const Visqol::AudioSignal ds = prod::Signal(p.y, p.rate), es = prod::Signal(q.y, p.rate), other = prod::Signal(q.y, p.rate + 1);
  auto m = std::make_shared<Visqol::VisqolManager>();
  std::function<void(int)> op;
  std::string what;
  int times = 6;
  const std::string good = c.scratch + "/good.wav", bad = c.scratch + "/bad.wav", model = c.scratch + "/model.txt";
  { std::ofstream(good, std::ios::binary) << WavBytes(p, r.range(1, 3)); }
  // Every repetition is given other samples, and files other names, so that what is
  // remembered by content or by name shows as well.
  auto vary = [](const Visqol::AudioSignal& a, int i) {
    Visqol::AudioSignal t = a;
    const size_t n = a.data_matrix.NumRows();
    for (size_t k = 0; n && k < 3; k++) t.data_matrix((static_cast<size_t>(i) * 37 + k * 11) % n) *= 1 - 0.001 * (i + 1);
    return t;
  };
  auto run = [&, m](const Visqol::AudioSignal& a, const Visqol::AudioSignal& b) { Visqol::AudioSignal t = b; return m->Run(a, t).ok(); };
  switch (c.index % 23 == 9 ? 100 : r.range(0, 12)) {
    case 0: case 1:
      what = "comparator made, used and destroyed, " + g.Str();
      op = [&](int i) { (void)i; Visqol::VisqolManager t; if (prod::Init(t, g).ok()) { Visqol::AudioSignal d = vary(ds, i); (void)t.Run(vary(rs, i), d); } };
      break;
    case 2:
      what = "comparator initialised again, " + g.Str();
      op = [&](int i) { (void)i; (void)prod::Init(*m, g); };
      times = 30;
      break;
    case 3: case 4:
      what = "used comparator, " + g.Str();
      (void)prod::Init(*m, g);
      op = [&](int i) { run(vary(rs, i), vary(ds, i)); run(rs, vary(es, i)); };
      break;
    case 5: {
      what = "refused comparisons, " + g.Str();
      (void)prod::Init(*m, g);
      op = [&](int i) { (void)i;
        run(vary(rs, i), other);
        run(prod::Signal(Vec(), p.rate), ds);
        run(prod::Signal(Vec(p.rate / 5, 0.1), p.rate), ds);
        run(rs, prod::Signal(Vec(3, 0.1), p.rate));
        (void)m->Run(FilePath(good), FilePath(c.scratch + Fmt("/none%d.wav", i)));
      };
      times = 30;
      break;
    }
    case 6:
      what = "initialisation that fails, " + g.Str();
      g.speech = g.speech && r.chance(0.5);
      g.lattice = true;
      // (libsvm itself keeps a file open whose contents it rejects)
      g.model = c.scratch + (r.chance(0.5) ? "/none" : "/none/at/all");
      op = [&](int i) { (void)i; Visqol::VisqolManager t; if (prod::Init(t, g).ok()) Viol("init-status", what); (void)prod::Init(*m, g); };
      times = 30;
      break;
    case 7: {
      std::string w = WavBytes(p, r.range(1, 4));
      const int k = static_cast<int>(r.range(0, 3));
      if (k == 1) w.resize(r.range(0, w.size()));
      if (k == 2) for (int i = 0; i < 3; i++) w[r.range(0, 60)] = static_cast<char>(r.next());
      if (k == 3) w.clear();
      { std::ofstream(bad, std::ios::binary) << w; }
      what = Fmt("loading a file of %zu bytes, %s", w.size(), k == 0 ? "well formed" : k == 1 ? "cut off" : k == 2 ? "mutated" : "empty");
      op = [&](int i) { (void)i; (void)Visqol::MiscAudio::LoadAsMono(FilePath(bad)); (void)Visqol::MiscAudio::LoadAsMono(FilePath(c.scratch + Fmt("/none%d.wav", i))); };
      times = 60;
      break;
    }
    case 8:
      what = "comparing files, " + g.Str();
      (void)prod::Init(*m, g);
      { Pair t = p; t.x = p.y; std::ofstream(bad, std::ios::binary) << WavBytes(t, 1); }
      op = [&](int i) { (void)i; (void)m->Run(FilePath(good), FilePath(bad)); };
      break;
    case 9: {
      Visqol::VisqolConfig cfg;
      cfg.mutable_audio()->set_sample_rate(p.rate);
      auto* o = cfg.mutable_options();
      o->set_svr_model_path(r.chance(0.2) ? c.scratch + "/none" : g.model);
      o->set_use_speech_scoring(g.speech);
      o->set_use_lattice_model(g.lattice);
      o->set_allow_unsupported_sample_rates(r.chance(0.9));
      o->set_search_window_radius(1);
      what = "measuring interface, " + g.Str();
      op = [&, cfg](int i) {
        Visqol::VisqolApi api;
        if (!api.Create(cfg).ok()) return;
        Vec a = p.x, b = p.y;
        a[static_cast<size_t>(i) % a.size()] *= 0.5;
        for (int k = 0; k < 2; k++) (void)api.Measure(absl::MakeSpan(a), absl::MakeSpan(b));
      };
      break;
    }
    case 10: {
      const size_t rows = r.range(2, 30), cols = r.range(1, 20);
      const double far = r.chance(0.4) ? r.pick(std::vector<double>{-20, 30}) : 0;  // off the scale
      std::vector<Vec> x;
      Vec y;
      for (size_t i = 0; i < rows; i++) { x.push_back(sig::Noise(r, cols, 1)); y.push_back(r.uni(1, 5) + far); }
      what = Fmt("training on %zu rows of %zu", rows, cols);
      op = [&, x, y](int i) {
        Visqol::SupportVectorRegressionModel t;
        t.Init(x, y);
        for (int k = 0; k < 3; k++) (void)t.Predict(x[k % x.size()]);
        Vec o = x[0];
        o[0] += i;
        (void)t.Predict(o);
      };
      times = 30;
      break;
    }
    case 100: {
      // signals whose transforms need a work area of their own
      const size_t n = r.range(16385, 70000), k = r.chance(0.4) ? n : r.range(9000, 40000);
      Pair t;
      t.rate = r.range(1000, 48000);
      t.x = sig::Noise(r, n, 0.1);
      { std::ofstream(bad, std::ios::binary) << WavBytes(t, r.range(1, 2)); }
      const Visqol::AudioSignal a = prod::Signal(t.x, t.rate), b = prod::Signal(sig::Noise(r, k, 0.1), t.rate);
      what = Fmt("aligning and scaling %zu and %zu samples", n, k);
      op = [=](int i) {
        Visqol::AudioSignal s = vary(a, i);
        (void)Visqol::Alignment::AlignAndTruncate(s, b);
        (void)Visqol::Alignment::GloballyAlign(b, s);
        (void)Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(s, b);
        (void)Visqol::MiscAudio::LoadAsMono(FilePath(bad));
      };
      times = 2;
      break;
    }
    case 11: {
      std::string text = "reference,degraded\n";
      for (int i = 0; i < 20; i++) text += Fmt("a%d.wav,b%d.wav\r\n", i, i);
      { std::ofstream(bad) << text; }
      what = "batch file and training file";
      std::string nums;
      for (int i = 0; i < 20; i++) nums += "1.5,2.5,3.5\n";
      { std::ofstream(model) << nums; }
      op = [&](int i) { (void)i;
        Visqol::CommandLineArgs a;
        a.batch_input_csv = FilePath(bad);
        (void)Visqol::VisqolCommandLineParser::BuildFilePairPaths(a);
        (void)Visqol::TrainingDataFileReader::Read(FilePath(model), ',');
      };
      times = 60;
      break;
    }
    default: {
      (void)prod::Init(*m, g);
      Visqol::AudioSignal t = ds;
      auto res = m->Run(rs, t);
      if (!res.ok()) { Stat("nothing to write"); return; }
      const Visqol::SimilarityResultMsg msg = res.value();
      what = "writing results, " + g.Str();
      auto out = [&](int i, const char* e) { return c.scratch + Fmt("/o%d.%s", 100000 + i, e); };
      op = [&, msg, out](int i) {
        Visqol::SimilarityResultsWriter::Write(true, FilePath(out(i, "csv")), FilePath(out(i, "json")), msg, g.speech, g.lattice);
        unlink(out(i, "csv").c_str());
        unlink(out(i, "json").c_str());
      };
      times = 30;
    }
  }
  Note(what);
  int at = 0;
  for (int i = 0; i < 4; i++) op(at++);
  // Things may settle late (a buffer that grows to what is needed): only what
  // keeps growing, through two equal stretches, is lost.
  const int fd0 = Entries("/proc/self/fd"), th0 = Entries("/proc/self/task");
  const int64_t b0 = g_blocks, y0 = g_bytes;
  for (int i = 0; i < times; i++) op(at++);
  const int64_t b1 = g_blocks, y1 = g_bytes;
  for (int i = 0; i < times; i++) op(at++);
  const int64_t b2 = g_blocks, y2 = g_bytes;
  for (int i = 0; i < 2 * times; i++) op(at++);
  const int64_t b3 = g_blocks, y3 = g_bytes;
  const int fd1 = Entries("/proc/self/fd"), th1 = Entries("/proc/self/task");
  Stat("operations repeated", 4 + 4 * times);
  const bool blocks = (b2 > b1 && b3 > b2 && b1 > b0) || b3 - b0 >= 4 * times;
  const bool bytes = y1 > y0 && y2 > y1 && y3 > y2 && y3 - y0 >= 4 * times;
  if (blocks || bytes) {
    // The sizes of blocks vary a little with where they come from. What is lost
    // goes on being lost: at least as much again in three times as many.
    Stat("suspicions followed up");
    for (int i = 0; i < 12 * times; i++) op(at++);
    const int64_t b4 = g_blocks, y4 = g_bytes;
    if (b3 > b0 && b4 - b3 >= b3 - b0)
      Viol("blocks not returned", what + Fmt(": %lld more blocks (%lld bytes) after %d times, %lld after %d", (long long)(b3 - b0), (long long)(y3 - y0), 4 * times, (long long)(b4 - b0), 16 * times));
    else if (bytes && y4 - y3 >= std::max<int64_t>(y3 - y0, 1024))
      Viol("memory grows", what + Fmt(": %lld more bytes after %d times, %lld after %d", (long long)(y3 - y0), 4 * times, (long long)(y4 - y0), 16 * times));
  }
  if (fd1 > fd0) Viol("descriptors not closed", what + Fmt(": %d more after %d times", fd1 - fd0, 4 * times));
  if (th1 > th0) Viol("threads left", what + Fmt(": %d more", th1 - th0));
  if (b3 != b0) Stat("settled late");
  Cover(what + Fmt(" %zu %zu %.9g", p.rate, p.x.size(), p.x[p.x.size() / 2]));
  Sample(what + Fmt(": %lld blocks before, %lld after %d times", (long long)b0, (long long)b3, 4 * times));
}

void RunCase(Ctx& c) { Leak(c); }
}  // namespace mon
