// C35: what an operation takes - memory asked for, memory held, processor time -
// grows no faster than its input.
#include <malloc.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <functional>
#include <memory>
#include <sstream>

#include "alignment.h"
#include "analysis_window.h"
#include "commandline_parser.h"
#include "envelope.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "sim_results_writer.h"
#include "src/svr_training/training_data_file_reader.h"
#include "vad_patch_creator.h"
#include "wav_reader.h"
#include "xcorr.h"

// Everything the process asks for, and the most it holds at a time.
static std::atomic<int64_t> g_total{0}, g_held{0}, g_peak{0};
static void* In(void* p) {
  if (p) {
    const int64_t n = static_cast<int64_t>(malloc_usable_size(p));
    g_total.fetch_add(n, std::memory_order_relaxed);
    const int64_t h = g_held.fetch_add(n, std::memory_order_relaxed) + n;
    if (h > g_peak.load(std::memory_order_relaxed)) g_peak.store(h, std::memory_order_relaxed);
  }
  return p;
}
static void Out(void* p) {
  if (p) g_held.fetch_sub(static_cast<int64_t>(malloc_usable_size(p)), std::memory_order_relaxed);
}
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) { return In(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return In(__libc_calloc(a, b)); }
void* realloc(void* p, size_t n) {
  Out(p);
  void* q = __libc_realloc(p, n);
  if (q) In(q);
  else if (p && n) In(p);
  return q;
}
int posix_memalign(void** p, size_t a, size_t n) { *p = In(__libc_memalign(a, n)); return *p ? 0 : 12; }
void* aligned_alloc(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
void* memalign(size_t a, size_t n) { return In(__libc_memalign(a, n)); }
void free(void* p) { Out(p); __libc_free(p); }
}

namespace mon {
using ref::Config;
using ref::Vec;
using Visqol::FilePath;

struct Cost { double asked = 0, held = 0, secs = 0; };
static double Cpu() {
  timespec t;
  clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
static Cost Measure(const std::function<void()>& f) {
  Cost c;
  const int64_t t0 = g_total, h0 = g_held;
  g_peak.store(h0);
  const double s0 = Cpu();
  f();
  c.secs = Cpu() - s0;
  c.asked = static_cast<double>(g_total - t0);
  c.held = static_cast<double>(g_peak - h0);
  return c;
}
static std::string WavBytes(const Vec& x, size_t ch, size_t chunks) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) s += static_cast<char>(v >> (8 * i)); };
  auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) s += static_cast<char>(v >> (8 * i)); };
  const uint32_t bytes = static_cast<uint32_t>(2 * x.size());
  u32(36 + bytes); s += "WAVEfmt "; u32(16); u16(1); u16(ch); u32(8000); u32(2 * ch * 8000); u16(2 * ch); u16(16);
  for (size_t i = 0; i < chunks; i++) { s += "LIST"; u32(6); s += "abcdef"; }
  s += "data"; u32(bytes);
  for (double v : x) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, v * 30000)))));
  return s;
}

// Prepares an operation on an input of n units; returns what is to be measured.
using Make = std::function<std::function<void()>(size_t n)>;

static void CostCase(Ctx& c) {
  Rng& r = c.rng;
  Config g = prod::RandomConfig(c);
  g.radius = static_cast<int>(r.range(0, 1));
  const uint64_t salt = r.next();
  const std::string path = c.scratch + "/in", out = c.scratch + "/out", dbg = c.scratch + "/dbg";
  std::string what;
  size_t n = 0;  // the smaller size
  double grow = 4;
  Make make;
  switch (c.index % 11) {
    case 0: case 1: {
      // samples; enough of them for many patches
      const size_t rate = r.pick(std::vector<size_t>{200, 400, 500});
      n = rate * (g.speech ? r.range(9, 14) : r.range(10, 16));
      g.no_align = r.chance(0.3);
      g.no_realign = r.chance(0.5);
      what = "comparison, " + g.Str() + Fmt(", %zu Hz", rate);
      auto m = std::make_shared<Visqol::VisqolManager>();
      if (!prod::Init(*m, g).ok()) return Viol("init", what);
      make = [=](size_t k) {
        Rng q(salt);
        auto x = std::make_shared<Vec>(sig::Noise(q, k, 0.1));
        auto y = std::make_shared<Vec>(*x);
        for (double& v : *y) v += 0.05 * q.gauss();
        return [=] { if (!prod::Run(*m, *x, *y, rate).ok) Stat("refused"); };
      };
      break;
    }
    case 2: {
      const size_t ch = r.range(1, 8);
      n = r.range(60000, 120000);
      what = Fmt("loading a file of %zu channels", ch);
      make = [=](size_t k) {
        Rng q(salt);
        const std::string p = path + Fmt("%zu", k);
        std::ofstream(p, std::ios::binary) << WavBytes(sig::Noise(q, k / ch * ch, 0.1), ch, 0);
        return [=] { (void)Visqol::MiscAudio::LoadAsMono(FilePath(p)); };
      };
      break;
    }
    case 3: {
      n = r.range(3000, 6000);
      what = "loading a file of many chunks";
      make = [=](size_t k) {
        const std::string p = path + Fmt("%zu", k);
        std::ofstream(p, std::ios::binary) << WavBytes(Vec(100, 0.1), 1, k);
        return [=] { (void)Visqol::MiscAudio::LoadAsMono(FilePath(p)); };
      };
      break;
    }
    case 4: {
      n = size_t{1} << r.range(14, 16);
      n = n * 3 / 4 + r.range(0, n / 8);  // the transform's length grows as the signal's
      const int part = static_cast<int>(r.pick(std::vector<int>{0, 0, 0, 1, 1, 2, 3}));
      const int delayed = static_cast<int>(r.pick(std::vector<int>{0, 1, 1, 2, 2}));
      what = part == 0 ? "global alignment" : part == 1 ? "alignment and truncation" : part == 2 ? "envelope" : "correlation";
      if (delayed) what += delayed == 1 ? " of a late signal" : " of an early signal";
      make = [=](size_t k) {
        Rng q(salt);
        auto a = std::make_shared<Visqol::AudioSignal>(prod::Signal(sig::Noise(q, k, 0.1), 8000));
        Vec late = sig::Noise(q, k, 0.1);
        if (delayed) {  // the same sound, later or earlier by a good part of the length
          late = Vec(k, 0.0);
          Vec early(k, 0.0);
          for (size_t i = 0; i < k / 8; i++) early[i] = late[i + k / 3] = q.gauss() * 0.2;
          if (delayed == 2) std::swap(early, late);
          a = std::make_shared<Visqol::AudioSignal>(prod::Signal(early, 8000));
        }
        auto b = std::make_shared<Visqol::AudioSignal>(prod::Signal(late, 8000));
        return [=] {
          if (part == 0) (void)Visqol::Alignment::GloballyAlign(*a, *b);
          else if (part == 1) (void)Visqol::Alignment::AlignAndTruncate(*a, *b);
          else if (part == 2) (void)Visqol::Envelope::CalcUpperEnv(a->data_matrix);
          else (void)Visqol::XCorr::FindLowestLagIndex(a->data_matrix, b->data_matrix);
        };
      };
      break;
    }
    case 5: {
      const size_t rate = r.pick(std::vector<size_t>{500, 1000, 2000});
      n = rate * r.range(12, 24);
      const bool speech = r.chance(0.5);
      what = Fmt("spectrograms, %zu Hz", rate);
      make = [=](size_t k) {
        Rng q(salt);
        auto a = std::make_shared<Visqol::AudioSignal>(prod::Signal(sig::Noise(q, k, 0.1), rate));
        return [=] {
          Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(speech ? 21 : 32, 50), speech);
          const Visqol::AnalysisWindow w(rate, 0.25);
          auto s = b.Build(*a, w), t = b.Build(*a, w);
          if (!s.ok() || !t.ok()) return;
          Visqol::MiscAudio::PrepareSpectrogramsForComparison(s.value(), t.value());
        };
      };
      break;
    }
    case 6: {
      const size_t rate = 2000;
      n = rate * r.range(60, 120);
      what = "voice activity and patches";
      make = [=](size_t k) {
        Rng q(salt);
        auto a = std::make_shared<Visqol::AudioSignal>(prod::Signal(sig::Noise(q, k, 0.1), rate));
        const Visqol::AnalysisWindow w(rate, 0.25);
        auto s = std::make_shared<Visqol::AMatrix<double>>(21, 1 + (k - w.size) / 40);
        return [=] {
          Visqol::VadPatchCreator pc(20);
          auto i = pc.CreateRefPatchIndices(*s, *a, w);
          if (i.ok()) (void)pc.CreatePatchesFromIndices(*s, i.value());
        };
      };
      break;
    }
    case 7: {
      n = r.range(1500, 3000);
      what = "list of pairs";
      make = [=](size_t k) {
        const std::string p = path + Fmt("%zu", k);
        std::ofstream f(p);
        f << "reference,degraded\n";
        for (size_t i = 0; i < k; i++) f << "/some/where/r" << i << ".wav,/some/where/d" << i << ".wav\r\n";
        return [=] {
          Visqol::CommandLineArgs a;
          a.batch_input_csv = FilePath(p);
          (void)Visqol::VisqolCommandLineParser::BuildFilePairPaths(a);
        };
      };
      break;
    }
    case 8: {
      n = r.range(600, 1500);
      what = "training data";
      make = [=](size_t k) {
        const std::string p = path + Fmt("%zu", k);
        std::ofstream f(p);
        for (size_t i = 0; i < k; i++) for (int j = 0; j < 20; j++) f << 0.001 * static_cast<double>((i * 37 + j) % 1000) << (j < 19 ? "," : "\n");
        return [=] { (void)Visqol::TrainingDataFileReader::Read(FilePath(p), ','); };
      };
      break;
    }
    case 9: {
      n = r.range(100, 250);
      what = "writing a result of many patches";
      make = [=](size_t k) {
        auto m = std::make_shared<Visqol::SimilarityResultMsg>();
        m->set_reference_filepath("r.wav");
        m->set_degraded_filepath("d.wav");
        for (int b = 0; b < 21; b++) { m->add_fvnsim(0.5); m->add_fvnsim10(0.4); m->add_fstdnsim(0.1); m->add_fvdegenergy(30); m->add_center_freq_bands(50 + b); }
        for (size_t i = 0; i < k; i++) {
          auto* p = m->add_patch_sims();
          p->set_similarity(0.5);
          p->set_ref_patch_start_time(0.4 * static_cast<double>(i));
          for (int b = 0; b < 21; b++) p->add_freq_band_means(0.5);
        }
        const std::string a = out + Fmt("%zu", k), j = dbg + Fmt("%zu", k);
        return [=] {
          unlink(a.c_str());
          unlink(j.c_str());
          Visqol::SimilarityResultsWriter::Write(false, FilePath(a), FilePath(j), *m, true, false);
        };
      };
      break;
    }
    default: {
      n = r.range(20000, 60000);
      what = "matrix operations";
      make = [=](size_t k) {
        Rng q(salt);
        auto a = std::make_shared<Visqol::AMatrix<double>>(20, k / 20);
        for (size_t i = 0; i < a->NumElements(); i++) (*a)(i) = q.uni();
        return [=] {
          Visqol::AMatrix<double> b = *a, t = a->Transpose();
          b = b + *a;
          b = b.PointWiseProduct(*a);
          b = b.JoinVertically(*a);
          (void)b.GetRows(0, 9);
          (void)b.RowSubset(3, 1, b.NumCols() - 2);
          (void)a->Mean(Visqol::kDimension::COLUMN);
          (void)a->StdDev(Visqol::kDimension::ROW);
          for (size_t i = 0; i < 20; i++) (void)a->GetRow(i);
          (void)t.FlipUpDown();
        };
      };
    }
  }
  Note(what);
  const std::string of = what + Fmt(", %zu against %zu", n, static_cast<size_t>(n * grow));
  // Runs once before measuring, so that what is kept for later is there.
  auto at = [&](size_t k, int times) {
    Cost best;
    auto f = make(k);
    f();
    for (int i = 0; i < times; i++) {
      const Cost t = Measure(f);
      if (!i) best = t;
      best.secs = std::min(best.secs, t.secs);
      best.held = std::min(best.held, t.held);
      best.asked = std::min(best.asked, t.asked);
    }
    return best;
  };
  const Cost a = at(n, 2), b = at(n * static_cast<size_t>(grow), 1);
  Stat("operations measured", 2);
  Stat("sizes compared: " + what.substr(0, what.find(',')));
  // Half-way between as the input and as its square, counted from a small start.
  const double limit = grow * std::sqrt(grow);
  auto too_much = [&](double x, double y, double small) { return y > limit * x && y > small; };
  const bool asked = too_much(a.asked, b.asked, 2e5), held = too_much(a.held, b.held, 2e5);
  auto too_slow = [&](double x, double y) { return y > 10 * x && y > 0.25; };
  bool slow = too_slow(a.secs, b.secs);
  if (slow) {
    // Time is disturbed by what else runs: only what repeats counts.
    Stat("slow measurements repeated");
    const Cost a2 = at(n, 5), b2 = at(n * static_cast<size_t>(grow), 5);
    slow = too_slow(a2.secs, b2.secs);
  }
  if (asked) Viol("memory asked for", of + Fmt(": %.0f bytes, then %.0f", a.asked, b.asked));
  if (held) Viol("memory held", of + Fmt(": %.0f bytes, then %.0f", a.held, b.held));
  if (slow) Viol("processor time", of + Fmt(": %.4f s, then %.4f s", a.secs, b.secs));
  Cover(of);
  Sample(of + Fmt(": asked for %.3g and %.3g bytes, held %.3g and %.3g, took %.3g and %.3g s", a.asked, b.asked, a.held, b.held, a.secs, b.secs));
  if (system(("rm -f '" + c.scratch + "'/in* '" + c.scratch + "'/out* '" + c.scratch + "'/dbg*").c_str())) {}
}

void RunCase(Ctx& c) { CostCase(c); }
}  // namespace mon
