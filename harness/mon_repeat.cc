// C28: prints a digest of everything a case computes; tools/repeat.py runs the
// same cases in processes that differ in what must not matter (the contents of
// fresh and freed memory, the stack, the environment, the order of the cases).
#include <sched.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <fstream>
#include <sstream>

#include "alignment.h"
#include "commandline_parser.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "prod.h"
#include "sig.h"
#include "sim_results_writer.h"
#include "src/svr_training/training_data_file_reader.h"
#include "support_vector_regression_model.h"
#include "svm.h"
#include "vad_patch_creator.h"
#include "visqol_api.h"
#include "wav_reader.h"
#include "xcorr.h"

// The clocks: as they are, or running VERIF_CLOCK times as fast from another start.
static long ClockRate() {
  static const long k = [] { const char* e = getenv("VERIF_CLOCK"); return e ? atol(e) : 0; }();
  return k;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  const int rc = static_cast<int>(syscall(SYS_clock_gettime, id, t));
  const long k = ClockRate();
  if (rc == 0 && k > 0) {
    const __int128 ns = (static_cast<__int128>(t->tv_sec % 100000) * 1000000000 + t->tv_nsec) * k + 12345678901234567;
    t->tv_sec = static_cast<time_t>(ns / 1000000000);
    t->tv_nsec = static_cast<long>(ns % 1000000000);
  }
  return rc;
}
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  struct timespec s;
  const int rc = clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return rc;
}
extern "C" time_t time(time_t* t) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}
// The number of processors a program is told of.
extern "C" int get_nprocs() noexcept {
  if (const char* e = getenv("VERIF_CPUS")) return atoi(e);
  cpu_set_t s;
  CPU_ZERO(&s);
  sched_getaffinity(0, sizeof s, &s);
  return CPU_COUNT(&s);
}
extern "C" int get_nprocs_conf() noexcept { return get_nprocs(); }
extern "C" clock_t clock() noexcept {
  struct timespec s;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s);
  return s.tv_sec * CLOCKS_PER_SEC + s.tv_nsec / (1000000000 / CLOCKS_PER_SEC);
}

namespace mon {
using ref::Config;
using ref::Vec;
using Visqol::AMatrix;
using Visqol::FilePath;

static uint64_t g_hash;
static void Put(const void* p, size_t n) {
  const unsigned char* b = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) g_hash = (g_hash ^ b[i]) * 1099511628211ull;
}
static void Put(double v) {
  // decisions on the bits, so that memory never written shows up here
  uint64_t u;
  memcpy(&u, &v, 8);
  if (u == 0x8000000000000000ull) u = 1;
  Put(&u, 8);
}
static void Put(const Vec& v) { const uint64_t n = v.size(); Put(&n, 8); for (double x : v) Put(x); }
static void Put(const AMatrix<double>& m) { const uint64_t n = m.NumRows(), k = m.NumCols(); Put(&n, 8); Put(&k, 8); for (size_t i = 0; i < m.NumElements(); i++) Put(m(i)); }
static void Put(const std::string& s) { const uint64_t n = s.size(); Put(&n, 8); Put(s.data(), s.size()); }
static void Put(const ref::Obs& o) {
  Put(static_cast<double>(o.ok ? -1 : o.code));
  Put(o.moslqo); Put(o.vnsim); Put(o.lag); Put(o.fvnsim); Put(o.fvnsim10); Put(o.fstdnsim); Put(o.fvdegenergy); Put(o.cf);
  for (auto& p : o.patches) { Put(p.sim); Put(p.rs); Put(p.re); Put(p.ds); Put(p.de); Put(p.means); }
}
static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static int g_scribble = -1;
__attribute__((noinline)) static void Scribble() {
  volatile unsigned char junk[200000];
  for (size_t i = 0; i < sizeof junk; i++) junk[i] = static_cast<unsigned char>(g_scribble);
}
static void Quiet(const char*) {}

static std::string WavBytes(Rng& r, const Vec& x, uint32_t rate) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) s += static_cast<char>(v >> (8 * i)); };
  auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) s += static_cast<char>(v >> (8 * i)); };
  const uint32_t ch = r.range(1, 3), bytes = static_cast<uint32_t>(2 * ch * x.size());
  const bool ext = r.chance(0.3), list = r.chance(0.3);
  u32(36 + bytes); s += "WAVEfmt "; u32(ext ? 40 : 16); u16(ext ? 0xfffe : 1); u16(ch); u32(rate); u32(2 * ch * rate); u16(2 * ch); u16(16);
  if (ext) { u16(22); u16(16); u32(0); s += std::string("\x01\0\0\0\0\0\x10\0\x80\0\0\xaa\0\x38\x9b\x71", 16); }
  if (list) { s += "LIST"; u32(5); s += std::string("abcde\0", 6); }
  s += "data"; u32(bytes);
  for (double v : x) for (uint32_t k = 0; k < ch; k++) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, v * 30000 / (k + 1))))));
  return s;
}

static std::string Case(Ctx& c, bool small) {
  Rng& r = c.rng;
  svm_set_print_string_function(Quiet);
  Config g = prod::RandomConfig(c);
  if (g.radius > 3) g.radius = 3;
  const size_t rate = small ? r.pick(std::vector<size_t>{100, 150, 200}) : sig::Rate(r);
  const double secs = (g.speech ? 0.7 : 1.05) + r.uni(0, small ? 0.3 : 1.2);
  const int kind = static_cast<int>(r.range(0, 9));
  Vec x = sig::Gen(r, static_cast<size_t>(secs * rate), rate), y = sig::Degrade(r, x, rate);
  if (r.chance(0.1)) x.resize(r.range(0, x.size()));
  if (r.chance(0.1)) y.resize(r.range(0, y.size()));
  switch (kind) {
    case 0: case 1: case 2:
      Put(prod::RunFresh(g, x, y, rate));
      return "comparison " + g.Str() + Fmt(" rate=%zu n=%zu/%zu", rate, x.size(), y.size());
    case 3: {
      Visqol::VisqolManager m;
      if (!prod::Init(m, g).ok()) return "refused";
      for (int i = 0; i < 3; i++) { Put(prod::Run(m, x, y, rate)); std::swap(x, y); }
      return "reused comparator " + g.Str();
    }
    case 4: {
      std::string w = WavBytes(r, x, rate);
      const int k = static_cast<int>(r.range(0, 4));
      if (k == 1) w.resize(r.range(0, w.size()));
      if (k == 2) w.resize(r.range(0, std::min<size_t>(w.size(), 80)));
      if (k == 3) for (int i = 0; i < 3; i++) w[r.range(0, std::min<size_t>(60, w.size() - 1))] = static_cast<char>(r.next());
      if (k == 4) for (int i = 0; i < 2; i++) w[r.range(0, 60) % w.size()] = static_cast<char>(r.range(0, 3));
      const std::string p = c.scratch + "/w.wav";
      std::ofstream(p, std::ios::binary) << w;
      const Visqol::AudioSignal s = Visqol::MiscAudio::LoadAsMono(FilePath(p));
      Put(s.data_matrix);
      if (s.data_matrix.NumElements()) Put(static_cast<double>(s.sample_rate));
      std::istringstream in(w);
      Visqol::WavReader rd(&in);
      Put(rd.IsHeaderValid() ? 1.0 : 0.0);
      if (rd.IsHeaderValid()) {
        Put(static_cast<double>(rd.GetNumChannels())); Put(static_cast<double>(rd.GetSampleRateHz())); Put(static_cast<double>(rd.GetNumTotalSamples()));
        for (int i = 0; i < 20; i++) {
          std::vector<int16_t> b(r.range(1, 100));
          const size_t n = rd.ReadSamples(b.size(), b.data());
          for (size_t k2 = 0; k2 < n; k2++) Put(b[k2]);
        }
      }
      return Fmt("file, kind %d, %zu bytes", k, w.size());
    }
    case 5: {
      Visqol::VisqolConfig cfg;
      cfg.mutable_audio()->set_sample_rate(rate);
      auto* o = cfg.mutable_options();
      o->set_svr_model_path(g.model);
      o->set_use_speech_scoring(g.speech);
      o->set_use_lattice_model(g.lattice);
      o->set_allow_unsupported_sample_rates(true);
      o->set_search_window_radius(2);
      Visqol::VisqolApi api;
      const auto st = api.Create(cfg);
      Put(static_cast<double>(st.code()));
      if (!st.ok()) return "interface refused";
      for (int i = 0; i < 2; i++) {
        auto s = api.Measure(absl::MakeSpan(x), absl::MakeSpan(y));
        Put(s.ok() ? prod::FromMsg(s.value()) : prod::FromStatus(s.status()));
        if (s.ok()) Put(s.value().SerializeAsString());
      }
      return "interface " + g.Str();
    }
    case 6: {
      const size_t rows = r.range(2, small ? 8 : 40), cols = r.range(1, 12);
      std::vector<Vec> o;
      Vec t;
      for (size_t i = 0; i < rows; i++) { o.push_back(sig::Noise(r, cols, 1)); t.push_back(r.uni(1, 5)); }
      Visqol::SupportVectorRegressionModel m;
      m.Init(o, t);
      for (int i = 0; i < 4; i++) Put(m.Predict(r.chance(0.5) ? r.pick(o) : sig::Noise(r, cols, 1)));
      const std::string p = c.scratch + "/t.csv";
      { std::ofstream f(p); for (auto& v : o) { for (size_t i = 0; i < v.size(); i++) f << (i ? "," : "") << v[i]; f << "\n"; } }
      for (auto& v : Visqol::TrainingDataFileReader::Read(FilePath(p), ',')) Put(v);
      return Fmt("training %zux%zu", rows, cols);
    }
    case 7: {
      if (x.empty() || y.empty()) return "nothing";
      const auto sx = prod::Signal(x, rate), sy = prod::Signal(y, rate);
      const auto t = Visqol::Alignment::GloballyAlign(sx, sy);
      Put(std::get<0>(t).data_matrix); Put(std::get<1>(t));
      const auto u = Visqol::Alignment::AlignAndTruncate(sx, sy);
      Put(std::get<0>(u).data_matrix); Put(std::get<1>(u).data_matrix);
      Put(Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(sx, sy).data_matrix);
      return Fmt("alignment %zu/%zu", x.size(), y.size());
    }
    case 8: {
      const Visqol::AnalysisWindow w(rate, 0.25);
      Visqol::GammatoneSpectrogramBuilder b(Visqol::GammatoneFilterBank(g.speech ? 21 : 32, 50), g.speech);
      const auto sx = prod::Signal(x, rate);
      auto s = b.Build(sx, w), t = b.Build(prod::Signal(y, rate), w);
      Put(s.ok() ? 1.0 : 0.0); Put(t.ok() ? 1.0 : 0.0);
      if (!s.ok() || !t.ok()) return "short";
      Put(s->Data()); Put(s->GetCenterFreqBands()); Put(t->Data());
      Visqol::Spectrogram p = s.value(), q = t.value();
      Visqol::MiscAudio::PrepareSpectrogramsForComparison(p, q);
      Put(p.Data()); Put(q.Data());
      std::unique_ptr<Visqol::ImagePatchCreator> pc;
      if (g.speech) pc = std::make_unique<Visqol::VadPatchCreator>(20);
      else pc = std::make_unique<Visqol::ImagePatchCreator>(30);
      auto idx = pc->CreateRefPatchIndices(p.Data(), sx, w);
      if (idx.ok()) {
        for (size_t i : idx.value()) Put(static_cast<double>(i));
        const Visqol::NeurogramSimiliarityIndexMeasure n;
        const auto ps = pc->CreatePatchesFromIndices(p.Data(), idx.value());
        for (size_t i = 0; i + 1 < ps.size(); i++) {
          const auto v = n.MeasurePatchSimilarity(ps[i], ps[i + 1]);
          Put(v.similarity); Put(v.freq_band_means); Put(v.freq_band_stddevs); Put(v.freq_band_deg_energy);
        }
      }
      return Fmt("spectrograms %zu/%zu", x.size(), y.size());
    }
    default: {
      Visqol::VisqolManager m;
      if (!prod::Init(m, g).ok()) return "refused";
      auto s = [&] { Visqol::AudioSignal t = prod::Signal(y, rate); return m.Run(prod::Signal(x, rate), t); }();
      if (!s.ok()) return "refused";
      const std::string a = c.scratch + "/o.csv", j = c.scratch + "/o.json";
      unlink(a.c_str()); unlink(j.c_str());
      for (int i = 0; i < 2; i++) Visqol::SimilarityResultsWriter::Write(false, FilePath(a), FilePath(j), s.value(), g.speech, g.lattice);
      Put(Slurp(a)); Put(Slurp(j));
      return "files written " + g.Str();
    }
  }
}

void RunCase(Ctx& c) {
  static const bool placed = [] {
    if (getenv("VERIF_ONE_CPU")) {
      cpu_set_t s;
      CPU_ZERO(&s);
      sched_getaffinity(0, sizeof s, &s);
      int first = 0;
      while (first < CPU_SETSIZE - 1 && !CPU_ISSET(first, &s)) first++;
      CPU_ZERO(&s);
      CPU_SET((first + 1) % CPU_SETSIZE, &s);
      if (sched_setaffinity(0, sizeof s, &s) != 0) {
        CPU_ZERO(&s);
        CPU_SET(first, &s);
        sched_setaffinity(0, sizeof s, &s);
      }
      umask(0177);
      close(0);
    }
    return true;
  }();
  (void)placed;
  if (g_scribble < 0) { const char* e = getenv("VERIF_SCRIBBLE"); g_scribble = e ? atoi(e) : 0; }
  g_hash = 1469598103934665603ull;
  Scribble();
  const std::string what = Case(c, c.mode == "small");
  Digest(Fmt("%016llx ", static_cast<unsigned long long>(g_hash)) + what);
  Stat("computations");
  Cover(what);
  Sample(what);
}
}  // namespace mon
