// C34: what is doubtful about inputs is announced, each time and only then.
// The library's messages go to descriptor 2, which is captured around each step.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>

#include "analysis_window.h"
#include "commandline_parser.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "src/svr_training/training_data_file_reader.h"
#include "vad_patch_creator.h"

namespace mon {
using ref::Config;
using ref::Obs;
using ref::Vec;
using Visqol::FilePath;

// Everything written to descriptor 2 while f runs.
template <class F>
static std::vector<std::string> Said(F f) {
  fflush(stderr);
  const int keep = dup(2), fd = memfd_create("said", 0);
  dup2(fd, 2);
  f();
  fflush(stderr);
  dup2(keep, 2);
  close(keep);
  std::string s;
  char buf[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) s.append(buf, n);
  close(fd);
  std::vector<std::string> lines;
  std::istringstream in(s);
  for (std::string l; std::getline(in, l);) lines.push_back(l);
  return lines;
}
static std::string Lower(std::string s) {
  for (char& c : s) c = static_cast<char>(tolower(static_cast<unsigned char>(c)));
  return s;
}
// Lines holding all words, whatever their case.
static size_t Lines(const std::vector<std::string>& said, const std::vector<std::string>& words, std::string* one = nullptr) {
  size_t n = 0;
  for (const std::string& l : said) {
    const std::string w = Lower(l);
    bool all = w.find("high_freq") == std::string::npos;  // the filter design has a word of its own
    for (const std::string& x : words) all = all && w.find(Lower(x)) != std::string::npos;
    if (all) { n++; if (one) *one = l; }
  }
  return n;
}
static std::string Joined(const std::vector<std::string>& said) {
  std::string s;
  for (auto& l : said) s += (s.empty() ? "" : " / ") + l;
  return s.empty() ? "nothing" : s.substr(0, 700);
}

static std::string WavBytes(const Vec& x, size_t ch, uint32_t rate, size_t missing_bytes) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; i++) s += static_cast<char>(v >> (8 * i)); };
  auto u16 = [&](uint32_t v) { for (int i = 0; i < 2; i++) s += static_cast<char>(v >> (8 * i)); };
  const uint32_t bytes = static_cast<uint32_t>(2 * ch * x.size());
  u32(36 + bytes); s += "WAVEfmt "; u32(16); u16(1); u16(ch); u32(rate); u32(2 * ch * rate); u16(2 * ch); u16(16);
  s += "data"; u32(bytes);
  for (double v : x) for (size_t k = 0; k < ch; k++) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, v * 30000)))));
  s.resize(s.size() - missing_bytes);
  return s;
}

// ---------------------------------------------------------------- comparisons
static void Compare(Ctx& c) {
  Rng& r = c.rng;
  Config g = prod::RandomConfig(c);
  if (g.radius > 2) g.radius = static_cast<int>(r.range(0, 2));
  const bool lattice_in_audio = !g.speech && r.chance(0.3);
  Visqol::VisqolManager m;
  absl::Status st;
  const int inits = r.chance(0.2) ? 2 : 1;
  for (int k = 0; k < inits; k++) {
    const auto said = Said([&] { st = m.Init(FilePath(g.model), g.speech, g.unscaled, g.radius, g.lattice || lattice_in_audio, g.no_align, g.no_realign); });
    if (!st.ok()) return Viol("init", g.Str() + ": " + st.ToString());
    const size_t want = lattice_in_audio || (!g.speech && g.lattice) ? 1 : 0, got = Lines(said, {"lattice", "audio"});
    if (got != want) return Viol("lattice model in audio mode", g.Str() + Fmt(": initialisation %d: %zu warnings, expected %zu: ", k + 1, got, want) + Joined(said));
    Stat(want ? "lattice warnings" : "initialisations without warning");
  }
  const int times = static_cast<int>(r.range(1, 4));
  for (int k = 0; k < times; k++) {
    // rates around the documented ones, or low and cheap
    const bool high = r.chance(0.12);
    const size_t rate = high ? (g.speech ? r.pick(std::vector<size_t>{8000, 15999, 16000, 16000, 16001, 22050, 32000, 48000})
                                         : r.pick(std::vector<size_t>{16000, 44100, 47999, 48000, 48000, 48001, 96000}))
                             : r.pick(std::vector<size_t>{500, 600, 1000, 1024, 2000});
    const size_t w = ref::WindowSize(rate), hop = ref::HopSize(rate), psz = g.speech ? 20 : 30;
    const size_t minimum = w + hop * (psz + (g.speech ? 9 : 15));
    size_t n = minimum + (high ? r.range(0, 100) : hop * r.range(0, 150));
    size_t d = n;
    const double u = r.uni();
    if (u < 0.35) d = n + r.range(-3, 3);
    else if (u < 0.6) d = n + rate + r.range(-3, 3);
    else if (u < 0.8 && n > rate + w) d = n - rate + r.range(-3, 3);
    else if (u < 0.9) d = r.range(1, 2 * n);
    if (r.chance(0.08)) n = r.range(1, w);  // refused, but announced all the same
    if (r.chance(0.05)) std::swap(n, d);
    n = std::max<size_t>(n, 1);
    d = std::max<size_t>(d, 1);
    Vec x = sig::Gen(r, n, rate), y = r.chance(0.7) ? sig::Degrade(r, x, rate) : sig::Gen(r, d, rate);
    y.resize(d, 0.001);
    const bool files = rate >= 500 && r.chance(0.35);
    size_t cut_x = 0, cut_y = 0, ch = 1;
    std::vector<std::string> said;
    Obs o;
    if (files) {
      ch = r.range(1, 3);
      if (r.chance(0.3)) cut_x = 2 * ch * r.range(1, std::max<size_t>(1, std::min<size_t>(n - 1, 40)));
      if (r.chance(0.3)) cut_y = 2 * ch * r.range(1, std::max<size_t>(1, std::min<size_t>(d - 1, 40)));
      if (n < 2) cut_x = 0;
      if (d < 2) cut_y = 0;
      const std::string a = c.scratch + "/ref.wav", b = c.scratch + "/deg.wav";
      std::ofstream(a, std::ios::binary) << WavBytes(x, ch, static_cast<uint32_t>(rate), cut_x);
      std::ofstream(b, std::ios::binary) << WavBytes(y, ch, static_cast<uint32_t>(rate), cut_y);
      said = Said([&] { auto s = m.Run(FilePath(a), FilePath(b)); o = s.ok() ? prod::FromMsg(s.value()) : prod::FromStatus(s.status()); });
    } else {
      said = Said([&] { o = prod::Run(m, x, y, rate); });
    }
    const size_t n2 = n - cut_x / (2 * ch), d2 = d - cut_y / (2 * ch);
    const std::string what = Fmt("comparison %d, %s, %zu Hz, %zu and %zu samples%s: ", k + 1, g.Str().c_str(), rate, n2, d2, files ? " from files" : "");
    Note(what);
    // durations more than a second apart
    const double a = n2 / static_cast<double>(rate), b = d2 / static_cast<double>(rate), gap = std::fabs(a - b);
    std::string line;
    const size_t dur = Lines(said, {"duration"}, &line);
    if (std::fabs(gap - 1) > 1e-9) {
      if (dur != (gap > 1 ? 1u : 0u)) return Viol("durations", what + Fmt("%zu warnings for %.6f s and %.6f s: ", dur, a, b) + Joined(said));
      if (dur) {
        const size_t p = line.find(Fmt("%.2f", a));
        if (p == std::string::npos || line.find(Fmt("%.2f", b), p + 1) == std::string::npos)
          return Viol("durations named", what + Fmt("%.2f s and %.2f s: ", a, b) + line);
      }
      Stat(gap > 1 ? "duration warnings" : "durations close");
    }
    // sample rate
    const bool odd = g.speech ? rate > 16000 : rate != 48000;
    const size_t k48 = Lines(said, {"48k"}), k16 = Lines(said, {"16k"});
    if (k48 != (odd && !g.speech ? 1u : 0u) || k16 != (odd && g.speech ? 1u : 0u))
      return Viol("sample rate", what + Fmt("%zu warnings of 48k and %zu of 16k: ", k48, k16) + Joined(said));
    Stat(odd ? "rate warnings" : "rates as expected");
    // patches that have nothing to be compared with
    size_t total = 0;
    if (n2 > w) {
      const Visqol::AnalysisWindow win(rate, 0.25);
      const Visqol::AMatrix<double> frames(1, 1 + (n2 - w) / hop);
      Vec heard = x;
      if (files) heard = prod::Samples(Visqol::MiscAudio::LoadAsMono(FilePath(c.scratch + "/ref.wav")));
      std::unique_ptr<Visqol::ImagePatchCreator> pc;
      if (g.speech) pc = std::make_unique<Visqol::VadPatchCreator>(20);
      else pc = std::make_unique<Visqol::ImagePatchCreator>(30);
      (void)Said([&] { auto i = pc->CreateRefPatchIndices(frames, prod::Signal(heard, rate), win); if (i.ok()) total = i.value().size(); });
    }
    line.clear();
    const size_t drop = Lines(said, {"dropping"}, &line);
    if (o.ok) {
      const bool fewer = o.patches.size() < total;
      if (drop != (fewer ? 1u : 0u)) return Viol("patches left out", what + Fmt("%zu warnings, %zu of %zu patches reported: ", drop, o.patches.size(), total) + Joined(said));
      if (fewer) {
        const std::string num = Fmt(" %zu (of %zu) ", total - o.patches.size(), total);
        if (line.find(num) == std::string::npos) return Viol("number of patches left out", what + "expected" + num + "in: " + line);
      }
      Stat(fewer ? "warnings of patches left out" : "all patches compared");
    } else if (drop) return Viol("patches left out of a refused comparison", what + Joined(said));
    // files that are shorter than they say
    for (int side = 0; files && side < 2; side++) {
      const size_t cut = side ? cut_y : cut_x, full = ch * (side ? d : n);
      const size_t got = Lines(said, {Fmt("(%zu)", full), Fmt("(%zu)", full - cut / 2)});
      const bool both = cut_x && cut_y && n == d && cut_x == cut_y;
      if (cut ? got != (both ? 2u : 1u) : Lines(said, {"samples read", Fmt("(%zu)", full), "less"}) != 0 && !(cut_x + cut_y))
        return Viol("short file", what + Fmt("%zu warnings that %zu of %zu samples were read: ", got, full - cut / 2, full) + Joined(said));
      if (cut) Stat("short file warnings");
    }
    if (files && !cut_x && !cut_y && Lines(said, {"samples read"})) return Viol("short file", what + "nothing is missing: " + Joined(said));
    Stat("comparisons");
    Cover(Fmt("cmp %s %zu %zu %zu %d", g.Str().c_str(), rate, n2, d2, o.code));
    if (c.index < 5) Sample(what + Joined(said));
  }
}

// ---------------------------------------------------------------- files and lists
static void Load(Ctx& c) {
  Rng& r = c.rng;
  const int times = static_cast<int>(r.range(2, 6));
  for (int k = 0; k < times; k++) {
    const std::string path = c.scratch + Fmt("/file %d.wav", static_cast<int>(r.range(0, 999)));
    const size_t n = r.range(2, 500), ch = r.range(1, 4);
    const int kind = static_cast<int>(r.range(0, 4));
    std::string b = WavBytes(sig::Noise(r, n, 0.1), ch, 8000, 0);
    size_t cut = 0, total = ch * n;
    if (ch > 1 && r.chance(0.4)) {  // the header itself promises a part of a frame
      total -= r.range(1, ch - 1);
      for (int i = 0; i < 4; i++) b[40 + i] = static_cast<char>(2 * total >> (8 * i));
      b.resize(44 + 2 * total);
    }
    if (kind == 1) { cut = 2 * (r.chance(0.4) ? 1 : r.range(1, total - 1)); b.resize(b.size() - cut); }
    if (kind == 2) b[r.range(0, 3)] ^= 0x20;
    if (kind == 3) b.resize(r.range(0, 43));
    if (kind != 4) std::ofstream(path, std::ios::binary) << b;
    Visqol::AudioSignal s;
    const auto said = Said([&] { s = Visqol::MiscAudio::LoadAsMono(FilePath(path)); });
    unlink(path.c_str());
    const std::string what = Fmt("file of %zu values in %zu channels, kind %d, %zu bytes missing: ", total, ch, kind, cut);
    Note(what);
    const size_t named = Lines(said, {path}), shorter = Lines(said, {Fmt("(%zu)", total), Fmt("(%zu)", total - cut / 2)});
    if (kind == 0 && !said.empty()) return Viol("good file", what + Joined(said));
    if (kind == 1 && shorter != 1) return Viol("short file", what + Joined(said));
    // without one whole frame there is nothing to be had from it
    if (kind >= 2 && !named) return Viol("unusable file not named", what + path + ": " + Joined(said));
    if (kind >= 2 && s.data_matrix.NumElements()) Viol("unusable file used", what);
    Stat(kind == 0 ? "good files" : kind == 1 ? "short files" : kind == 4 ? "missing files" : "broken files");
    Cover(what + Fmt(" %zu", ch));
  }
}
static void Lists(Ctx& c) {
  Rng& r = c.rng;
  const bool training = r.chance(0.5);
  const std::string path = c.scratch + "/list";
  std::string text = training ? "" : "reference,degraded\n";
  std::vector<std::string> bad;
  const int lines = static_cast<int>(r.range(0, 30));
  for (int i = 0; i < lines; i++) {
    if (training) {
      for (int k = static_cast<int>(r.range(1, 5)); k > 0; k--) {
        if (r.chance(0.15)) { bad.push_back(Fmt("word%da", i * 10 + k)); text += bad.back(); }
        else text += Fmt("%.6g", r.gauss());
        if (k > 1) text += ",";
      }
    } else if (r.chance(0.2)) {
      bad.push_back(Fmt("only_one_%d.wav", i));
      text += bad.back();
    } else {
      text += Fmt("r%d.wav,d%d.wav", i, i);
    }
    text += "\n";
  }
  std::ofstream(path) << text;
  size_t n = 0;
  const auto said = Said([&] {
    if (training) { for (auto& v : Visqol::TrainingDataFileReader::Read(FilePath(path), ',')) n += v.size(); return; }
    Visqol::CommandLineArgs a;
    a.batch_input_csv = FilePath(path);
    n = Visqol::VisqolCommandLineParser::BuildFilePairPaths(a).size();
  });
  const std::string what = Fmt("%s of %d lines, %zu wrong: ", training ? "training data" : "list", lines, bad.size());
  for (auto& b : bad)
    if (Lines(said, {"'" + b + "'"}) != 1) return Viol(training ? "item that is no number" : "line without a pair", what + b + ": " + Joined(said));
  if (bad.empty() && !said.empty()) return Viol("nothing wrong", what + Joined(said));
  Stat(training ? "training items named" : "lines named", bad.size());
  Cover(what + Fmt(" %zu", text.size()));
}

void RunCase(Ctx& c) {
  const double u = c.rng.uni();
  if (u < 0.4) Compare(c);
  else if (u < 0.7) Load(c);
  else Lists(c);
}
}  // namespace mon
