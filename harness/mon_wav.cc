// C04 reading of well-formed WAV files, C05 hostile files, C06 downmixing.
#include <dlfcn.h>
#include <malloc.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <fstream>
#include <sstream>

#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "wav_reader.h"

// Total memory requested while a file is loaded (not under a sanitizer, which
// has its own allocator).
static std::atomic<bool> g_count{false};
static std::atomic<uint64_t> g_bytes{0};
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) {
  if (g_count) g_bytes += n;
  return __libc_malloc(n);
}
void* calloc(size_t a, size_t b) {
  if (g_count) g_bytes += a * b;
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (g_count) g_bytes += n;
  return __libc_realloc(p, n);
}
int posix_memalign(void** p, size_t a, size_t n) {
  if (g_count) g_bytes += n;
  *p = __libc_memalign(a, n);
  return *p ? 0 : 12;
}
void* aligned_alloc(size_t a, size_t n) {
  if (g_count) g_bytes += n;
  return __libc_memalign(a, n);
}
void* memalign(size_t a, size_t n) {
  if (g_count) g_bytes += n;
  return __libc_memalign(a, n);
}
}
static const bool kCounting = true;
#else
static const bool kCounting = false;
#endif

namespace mon {
using ref::Vec;
using Visqol::FilePath;
using Visqol::MiscAudio;

static void Put16(std::string* s, uint32_t v) { s->push_back(static_cast<char>(v)); s->push_back(static_cast<char>(v >> 8)); }
static void Put32(std::string* s, uint32_t v) { Put16(s, v & 0xffff); Put16(s, v >> 16); }
static uint32_t Get16(const std::string& s, size_t i) { return static_cast<uint8_t>(s[i]) | static_cast<uint8_t>(s[i + 1]) << 8; }
static uint32_t Get32(const std::string& s, size_t i) { return Get16(s, i) | Get16(s, i + 2) << 16; }
static int16_t Sample16(const std::string& s, size_t i) { return static_cast<int16_t>(Get16(s, i)); }

struct Wav {
  uint32_t channels = 1, rate = 8000, tag = 1;
  int fmt = 16;  // size of the format chunk: 16, 18, 40, others with 18 and an extension
  std::vector<std::pair<std::string, std::string>> before, after;
  std::vector<int16_t> data;  // interleaved
  size_t data_at = 0;         // offset of the audio in the bytes
  std::string Bytes() {
    std::string s = "RIFF";
    Put32(&s, 0);
    s += "WAVEfmt ";
    Put32(&s, fmt);
    Put16(&s, tag);
    Put16(&s, channels);
    Put32(&s, rate);
    Put32(&s, rate * channels * 2);
    Put16(&s, channels * 2);
    Put16(&s, 16);
    if (fmt >= 18) Put16(&s, fmt - 18);
    if (fmt == 40) {
      Put16(&s, 16);
      Put32(&s, 0);
      s += std::string("\x01\x00\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71", 16);
    } else if (fmt > 18) {  // bytes that look like the chunks to come
      while (s.size() < 38u + fmt - 18) s += "data\x08";
      s.resize(20 + fmt);
    }
    auto chunk = [&](const std::pair<std::string, std::string>& c) {
      s += c.first;
      Put32(&s, c.second.size());
      s += c.second;
      if (c.second.size() % 2) s.push_back('\0');
    };
    for (auto& c : before) chunk(c);
    s += "data";
    Put32(&s, data.size() * 2);
    data_at = s.size();
    for (int16_t v : data) Put16(&s, static_cast<uint16_t>(v));
    for (auto& c : after) chunk(c);
    const uint32_t total = s.size() - 8;
    for (int i = 0; i < 4; i++) s[4 + i] = static_cast<char>(total >> (8 * i));
    return s;
  }
  std::string Str() const {
    return Fmt("%u channels, %u Hz, format chunk of %d, tag %#x, %zu+%zu extra chunks, %zu values", channels, rate, fmt, tag, before.size(),
               after.size(), data.size());
  }
};

static std::pair<std::string, std::string> Extra(Rng& g) {
  const std::string id = g.pick(std::vector<std::string>{"LIST", "fact", "bext", "JUNK", "PEAK", "cue ", "id3 ", "Data", "DATA", "dat ", "fmt2"});
  const size_t n = g.chance(0.3) ? g.range(0, 3) : g.range(0, g.chance(0.1) ? (g.chance(0.1) ? 150000 : 5000) : 60);
  std::string body(n, '\0');
  for (char& ch : body) ch = static_cast<char>(g.next());
  if (n >= 12 && g.chance(0.5)) body.replace(g.range(0, n - 12), 12, std::string("data\x08\x00\x00\x00\x11\x22\x33\x44", 12));
  return {id, body};
}
static Wav RandomWav(Rng& g, size_t max_frames) {
  Wav w;
  w.channels = g.chance(0.5) ? 1 : g.chance(0.7) ? g.range(2, 8) : g.range(9, 40);
  w.rate = g.chance(0.8) ? g.pick(std::vector<uint32_t>{8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000}) : static_cast<uint32_t>(g.range(1, g.chance(0.3) ? 2147483647 : 200000));
  const int k = static_cast<int>(g.range(0, 3));
  w.fmt = k < 2 ? 16 : k == 2 ? 18 : 40;
  w.tag = w.fmt == 40 ? 0xfffe : 1;
  if (g.chance(0.05)) { w.tag = 1; }
  if (g.chance(0.15)) {
    w.fmt = 18 + 2 * static_cast<int>(g.chance(0.5) ? g.range(1, 30) : g.range(1, g.chance(0.3) ? 16000 : 600));
    w.tag = g.chance(0.5) ? 1 : 0xfffe;
    if (w.fmt == 40) w.fmt = 42;
  }
  for (int n = g.chance(0.4) ? 0 : static_cast<int>(g.range(1, g.chance(0.02) ? 300 : 4)); n > 0; n--) w.before.push_back(Extra(g));
  for (int n = g.chance(0.4) ? 0 : static_cast<int>(g.range(1, g.chance(0.02) ? 300 : 3)); n > 0; n--) w.after.push_back(Extra(g));
  const size_t frames = g.chance(0.2) ? g.range(1, 4) : g.range(1, std::max<size_t>(4, max_frames / w.channels));
  w.data.resize(frames * w.channels);
  const int kind = static_cast<int>(g.range(0, 3));
  for (size_t i = 0; i < w.data.size(); i++)
    w.data[i] = kind == 0 ? static_cast<int16_t>(g.next()) : kind == 1 ? static_cast<int16_t>(i) : kind == 2 ? g.pick(std::vector<int16_t>{-32768, 32767, 0, 1, -1, 256, -256}) : static_cast<int16_t>(3000 * g.gauss());
  return w;
}
static Vec Mean(const std::vector<int16_t>& d, size_t channels) {
  Vec o(d.size() / channels);
  for (size_t i = 0; i < o.size(); i++) {
    int64_t s = 0;
    for (size_t k = 0; k < channels; k++) s += d[i * channels + k];
    o[i] = channels == 1 ? s / 32768.0 : s / 32768.0 / static_cast<double>(channels);
  }
  return o;
}
static std::string Unlike(const Visqol::AudioSignal& s, const Vec& want, size_t channels, uint64_t rate) {
  if (s.sample_rate != rate) return Fmt("sample rate %zu, file has %llu", s.sample_rate, (unsigned long long)rate);
  if (s.data_matrix.NumRows() != want.size() || s.data_matrix.NumCols() != 1)
    return Fmt("%zux%zu samples, file holds %zu frames", s.data_matrix.NumRows(), s.data_matrix.NumCols(), want.size());
  for (size_t i = 0; i < want.size(); i++)
    if (channels == 1 ? s.data_matrix(i, 0) != want[i] : !Close(s.data_matrix(i, 0), want[i], 1e-12))
      return Fmt("sample %zu is %.12g, file holds %.12g", i, s.data_matrix(i, 0), want[i]);
  return "";
}

// ---------------------------------------------------------------- C04
static void WellFormedCase(Ctx& c) {
  Rng& g = c.rng;
  // now and then a recording of minutes
  const bool minutes = c.index % 997 == 5;
  if (minutes) Stat("long files");
  Wav w = RandomWav(g, minutes ? 7000000 : g.chance(0.05) ? 200000 : 3000);
  if (c.index % 499 == 7) {  // edited over and over
    w.before.resize(w.before.size() + g.range(100000, 600000), {g.chance(0.5) ? "junk" : "LIST", g.chance(0.5) ? "" : "ab"});
    Stat("files of very many chunks");
  }
  const std::string bytes = w.Bytes(), what = w.Str();
  Note(what);
  const std::string path = c.scratch + "/a.wav";
  std::ofstream(path, std::ios::binary) << bytes;
  const Vec want = Mean(w.data, w.channels);
  std::string bad = Unlike(MiscAudio::LoadAsMono(FilePath(path)), want, w.channels, w.rate);
  if (!bad.empty()) return Viol("loaded file", what + ": " + bad);
  {
    std::stringstream ss(bytes);
    bad = Unlike(MiscAudio::LoadAsMono(&ss), want, w.channels, w.rate);
    if (!bad.empty()) return Viol("loaded stream", what + ": " + bad);
  }
  // in pieces
  std::istringstream in(bytes);
  Visqol::WavReader r(&in);
  if (!r.IsHeaderValid()) return Viol("header refused", what);
  const size_t frames = w.data.size() / w.channels;
  if (r.GetNumTotalSamples() != w.data.size() || r.GetNumChannels() != w.channels || r.GetSampleRateHz() != static_cast<int64_t>(w.rate))
    return Viol("reported totals", what + Fmt(": %zu samples, %zu channels, %d Hz", r.GetNumTotalSamples(), r.GetNumChannels(), r.GetSampleRateHz()));
  if (!Close(r.GetDuration(), frames / static_cast<double>(w.rate), 0, 1e-12))
    return Viol("duration", what + Fmt(": %.12g s, file holds %.12g s", r.GetDuration(), frames / static_cast<double>(w.rate)));
  std::vector<int16_t> got;
  const int style = static_cast<int>(g.range(0, 3));
  for (int step = 0; step < 100000; step++) {
    const size_t left = w.data.size() - got.size();
    size_t n = style == 0 ? w.data.size() + g.range(0, 50) : style == 1 ? g.range(0, 7) : style == 2 ? g.range(0, 300) : g.range(0, left + 3);
    if (w.data.size() > 20000) n = std::max<size_t>(n, 1000 + w.data.size() / 500);
    std::vector<int16_t> buf(n + 8, 0x5a5a);
    const size_t k = r.ReadSamples(n, buf.data());
    if (k != std::min(n, left)) return Viol("piece length", what + Fmt(": asked for %zu of %zu left, got %zu", n, left, k));
    for (size_t i = n; i < buf.size(); i++)
      if (buf[i] != 0x5a5a) return Viol("piece overruns its buffer", what + Fmt(": %zu asked, %zu left", n, left));
    for (size_t i = k; i < n; i++)
      if (buf[i] != 0x5a5a) return Viol("piece writes beyond the audio", what + Fmt(": %zu asked, %zu left", n, left));
    got.insert(got.end(), buf.begin(), buf.begin() + k);
    Stat("pieces");
    if (n > 0 && left == 0 && g.chance(0.5)) break;
  }
  if (got != w.data) {
    size_t i = 0;
    while (i < got.size() && i < w.data.size() && got[i] == w.data[i]) i++;
    return Viol("pieces", what + Fmt(": %zu of %zu samples, first difference at %zu", got.size(), w.data.size(), i));
  }
  Stat("samples read", w.data.size());
  Stat(w.fmt == 16 || w.fmt == 18 || w.fmt == 40 ? Fmt("files: format chunk %d", w.fmt) : "files: format chunk with another extension");
  Cover(what);
  if (c.index < 6) Sample(what);
}

// ---------------------------------------------------------------- C05
// What a strictly chunk-following reader finds. `exact` is false when the format
// chunk contradicts itself, so that readers may differ.
struct Found {
  bool header = false, exact = true;
  size_t channels = 0, at = 0, size = 0;
  uint32_t rate = 0;
};
static Found Walk(const std::string& s) {
  Found f;
  if (s.size() < 44) return f;
  if (s.compare(0, 4, "RIFF") || s.compare(8, 4, "WAVE") || s.compare(12, 4, "fmt ")) return f;
  const uint32_t fs = Get32(s, 16);
  const uint32_t tag = Get16(s, 20);
  f.channels = Get16(s, 22);
  f.rate = Get32(s, 24);
  if (fs < 16 || (tag != 1 && tag != 0xfffe) || f.channels == 0 || Get16(s, 34) != 16) return f;
  uint64_t at = 36;
  if (fs != 16) {
    const uint64_t ext = Get16(s, 36);
    if (ext + 18 != fs || fs % 2 || ext > 0x7fff) f.exact = false;
    at += 2 + ext;
  }
  for (;;) {
    if (at + 8 > s.size()) return f;
    const uint64_t n = Get32(s, at);
    (void)n;
    const uint64_t size = Get32(s, at + 4);
    if (!s.compare(at, 4, "data")) {
      f.at = at + 8;
      f.size = size;
      f.header = size > 0 && size % 2 == 0;
      return f;
    }
    at += 8 + size + size % 2;
  }
}
static void Mutate(Rng& g, std::string* s, std::string* what) {
  static const std::vector<uint32_t> sizes = {0, 1, 2, 3, 15, 16, 17, 18, 20, 40, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x100000};
  auto set = [&](size_t at, int n, uint32_t v) {
    for (int i = 0; i < n && at + i < s->size(); i++) (*s)[at + i] = static_cast<char>(v >> (8 * i));
    *what += Fmt(" @%zu=%#x", at, v);
  };
  switch (g.range(0, 12)) {
    case 0: s->resize(g.range(0, s->size())); *what += Fmt(" cut to %zu", s->size()); break;
    case 1: s->resize(g.range(0, std::min<size_t>(s->size(), 60))); *what += Fmt(" cut to %zu", s->size()); break;
    case 2: for (int k = static_cast<int>(g.range(1, 4)); k > 0 && !s->empty(); k--) set(g.range(0, std::min<size_t>(s->size(), 80) - 1), 1, g.next() & 255); break;
    case 3: set(4, 4, g.pick(sizes)); break;
    case 4: set(16, 4, g.pick(sizes)); break;
    case 5: set(20, 2, g.pick(std::vector<uint32_t>{0, 1, 2, 3, 6, 7, 0xfffe, 0xffff, 0xfeff})); break;
    case 6: set(22, 2, g.pick(std::vector<uint32_t>{0, 1, 2, 3, 255, 256, 32767, 32768, 65535})); break;
    case 7: set(24, 4, g.pick(std::vector<uint32_t>{0, 1, 7, 8000, 48000, 0x7fffffff, 0x80000000, 0xffffffff})); break;
    case 8: set(34, 2, g.pick(std::vector<uint32_t>{0, 1, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 32, 64, 65535})); break;
    case 9: set(36, 2, g.pick(std::vector<uint32_t>{0, 1, 2, 22, 0x7fff, 0x8000, 0xffff})); break;
    case 10: {  // a chunk size
      const size_t p = s->find("data");
      if (p != std::string::npos) set(p + 4, 4, g.chance(0.5) ? g.pick(sizes) : static_cast<uint32_t>(s->size() + g.range(-12, 12)));
      break;
    }
    case 11: {
      const size_t p = s->find(g.pick(std::vector<std::string>{"data", "LIST", "fact", "RIFF", "WAVE", "fmt "}));
      if (p != std::string::npos) set(p + g.range(0, 3), 1, g.next() & 255);
      break;
    }
    default: {
      const size_t p = s->size() > 36 ? g.range(12, std::min<size_t>(s->size(), 200)) : s->size();
      std::string x = "JUNK";
      Put32(&x, g.pick(sizes));
      s->insert(p, x);
      *what += Fmt(" chunk at %zu", p);
    }
  }
}
static void HostileFileCase(Ctx& c) {
  Rng& g = c.rng;
  Wav w = RandomWav(g, g.chance(0.1) ? 20000 : 600);
  const bool compare = g.chance(0.06);
  if (compare) { w.rate = 200; w.channels = 1; w.data.resize(900); for (auto& v : w.data) v = static_cast<int16_t>(2000 * g.gauss()); }
  std::string s = w.Bytes(), what = w.Str();
  const int k = static_cast<int>(g.range(0, 20));
  if (k == 0) { s.assign(g.range(0, 200), 0); for (char& ch : s) ch = static_cast<char>(g.next()); what = Fmt("%zu random bytes", s.size()); }
  else if (k == 1) { s = ""; what = "empty"; }
  else for (int n = static_cast<int>(g.range(1, g.chance(0.3) ? 4 : 1)); n > 0; n--) Mutate(g, &s, &what);
  if (c.index % 409 == 11) {  // very many chunks before the samples, if any come at all
    const size_t at = w.data_at - 8, n = g.range(150000, 900000);
    s = w.Bytes();
    std::string many, one = g.chance(0.3) ? std::string("data\xff\xff\xff\x00", 8) : std::string("junk\0\0\0\0", 8);
    one[0] = g.chance(0.3) ? 'D' : 'j';
    if (g.chance(0.3)) { one[4] = 1; one += "ab"; }
    else one[4] = one[5] = one[6] = 0;
    for (size_t i = 0; i < n; i++) many += one;
    s.insert(at, many);
    if (g.chance(0.4)) s.resize(at + many.size() - g.range(0, 9));
    what = w.Str() + Fmt(", %zu chunks put in", n);
    Stat("files of very many chunks");
  }
  if (g.chance(0.15) && s.size() > 50) { s.pop_back(); what += " less one byte"; }
  const std::string path = c.scratch + "/h.wav";
  { std::ofstream o(path, std::ios::binary); o << s; }
  Note(what);
  const Found f = Walk(s);
  g_bytes = 0;
  g_count = kCounting;
  Visqol::AudioSignal sig = MiscAudio::LoadAsMono(FilePath(path));
  g_count = false;
  if (kCounting && g_bytes > 120 * s.size() + (2u << 20))
    Viol("memory out of proportion", what + Fmt(": %llu bytes requested for a file of %zu", (unsigned long long)g_bytes.load(), s.size()));
  const size_t rows = sig.data_matrix.NumRows();
  if (!f.header && f.exact) {
    if (rows) return Viol("malformed file loaded", what + Fmt(": %zu samples", rows));
    Stat("malformed files refused");
  } else if (f.exact) {
    const size_t have = std::min<size_t>(f.size, s.size() - f.at) / 2 / f.channels;
    std::vector<int16_t> d;
    for (size_t i = 0; i < have * f.channels; i++) d.push_back(Sample16(s, f.at + 2 * i));
    const Vec want = Mean(d, f.channels);
    if (have == 0) {
      if (rows) return Viol("samples out of nothing", what + Fmt(": %zu", rows));
    } else if (rows == 0) {
      // a reader may refuse a truncated file; not one that is complete
      if (f.size <= s.size() - f.at && f.size / 2 % f.channels == 0 && f.rate > 0 && f.rate < 0x80000000u)
        return Viol("good file refused", what);
      Stat("truncated files refused");
    } else {
      const size_t n = std::min(rows, want.size());
      if (rows > want.size()) return Viol("more samples than the file holds", what + Fmt(": %zu, file holds %zu", rows, want.size()));
      for (size_t i = 0; i < n; i++)
        if (!Close(sig.data_matrix(i, 0), want[i], 1e-12)) return Viol("samples not in the file", what + Fmt(": sample %zu is %.9g, file holds %.9g", i, sig.data_matrix(i, 0), want[i]));
      if (f.rate < 0x80000000u && sig.sample_rate != f.rate) return Viol("sample rate", what + Fmt(": %zu", sig.sample_rate));
      Stat(f.size > s.size() - f.at ? "truncated files loaded" : "mutated files loaded");
    }
  } else {
    if (rows * std::max<size_t>(1, f.channels) * 2 > s.size()) return Viol("more samples than the file holds", what + Fmt(": %zu rows", rows));
    Stat("self-contradicting headers");
  }
  if (!rows && sig.data_matrix.NumElements()) Viol("empty signal has elements", what);
  // the reader alone
  {
    std::istringstream in(s);
    Visqol::WavReader r(&in);
    if (r.IsHeaderValid()) {
      if (!f.header && f.exact) return Viol("malformed header accepted", what);
      if (f.exact && (r.GetNumChannels() != f.channels || r.GetNumTotalSamples() != f.size / 2))
        return Viol("reported totals", what + Fmt(": %zu channels, %zu samples", r.GetNumChannels(), r.GetNumTotalSamples()));
      if (f.channels && Get16(s, 34) == 16) (void)r.GetDuration();
    }
    const size_t total = f.exact ? (s.size() > f.at ? std::min<size_t>(f.size, s.size() - f.at) : 0) / 2 : s.size() / 2;
    std::vector<int16_t> got;
    for (int i = 0; i < 50; i++) {
      const size_t n = g.range(0, 200);
      std::vector<int16_t> buf(n);  // its end is guarded by the sanitizer
      const size_t m = r.ReadSamples(n, buf.data());
      if (m > n) return Viol("read more than asked", what + Fmt(": %zu of %zu", m, n));
      if (m == 0 && n > 0) break;
      got.insert(got.end(), buf.begin(), buf.begin() + m);
    }
    if (r.IsHeaderValid()) {
      if (got.size() > total) return Viol("pieces hold more than the file", what + Fmt(": %zu, file holds %zu", got.size(), total));
      if (f.exact)
        for (size_t i = 0; i < got.size(); i++)
          if (got[i] != Sample16(s, f.at + 2 * i)) return Viol("pieces not in the file", what + Fmt(": sample %zu", i));
    }
  }
  Cover(what);
  if (c.index < 6) Sample(what);
  if (!compare) return;
  Wav good;
  good.rate = 200;
  good.data.resize(900);
  for (auto& v : good.data) v = static_cast<int16_t>(2000 * g.gauss());
  const std::string gp = c.scratch + "/g.wav";
  { std::ofstream o(gp, std::ios::binary); o << good.Bytes(); }
  ref::Config cfg;
  cfg.radius = 1;
  cfg.no_realign = true;
  prod::SetModel(c, &cfg);
  Visqol::VisqolManager m;
  if (!prod::Init(m, cfg).ok()) return;
  const bool as_ref = g.chance(0.5);
  const std::string hp = g.chance(0.15) ? c.scratch + (g.chance(0.5) ? "" : "/missing.wav") : path;
  const auto res = as_ref ? m.Run(FilePath(hp), FilePath(gp)) : m.Run(FilePath(gp), FilePath(hp));
  Stat("comparisons");
  if ((hp != path || rows == 0) && res.ok()) Viol("comparison of an unreadable file succeeded", what);
}

// ---------------------------------------------------------------- C06
static void DownmixCase(Ctx& c) {
  Rng& g = c.rng;
  Wav w = RandomWav(g, 3000);
  w.channels = g.chance(0.15) ? 1 : g.chance(0.03) ? g.pick(std::vector<size_t>{255, 256, 257, 511, 512, 1000, 4096, 32767, 32768, 65535}) : g.range(2, g.chance(0.2) ? 300 : 9);
  size_t n = g.chance(0.1) ? 1 : g.range(1, 1 + 4000 / w.channels);
  if (c.index % 251 == 3) { n = g.range(100000, 5000000) / w.channels + 1; Stat("long files"); }
  const int kind = static_cast<int>(g.range(0, 4));
  w.data.resize(n * w.channels);
  for (size_t i = 0; i < w.data.size(); i++) {
    const size_t k = i % w.channels;
    // extremes add up beyond 16 bits; opposite channels cancel; one channel alone
    w.data[i] = kind == 0 ? static_cast<int16_t>(g.next()) : kind == 1 ? (g.chance(0.5) ? 32767 : -32768)
                : kind == 2 ? static_cast<int16_t>(k % 2 ? -1000 : 1000) : kind == 3 ? static_cast<int16_t>(k == i / w.channels % w.channels ? 12345 : 0)
                            : static_cast<int16_t>(100 * k + i / w.channels);
  }
  const std::string what = w.Str();
  Note("downmix " + what);
  std::stringstream ss(w.Bytes());
  const Visqol::AudioSignal o = MiscAudio::LoadAsMono(&ss);
  const std::string bad = Unlike(o, Mean(w.data, w.channels), w.channels, w.rate);
  if (!bad.empty()) return Viol("downmix", what + ": " + bad);
  if (w.channels > 1) {  // in another order: the same up to rounding
    std::vector<size_t> p(w.channels);
    for (size_t i = 0; i < p.size(); i++) p[i] = i;
    for (size_t i = p.size() - 1; i > 0; i--) std::swap(p[i], p[g.range(0, i)]);
    Wav v = w;
    for (size_t i = 0; i < w.data.size(); i++) v.data[i] = w.data[i / w.channels * w.channels + p[i % w.channels]];
    std::stringstream s2(v.Bytes());
    const Visqol::AudioSignal o2 = MiscAudio::LoadAsMono(&s2);
    for (size_t i = 0; i < n; i++)
      if (o2.data_matrix.NumRows() != n || !Close(o2.data_matrix(i, 0), o.data_matrix(i, 0), 1e-12)) return Viol("channel order matters", what);
  }
  Stat("downmixed frames", n);
  Stat(w.channels == 1 ? "mono signals" : "multichannel signals");
  Cover(what);
}
static void DownmixFilesCase(Ctx& c) {
  Rng& g = c.rng;
  ref::Config cfg = prod::RandomConfig(c);
  cfg.no_realign = cfg.no_realign || g.chance(0.5);
  cfg.radius = static_cast<int>(g.range(0, 10));
  const size_t rate = g.pick(std::vector<size_t>{200, 400, 1000, 2000});
  const size_t n = static_cast<size_t>(rate * g.uni(1.2, 3));
  // exact means: any way of averaging two, four or eight of them agrees
  const size_t ch = g.pick(std::vector<size_t>{1, 2, 2, 4, 8});
  std::string w1, w2;
  const Vec base = g.chance(0.5) ? sig::Speechy(g, n, rate) : sig::Gen(g, n, rate, &w1);
  const Vec degr = sig::Degrade(g, base, rate, &w2);
  double top = 1e-9;
  for (double v : base) top = std::max(top, std::fabs(v));
  for (double v : degr) top = std::max(top, std::fabs(v));
  auto channels = [&](const Vec& x, Wav* w) {
    w->channels = ch;
    w->rate = rate;
    w->data.clear();
    for (double v : x)
      for (size_t k = 0; k < ch; k++)
        w->data.push_back(static_cast<int16_t>(std::lround(std::clamp((0.3 + 0.6 * (k % 3) / 2) * 20000 * v / top + 200 * g.gauss(), -32000.0, 32000.0))));
  };
  Wav r, d;
  channels(base, &r);
  channels(degr, &d);
  const std::string what = cfg.Str() + Fmt(" rate=%zu channels=%zu %s -> %s", rate, ch, w1.c_str(), w2.c_str());
  Note(what);
  auto write = [&](Wav& w, const char* nm) {
    const std::string p = c.scratch + "/" + nm;
    std::ofstream(p, std::ios::binary) << w.Bytes();
    return FilePath(p);
  };
  Visqol::VisqolManager m;
  if (!prod::Init(m, cfg).ok()) return;
  auto run = [&](Wav& a, Wav& b) {
    auto s = m.Run(write(a, "r.wav"), write(b, "d.wav"));
    Stat("comparisons");
    return s.ok() ? prod::FromMsg(s.value()) : prod::FromStatus(s.status());
  };
  const ref::Obs files = run(r, d);
  const ref::Obs mem = prod::Run(m, Mean(r.data, ch), Mean(d.data, ch), rate);
  std::string df = prod::Differs(files, mem);
  if (!df.empty()) return Viol("files differ from averaged samples", what + ": " + df);
  if (ch > 1) {  // channel order
    Wav r2 = r, d2 = d;
    std::vector<size_t> p(ch);
    for (size_t i = 0; i < ch; i++) p[i] = i;
    for (size_t i = ch - 1; i > 0; i--) std::swap(p[i], p[g.range(0, i)]);
    if (std::is_sorted(p.begin(), p.end())) std::swap(p[0], p[ch - 1]);
    for (size_t i = 0; i < r.data.size(); i++) r2.data[i] = r.data[i / ch * ch + p[i % ch]];
    for (size_t i = 0; i < d.data.size(); i++) d2.data[i] = d.data[i / ch * ch + p[(i + 1) % ch]];
    df = prod::Differs(files, run(r2, d2));
    if (!df.empty()) return Viol("channel order matters", what + ": " + df);
  } else {  // duplication
    Wav r2 = r;
    r2.channels = g.pick(std::vector<size_t>{2, 4});
    r2.data.clear();
    for (int16_t v : r.data) r2.data.insert(r2.data.end(), r2.channels, v);
    df = prod::Differs(files, run(r2, d));
    if (!df.empty()) return Viol("duplicated channels matter", what + ": " + df);
  }
  Stat(files.ok ? "results compared" : "refusals compared");
  Cover(what + Fmt(" %.9g", files.vnsim));
  if (c.index < 40) Sample(what + Fmt(": similarity %.6g", files.vnsim));
}

void RunCase(Ctx& c) {
  if (c.mode == "read") WellFormedCase(c);
  else if (c.mode == "hostile") HostileFileCase(c);
  else if (c.mode == "downmix") { if (c.rng.chance(0.09)) DownmixFilesCase(c); else DownmixCase(c); }
}
}  // namespace mon
