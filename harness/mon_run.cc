// Properties of whole comparisons that need no step-by-step model:
// C02, C03, C07, C08, C12, C17, C22.
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <climits>
#include <cstring>
#include <fstream>

#include "alignment.h"
#include "misc_audio.h"
#include "prod.h"
#include "sig.h"
#include "visqol_api.h"

namespace mon {
using ref::Config;
using ref::Obs;
using ref::Vec;

// A signal pair and configuration of ordinary size.
struct Job {
  Config g;
  size_t rate;
  Vec x, y;
  std::string what;
};
static Job MakeJob(Ctx& c, double max_secs = 1.6) {
  Rng& r = c.rng;
  Job j;
  j.g = prod::RandomConfig(c);
  j.rate = sig::Rate(r);
  if (j.rate > 6000 && r.chance(0.6)) j.rate = 2000;
  const double secs = (j.g.speech ? 0.7 : 1.0) + r.uni(0, max_secs);
  std::string a, b;
  j.x = sig::Gen(r, static_cast<size_t>(secs * j.rate), j.rate, &a);
  j.y = sig::Degrade(r, j.x, j.rate, &b);
  if (r.chance(0.1)) {  // beyond full scale, as 16-bit integers are
    const double k = std::pow(10, r.uni(0, 4.6));
    for (double& v : j.x) v *= k;
    if (r.chance(0.8)) for (double& v : j.y) v *= k;
    a += Fmt(" x%.3g", k);
  }
  j.what = Fmt("%s rate=%zu n=%zu/%zu %s -> %s", j.g.Str().c_str(), j.rate, j.x.size(), j.y.size(), a.c_str(), b.c_str());
  return j;
}

// Is either run explained by the model? Separates ties from wrong behaviour.
static ref::Outcome Judge(const Config& g, const Vec& x, const Vec& y, size_t rate, const Obs& o) {
  Obs base;
  if (!g.no_realign) {
    Config b = g;
    b.no_realign = true;
    base = prod::RunFresh(b, x, y, rate);
  }
  return ref::CheckRun(x, y, rate, g, o, &base);
}

// ---------------------------------------------------------------- C02
static void Consistency(Ctx& c) {
  Rng& r = c.rng;
  Job j = MakeJob(c, 2.5);
  const double u = r.uni();
  if (u < 0.06) { std::fill(j.y.begin(), j.y.end(), 0.0); j.what += " degraded silent"; }
  else if (u < 0.09) { std::fill(j.x.begin(), j.x.end(), 0.0); j.what += " reference silent"; }
  else if (u < 0.11) { std::fill(j.x.begin(), j.x.end(), 0.0); j.y = j.x; j.what += " both silent"; }
  else if (u < 0.2) { for (double& v : j.x) v *= 1e4; j.what += " reference x1e4"; }
  else if (u < 0.3) { for (double& v : j.x) v *= 1e-5; j.what += " reference x1e-5"; }
  else if (u < 0.4) {
    j.x = sig::Steady(r, j.x.size(), j.rate);
    if (sig::Rms(j.x) == 0) j.x[0] = 0.5;
    // louder than full scale: the floor of a frame is then above the absolute one
    if (r.chance(0.6)) { const double k = std::pow(10, r.uni(0, 4.6)); for (double& v : j.x) v *= k; }
    j.y = r.chance(0.3) ? sig::Steady(r, j.x.size(), j.rate) : j.x;
    if (r.chance(0.7)) {  // louder here, softer there
      double k = 1;
      const size_t seg = ref::HopSize(j.rate) * r.range(8, 40);
      for (size_t i = 0; i < j.y.size(); i++) {
        if (i % seg == 0) k = std::pow(10, r.uni(-1, 0));
        j.y[i] *= k;
      }
    }
    const double s = sig::Rms(j.y) * std::pow(10, r.chance(0.3) ? r.uni(-12, -2) : r.uni(-4, -1));
    if (r.chance(0.7)) for (double& v : j.y) v += s * r.gauss();
    if (sig::Rms(j.y) == 0) j.y[0] = 0.5;
    j.what += " replaced by steady tones";
  } else if (u < 0.49) {
    // time-reversed level pattern: structure of opposite sign
    j.y.resize(j.x.size());
    double mx = 1e-9;
    for (double v : j.x) mx = std::max(mx, std::fabs(v));
    for (size_t i = 0; i < j.y.size(); i++) j.y[i] = (mx - std::fabs(j.x[i])) * r.gauss() * 0.5;
    j.what += " complementary level";
  }
  Note(j.what);
  const Obs o = prod::RunFresh(j.g, j.x, j.y, j.rate);
  Stat(o.ok ? "results" : "errors");
  if (!o.ok) return;
  Stat("patches", o.patches.size());
  for (auto& p : o.patches) Stat("patches dropped", p.ds == 0 && p.de == 0);
  Stat("below 0.15", o.vnsim < 0.15);
  std::string det;
  const std::string k = ref::CheckConsistency(j.g, o, &det);
  if (!k.empty()) Viol("consistency:" + k, j.what + ": " + det + "; " + prod::Brief(o));
  Cover(Fmt("%s %.9g %zu", j.g.Str().c_str(), o.vnsim, o.patches.size()));
  Sample(j.what + " -> " + prod::Brief(o));
}

// ---------------------------------------------------------------- C03
static void Hostile(Ctx& c) {
  Rng& r = c.rng;
  static const std::vector<size_t> rates = {0, 1, 2, 3, 7, 12, 13, 18, 19, 24, 25, 31, 44, 49, 50, 51, 56, 63, 75, 100, 101, 113, 125,
                                            130, 150, 200, 333, 500, 777, 1000, 1000, 1600, 2000, 2000, 4000, 8000, 11025};
  size_t rate = r.chance(0.03) ? r.pick(std::vector<size_t>{44100, 48000, 96000, 192000, 384000, 768000, 1000000, 4000000000u, (size_t)1 << 40, SIZE_MAX}) : r.pick(rates);
  Config g = prod::RandomConfig(c);
  if (r.chance(0.35)) g.radius = r.pick(std::vector<int>{-1, -60, INT_MIN, 0, 0, 1, 2, 1000, 71582788, 71582789, 107374183, INT_MAX});
  const size_t w = rate < 1000001 ? ref::WindowSize(rate) : 3000, hop = std::max<size_t>(1, rate < 1000001 ? ref::HopSize(rate) : 700);
  auto len = [&]() -> size_t {
    const size_t psz = g.speech ? 20 : 30, lead = g.speech ? 9 : 15;
    switch (r.range(0, 9)) {
      case 0: return r.range(0, 3);
      case 1: return w + r.range(-2, 2) + 2 > 2 ? w + r.range(0, 3) - std::min<size_t>(w, 1) : 1;
      case 2: return w + hop * r.range(0, 6) + r.range(0, 2);
      case 3: case 4: return w + hop * (psz + lead - 1 + r.range(-2, 2)) + r.range(0, 2) - std::min<size_t>(w, 1);
      case 5: return w + hop * (2 * psz + lead - 1 + r.range(-2, 2)) + r.range(0, 1);
      case 6: return r.range(0, w + hop * 60);
      case 7: return r.range(1, 40);
      default: return w + hop * r.range(30, 140);
    }
  };
  const size_t cap = std::max<size_t>(60000, rate > 48000 && rate < 1000001 ? w + hop * (rate > 192000 ? 5 : 45) : 0);
  size_t n = std::min<size_t>(len(), cap), m = r.chance(0.3) ? n : std::min<size_t>(len(), cap);
  if (r.chance(0.04)) m = std::min<size_t>(n * 8 + 5, 60000);
  if (rate > 48000) { g.radius = std::min(g.radius, 1); Stat("very high rates"); }
  std::string a = "?", b = "?";
  const size_t grate = std::max<size_t>(50, std::min<size_t>(rate, 48000));
  auto content = [&](size_t k, std::string* d) {
    Vec v(k, 0.0);
    switch (r.range(0, 11)) {
      case 0: *d = "zeros"; break;
      case 1: *d = "constant"; std::fill(v.begin(), v.end(), r.uni(-1, 1)); break;
      case 2: { *d = "huge"; const double s = r.pick(std::vector<double>{1e10, 1e20, 1e39, 1e100, 1e155, 1e300, 1.7e308}); for (double& x : v) x = s * r.uni(-1, 1); break; }
      case 3: { *d = "tiny"; const double s = r.pick(std::vector<double>{1e-10, 1e-30, 1e-46, 1e-160, 1e-308, 5e-324}); for (double& x : v) x = s * r.uni(-2, 2); break; }
      case 4: *d = "one impulse"; if (k) v[r.range(0, k - 1)] = r.uni(-1, 1); break;
      case 5: *d = "mixed magnitudes"; for (double& x : v) x = std::pow(10, r.uni(-300, 300)) * (r.chance(0.5) ? 1 : -1); break;
      case 6: *d = "all negative"; for (double& x : v) x = -std::fabs(r.gauss()) - 0.01; break;
      case 7: { *d = "nonfinite"; for (double& x : v) x = r.gauss() * 0.1;
                for (int q = 0; q < 3 && k; q++) v[r.range(0, k - 1)] = r.pick(std::vector<double>{INFINITY, -INFINITY, NAN}); break; }
      default: if (k) v = sig::Gen(r, k, grate, d);
    }
    return v;
  };
  // many patches that are all alike
  const bool alike = !(rate > 48000) && r.chance(0.12);
  if (alike) {
    n = std::min<size_t>(w + hop * (g.speech ? 20 : 30) * r.range(18, 45), 200000);
    if (g.radius > 1) g.radius = static_cast<int>(r.range(0, 1));
  }
  const Vec x = content(n, &a);
  Vec y;
  if (alike) {
    b = "the same";
    y = x;
    if (r.chance(0.3)) { b = "silence"; y = Vec(n, 0.0); }
    Stat("many equal patches");
  } else if (r.chance(0.4)) { y = sig::Degrade(r, x, grate, &b); if (y.size() > cap) y.resize(cap); }
  else y = content(m, &b);
  const std::string what = Fmt("%s rate=%zu n=%zu/%zu %s | %s", g.Str().c_str(), rate, x.size(), y.size(), a.c_str(), b.c_str());
  Note(what);
  Obs o = prod::RunFresh(g, x, y, rate);
  Stat(o.ok ? "results" : Fmt("errors code %d", o.code));
  if (!o.ok && o.code != 3 && o.code != 1) Viol("error-kind", what + ": " + prod::Brief(o));
  Cover(what);
  Sample(what + " -> " + prod::Brief(o));
}

// ---------------------------------------------------------------- C07
static void Gain(Ctx& c) {
  Rng& r = c.rng;
  {  // the scaling step
    Vec x = sig::Gen(r, r.range(1, 3000), 2000), y = sig::Gen(r, r.range(1, 3000), 2000);
    const size_t rate = r.chance(0.4) ? r.range(1, 200) : r.range(1, 48000);
    if (r.chance(0.06)) {
      // minutes of audio, its level changing on the way
      for (Vec* v : {&x, &y}) {
        if (!r.chance(0.7)) continue;
        const size_t k = r.range(1, 200000);
        double a = 0.1;
        for (size_t i = 0; i < k; i++) {
          if (i % 20000 == 0) a = std::pow(10, r.uni(-4, 0));
          v->push_back(a * r.gauss());
        }
      }
      Stat("long signals scaled");
    }
    if (r.chance(0.3)) { const double q = std::pow(10, r.uni(-12, 9)); for (double& v : r.chance(0.7) ? y : x) v *= q; }
    const Visqol::AudioSignal sx = prod::Signal(x, rate), sy = prod::Signal(y, rate);
    const double want = ref::Spl(x);
    const Visqol::AudioSignal z = Visqol::MiscAudio::ScaleToMatchSoundPressureLevel(sx, sy);
    const Vec zv = prod::Samples(z);
    if (z.sample_rate != rate || zv.size() != y.size()) Viol("scaled-shape", Fmt("%zu samples at %zu Hz became %zu at %zu", y.size(), rate, zv.size(), z.sample_rate));
    else {
      const double k = sig::Rms(x) / sig::Rms(y);
      for (size_t i = 0; i < y.size(); i++)
        if (!Close(zv[i], y[i] * k, 1e-300, 1e-9)) { Viol("scaled-waveform", Fmt("sample %zu of %zu: %.12g, expected %.12g * %.12g", i, y.size(), zv[i], y[i], k)); break; }
      if (!Close(ref::Spl(zv), want, 1e-7)) Viol("scaled-level", Fmt("level %.12g after scaling, reference %.12g", ref::Spl(zv), want));
    }
    Stat("scaling checks");
  }
  Job j = MakeJob(c, 1.2);
  const double u = r.uni();
  const double k = u < 0.3 ? std::ldexp(1.0, static_cast<int>(r.range(-16, 16))) : std::pow(10, r.chance(0.2) ? r.uni(-9, 9) : r.uni(-6, 6));
  Vec y2 = j.y;
  for (double& v : y2) v *= k;
  j.what += Fmt(" gain %.6g", k);
  Note(j.what);
  const Obs a = prod::RunFresh(j.g, j.x, j.y, j.rate), b = prod::RunFresh(j.g, j.x, y2, j.rate);
  std::string d = prod::DiffersBy(a, b, 1e-6);
  if (!d.empty()) {
    const ref::Outcome p = Judge(j.g, j.x, j.y, j.rate, a), q = Judge(j.g, j.x, y2, j.rate, b);
    if (p.key.empty() && q.key.empty()) Inconclusive("tie decided by rounding");
    else Viol("gain-dependent", j.what + ": " + d + "; model: " + (p.key.empty() ? q.key + " " + q.detail : p.key + " " + p.detail));
  }
  if (a.ok) Cover(Fmt("%s %.9g %.3g", j.g.Str().c_str(), a.vnsim, k));
  Stat(a.ok ? "results" : "errors");
  Sample(j.what + " -> " + prod::Brief(b));
}

// ---------------------------------------------------------------- C08
static void Align(Ctx& c) {
  Rng& r = c.rng;
  const size_t rate = r.pick(std::vector<size_t>{1000, 8000, 16000, 44100, 48000, 11025, 12345});
  size_t n = r.chance(0.1) ? r.range(1, 40) : r.chance(0.25) ? r.range(8000, 40000) : r.range(40, 8000);
  // long signals, with lags beyond 16 bits and transforms of more than a hundred thousand points
  const bool is_long = c.index % 75 == 0;
  if (is_long) n = r.range(66000, c.thorough ? 600000 : 260000);
  if (c.index % 450 == 225) { n = r.range(1060000, c.thorough ? 5000000 : 1500000); Stat("signals of more than a million samples"); }
  std::string a, b = "shift";
  bool strict = false;
  Vec x, y;
  int64_t k = 0;
  if (r.chance(is_long ? 1 : 0.6)) {
    // noise-like content has one clear correlation peak
    strict = n >= 200;
    a = "noise";
    x = sig::Noise(r, n, r.uni(0.01, 0.3));
    if (r.chance(0.5)) { a = "shaped noise"; const double f = r.uni(1, 6); for (size_t i = 0; i < n; i++) x[i] *= 0.55 + 0.45 * std::sin(6.2831853 * f * i / n); }
    const int64_t lim = n / 2;
    const double u = is_long ? r.uni(0.2, 1) : r.uni();
    k = u < 0.2 ? r.range(-3, 3) : u < 0.35 ? lim * (r.chance(0.5) ? 1 : -1) : r.range(-lim, lim);
    // a delayed copy needs padding in front removed: lag = -k
    if (r.chance(0.5)) y = sig::Shift(x, k);
    else {  // same length: part is lost at the other end
      y = Vec(n, 0.0);
      for (int64_t i = 0; i < (int64_t)n; i++) if (i - k >= 0 && i - k < (int64_t)n) y[i] = x[i - k];
    }
    if (std::llabs(k) > static_cast<int64_t>(0.25 * n)) strict = strict && n >= 2000 && a == "noise";
    if (r.chance(0.4)) { const double s = 0.1 * sig::Rms(x); for (double& v : y) v += s * r.gauss(); b += "+noise"; strict = strict && n >= 1000; }
    if (r.chance(0.4)) { const double q = std::pow(10, r.uni(-2, 2)); for (double& v : y) v *= q; b += Fmt("*%.3g", q); }
  } else {
    x = sig::Gen(r, n, rate, &a);
    y = r.chance(0.7) ? sig::Degrade(r, x, rate, &b) : sig::Gen(r, r.range(1, 2 * n), rate, &b);
  }
  if (y.empty()) return;
  const std::string what = Fmt("n=%zu/%zu %s %s by %lld", x.size(), y.size(), a.c_str(), b.c_str(), (long long)k);
  Note(what);
  bool many;
  const std::vector<int64_t> cand = ref::AlignCandidates(x, y, &many);
  const Visqol::AudioSignal sx = prod::Signal(x, rate), sy = prod::Signal(y, rate);
  auto t = Visqol::Alignment::GloballyAlign(sx, sy);
  const double lag_s = std::get<1>(t);
  const int64_t lag = std::llround(lag_s * rate);
  Stat("alignments");
  if (std::llabs(lag) > 32767) Stat("lags beyond 16 bits");
  if (std::fabs(lag_s * rate - lag) > 1e-6) Viol("fractional", what + Fmt(": lag %.12g s at %zu Hz", lag_s, rate));
  if (std::fabs((double)lag) > x.size() / 2.0) Viol("beyond-half", what + Fmt(": lag %lld", (long long)lag));
  if (!many && std::find(cand.begin(), cand.end(), lag) == cand.end())
    Viol("not-maximal", what + Fmt(": lag %lld, the envelopes correlate best at %lld (%zu candidates)", (long long)lag, (long long)cand[0], cand.size()));
  if (strict) {
    Stat("known shifts");
    if (lag != -k) Viol("shift-missed", what + Fmt(": lag %lld, true shift needs %lld", (long long)lag, (long long)-k));
  }
  const Visqol::AudioSignal& z = std::get<0>(t);
  const Vec want = ref::ApplyLag(y, lag), got = prod::Samples(z);
  if (z.sample_rate != rate) Viol("rate", what + Fmt(": %zu Hz became %zu", rate, z.sample_rate));
  if (got != want) Viol("aligned-samples", what + Fmt(": lag %lld gave %s expected %s", (long long)lag, Head(got).c_str(), Head(want).c_str()));
  if (prod::Samples(sy) != y || prod::Samples(sx) != x) Viol("inputs-modified", what);
  // as used for realignment: both truncated to what they share
  auto u = Visqol::Alignment::AlignAndTruncate(sx, sy);
  Vec er, ed;
  ref::AlignAndTruncate(x, y, lag, rate, &er, &ed);
  if (std::get<2>(u) != lag_s) Viol("truncate-lag", what + Fmt(": %.12g vs %.12g", std::get<2>(u), lag_s));
  if (prod::Samples(std::get<0>(u)) != er || prod::Samples(std::get<1>(u)) != ed)
    Viol("truncated-samples", what + Fmt(": lag %lld: %s/%s expected %s/%s", (long long)lag, Head(prod::Samples(std::get<0>(u))).c_str(), Head(prod::Samples(std::get<1>(u))).c_str(), Head(er).c_str(), Head(ed).c_str()));
  if (std::get<0>(u).sample_rate != rate || std::get<1>(u).sample_rate != rate) Viol("truncate-rate", what);
  Cover(what);
  Sample(what + Fmt(" -> lag %lld", (long long)lag));
}
// the lag a comparison reports is that of its signals
static void AlignRun(Ctx& c) {
  Job j = MakeJob(c, 1.0);
  j.g.no_realign = true;
  j.g.radius = 1;
  Note(j.what);
  const Obs o = prod::RunFresh(j.g, j.x, j.y, j.rate);
  if (!o.ok) return;
  const int64_t lag = std::llround(o.lag * j.rate);
  if (j.g.no_align) {
    if (o.lag != 0) Viol("lag-when-disabled", j.what + Fmt(": %.9g", o.lag));
  } else {
    bool many;
    const auto cand = ref::AlignCandidates(j.x, j.y, &many);
    if (!many && std::find(cand.begin(), cand.end(), lag) == cand.end())
      Viol("reported-lag", j.what + Fmt(": reported %.9g s, expected %lld samples", o.lag, (long long)cand[0]));
    if (std::fabs(o.lag * j.rate - lag) > 1e-6) Viol("fractional", j.what);
    // comparing the aligned signal without alignment is the same comparison
    Config g2 = j.g;
    g2.no_align = true;
    Obs p = prod::RunFresh(g2, j.x, ref::ApplyLag(j.y, lag), j.rate);
    p.lag = o.lag;
    const std::string d = prod::DiffersBy(o, p, 1e-9);
    if (!d.empty()) Viol("compensation", j.what + Fmt(": lag %lld applied beforehand gives another result: ", (long long)lag) + d);
  }
  Cover(Fmt("run %lld %.9g", (long long)lag, o.vnsim));
  Stat("comparisons with a lag", lag != 0);
}

// ---------------------------------------------------------------- C12
static void Identity(Ctx& c) {
  Rng& r = c.rng;
  Job j = MakeJob(c, 1.8);
  j.what = Fmt("%s rate=%zu n=%zu itself; other: ", j.g.Str().c_str(), j.rate, j.x.size()) + j.what;
  Note(j.what);
  const Obs o = prod::RunFresh(j.g, j.x, j.x, j.rate);
  if (!o.ok) {
    const ref::Outcome q = Judge(j.g, j.x, j.x, j.rate, o);
    if (!q.key.empty()) Viol("refused", j.what + ": " + prod::Brief(o));
    return;
  }
  auto bad = [&](const char* k, const std::string& d) { Viol(k, j.what + ": " + d + "; " + prod::Brief(o)); };
  if (o.lag != 0) {
    bool many;
    const auto cand = ref::AlignCandidates(j.x, j.x, &many);
    if (many || std::find(cand.begin(), cand.end(), std::llround(o.lag * j.rate)) != cand.end()) { Inconclusive("several equal lags"); return; }
    return bad("lag", Fmt("%.9g", o.lag));
  }
  if (!Close(o.vnsim, 1, 1e-7)) return bad("vnsim", Fmt("%.12g", o.vnsim));
  const size_t B = j.g.speech ? 21 : 32;
  const Vec one(B, 1.0);
  if (Mismatch(o.fvnsim, one, 1e-7) != -1) return bad("fvnsim", Head(o.fvnsim));
  if (Mismatch(o.fvnsim10, one, 1e-7) != -1) return bad("fvnsim10", Head(o.fvnsim10));
  if (Mismatch(o.fstdnsim, Vec(B, 0.0), 2e-4) != -1) return bad("fstdnsim", Head(o.fstdnsim));
  for (size_t i = 0; i < o.patches.size(); i++) {
    const ref::Patch& p = o.patches[i];
    if (!Close(p.sim, 1, 1e-7)) return bad("patch", Fmt("patch %zu similarity %.12g", i, p.sim));
    if (Mismatch(p.means, one, 1e-7) != -1) return bad("patch-bands", Fmt("patch %zu ", i) + Head(p.means));
    // content that repeats (silence, tones) is equally similar elsewhere
    if (!Close(p.rs, p.ds, 1e-9) || !Close(p.re, p.de, 1e-9)) {
      const double fd = ref::HopSize(j.rate) / (double)j.rate;
      ref::Mat R;
      ref::Spectrogram(j.x, j.rate, B, 50, j.g.speech, &R, nullptr);
      ref::Mat D = R;
      ref::Prepare(&R, &D);
      const size_t psz = j.g.speech ? 20 : 30;
      const double s = ref::Nsim(ref::Columns(R, std::llround(p.rs / fd), psz), ref::Columns(R, std::llround(p.ds / fd), psz)).sim;
      if (s > 1 - 1e-9 || Judge(j.g, j.x, j.x, j.rate, o).key.empty()) { Inconclusive("repeating content"); continue; }
      return bad("times", Fmt("patch %zu ref [%.9g,%.9g] deg [%.9g,%.9g] (similarity there %.12g)", i, p.rs, p.re, p.ds, p.de, s));
    }
  }
  double want;
  if (!j.g.speech) want = std::max(1.0, std::min(5.0, ref::SvrPredict(j.g.model, one)));
  else if (!j.g.lattice) want = j.g.unscaled ? ref::Exponential(1, false) : 5.0;
  else want = ref::QualityOf(j.g, o);
  if (!Close(o.moslqo, want, j.g.speech && !j.g.lattice && !j.g.unscaled ? 2e-6 : 1e-6)) return bad("score", Fmt("%.12g, the model gives %.12g", o.moslqo, want));
  Cover(Fmt("%s %zu %zu %.9g", j.g.Str().c_str(), j.rate, j.x.size(), j.x[j.x.size() / 2]));
  // nothing is more similar than the signal itself
  const Obs p = prod::RunFresh(j.g, j.x, j.y, j.rate);
  if (p.ok) {
    Stat("other degraded signals");
    if (p.vnsim > o.vnsim + 1e-7) bad("beaten", Fmt("another signal scores vnsim %.12g", p.vnsim));
  }
  (void)r;
  Sample(j.what + " -> " + prod::Brief(o));
}

// ---------------------------------------------------------------- C17
// Answers what a process that has never compared anything before would: one
// process is set aside before the first comparison and makes a copy of itself
// for each question.
class Pristine {
 public:
  static Pristine& Get() {
    static Pristine p;
    return p;
  }
  Obs Ask(const Config& g, const Vec& x, const Vec& y, size_t rate, bool* answered) {
    std::string q;
    for (bool b : {g.speech, g.lattice, g.unscaled, g.no_align, g.no_realign}) q.push_back(static_cast<char>(b));
    Num(&q, g.radius); Num(&q, static_cast<double>(rate));
    Num(&q, g.model.size()); q += g.model;
    Put(&q, x); Put(&q, y);
    const uint64_t n = q.size();
    Obs o;
    *answered = WriteAll(to_, &n, 8) && WriteAll(to_, q.data(), n);
    uint64_t m = 0;
    std::string a;
    if (*answered && (*answered = ReadAll(from_, &m, 8))) {
      a.resize(m);
      *answered = ReadAll(from_, &a[0], m) && m > 0;
    }
    if (*answered) Decode(a, &o);
    return o;
  }

 private:
  Pristine() {
    int q[2], a[2];
    if (pipe(q) || pipe(a)) { perror("pipe"); _exit(3); }
    fflush(stdout);
    if (fork() == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGPIPE, SIG_DFL);
      dup2(q[0], 0);
      const int out = dup2(a[1], 3) == 3 ? 3 : _exit_now();
      dup2(2, 1);
      close_range(4, ~0u, 0);
      Serve(0, out);
      _exit(0);
    }
    close(q[0]); close(a[1]);
    to_ = q[1]; from_ = a[0];
    fcntl(to_, F_SETFD, FD_CLOEXEC); fcntl(from_, F_SETFD, FD_CLOEXEC);
    signal(SIGPIPE, SIG_IGN);
  }
  static int _exit_now() { _exit(3); }
  static void Serve(int in, int out) {
    for (;;) {
      uint64_t n = 0;
      if (!ReadAll(in, &n, 8)) return;
      std::string q(n, 0);
      if (!ReadAll(in, &q[0], n)) return;
      int p[2];
      if (pipe(p)) return;
      const pid_t child = fork();
      if (child == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        std::string a;
        Encode(Answer(q), &a);
        WriteAll(p[1], a.data(), a.size());
        _exit(0);
      }
      close(p[1]);
      std::string a;
      char buf[65536];
      for (ssize_t k; (k = read(p[0], buf, sizeof buf)) > 0;) a.append(buf, k);
      close(p[0]);
      int st = 0;
      waitpid(child, &st, 0);
      if (st) a.clear();
      const uint64_t m = a.size();
      if (!WriteAll(out, &m, 8) || !WriteAll(out, a.data(), m)) return;
    }
  }
  static Obs Answer(const std::string& q) {
    size_t i = 0;
    Config g;
    g.speech = q[0]; g.lattice = q[1]; g.unscaled = q[2]; g.no_align = q[3]; g.no_realign = q[4];
    i = 5;
    g.radius = static_cast<int>(Num(q, &i));
    const size_t rate = static_cast<size_t>(Num(q, &i)), len = static_cast<size_t>(Num(q, &i));
    g.model = q.substr(i, len);
    i += len;
    const Vec x = Get(q, &i), y = Get(q, &i);
    return prod::RunFresh(g, x, y, rate);
  }
  static void Encode(const Obs& o, std::string* s) {
    for (double v : {o.ok ? 1.0 : 0.0, static_cast<double>(o.code), o.moslqo, o.vnsim, o.lag}) Num(s, v);
    for (const Vec* v : {&o.fvnsim, &o.fvnsim10, &o.fstdnsim, &o.fvdegenergy, &o.cf}) Put(s, *v);
    Num(s, o.patches.size());
    for (auto& p : o.patches) { Put(s, {p.sim, p.rs, p.re, p.ds, p.de}); Put(s, p.means); }
    Num(s, o.msg.size());
    *s += o.msg;
  }
  static void Decode(const std::string& s, Obs* o) {
    size_t i = 0;
    o->ok = Num(s, &i) != 0; o->code = static_cast<int>(Num(s, &i));
    o->moslqo = Num(s, &i); o->vnsim = Num(s, &i); o->lag = Num(s, &i);
    for (Vec* v : {&o->fvnsim, &o->fvnsim10, &o->fstdnsim, &o->fvdegenergy, &o->cf}) *v = Get(s, &i);
    o->patches.resize(static_cast<size_t>(Num(s, &i)));
    for (auto& p : o->patches) {
      const Vec v = Get(s, &i);
      p.sim = v[0]; p.rs = v[1]; p.re = v[2]; p.ds = v[3]; p.de = v[4];
      p.means = Get(s, &i);
    }
    const size_t n = static_cast<size_t>(Num(s, &i));
    o->msg = s.substr(i, n);
  }
  static void Num(std::string* s, double v) { s->append(reinterpret_cast<const char*>(&v), 8); }
  static double Num(const std::string& s, size_t* i) {
    double v;
    memcpy(&v, s.data() + *i, 8);
    *i += 8;
    return v;
  }
  static void Put(std::string* s, const Vec& v) {
    Num(s, v.size());
    s->append(reinterpret_cast<const char*>(v.data()), 8 * v.size());
  }
  static Vec Get(const std::string& s, size_t* i) {
    Vec v(static_cast<size_t>(Num(s, i)));
    if (!v.empty()) memcpy(v.data(), s.data() + *i, 8 * v.size());
    *i += 8 * v.size();
    return v;
  }
  static bool WriteAll(int fd, const void* p, size_t n) {
    for (size_t i = 0; i < n;) {
      const ssize_t k = write(fd, static_cast<const char*>(p) + i, n - i);
      if (k <= 0) return false;
      i += k;
    }
    return true;
  }
  static bool ReadAll(int fd, void* p, size_t n) {
    for (size_t i = 0; i < n;) {
      const ssize_t k = read(fd, static_cast<char*>(p) + i, n - i);
      if (k <= 0) return false;
      i += k;
    }
    return true;
  }
  int to_ = -1, from_ = -1;
};

static void Reuse(Ctx& c) {
  Rng& r = c.rng;
  Pristine& pristine = Pristine::Get();
  const int nm = static_cast<int>(r.range(1, 3));
  struct M { Visqol::VisqolManager m; Config g; bool ready = false; };
  std::vector<std::unique_ptr<M>> ms;
  for (int i = 0; i < nm; i++) ms.push_back(std::make_unique<M>());
  std::vector<Job> pool;
  for (int i = 0; i < 4; i++) pool.push_back(MakeJob(c, 0.7));
  // looks like the first: same length, ends, mean and level, different inside
  for (int i = 0; i < 2; i++) {
    Job t = pool[0];
    Vec& v = i ? t.y : t.x;
    if (v.size() > 20) std::reverse(v.begin() + v.size() / 10, v.end() - v.size() / 10);
    pool.push_back(t);
  }
  // the same but for a short stretch
  for (int i = 0; i < 2; i++) {
    Job t = pool[i];
    Vec& v = r.chance(0.5) ? t.y : t.x;
    const size_t n = v.size(), len = n / r.range(8, 40), at = r.range(0, n - len);
    const double k = r.pick(std::vector<double>{0, -1, 0.5, 1.5});
    for (size_t q = at; q < at + len; q++) v[q] *= k;
    pool.push_back(t);
  }
  // pieces moved by several patches' worth: every option matters here
  for (int i = 0; i < 2; i++) {
    Job t = pool[i + 2];
    t.y = t.x;
    const size_t n = t.x.size(), at = n / 5 + r.range(0, n / 2), by = std::min(n / 3, static_cast<size_t>(t.rate * r.uni(0.03, 0.6)));
    if (n > 10) {
      if (r.chance(0.5)) t.y.insert(t.y.begin() + at, by, 0.0);
      else t.y.erase(t.y.begin() + at, t.y.begin() + std::min(n, at + by));
      for (double& v : t.y) v = 0.7 * v + 1e-3 * r.gauss();
    }
    pool.push_back(t);
  }
  const size_t sensitive = pool.size() - 2;
  // one that is refused for its length
  pool.push_back(pool[1]);
  pool.back().x.resize(std::min<size_t>(pool.back().x.size(), r.range(1, pool.back().rate / 5 + 1)));
  std::string hist;
  const int steps = static_cast<int>(r.range(6, 14));
  int forced = -1, forced_i = 0;
  for (int s = 0; s < steps; s++) {
    const int i = forced >= 0 ? forced_i : static_cast<int>(r.range(0, nm - 1));
    M& m = *ms[i];
    const bool follow = forced >= 0 && m.ready;
    if (!m.ready || (!follow && r.chance(0.25))) {
      if (m.ready && r.chance(0.6)) {  // one option differs from before
        switch (r.range(0, 5)) {
          case 0: m.g.speech = !m.g.speech; break;
          case 1: m.g.lattice = !m.g.lattice; break;
          case 2: m.g.unscaled = !m.g.unscaled; break;
          case 3: m.g.no_align = !m.g.no_align; break;
          case 4: m.g.no_realign = !m.g.no_realign; break;
          default: m.g.radius = m.g.radius ? (r.chance(0.6) ? 0 : static_cast<int>(r.range(1, 6))) : static_cast<int>(r.range(1, 6));
        }
        prod::SetModel(c, &m.g);
        forced = static_cast<int>(r.chance(0.8) ? sensitive + r.range(0, 1) : r.range(0, pool.size() - 1));
        forced_i = i;
      } else {
        m.g = prod::RandomConfig(c);
      }
      if (m.g.radius > 6) m.g.radius = 6;
      const bool bad_model = r.chance(0.2) && (!m.g.speech || m.g.lattice);
      Config g = m.g;
      if (bad_model) {
        g.model = c.scratch + "/missing_model";
        if (r.chance(0.5) && !g.speech) { g.model = c.scratch + "/garbage_model"; std::ofstream(g.model) << "not a model\n"; }
      }
      const absl::Status st = prod::Init(m.m, g);
      hist += Fmt(" %d:init(%s%s)", i, g.Str().c_str(), bad_model ? ",bad model" : "");
      Note(hist);
      if (st.ok() == bad_model) { Viol("init-status", hist + ": " + st.ToString()); return; }
      m.ready = !bad_model;
      if (bad_model) {
        Stat("failed initialisations");
        const Obs o = prod::Run(m.m, pool[0].x, pool[0].y, pool[0].rate);
        if (o.ok || o.code != 10) { Viol("usable-after-failed-init", hist + ": " + prod::Brief(o)); return; }
      }
      continue;
    }
    const Job& j = pool[follow ? forced : r.range(0, pool.size() - 1)];
    const int kind = follow ? 9 : static_cast<int>(r.range(0, 9));
    forced = -1;
    if (kind == 0) {  // failing comparisons
      Visqol::AudioSignal a = prod::Signal(j.x, j.rate), b = prod::Signal(j.y, j.rate + 1);
      auto st = m.m.Run(a, b);
      hist += Fmt(" %d:mixed-rates", i);
      if (st.ok()) Viol("mixed-rates", hist);
      continue;
    }
    if (kind == 1) {
      const Obs o = prod::Run(m.m, Vec(), j.y, j.rate);
      hist += Fmt(" %d:empty", i);
      if (o.ok) Viol("empty", hist);
      continue;
    }
    const Visqol::AudioSignal rs = prod::Signal(j.x, j.rate);
    Visqol::AudioSignal ds = prod::Signal(j.y, j.rate);
    auto st = m.m.Run(rs, ds);
    const Obs o = st.ok() ? prod::FromMsg(st.value()) : prod::FromStatus(st.status());
    hist += Fmt(" %d:run(rate %zu n %zu/%zu)", i, j.rate, j.x.size(), j.y.size());
    Note(hist);
    if (prod::Samples(rs) != j.x || rs.sample_rate != j.rate) Viol("reference-modified", hist);
    bool answered;
    const Obs f = pristine.Ask(m.g, j.x, j.y, j.rate, &answered);
    if (!answered) { Viol("fresh-process", hist + ": no answer for this comparison from a process that had made none"); return; }
    Stat("comparisons on used objects");
    const std::string d = prod::Differs(o, f);
    if (!d.empty()) { Viol("history-dependent", hist + ": used object vs fresh process: " + d); return; }
    Cover(Fmt("%s %d %.9g", m.g.Str().c_str(), s, o.vnsim));
  }
  // the measuring interface
  if (r.chance(0.4)) {
    Visqol::VisqolConfig cfg;
    const Job& j0 = pool[1];
    cfg.mutable_audio()->set_sample_rate(j0.rate);
    cfg.mutable_options()->set_use_speech_scoring(true);
    cfg.mutable_options()->set_allow_unsupported_sample_rates(true);
    cfg.mutable_options()->set_svr_model_path(prod::LatticeModel(c));
    Visqol::VisqolApi api, fresh;
    if (!api.Create(cfg).ok() || !fresh.Create(cfg).ok()) { Viol("api-create", "creation failed"); return; }
    Vec x = j0.x, y = j0.y, x2 = pool[2].x, y2 = pool[2].y;
    for (int k = 0; k < 2; k++) (void)api.Measure(absl::Span<double>(x2), absl::Span<double>(y2));
    auto a = api.Measure(absl::Span<double>(x), absl::Span<double>(y));
    if (x != j0.x || y != j0.y || x2 != pool[2].x || y2 != pool[2].y) Viol("buffers-modified", j0.what);
    auto b = fresh.Measure(absl::Span<double>(x), absl::Span<double>(y));
    const std::string d = prod::Differs(a.ok() ? prod::FromMsg(a.value()) : prod::FromStatus(a.status()),
                                        b.ok() ? prod::FromMsg(b.value()) : prod::FromStatus(b.status()));
    if (!d.empty()) Viol("api-history-dependent", j0.what + ": " + d);
    Stat("interface histories");
  }
  Sample(hist);
}

// ---------------------------------------------------------------- C22
static void WriteWav(const std::string& path, const Vec& v, uint32_t rate) {
  std::string s = "RIFF";
  auto u32 = [&](uint32_t x) { for (int i = 0; i < 4; i++) s += static_cast<char>(x >> (8 * i)); };
  auto u16 = [&](uint32_t x) { for (int i = 0; i < 2; i++) s += static_cast<char>(x >> (8 * i)); };
  u32(36 + 2 * v.size()); s += "WAVEfmt "; u32(16); u16(1); u16(1); u32(rate); u32(2 * rate); u16(2); u16(16);
  s += "data"; u32(2 * v.size());
  for (double x : v) u16(static_cast<uint16_t>(static_cast<int16_t>(std::max(-32768.0, std::min(32767.0, std::round(x * 32768))))));
  std::ofstream(path, std::ios::binary) << s;
}
static void Refuse(Ctx& c) {
  Rng& r = c.rng;
  Config g = prod::RandomConfig(c);
  if (g.radius > 3 && r.chance(0.7)) g.radius = static_cast<int>(r.range(0, 3));
  const bool high = r.chance(0.03);
  const size_t rate = high ? r.pick(std::vector<size_t>{15999, 16001, 22050, 44100, 47999, 48001, 64000, 96000, 192000, 384000})
                           : r.pick(std::vector<size_t>{200, 333, 500, 1000, 1600, 2000, 2205, 4000, 8000});
  const size_t w = ref::WindowSize(rate), hop = ref::HopSize(rate), psz = g.speech ? 20 : 30, lead = g.speech ? 9 : 15;
  const size_t minimum = w + hop * (psz + lead - 1);  // frames for one patch
  auto len = [&](bool is_ref) -> size_t {
    if (high) return minimum + r.range(0, 2);
    switch (r.range(0, 7)) {
      case 0: return w + r.range(-1, 1);
      case 1: case 2: case 3: return minimum + r.range(-1, 1);
      case 4: return is_ref ? minimum + hop * r.range(0, 70) : w + hop * r.range(0, 16) + r.range(0, 1);
      case 5: return minimum + hop * r.range(-2, 2);
      case 6: return is_ref ? minimum + r.range(0, 2) : 1 + r.range(0, w);
      default: return minimum + hop * r.range(0, 60);
    }
  };
  const size_t n = len(true), m = !high && r.chance(0.2) ? n * (rate < 1000 && r.chance(0.4) ? r.range(4, 25) : 3) : len(false);
  std::string a;
  auto content = [&](size_t k, std::string* d) {
    if (!r.chance(0.2)) return sig::Gen(r, k, rate, d);
    // dull, but comparable
    static const char* names[] = {"constant", "negative constant", "one impulse", "alternating", "silence, then a click", "square", "least bits"};
    const int kind = static_cast<int>(r.range(0, 6));
    Vec v(k, 0.0);
    const double s = r.uni(0.01, 1);
    for (size_t i = 0; i < k; i++)
      v[i] = kind == 0 ? s : kind == 1 ? -s : kind == 3 ? (i % 2 ? s : -s) : kind == 5 ? (i / 17 % 2 ? s : -s) : kind == 6 ? static_cast<double>(r.range(-1, 1)) / 32768 : 0;
    if (kind == 2 && k) v[r.range(0, k - 1)] = s;
    if (kind == 4 && k) v[k - 1] = -s;
    if (d) *d = names[kind];
    return v;
  };
  const Vec x = content(n, &a), y = r.chance(0.3) ? content(m, nullptr) : [&] { Vec t = x; t.resize(m, 0.0); if (sig::Rms(t) == 0) t[0] = 0.1; return t; }();
  const std::string what = Fmt("%s rate=%zu n=%zu/%zu (window %zu, one patch %zu) %s", g.Str().c_str(), rate, n, m, w, minimum, a.c_str());
  Note(what);
  Visqol::VisqolManager mgr;
  if (r.chance(0.1)) {
    const Obs o = prod::Run(mgr, x, y, rate);
    auto st = mgr.Run(Visqol::FilePath(c.repo + "/testdata/clean_speech/CA01_01.wav"), Visqol::FilePath(c.repo + "/testdata/clean_speech/CA01_01.wav"));
    if (o.ok || o.code != 10 || st.ok() || st.status().code() != absl::StatusCode::kAborted) Viol("uninitialised", what + ": " + prod::Brief(o));
    Stat("uninitialised uses");
  }
  if (!prod::Init(mgr, g).ok()) { Viol("init", what); return; }
  // accepted or refused exactly as the requirements say
  const Obs o = prod::Run(mgr, x, y, rate);
  Config gb = g;
  gb.no_realign = true;
  const Obs base = g.no_realign ? o : prod::RunFresh(gb, x, y, rate);
  const ref::Outcome q = ref::CheckRun(x, y, rate, g, o, &base, false);
  if (q.key == "accepted-uncomparable" || q.key == "wrong-error-code" || q.key == "refused-comparable" || q.key == "base-run-differs")
    Viol("boundary:" + q.key, what + ": " + q.detail);
  Stat(o.ok ? "accepted" : o.code == 1 ? "cancelled" : "refused");
  Cover(Fmt("%s %zu %zu %zu %d", g.Str().c_str(), rate, n, m, o.code));
  // other reasons to refuse
  auto expect = [&](const char* k, const Obs& e, int code) {
    if (e.ok || e.code != code) Viol(k, what + Fmt(": expected code %d, got ", code) + prod::Brief(e));
    Stat("refusals checked");
  };
  auto mixed = [&](size_t r1, size_t r2, const Vec& p, const Vec& s) {
    Visqol::AudioSignal A = prod::Signal(p, r1), B = prod::Signal(s, r2);
    auto st = mgr.Run(A, B);
    return st.ok() ? prod::FromMsg(st.value()) : prod::FromStatus(st.status());
  };
  Vec big = x;
  big.resize(minimum * 2, 0.05);
  if (high) { Stat("high rates"); return; }
  switch (r.range(0, 7)) {
    case 7: {
      Config neg = g;
      neg.radius = r.pick(std::vector<int>{-1, -2, -60, INT_MIN});
      expect("negative radius", prod::RunFresh(neg, big, big, rate), 3);
      break;
    }
    case 0: expect("mixed-rates", mixed(rate, rate + 1, big, big), 3); break;
    case 1: expect("mixed-rates", mixed(rate * 2, rate, big, big), 3); break;
    case 2: expect("empty-reference", mixed(rate, rate, Vec(), big), 3); break;
    case 3: expect("empty-degraded", mixed(rate, rate, big, Vec()), 3); break;
    case 4: expect("missing-rate", mixed(0, 0, big, big), 3); break;
    default: {
      // files
      const std::string good = c.scratch + "/good.wav", badp = c.scratch + "/bad.wav";
      WriteWav(good, big, rate);
      ::unlink(badp.c_str());
      std::string kind;
      const bool swap = r.chance(0.5);
      switch (r.range(0, swap ? 5 : 4)) {
        case 0: kind = "missing"; break;
        case 1: kind = "empty file"; std::ofstream(badp).close(); break;
        case 2: kind = "text"; std::ofstream(badp) << "hello, this is not audio at all, but long enough for a header........"; break;
        case 3: kind = "header only"; WriteWav(badp, Vec(), rate); break;
        case 4: kind = "other rate"; WriteWav(badp, big, rate + 7); break;
        default: kind = "too short"; WriteWav(badp, Vec(5, 0.1), rate); break;
      }
      auto st = mgr.Run(Visqol::FilePath(swap ? badp : good), Visqol::FilePath(swap ? good : badp));
      expect("bad-file", st.ok() ? prod::FromMsg(st.value()) : prod::FromStatus(st.status()), 3);
      auto ok = mgr.Run(Visqol::FilePath(good), Visqol::FilePath(good));
      if (!ok.ok()) Viol("good-file-refused", what + ": " + ok.status().ToString());
      Stat("file refusals: " + kind);
    }
  }
  Sample(what + " -> " + prod::Brief(o));
}

void RunCase(Ctx& c) {
  if (c.mode == "consistency") Consistency(c);
  else if (c.mode == "hostile") Hostile(c);
  else if (c.mode == "gain") Gain(c);
  else if (c.mode == "align") { if (c.rng.chance(0.15)) AlignRun(c); else Align(c); }
  else if (c.mode == "identity") Identity(c);
  else if (c.mode == "reuse") Reuse(c);
  else if (c.mode == "refuse") Refuse(c);
}
}  // namespace mon
