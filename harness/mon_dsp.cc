// C11 similarity measure, C13 spectrograms, C14 level preparation, C15 patches.
#include <algorithm>
#include <valarray>

#include "analysis_window.h"
#include "equivalent_rectangular_bandwidth.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "image_patch_creator.h"
#include "misc_audio.h"
#include "neurogram_similiarity_index_measure.h"
#include "prod.h"
#include "rms_vad.h"
#include "sig.h"
#include "signal_filter.h"
#include "spectrogram.h"
#include "vad_patch_creator.h"

namespace mon {
using ref::Mat;
using ref::Vec;
using Visqol::AMatrix;

static Vec Col(const AMatrix<double>& m) {
  Vec v;
  for (size_t i = 0; i < m.NumRows(); i++) v.push_back(m(i, 0));
  return v;
}

// ---------------------------------------------------------------- C11
static Mat RandomPatch(Rng& r, size_t rows, size_t cols, std::string* what) {
  Mat m(rows, cols);
  const int k = static_cast<int>(r.range(0, 11));
  static const char* nm[] = {"uniform", "spectrogram", "constant", "zeros", "sparse", "tiny", "bands", "frames", "checker", "signed", "one cell", "steps"};
  *what = nm[k];
  const double s = r.pick(std::vector<double>{0.01, 1, 45, 60, 200}), q = r.uni();
  for (size_t j = 0; j < cols; j++)
    for (size_t i = 0; i < rows; i++) {
      double v = 0;
      switch (k) {
        case 0: v = s * r.uni(); break;
        case 1: v = std::max(0.0, 30 + 15 * std::sin(0.3 * i + q * j) + 5 * r.gauss()); break;
        case 2: v = s * q; break;
        case 3: break;
        case 4: v = r.chance(0.1) ? s * r.uni() : 0; break;
        case 5: v = 1e-5 * r.uni(); break;
        case 6: v = s * std::fabs(std::sin(1.0 + i * (1 + q))); break;
        case 7: v = s * std::fabs(std::sin(1.0 + j * (1 + q))); break;
        case 8: v = (i + j) % 2 ? s : 0; break;
        case 9: v = s * r.uni(-1, 1); break;
        case 10: v = i == rows / 2 && j == cols / 2 ? s : 0; break;
        default: v = j < cols * q ? s : 0.3 * s;
      }
      m(i, j) = v;
    }
  return m;
}
// How far rounding of the local variances (differences of squares) can move each
// band's mean: constant regions have variances of pure rounding error.
static Vec NsimSlack(const Mat& x, const Mat& y, double mx, Vec* widest) {
  static const double w[3] = {0.0113033910173052, 0.0838251475442633, 0.619485845753726};
  const double c1 = 1e-4, c3 = 9e-4 / 2, e = 2e-14 * mx * mx;
  const int R = x.r, C = x.c;
  Vec out(R, 0.0);
  widest->assign(R, 0.0);
  for (int i = 0; i < R; i++)
    for (int j = 0; j < C; j++) {
      double mr = 0, md = 0, rr = 0, dd = 0, rd = 0;
      for (int a = -1; a <= 1; a++)
        for (int b = -1; b <= 1; b++) {
          const double k = w[(a == 0) + (b == 0)], p = x(std::min(std::max(i + a, 0), R - 1), std::min(std::max(j + b, 0), C - 1)), q = y(std::min(std::max(i + a, 0), R - 1), std::min(std::max(j + b, 0), C - 1));
          mr += k * p; md += k * q; rr += k * p * p; dd += k * q * q; rd += k * p * q;
        }
      const double sr = rr - mr * mr, sd = dd - md * md, sx = rd - mr * md;
      const double I = (2 * mr * md + c1) / (mr * mr + md * md + c1);
      double plo = 1e300, phi = -1e300;
      for (double u : {sr - e, sr + e})
        for (double v : {sd - e, sd + e}) { plo = std::min(plo, u * v); phi = std::max(phi, u * v); }
      const double dlo = c3 + std::sqrt(std::max(0.0, plo)), dhi = c3 + std::sqrt(std::max(0.0, phi));
      double lo = 1e300, hi = -1e300;
      for (double n : {sx + c3 - e, sx + c3 + e})
        for (double d : {plo < 0 ? c3 : dlo, dhi}) { lo = std::min(lo, I * n / d); hi = std::max(hi, I * n / d); }
      out[i] += (hi - lo) / C;
      (*widest)[i] = std::max((*widest)[i], hi - lo);
    }
  return out;
}
static void NsimCase(Ctx& c) {
  Rng& r = c.rng;
  Visqol::NeurogramSimiliarityIndexMeasure nsim;
  for (int rep = 0; rep < 4; rep++) {
    size_t rows = r.range(1, 40), cols = r.range(1, 40);
    if (r.chance(0.3)) { rows = r.chance(0.5) ? 32 : 21; cols = r.pick(std::vector<size_t>{30, 20, 27, 17, 29, 28}); }
    std::string a, b;
    const Mat x = RandomPatch(r, rows, cols, &a);
    Mat y = x;
    switch (r.range(0, 5)) {
      case 0: b = "noisy copy"; { const double s = std::pow(10, r.uni(-3, 1.5)); for (double& v : y.d) v += s * r.gauss(); } break;
      case 1: b = "inverted"; { double mx = 0; for (double v : x.d) mx = std::max(mx, v); for (double& v : y.d) v = mx - v; } break;
      case 2: b = "scaled"; { const double s = r.uni(0.1, 3); for (double& v : y.d) v *= s; } break;
      case 3: b = "negated"; for (double& v : y.d) v = -v; break;
      default: y = RandomPatch(r, rows, cols, &b);
    }
    const std::string what = Fmt("%zux%zu %s | %s", rows, cols, a.c_str(), b.c_str());
    Note(what);
    double mx = 0;
    for (double v : x.d) mx = std::max(mx, std::fabs(v));
    for (double v : y.d) mx = std::max(mx, std::fabs(v));
    const Visqol::ImagePatch px = prod::ToA(x), py = prod::ToA(y);
    const auto p = nsim.MeasurePatchSimilarity(px, py), q = nsim.MeasurePatchSimilarity(py, px), s = nsim.MeasurePatchSimilarity(px, px);
    const ref::Patch e = ref::Nsim(x, y);
    // variances are differences of squares; their root carries the error
    const double tol = 1e-7;
    Vec wide;
    const Vec slack = NsimSlack(x, y, mx, &wide);
    double all = 0;
    for (double v : slack) all += v / rows;
    auto cmp = [&](const char* k, const Vec& got, const Vec& want, double t, const Vec* extra = nullptr) {
      int64_t m = got.size() == want.size() ? -1 : -2;
      for (size_t i = 0; i < want.size() && m == -1; i++)
        if (!Close(got[i], want[i], t + (extra ? (*extra)[i] : 0))) m = i;
      if (m == -1) return true;
      Viol(k, what + Fmt(": band %lld: ", (long long)m) + Head(got, std::max<int64_t>(0, m), 1) + " expected " + Head(want, std::max<int64_t>(0, m), 1));
      return false;
    };
    if (!cmp("means", Col(p.freq_band_means), e.means, tol, &slack)) return;
    if (!cmp("deviations", Col(p.freq_band_stddevs), e.stds, 10 * tol, &wide)) return;
    if (!cmp("energy", Col(p.freq_band_deg_energy), e.energy, 1e-9 * (1 + mx))) return;
    if (!Close(p.similarity, e.sim, tol + all)) { Viol("similarity", what + Fmt(": %.12g expected %.12g", p.similarity, e.sim)); return; }
    if (!Close(p.similarity, q.similarity, tol + all)) { Viol("asymmetric", what + Fmt(": %.12g and %.12g", p.similarity, q.similarity)); return; }
    if (!cmp("asymmetric-bands", Col(p.freq_band_means), Col(q.freq_band_means), tol, &slack)) return;
    if (!(p.similarity <= 1 + tol)) { Viol("above-one", what + Fmt(": %.12g", p.similarity)); return; }
    for (double v : Col(p.freq_band_means)) if (!(v <= 1 + tol)) { Viol("above-one", what + Fmt(": band %.12g", v)); return; }
    if (!Close(s.similarity, 1, 1e-6)) { Viol("identity", what + Fmt(": %.12g", s.similarity)); return; }
    for (double v : Col(s.freq_band_means)) if (!Close(v, 1, 1e-6)) { Viol("identity", what + Fmt(": band %.12g", v)); return; }
    Stat("patch pairs");
    Stat("negative similarity", p.similarity < 0);
    Cover(Fmt("%zu %zu %.9g", rows, cols, p.similarity));
    if (rep == 0) Sample(what + Fmt(" -> %.9g", p.similarity));
  }
}

// ---------------------------------------------------------------- C13
static void Filters(Ctx& c) {
  Rng& r = c.rng;
  const size_t rate = r.chance(0.5) ? r.pick(std::vector<size_t>{8000, 16000, 22050, 32000, 44100, 48000, 96000}) : r.range(400, 50000);
  const size_t n = r.chance(0.5) ? r.pick(std::vector<size_t>{21, 32}) : r.range(1, 64);
  const double lo = r.chance(0.5) ? 50 : r.uni(20, 190), hi = r.chance(0.5) ? rate / 2.0 : r.uni(200, 30000);
  const std::string what = Fmt("filters: rate %zu, %zu bands from %.6g to %.6g Hz", rate, n, lo, hi);
  Note(what);
  const auto f = Visqol::EquivalentRectangularBandwidth::MakeFilters(rate, n, lo, hi);
  const Vec cf = ref::CenterFreqs(lo, std::min(hi, rate / 2.0), n);
  int64_t m = Mismatch(f.centerFreqs, cf, 1e-7, 1e-9);
  if (m != -1) { Viol("centre-frequencies", what + ": " + Head(f.centerFreqs, 0, 4) + " expected " + Head(cf, 0, 4)); return; }
  const auto g = ref::Filters(rate, cf);
  if (f.filterCoeffs.size() != 10) { Viol("coefficients", what + Fmt(": %zu columns", f.filterCoeffs.size())); return; }
  for (size_t i = 0; i < n; i++) {
    const double want[10] = {g[i].t, g[i].a11, g[i].a12, g[i].a13, g[i].a14, 0, 1, g[i].b1, g[i].b2, g[i].gain};
    for (int k = 0; k < 10; k++)
      if (!Close(f.filterCoeffs[k].at(i), want[k], 1e-14, k == 9 ? 1e-5 : 1e-9)) {
        Viol("coefficients", what + Fmt(": band %zu (%.6g Hz) coefficient %d is %.12g, expected %.12g", i, cf[i], k, f.filterCoeffs[k][i], want[k]));
        return;
      }
  }
  Stat("filter designs");
  Cover(what);
}
static void Pieces(Ctx& c) {
  Rng& r = c.rng;
  {  // one second-order (or longer) section, from given conditions
    const size_t n = r.range(1, 300), order = r.range(1, 4);
    std::valarray<double> b(order + 1), a(order + 1), x(n), z(order);
    for (auto& v : b) v = r.uni(-1, 1);
    for (auto& v : a) v = r.uni(-0.4, 0.4);
    a[0] = 1;
    for (auto& v : x) v = r.gauss();
    for (auto& v : z) v = r.chance(0.3) ? 0 : r.gauss();
    const auto f = Visqol::SignalFilter::Filter(b, a, x, z);
    Vec s(order + 1, 0.0);
    for (size_t i = 0; i < order; i++) s[i] = z[i];
    Vec y;
    for (size_t m = 0; m < n; m++) {
      y.push_back(b[0] * x[m] + s[0]);
      for (size_t i = 0; i < order; i++) s[i] = b[i + 1] * x[m] + (i + 1 < order ? s[i + 1] : 0.0) - a[i + 1] * y[m];
    }
    s.resize(order);
    const Vec got(std::begin(f.filteredSignal), std::end(f.filteredSignal)), gz(std::begin(f.finalConditions), std::end(f.finalConditions));
    if (Mismatch(got, y, 1e-10, 1e-10) != -1) Viol("filter-output", Fmt("order %zu, %zu samples: ", order, n) + Head(got) + " expected " + Head(y));
    if (Mismatch(gz, s, 1e-10, 1e-10) != -1) Viol("filter-state", Fmt("order %zu, %zu samples: ", order, n) + Head(gz) + " expected " + Head(s));
    // the same signal in two pieces
    const size_t k = r.range(0, n);
    if (k > 0 && k < n) {
      const std::valarray<double> x1 = x[std::slice(0, k, 1)], x2 = x[std::slice(k, n - k, 1)];
      const auto f1 = Visqol::SignalFilter::Filter(b, a, x1, z);
      const auto f2 = Visqol::SignalFilter::Filter(b, a, x2, f1.finalConditions);
      Vec t(std::begin(f1.filteredSignal), std::end(f1.filteredSignal));
      t.insert(t.end(), std::begin(f2.filteredSignal), std::end(f2.filteredSignal));
      if (Mismatch(t, y, 1e-10, 1e-10) != -1) Viol("filter-continuation", Fmt("split at %zu of %zu", k, n));
    }
    Stat("filter sections");
  }
  {  // window
    const size_t rate = r.range(50, 20000);
    const Visqol::AnalysisWindow w(rate, 0.25);
    if (w.size != ref::WindowSize(rate)) { Viol("window-size", Fmt("rate %zu: %zu, expected %zu", rate, w.size, ref::WindowSize(rate))); return; }
    std::valarray<double> x(w.size);
    for (auto& v : x) v = r.gauss();
    const std::valarray<double> y = w.ApplyHannWindow(x);
    for (size_t i = 0; i < w.size; i++)
      if (!Close(y[i], x[i] * (0.5 - 0.5 * std::cos(2 * M_PI * i / (w.size - 1))), 1e-12)) { Viol("hann", Fmt("rate %zu sample %zu: factor %.12g", rate, i, y[i] / x[i])); break; }
    Stat("windows");
  }
  {  // filter bank: bands in coefficient order, state kept until reset
    const size_t rate = r.pick(std::vector<size_t>{1000, 2000, 8000, 16000}), n = r.range(1, 12), len = r.range(1, 400);
    const auto e = Visqol::EquivalentRectangularBandwidth::MakeFilters(rate, n, 50, rate / 2.0);
    AMatrix<double> coef(e.filterCoeffs);
    Visqol::GammatoneFilterBank bank(n, 50);
    if (bank.GetNumBands() != n || bank.GetMinFreq() != 50) Viol("bank", Fmt("%zu bands from %g", bank.GetNumBands(), bank.GetMinFreq()));
    bank.SetFilterCoefficients(coef);
    std::valarray<double> x(len);
    for (auto& v : x) v = r.gauss();
    const auto g = ref::Filters(rate, ref::CenterFreqs(50, rate / 2.0, n));
    bank.ResetFilterConditions();
    const size_t k = r.range(0, len);
    Mat got(n, len);
    if (k > 0 && k < len && r.chance(0.5)) {
      const std::valarray<double> x1 = x[std::slice(0, k, 1)], x2 = x[std::slice(k, len - k, 1)];
      const AMatrix<double> o1 = bank.ApplyFilter(x1), o2 = bank.ApplyFilter(x2);
      for (size_t i = 0; i < n; i++) for (size_t j = 0; j < len; j++) got(i, j) = j < k ? o1(i, j) : o2(i, j - k);
    } else {
      if (r.chance(0.5)) { bank.ApplyFilter(x); bank.ResetFilterConditions(); }
      const AMatrix<double> o = bank.ApplyFilter(x);
      if (o.NumRows() != n || o.NumCols() != len) { Viol("bank-shape", Fmt("%zux%zu, expected %zux%zu", o.NumRows(), o.NumCols(), n, len)); return; }
      got = prod::FromA(o);
    }
    const Vec xv(std::begin(x), std::end(x));
    for (size_t i = 0; i < n; i++) {
      const Vec y = ref::FilterFrame(xv, g[i]);
      for (size_t j = 0; j < len; j++)
        if (!Close(got(i, j), y[j], 1e-6, 1e-6)) { Viol("bank-output", Fmt("rate %zu band %zu of %zu sample %zu of %zu: %.12g, expected %.12g", rate, i, n, j, len, got(i, j), y[j])); return; }
    }
    Stat("filter bank runs");
    Cover(Fmt("bank %zu %zu %zu", rate, n, len));
  }
}
static void SpectrogramCase(Ctx& c) {
  Rng& r = c.rng;
  if (r.chance(0.25)) return Filters(c);
  if (r.chance(0.25)) return Pieces(c);
  const bool speech = r.chance(0.5);
  const size_t bands = r.chance(0.6) ? (speech ? 21 : 32) : r.range(1, 24);
  const double fmin = r.chance(0.8) ? 50 : r.uni(30, 120);
  Visqol::GammatoneSpectrogramBuilder reused(Visqol::GammatoneFilterBank(bands, fmin), speech);
  const int runs = static_cast<int>(r.range(1, 3));
  for (int k = 0; k < runs; k++) {
    const size_t rate = r.chance(0.01) ? r.pick(std::vector<size_t>{64000, 88200, 96000, 192000}) : r.chance(0.08) ? r.pick(std::vector<size_t>{16000, 22050, 32000, 44100, 48000}) : r.pick(std::vector<size_t>{51, 100, 160, 250, 333, 500, 777, 1000, 2000, 2205, 4000, 8000});
    const size_t w = ref::WindowSize(rate), hop = ref::HopSize(rate);
    size_t n = 0;
    switch (r.range(0, 4)) {
      case 0: n = std::max<int64_t>(1, (int64_t)w + r.range(-1, 1)); break;
      case 1: n = w + hop * r.range(1, 6) + r.range(-1, 1); break;
      case 2: n = r.range(1, w + 3 * hop); break;
      default: n = w + hop * r.range(2, rate > 8000 ? 5 : 24) + r.range(0, hop - 1);
    }
    if (c.index % 251 == 9 && k == 0) { n = w + hop * r.range(200, rate > 8000 ? 260 : rate > 1000 ? 700 : 4000) + r.range(0, hop - 1); Stat("long signals"); }
    std::string a;
    const Vec x = sig::Gen(r, n, rate, &a);
    const std::string what = Fmt("%s rate %zu, %zu samples (window %zu hop %zu), %zu bands from %.4g Hz, %s", speech ? "speech" : "audio", rate, n, w, hop, bands, fmin, a.c_str());
    Note(what);
    const Visqol::AnalysisWindow win(rate, 0.25);
    const Visqol::AudioSignal sx = prod::Signal(x, rate);
    Visqol::GammatoneSpectrogramBuilder fresh(Visqol::GammatoneFilterBank(bands, fmin), speech);
    auto st = fresh.Build(sx, win), su = reused.Build(sx, win);
    Mat want;
    Vec cf;
    if (!ref::Spectrogram(x, rate, bands, fmin, speech, &want, &cf)) {
      Stat("refusals");
      if (st.ok() || su.ok()) Viol("accepted-too-short", what);
      else if (st.status().code() != absl::StatusCode::kInvalidArgument) Viol("error-kind", what + ": " + st.status().ToString());
      Cover(Fmt("refused %zu %zu", rate, n));
      continue;
    }
    if (!st.ok() || !su.ok()) { Viol("refused", what + ": " + (st.ok() ? su : st).status().ToString()); return; }
    const Mat got = prod::FromA(st->Data()), re = prod::FromA(su->Data());
    if (got.r != want.r || got.c != want.c) { Viol("shape", what + Fmt(": %zux%zu, expected %zux%zu", got.r, got.c, want.r, want.c)); return; }
    // (a band far from all content holds hardly more than the rounding of the samples)
    double mx = 0;
    for (double v : want.d) mx = std::max(mx, v);
    for (double v : x) mx = std::max(mx, 1e-5 * std::fabs(v));
    for (size_t i = 0; i < want.r; i++)
      for (size_t j = 0; j < want.c; j++)
        if (!Close(got(i, j), want(i, j), 1e-9 * mx, 1e-6)) { Viol("cell", what + Fmt(": band %zu frame %zu: %.12g, expected %.12g", i, j, got(i, j), want(i, j))); return; }
    if (Mismatch(st->GetCenterFreqBands(), cf, 1e-7, 1e-9) != -1) { Viol("band-order", what + ": " + Head(st->GetCenterFreqBands(), 0, 3) + " expected " + Head(cf, 0, 3)); return; }
    if (re.d != got.d || su->GetCenterFreqBands() != st->GetCenterFreqBands()) { Viol("builder-state", what + Fmt(": differs on a builder used %d times before", k)); return; }
    // frames outside a changed region keep their exact values
    if (want.c >= 2) {
      Vec y = x;
      const size_t p = r.range(0, n - 1), len = r.range(1, std::min<size_t>(n - p, w));
      for (size_t i = p; i < p + len; i++) y[i] += 0.1 + r.uni();
      auto sv = reused.Build(prod::Signal(y, rate), win);
      if (!sv.ok()) { Viol("refused", what + " (changed samples)"); return; }
      const Mat g2 = prod::FromA(sv->Data());
      for (size_t j = 0; j < want.c; j++) {
        const bool touched = j * hop < p + len && j * hop + w > p;
        if (touched) continue;
        for (size_t i = 0; i < want.r; i++)
          if (g2(i, j) != got(i, j)) { Viol("frames-dependent", what + Fmt(": samples %zu..%zu changed band %zu of frame %zu", p, p + len - 1, i, j)); return; }
        Stat("independent frames");
      }
      Mat want2;
      Vec cf2;
      (void)ref::Spectrogram(y, rate, bands, fmin, speech, &want2, &cf2);
      for (double v : want2.d) mx = std::max(mx, v);
      for (double v : y) mx = std::max(mx, 1e-5 * std::fabs(v));
      for (size_t i = 0; i < want.r; i++)
        for (size_t j = 0; j < want.c; j++)
          if (!Close(g2(i, j), want2(i, j), 1e-9 * mx, 1e-6)) { Viol("cell", what + Fmt(", samples %zu..%zu changed: band %zu frame %zu: %.12g, expected %.12g", p, p + len - 1, i, j, g2(i, j), want2(i, j))); return; }
    }
    Stat("spectrograms"); Stat("cells", want.d.size());
    Cover(Fmt("%zu %zu %zu %d %.9g", rate, n, bands, speech, got.d[0]));
    if (k == 0) Sample(what + Fmt(" -> %zux%zu", got.r, got.c));
  }
}

// ---------------------------------------------------------------- C14
static Mat RandomSpec(Rng& r, size_t rows, size_t cols, std::string* what) {
  Mat m(rows, cols);
  const int k = static_cast<int>(r.range(0, 7));
  static const char* nm[] = {"ordinary", "with zeros", "silent", "wide", "loud frames", "tiny", "huge", "signed"};
  *what = nm[k];
  for (size_t j = 0; j < cols; j++) {
    const double f = r.chance(0.3) ? 1e-9 : r.chance(0.2) ? 1e4 : 1;
    for (size_t i = 0; i < rows; i++) {
      double v = std::pow(10, r.uni(-3, 0));
      if (k == 1 && r.chance(0.3)) v = 0;
      if (k == 2) v = 0;
      if (k == 3) v = std::pow(10, r.uni(-18, 8));
      if (k == 4) v *= f;
      if (k == 5) v = std::pow(10, r.chance(0.2) ? r.uni(-323, -300) : r.uni(-300, -4));
      if (k == 6) v = std::pow(10, r.uni(0, 300));
      if (k == 7 && r.chance(0.5)) v = -v;
      m(i, j) = v;
    }
  }
  return m;
}
static void PrepareCase(Ctx& c) {
  Rng& r = c.rng;
  for (int rep = 0; rep < 6; rep++) {
    const bool wide = rep == 0 && c.index % 397 == 7;
    const size_t rows = r.range(1, 33), ca = r.range(1, wide ? 6000 : 30), cb = r.chance(0.4) ? ca : r.range(1, wide ? 6000 : 30);
    std::string a, b;
    Mat A = RandomSpec(r, rows, ca, &a), B = RandomSpec(r, rows, cb, &b);
    if (r.chance(0.2)) { B = A; b = "copy"; for (double& v : B.d) v *= r.chance(0.1) ? r.uni() : 1; }
    const std::string what = Fmt("%zux%zu %s, %zux%zu %s", rows, A.c, a.c_str(), rows, B.c, b.c_str());
    Note(what);
    Visqol::Spectrogram p(prod::ToA(A)), q(prod::ToA(B)), p2(prod::ToA(A)), q2(prod::ToA(B));
    Visqol::MiscAudio::PrepareSpectrogramsForComparison(p, q);
    Visqol::MiscAudio::PrepareSpectrogramsForComparison(q2, p2);
    Mat ea = A, eb = B;
    ref::Prepare(&ea, &eb);
    const Mat ga = prod::FromA(p.Data()), gb = prod::FromA(q.Data());
    if (ga.c != ea.c || gb.c != eb.c || ga.r != rows || gb.r != rows) { Viol("shape", what); return; }
    for (auto [g, e, s, n] : {std::make_tuple(&ga, &ea, &A, "first"), std::make_tuple(&gb, &eb, &B, "second")}) {
      const int64_t m = Mismatch(g->d, e->d, 1e-8);
      if (m != -1) { Viol("cell", what + Fmt(": %s, band %lld frame %lld: %.12g expected %.12g (magnitude %.6g)", n, (long long)(m % rows), (long long)(m / rows), g->d[m], e->d[m], s->d[m])); return; }
    }
    const double mn = std::min(*std::min_element(ga.d.begin(), ga.d.end()), *std::min_element(gb.d.begin(), gb.d.end()));
    if (!Close(mn, 0, 1e-12)) { Viol("minimum", what + Fmt(": %.12g", mn)); return; }
    if (Mismatch(prod::FromA(p2.Data()).d, ga.d, 1e-10) != -1 || Mismatch(prod::FromA(q2.Data()).d, gb.d, 1e-10) != -1) { Viol("order-dependent", what); return; }
    // the single operations
    Visqol::Spectrogram s(prod::ToA(A)), t(prod::ToA(B));
    auto expect = [&](const char* k, const Visqol::Spectrogram& g, const Mat& e) {
      const int64_t m = Mismatch(prod::FromA(g.Data()).d, e.d, 1e-9, 1e-12);
      if (m != -1) Viol(k, what + Fmt(": cell %lld: %.12g expected %.12g", (long long)m, prod::FromA(g.Data()).d[std::max<int64_t>(m, 0)], e.d[std::max<int64_t>(m, 0)]));
    };
    Mat x = A, y = B;
    for (double& v : x.d) v = 10 * std::log10(v == 0 ? 2.220446049250313e-16 : std::fabs(v));
    for (double& v : y.d) v = 10 * std::log10(v == 0 ? 2.220446049250313e-16 : std::fabs(v));
    s.ConvertToDb(); t.ConvertToDb();
    expect("decibels", s, x);
    if (!Close(s.Minimum(), *std::min_element(x.d.begin(), x.d.end()), 1e-9)) Viol("spectrogram-minimum", what);
    const double fl = r.uni(-60, 0), th = r.uni(0, 60), sub = r.uni(-50, 50);
    s.RaiseFloor(fl);
    for (double& v : x.d) v = std::max(v, fl);
    expect("raise-floor", s, x);
    s.RaiseFloorPerFrame(th, t);
    for (size_t j = 0; j < std::min(x.c, y.c); j++) {
      double top = -1e300;
      for (size_t i = 0; i < rows; i++) top = std::max(top, std::max(x(i, j), y(i, j)));
      for (size_t i = 0; i < rows; i++) { x(i, j) = std::max(x(i, j), top - th); y(i, j) = std::max(y(i, j), top - th); }
    }
    expect("raise-frame-floor", s, x);
    expect("raise-frame-floor-other", t, y);
    s.SubtractFloor(sub);
    for (double& v : x.d) v -= sub;
    expect("subtract", s, x);
    Stat("pairs"); Stat("cells", A.d.size() + B.d.size());
    Stat("unequal lengths", A.c != B.c);
    Cover(Fmt("%zu %zu %zu %.9g", rows, A.c, B.c, ga.d[0]));
    if (rep == 0) Sample(what);
  }
}

// ---------------------------------------------------------------- C15
// A rms so close to the threshold that rounding decides?
static bool NearThreshold(const Vec& x, size_t hop, size_t first, size_t chunks) {
  double mx = x[0];
  for (double v : x) mx = std::max(mx, v);
  for (size_t k = 0; k < chunks; k++) {
    double sq = 0;
    for (size_t i = 0; i < hop; i++) {
      double v = x[first + k * hop + i] / mx * 32768.0;
      v = !(v < 32767.0) ? 32767.0 : v < -32768.0 ? -32768.0 : v;
      if (std::fabs(v - std::round(v)) < 1e-8 && v != std::round(v)) return true;
      const double q = static_cast<int16_t>(v);
      sq += q * q;
    }
    if (std::fabs(std::sqrt(sq / hop) - 5000) < 1e-6) return true;
  }
  return false;
}
static void PatchCase(Ctx& c) {
  Rng& r = c.rng;
  const int kind = static_cast<int>(r.range(0, 5));
  if (kind == 0) {  // audio grid and columns
    const size_t psz = r.chance(0.5) ? 30 : r.range(2, 40), frames = r.chance(0.3) ? psz + psz / 2 + r.range(-2, 2) : r.range(1, r.chance(0.1) ? 5000 : 300);
    const std::string what = Fmt("audio patches of %zu in %zu frames", psz, frames);
    Note(what);
    AMatrix<double> sp(2, frames);
    for (size_t j = 0; j < frames; j++) { sp(0, j) = j; sp(1, j) = 1000 + j; }
    const Visqol::AudioSignal s = prod::Signal(Vec(100, 0.1), 1000);
    const Visqol::ImagePatchCreator pc(psz);
    auto st = pc.CreateRefPatchIndices(sp, s, Visqol::AnalysisWindow(1000, 0.25));
    std::vector<size_t> want;
    if (!ref::AudioPatchStarts(frames, psz, &want)) {
      if (st.ok()) Viol("accepted-short", what);
      else if (st.status().code() != absl::StatusCode::kInvalidArgument) Viol("error-kind", what + ": " + st.status().ToString());
      Stat("too short");
    } else if (!st.ok()) Viol("refused", what + ": " + st.status().ToString());
    else if (st.value() != want) {
      std::string g;
      for (size_t v : st.value()) g += Fmt(" %zu", v);
      Viol("audio-grid", what + ": got" + g + Fmt(", expected %zu from %zu", want.size(), want[0]));
    } else {
      for (size_t i : want) if (i + psz > frames) Viol("beyond-end", what + Fmt(": patch at %zu", i));
      std::vector<size_t> pick = want;
      if (r.chance(0.5)) { pick.clear(); for (int k = 0; k < 5; k++) pick.push_back(r.range(0, frames - psz)); }
      const auto ps = pc.CreatePatchesFromIndices(sp, pick);
      if (ps.size() != pick.size()) Viol("patch-count", what);
      else for (size_t k = 0; k < ps.size(); k++) {
        if (ps[k].NumRows() != 2 || ps[k].NumCols() != psz) { Viol("patch-shape", what + Fmt(": %zux%zu", ps[k].NumRows(), ps[k].NumCols())); break; }
        for (size_t j = 0; j < psz; j++) if (ps[k](0, j) != pick[k] + j || ps[k](1, j) != 1000 + pick[k] + j) { Viol("patch-columns", what + Fmt(": patch at %zu column %zu holds frame %g", pick[k], j, ps[k](0, j))); break; }
      }
      Stat("audio patches", want.size());
    }
    Cover(what);
    return;
  }
  if (kind == 1) {  // voice activity decision
    Visqol::RmsVad vad;
    const size_t n = r.range(1, r.chance(0.1) ? 400 : 60), len = r.range(1, r.chance(0.1) ? 3000 : 50);
    std::vector<int> loud;
    bool near = false;
    std::string pat;
    double hang = 0;
    for (size_t k = 0; k < n; k++) {
      std::vector<int16_t> ch(len);
      if (k == 0 || r.chance(0.3)) hang = r.pick(std::vector<double>{0, 0, 100, 4900, 4999, 5000, 5001, 5100, 12000, 32767});
      double sq = 0;
      const int shape = static_cast<int>(r.range(0, 3));
      for (size_t i = 0; i < len; i++) {
        const double v = shape == 0 ? hang : shape == 1 ? -hang : shape == 2 ? hang * (i % 2 ? 1 : -1) : (i == 0 ? std::min(32767.0, hang * std::sqrt((double)len)) : 0);
        ch[i] = static_cast<int16_t>(std::max(-32768.0, v));
        sq += static_cast<double>(ch[i]) * ch[i];
      }
      const double rms = std::sqrt(sq / len);
      near |= rms != 5000 && std::fabs(rms - 5000) < 1e-6;
      loud.push_back(rms >= 5000);
      pat += loud.back() ? '#' : '.';
      const double g = vad.ProcessChunk(ch);
      if (!Close(g, rms, 1e-6)) { Viol("chunk-level", Fmt("%zu samples: %.12g, expected %.12g", len, g, rms)); return; }
    }
    if (near) { Inconclusive("level at the threshold"); return; }
    const auto v = vad.GetVadResults();
    // the first two are always active; later ones need three quiet frames in a row to be inactive
    if (v.size() != std::max<size_t>(2, n)) { Viol("vad-count", Fmt("%zu results for %zu chunks", v.size(), n)); return; }
    for (size_t k = 0; k < n; k++) {
      const bool want = k < 2 || loud[k] || loud[k - 1] || loud[k - 2];
      if ((v[k] != 0) != want) { Viol("vad-decision", Fmt("chunk %zu of %s is %s", k, pat.c_str(), want ? "inactive" : "active")); return; }
    }
    Stat("voice activity sequences");
    Cover("vad" + pat);
    return;
  }
  // speech patches of a signal
  const size_t psz = r.chance(0.7) ? 20 : r.range(4, 30);
  const size_t rate = r.pick(std::vector<size_t>{500, 1000, 1600, 2000, 4000, 8000}), hop = ref::HopSize(rate), w = ref::WindowSize(rate);
  const size_t frames = r.chance(0.25) ? psz + psz / 2 - 1 + r.range(-1, 1) : r.chance(0.05) ? r.range(160, rate > 2000 ? 300 : 1200) : r.range(psz, 160);
  const size_t n = w + hop * (frames - 1) + r.range(0, hop - 1);
  std::string a;
  Vec x;
  if (r.chance(0.5)) {
    // bursts whose levels straddle the threshold, alone in long pauses
    a = "level steps";
    x.assign(n, 0.0);
    size_t p = 0;
    while (p < n) {
      const size_t len = std::max<size_t>(1, hop * (r.chance(0.5) ? r.range(1, 4) : r.range(5, 60)) + r.range(-(int64_t)hop / 2, hop / 2));
      const double lv = r.pick(std::vector<double>{0, 0, 0.01, 0.14, 0.15, 0.152, 0.1526, 0.1527, 0.16, 0.3, 1});
      const int sh = static_cast<int>(r.range(0, 2));
      for (size_t i = p; i < std::min(n, p + len); i++) x[i] = sh == 0 ? lv : sh == 1 ? lv * (i % 2 ? 1 : -1) : lv * 1.7 * r.uni(-1, 1);
      p += len;
    }
    x[r.range(0, n - 1)] = 1.0;
    if (r.chance(0.3)) { x[r.range(0, n - 1)] = -r.uni(1, 3); a += ", stronger negative peak"; }
    const double s = std::pow(10, r.uni(-3, 2));
    for (double& v : x) v *= s;
  } else x = sig::Gen(r, n, rate, &a);
  if (r.chance(0.1)) for (double& v : x) v = -std::fabs(v);
  const std::string what = Fmt("speech patches of %zu in %zu frames, rate %zu, %zu samples of %s", psz, frames, rate, n, a.c_str());
  Note(what);
  AMatrix<double> sp(1, frames);
  for (size_t j = 0; j < frames; j++) sp(0, j) = j;
  const Visqol::VadPatchCreator pc(psz);
  const Visqol::AudioSignal sx = prod::Signal(x, rate);
  auto st = pc.CreateRefPatchIndices(sp, sx, Visqol::AnalysisWindow(rate, 0.25));
  std::vector<size_t> want;
  const size_t first = psz / 2 - 1;
  if (frames < first + psz) {
    if (st.ok()) Viol("accepted-short", what);
    else if (st.status().code() != absl::StatusCode::kInvalidArgument) Viol("error-kind", what + ": " + st.status().ToString());
    Stat("too short");
    Cover(what);
    return;
  }
  const size_t count = (frames - first) / psz;
  ref::SpeechPatchStarts(frames, psz, x, rate, &want);
  if (!st.ok()) { Viol("refused", what + ": " + st.status().ToString()); return; }
  if (st.value() != want) {
    if (NearThreshold(x, hop, first, count * psz)) { Inconclusive("level at the threshold"); return; }
    std::string g, e;
    for (size_t v : st.value()) g += Fmt(" %zu", v);
    for (size_t v : want) e += Fmt(" %zu", v);
    Viol("speech-patches", what + ": got" + g + ", expected" + e);
    return;
  }
  const auto ps = pc.CreatePatchesFromIndices(sp, want);
  for (size_t k = 0; k < want.size(); k++)
    for (size_t j = 0; j < psz; j++)
      if (ps[k].NumCols() != psz || ps[k](0, j) != want[k] + j) { Viol("patch-columns", what); return; }
  if (prod::Samples(sx) != x) Viol("signal-modified", what);
  Stat("speech patches kept", want.size());
  Stat("speech patches left out", count - want.size());
  Cover(what);
  Sample(what + Fmt(" -> %zu of %zu", want.size(), count));
}

void RunCase(Ctx& c) {
  if (c.mode == "nsim") NsimCase(c);
  else if (c.mode == "spectrogram") SpectrogramCase(c);
  else if (c.mode == "prepare") PrepareCase(c);
  else if (c.mode == "patches") for (int k = 0; k < 5; k++) PatchCase(c);
}
}  // namespace mon
