// C09: the patch search, driven with injected similarity tables and with real
// patches. C10: fine realignment, driven with arbitrary search results.
#include <algorithm>
#include <climits>
#include <memory>

#include "comparison_patches_selector.h"
#include "gammatone_filterbank.h"
#include "gammatone_spectrogram_builder.h"
#include "neurogram_similiarity_index_measure.h"
#include "patch_similarity_comparator.h"
#include "prod.h"
#include "sig.h"

namespace mon {
using ref::Mat;
using ref::Vec;
using Visqol::AMatrix;
using Visqol::ImagePatch;
using Visqol::PatchSimilarityResult;

// What the injected comparator answers, and what it was asked.
struct Table {
  std::vector<Vec> sims;
  size_t rows = 1, psz = 1, frames = 0;
  std::string wrong;  // a degraded patch that is not the frames it claims to be
  size_t calls = 0, padded = 0;
};
static double Cell(size_t row, size_t frame) { return (frame + 1) + row * 1000.0; }
class TableComparator : public Visqol::PatchSimilarityComparator {
 public:
  explicit TableComparator(Table* t) : t_(t) {}
  PatchSimilarityResult MeasurePatchSimilarity(const ImagePatch& r, const ImagePatch& d) const override {
    t_->calls++;
    const size_t id = static_cast<size_t>(r(0, 0));
    const double first = d(0, 0);
    size_t f = first > 0 ? static_cast<size_t>(first) - 1 : 0;
    if (d.NumRows() != t_->rows || d.NumCols() != t_->psz || r.NumRows() != t_->rows || r.NumCols() != t_->psz)
      t_->wrong = Fmt("patches of %zux%zu and %zux%zu, expected %zux%zu", r.NumRows(), r.NumCols(), d.NumRows(), d.NumCols(), t_->rows, t_->psz);
    else if (first <= 0 || f >= t_->frames) { t_->wrong = Fmt("a degraded patch starting with %g", first); f = 0; }
    else {
      if (f + t_->psz > t_->frames) t_->padded++;
      for (size_t i = 0; i < t_->rows; i++)
        for (size_t j = 0; j < t_->psz; j++) {
          const double want = f + j < t_->frames ? Cell(i, f + j) : 0.0;
          if (d(i, j) != want && t_->wrong.empty()) t_->wrong = Fmt("degraded patch at frame %zu of %zu holds %g at (%zu,%zu), expected %g", f, t_->frames, d(i, j), i, j, want);
          const double wr = j == 0 && i == 0 ? id : id * 7.0 + i + 0.5 * j;
          if (r(i, j) != wr && t_->wrong.empty()) t_->wrong = Fmt("reference patch %zu holds %g at (%zu,%zu)", id, r(i, j), i, j);
        }
    }
    PatchSimilarityResult q;
    q.similarity = t_->sims[std::min(id, t_->sims.size() - 1)][f];
    q.freq_band_means = AMatrix<double>(t_->rows, 1);
    q.freq_band_stddevs = AMatrix<double>(t_->rows, 1);
    q.freq_band_deg_energy = AMatrix<double>(t_->rows, 1);
    for (size_t i = 0; i < t_->rows; i++) {
      q.freq_band_means(i) = id * 100 + f + 0.25 * i;
      q.freq_band_stddevs(i) = id * 101 + f + 0.25 * i;
      q.freq_band_deg_energy(i) = id * 102 + f + 0.25 * i;
    }
    return q;
  }
 private:
  Table* t_;
};

static std::vector<size_t> Positions(Rng& r, size_t n, size_t psz, std::string* what) {
  std::vector<size_t> v;
  size_t p = r.chance(0.5) ? psz / 2 : r.range(0, 2 * psz);
  const int kind = static_cast<int>(r.range(0, 3));
  for (size_t i = 0; i < n; i++) {
    v.push_back(p);
    if (kind == 0) p += psz;                                     // audio grid
    else if (kind == 1) p += psz * (r.chance(0.3) ? r.range(1, 5) : 1);  // pauses
    else if (kind == 2) p += r.range(1, 2 * psz);
    else p += r.range(1, 3);
  }
  *what = kind == 0 ? "grid" : kind == 1 ? "pauses" : kind == 2 ? "irregular" : "overlapping";
  return v;
}

static void FillTable(Rng& r, Table* t, const std::vector<size_t>& idx, std::string* what) {
  const size_t n = idx.size(), F = t->frames;
  const int kind = r.chance(0.04) ? 10 : static_cast<int>(r.range(0, 9));
  static const char* names[] = {"uniform", "quantised", "binary", "negative", "sparse", "crossing", "all equal", "diagonal", "mixed sign", "tiny", "not numbers"};
  const double share = r.chance(0.5) ? 1 : r.uni(0.05, 0.95);
  *what = names[kind];
  const int shift = static_cast<int>(r.range(-8, 8));
  for (size_t i = 0; i < n; i++) {
    Vec v(F);
    for (size_t f = 0; f < F; f++) {
      double x = r.uni();
      switch (kind) {
        case 0: break;
        case 1: x = r.range(0, 4) / 4.0; break;
        case 2: x = r.chance(0.3); break;
        case 3: x = -r.uni(0.01, 1); break;
        case 4: x = r.chance(0.08) ? 0.9 : 0.05 * x; break;
        case 5: {  // later patches prefer earlier frames
          const double c = F * (1.0 - (i + 0.5) / n);
          x = std::exp(-std::fabs(f - c) / 3.0) + 0.05 * x;
          break;
        }
        case 6: x = 0.5; break;
        case 7: x = std::exp(-std::fabs((double)f - (double)idx[i] - shift) / 2.0) + 0.1 * x; break;
        case 8: x = r.uni(-1, 1); break;
        case 10: if (r.chance(share)) x = r.chance(0.8) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY; break;
        default: x *= 1e-9;
      }
      v[f] = x;
    }
    t->sims.push_back(v);
  }
}

// Decodes the answer, checks its validity and optimality. Returns the frames.
static void JudgeSearch(const std::string& what, const std::vector<size_t>& idx, size_t psz, int radius, size_t F, double fd,
                        const std::vector<Vec>& sims, const absl::StatusOr<std::vector<PatchSimilarityResult>>& st, double eps,
                        const std::function<std::string(size_t, size_t, bool, const PatchSimilarityResult&)>& content) {
  auto bad = [&](const char* k, const std::string& d) { Viol(k, what + ": " + d); };
  if (radius < 0) {
    Stat("negative radius");
    if (st.ok()) bad("negative-radius", "accepted");
    return;
  }
  const int64_t win = std::min<int64_t>(static_cast<int64_t>(radius) * psz, 1 << 30);
  size_t n = idx.size();
  while (n && (static_cast<int64_t>(idx[n - 1]) - static_cast<int64_t>(psz / 2) > static_cast<int64_t>(F) ||
               static_cast<int64_t>(idx[n - 1]) - win >= static_cast<int64_t>(F))) n--;
  if (!n) {
    Stat("nothing to score");
    if (st.ok()) bad("scored-beyond-end", Fmt("%zu patches", st.value().size()));
    else if (st.status().code() != absl::StatusCode::kCancelled) bad("error-kind", st.status().ToString());
    return;
  }
  if (!st.ok()) return bad("refused", st.status().ToString());
  Stat("patches left out", idx.size() - n);
  const auto& res = st.value();
  if (res.size() != n) return bad("patch-count", Fmt("%zu results, expected %zu of %zu", res.size(), n, idx.size()));
  ref::SearchProblem sp;
  for (size_t i = 0; i < n; i++) {
    Vec v(F, NAN);
    for (int64_t f = std::max<int64_t>(0, (int64_t)idx[i] - win); f < (int64_t)F && f <= (int64_t)idx[i] + win; f++) v[f] = sims[i][f];
    sp.sims.push_back(v);
  }
  // Positions. A dropped patch carries no position (times zero): it is at the
  // previous patch's frame. A match at frame 0 also starts at time zero.
  double total = 0;
  int64_t prev = -1;
  size_t drops = 0;
  std::string path;
  for (size_t i = 0; i < n; i++) {
    const PatchSimilarityResult& q = res[i];
    const double rs = idx[i] * fd, pd = psz * fd;
    if (!Close(q.ref_patch_start_time, rs, 1e-9 * (1 + rs)) || !Close(q.ref_patch_end_time, rs + pd, 1e-9 * (1 + rs)))
      return bad("reference-times", Fmt("patch %zu [%.9g,%.9g], expected [%.9g,%.9g]", i, q.ref_patch_start_time, q.ref_patch_end_time, rs, rs + pd));
    const bool dropped = q.deg_patch_start_time == 0 && q.deg_patch_end_time == 0;
    if (dropped) {
      drops++;
      if (prev < 0) return bad("first-dropped", Fmt("patch %zu", i));
      if (q.similarity != 0) return bad("dropped-similarity", Fmt("patch %zu: %.9g", i, q.similarity));
      for (size_t b = 0; b < q.freq_band_means.NumRows(); b++)
        if (q.freq_band_means(b) != 0) return bad("dropped-bands", Fmt("patch %zu band %zu: %.9g", i, b, q.freq_band_means(b)));
      if (std::isnan(sp.sims[i][prev])) return bad("drop-outside-window", Fmt("patch %zu (frame %zu) at %lld; path%s", i, idx[i], (long long)prev, path.c_str()));
    } else {
      const int64_t f = std::llround(q.deg_patch_start_time / fd);
      if (!Close(q.deg_patch_start_time, f * fd, 1e-9 * (1 + rs)) || !Close(q.deg_patch_end_time, f * fd + pd, 1e-9 * (1 + rs)))
        return bad("degraded-times", Fmt("patch %zu [%.9g,%.9g] frames of %.9g s", i, q.deg_patch_start_time, q.deg_patch_end_time, fd));
      if (f < 0 || f >= (int64_t)F || std::isnan(sp.sims[i][f])) return bad("outside-window", Fmt("patch %zu (frame %zu) matched at %lld of %zu", i, idx[i], (long long)f, F));
      if (f <= prev) return bad("order", Fmt("patch %zu at frame %lld after %lld", i, (long long)f, (long long)prev));
      if (!Close(q.similarity, sims[i][f], eps)) return bad("similarity", Fmt("patch %zu at frame %lld: %.12g, table %.12g", i, (long long)f, q.similarity, sims[i][f]));
      total += sims[i][f];
      prev = f;
    }
    const std::string e = content(i, prev, dropped, q);
    if (!e.empty()) return bad("contents", Fmt("patch %zu at frame %lld: ", i, (long long)prev) + e);
    path += dropped ? std::string(" x") : Fmt(" %lld", (long long)prev);
  }
  const double best = ref::BestTotal(sp);
  if (!(total >= best - eps * n - 1e-12 * n))
    return bad("not-optimal", Fmt("total %.12g, possible %.12g; path%s", total, best, path.c_str()));
  Stat("searches"); Stat("patches", n); Stat("patches dropped", drops);
  Cover(Fmt("%zu %zu %d %zu", n, F, radius, drops) + path.substr(0, 40));
  Sample(what + Fmt(" -> total %.6g best %.6g path", total, best) + path.substr(0, 200));
}

static void Search(Ctx& c) {
  Rng& r = c.rng;
  const int reps = 6;
  for (int rep = 0; rep < reps; rep++) {
    Table t;
    t.psz = r.pick(std::vector<size_t>{1, 2, 3, 4, 5, 7, 20, 30});
    t.rows = r.range(1, 4);
    const size_t n = r.chance(0.1) ? 1 : r.chance(0.03) ? r.range(12, t.psz > 8 ? 20 : 90) : r.range(1, t.psz > 8 ? 6 : 12);
    std::string pk, tk;
    std::vector<size_t> idx = Positions(r, n, t.psz, &pk);
    // hours into the recording, where frames no longer have small numbers
    const bool late = rep == 0 && c.index % 61 == 7;
    if (late) {
      const size_t by = static_cast<size_t>(r.pick(std::vector<int64_t>{32768, 65536, 65536}) - r.range(0, 2 * idx.back() + 8));
      for (size_t& v : idx) v += by;
      pk += " late";
      Stat("searches beyond 2^15 frames");
    }
    const size_t endp = idx.back() + t.psz;
    switch (late ? r.pick(std::vector<int64_t>{0, 3, 5}) : r.range(0, 5)) {
      case 0: t.frames = endp; break;
      case 1: t.frames = r.range(1, endp); break;
      case 2: t.frames = std::max<int64_t>(1, (int64_t)idx.back() - (int64_t)(t.psz / 2) + r.range(-2, 2)); break;
      case 3: t.frames = endp + r.range(0, 60); break;
      case 4: t.frames = r.range(1, 3); break;
      default: t.frames = std::max<int64_t>(1, (int64_t)endp + r.range(-20, 20));
    }
    const int radius = r.chance(0.06) ? static_cast<int>(r.pick(std::vector<int64_t>{-1, -3, INT_MIN, INT_MAX, INT_MAX / 2, 100000000}))
                     : late ? static_cast<int>(r.range(1, 5))
                     : r.chance(0.2) ? 0 : static_cast<int>(r.range(1, r.chance(0.5) ? 3 : 60));
    FillTable(r, &t, idx, &tk);
    const double fd = r.chance(0.3) ? 0.02 : r.uni(0.001, 0.1);
    std::vector<ImagePatch> patches;
    for (size_t i = 0; i < n; i++) {
      ImagePatch p(t.rows, t.psz);
      for (size_t a = 0; a < t.rows; a++)
        for (size_t b = 0; b < t.psz; b++) p(a, b) = a == 0 && b == 0 ? i : i * 7.0 + a + 0.5 * b;
      patches.push_back(p);
    }
    AMatrix<double> spec(t.rows, t.frames);
    for (size_t i = 0; i < t.rows; i++)
      for (size_t j = 0; j < t.frames; j++) spec(i, j) = Cell(i, j);
    std::string at;
    for (size_t i = 0; i < std::min<size_t>(n, 8); i++) at += Fmt(" %zu", idx[i]);
    const std::string what = Fmt("%zu patches of %zux%zu (%s:%s), %zu degraded frames, radius %d, table %s", n, t.rows, t.psz, pk.c_str(), at.c_str(), t.frames, radius, tk.c_str());
    Note(what);
    Visqol::ComparisonPatchesSelector sel(std::make_unique<TableComparator>(&t));
    auto st = sel.FindMostOptimalDegPatches(patches, idx, spec, fd, radius);
    if (!t.wrong.empty()) { Viol("patch-frames", what + ": " + t.wrong); return; }
    Stat("comparisons made", t.calls);
    Stat("comparisons with silence beyond the end", t.padded);
    if (tk == "not numbers") {  // which match is best is not defined; that there is one for every patch is
      if (!st.ok()) { Stat("searches without numbers refused"); continue; }
      Stat("searches without numbers");
      for (const auto& q : st.value()) {
        const double w = std::max(0, radius) * static_cast<double>(t.psz);
        if (!(q.deg_patch_start_time >= 0 && q.deg_patch_start_time <= (t.frames - 1) * fd * (1 + 1e-9)) ||
            (q.deg_patch_end_time != 0 && std::fabs(q.deg_patch_start_time - q.ref_patch_start_time) > w * fd + 1e-9))
          Viol("without-numbers", what + Fmt(": patch at %g matched at %g", q.ref_patch_start_time, q.deg_patch_start_time));
      }
      continue;
    }
    JudgeSearch(what, idx, t.psz, radius, t.frames, fd, t.sims, st, 1e-13, [&](size_t i, size_t f, bool dropped, const PatchSimilarityResult& q) -> std::string {
      for (size_t b = 0; b < t.rows; b++) {
        if (!dropped && q.freq_band_means(b) != i * 100 + f + 0.25 * b) return Fmt("band mean %g", q.freq_band_means(b));
        if (!dropped && q.freq_band_stddevs(b) != i * 101 + f + 0.25 * b) return Fmt("band deviation %g", q.freq_band_stddevs(b));
        if (!dropped && q.freq_band_deg_energy(b) != i * 102 + f + 0.25 * b) return Fmt("band energy %g", q.freq_band_deg_energy(b));
      }
      return "";
    });
  }
}

static void RealSearch(Ctx& c) {
  Rng& r = c.rng;
  const size_t rows = r.range(3, 10), psz = r.pick(std::vector<size_t>{4, 6, 10, 20}), n = r.range(1, 5);
  std::string pk;
  const std::vector<size_t> idx = Positions(r, n, psz, &pk);
  const size_t F = std::max<int64_t>(1, (int64_t)(idx.back() + psz) + r.range(-30, 30));
  const int radius = static_cast<int>(r.range(0, 4));
  Mat R(rows, idx.back() + psz), D(rows, F);
  for (double& v : R.d) v = r.chance(0.2) ? 0 : r.uni(0, 60);
  const int off = static_cast<int>(r.range(-6, 6));
  for (size_t j = 0; j < F; j++) {
    const bool lost = r.chance(0.1);
    for (size_t i = 0; i < rows; i++) {
      const int64_t k = (int64_t)j - off;
      D(i, j) = lost ? 0 : (k >= 0 && k < (int64_t)R.c ? R(i, k) + r.uni(0, 8) : r.uni(0, 60));
    }
  }
  const std::string what = Fmt("real patches: %zu of %zux%zu (%s), %zu frames, radius %d, offset %d", n, rows, psz, pk.c_str(), F, radius, off);
  Note(what);
  std::vector<ImagePatch> patches;
  std::vector<Vec> sims(n, Vec(F));
  std::vector<std::vector<ref::Patch>> full(n, std::vector<ref::Patch>(F));
  for (size_t i = 0; i < n; i++) {
    const Mat p = ref::Columns(R, idx[i], psz);
    patches.push_back(prod::ToA(p));
    for (size_t f = 0; f < F; f++) { full[i][f] = ref::Nsim(p, ref::Columns(D, f, psz)); sims[i][f] = full[i][f].sim; }
  }
  Visqol::ComparisonPatchesSelector sel(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
  auto st = sel.FindMostOptimalDegPatches(patches, idx, prod::ToA(D), 0.02, radius);
  JudgeSearch(what, idx, psz, radius, F, 0.02, sims, st, 1e-7, [&](size_t i, size_t f, bool dropped, const PatchSimilarityResult& q) -> std::string {
    if (dropped) return "";
    for (size_t b = 0; b < rows; b++)
      if (!Close(q.freq_band_means(b), full[i][f].means[b], 1e-7)) return Fmt("band %zu mean %.9g expected %.9g", b, q.freq_band_means(b), full[i][f].means[b]);
    return "";
  });
}

// ---------------------------------------------------------------- C10
static void Realign(Ctx& c) {
  Rng& r = c.rng;
  const bool speech = r.chance(0.5);
  const size_t rate = r.pick(std::vector<size_t>{500, 1000, 1600, 2000, 2205, 4000}), bands = speech ? 21 : 32;
  const size_t hop = ref::HopSize(rate), psz = speech ? 20 : 30;
  const double fd = hop / (double)rate;
  const size_t n = static_cast<size_t>((1.2 + r.uni(0, 1.5)) * rate);
  std::string a;
  const Vec x = sig::Gen(r, n, rate, &a);
  // locally shifted degraded audio
  Vec y = sig::Shift(x, r.range(-30, 30));
  if (r.chance(0.5)) {
    const size_t k = r.range(0, y.size() / 2);
    y.insert(y.begin() + k, r.range(1, 40), 0.0);
  }
  y.resize(static_cast<size_t>(y.size() * (r.chance(0.4) ? r.uni(0.5, 1) : 1)));
  const double s = sig::Rms(x) * (r.chance(0.5) ? 0.02 : 0.3);
  for (double& v : y) v = v * 0.9 + s * r.gauss();
  std::vector<PatchSimilarityResult> in;
  std::vector<ref::Patch> inp;
  const size_t m = r.range(1, 5);
  const double dur = r.chance(0.7) ? psz * fd : r.uni(0.2, 0.5);
  const int64_t maxr = std::max<int64_t>(0, (int64_t)((n - dur * rate) / hop) - 1);
  std::vector<char> drop;
  for (size_t i = 0; i < m; i++) {
    PatchSimilarityResult q;
    ref::Patch p;
    p.rs = r.range(0, maxr) * fd;
    p.re = p.rs + dur;
    const bool d = r.chance(0.15);
    // some reach beyond the end of the degraded audio
    const int64_t maxd = std::max<int64_t>(0, (int64_t)((double)y.size() / hop) - 3);
    const int64_t f = std::llround(p.rs / fd) + r.range(-6, 6);
    p.ds = d ? 0 : (r.chance(0.1) ? 0 : std::min(std::max<int64_t>(0, f), maxd)) * fd;
    p.de = d ? 0 : p.ds + dur;
    p.sim = d ? 0 : r.pick(std::vector<double>{-1, 0, 0.3, 0.6, 0.8, 0.9, 0.97, 1, 2});
    for (size_t b = 0; b < bands; b++) { p.means.push_back(r.uni()); p.stds.push_back(r.uni()); p.energy.push_back(r.uni()); }
    q.similarity = p.sim;
    q.ref_patch_start_time = p.rs; q.ref_patch_end_time = p.re;
    q.deg_patch_start_time = p.ds; q.deg_patch_end_time = p.de;
    q.freq_band_means = AMatrix<double>(p.means);
    q.freq_band_stddevs = AMatrix<double>(p.stds);
    q.freq_band_deg_energy = AMatrix<double>(p.energy);
    in.push_back(q); inp.push_back(p); drop.push_back(d);
  }
  const std::string what = Fmt("%s rate %zu, %zu/%zu samples of %s, %zu patches of %.6g s", speech ? "speech" : "audio", rate, x.size(), y.size(), a.c_str(), m, dur);
  Note(what);
  Visqol::AnalysisWindow win(rate, 0.25);
  Visqol::GammatoneSpectrogramBuilder builder(Visqol::GammatoneFilterBank(bands, 50), speech);
  Visqol::ComparisonPatchesSelector sel(std::make_unique<Visqol::NeurogramSimiliarityIndexMeasure>());
  const Visqol::AudioSignal sx = prod::Signal(x, rate), sy = prod::Signal(y, rate);
  auto st = sel.FinelyAlignAndRecreatePatches(in, sx, sy, &builder, win);
  // expectations per patch: candidate lags and their outcome
  bool some_fail = false, all_sure = true;
  std::vector<std::vector<std::pair<int64_t, ref::Patch>>> opts(m);
  std::vector<char> many(m, 0), may_fail(m, 0);
  for (size_t i = 0; i < m; i++) {
    if (drop[i]) continue;
    const Vec ra = ref::Slice(x, inp[i].rs, inp[i].re, rate), da = ref::Slice(y, inp[i].ds, inp[i].de, rate);
    bool mm;
    const auto cand = ref::AlignCandidates(ra, da, &mm);
    many[i] = mm;
    for (int64_t l : cand) {
      ref::Patch q;
      if (ref::RealignWith(ra, da, l, rate, speech, inp[i], &q)) opts[i].push_back({l, q});
      else may_fail[i] = 1;
    }
    if (opts[i].empty()) some_fail = true;
    if (may_fail[i] || mm) all_sure = false;
  }
  if (!st.ok()) {
    Stat("errors");
    if (all_sure && !some_fail) Viol("refused", what + ": " + st.status().ToString());
    return;
  }
  if (some_fail) { Inconclusive("expected an error"); return; }
  const auto& out = st.value();
  if (out.size() != m) { Viol("patch-count", what + Fmt(": %zu results", out.size())); return; }
  for (size_t i = 0; i < m; i++) {
    const PatchSimilarityResult& o = out[i];
    ref::Patch g;
    g.sim = o.similarity; g.rs = o.ref_patch_start_time; g.re = o.ref_patch_end_time; g.ds = o.deg_patch_start_time; g.de = o.deg_patch_end_time;
    for (size_t b = 0; b < bands && b < o.freq_band_means.NumRows(); b++) g.means.push_back(o.freq_band_means(b));
    for (size_t b = 0; b < bands && b < o.freq_band_stddevs.NumRows(); b++) g.stds.push_back(o.freq_band_stddevs(b));
    for (size_t b = 0; b < bands && b < o.freq_band_deg_energy.NumRows(); b++) g.energy.push_back(o.freq_band_deg_energy(b));
    auto same = [&](const ref::Patch& p, double t) {
      return Close(g.sim, p.sim, t) && Close(g.rs, p.rs, 1e-9) && Close(g.re, p.re, 1e-9) && Close(g.ds, p.ds, 1e-9) && Close(g.de, p.de, 1e-9) &&
             Mismatch(g.means, p.means, t) == -1 && Mismatch(g.stds, p.stds, 10 * t) == -1 && Mismatch(g.energy, p.energy, 10 * t, 1e-6) == -1;
    };
    auto str = [](const ref::Patch& p) { return Fmt("sim %.9g ref [%.9g,%.9g] deg [%.9g,%.9g]", p.sim, p.rs, p.re, p.ds, p.de); };
    if (drop[i]) {
      Stat("dropped patches kept");
      if (!same(inp[i], 0)) { Viol("dropped-changed", what + Fmt(": patch %zu: ", i) + str(g)); return; }
      continue;
    }
    const bool kept = same(inp[i], 0);
    if (!kept && g.sim < inp[i].sim) { Viol("lowered", what + Fmt(": patch %zu: %s became %s", i, str(inp[i]).c_str(), str(g).c_str())); return; }
    if (many[i]) { Inconclusive("ambiguous lag"); continue; }
    bool explained = false;
    for (auto& [l, q] : opts[i]) {
      if (q.sim < inp[i].sim + 1e-6 && kept) explained = true;
      if (q.sim > inp[i].sim - 1e-6 && same(q, 1e-6)) { explained = true; Stat("patches moved", l != 0); }
    }
    if (!explained) {
      Viol("realignment", what + Fmt(": patch %zu: before %s, after %s, expected %s (lag %lld of %zu candidates)", i, str(inp[i]).c_str(), str(g).c_str(),
                                     opts[i][0].second.sim < inp[i].sim ? "no change" : str(opts[i][0].second).c_str(), (long long)opts[i][0].first, opts[i].size()));
      return;
    }
    Stat(kept ? "patches kept" : "patches replaced");
    Cover(Fmt("%zu %.9g %.6g %.6g", rate, g.sim, g.rs, g.ds));
    if (i == 0) Sample(what + ": " + str(inp[0]) + " -> " + str(g));
  }
  // The boundary, exactly: the same patches again, with the similarity the
  // realigned one has, and with its neighbours above and below.
  std::vector<PatchSimilarityResult> low = in;
  for (auto& q : low) q.similarity = -100;
  auto base = sel.FinelyAlignAndRecreatePatches(low, sx, sy, &builder, win);
  if (!base.ok() || base.value().size() != m) return;
  for (int d = -1; d <= 1; d++) {
    auto again = in;
    for (size_t i = 0; i < m; i++) {
      const double s = base.value()[i].similarity;
      again[i].similarity = d < 0 ? std::nextafter(s, -1e9) : d > 0 ? std::nextafter(s, 1e9) : s;
    }
    auto res = sel.FinelyAlignAndRecreatePatches(again, sx, sy, &builder, win);
    if (!res.ok() || res.value().size() != m) { Viol("refused", what + " with similarities as realigned"); return; }
    for (size_t i = 0; i < m; i++) {
      if (drop[i] || std::isnan(base.value()[i].similarity)) continue;
      const PatchSimilarityResult &o = res.value()[i], &want = d > 0 ? again[i] : base.value()[i];
      bool ok = o.similarity == want.similarity && o.ref_patch_start_time == want.ref_patch_start_time && o.ref_patch_end_time == want.ref_patch_end_time &&
                o.deg_patch_start_time == want.deg_patch_start_time && o.deg_patch_end_time == want.deg_patch_end_time && o.freq_band_means.NumRows() == want.freq_band_means.NumRows();
      for (size_t b = 0; ok && b < o.freq_band_means.NumRows(); b++) ok = o.freq_band_means(b) == want.freq_band_means(b) && o.freq_band_stddevs(b) == want.freq_band_stddevs(b) && o.freq_band_deg_energy(b) == want.freq_band_deg_energy(b);
      if (!ok) {
        Viol("boundary", what + Fmt(": patch %zu: similarity before %.17g, realigned %.17g: %s expected", i, again[i].similarity, base.value()[i].similarity, d > 0 ? "no change" : "the realigned one"));
        return;
      }
      Stat(d == 0 ? "exact ties" : "one step from a tie");
    }
  }
}

void RunCase(Ctx& c) {
  if (c.mode == "search") { if (c.rng.chance(0.15)) RealSearch(c); else Search(c); }
  else if (c.mode == "realign") Realign(c);
}
}  // namespace mon
