// Independent plain-loop model of the published computation. Shares no code
// with the library under test (the SVR prediction uses libsvm, the lattice the
// interpreter in shim/).
#ifndef VERIF_REF_H
#define VERIF_REF_H
#include <cmath>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>


namespace ref {
using Vec = std::vector<double>;

struct Mat {  // column major
  size_t r = 0, c = 0;
  Vec d;
  Mat() {}
  Mat(size_t rows, size_t cols, double v = 0) : r(rows), c(cols), d(rows * cols, v) {}
  double& operator()(size_t i, size_t j) { return d[j * r + i]; }
  double operator()(size_t i, size_t j) const { return d[j * r + i]; }
};

// ---- transforms, envelope, correlation
void Fft(std::vector<double>& re, std::vector<double>& im, bool inverse);
size_t Pow2AtLeast(size_t n);
Vec Envelope(const Vec& x);
struct Corr {
  int64_t max_lag = 0;
  Vec c;           // c[k + max_lag], lag k: sum_n a[n] * b[n + (-k)]
  double norm = 0;  // sqrt(sum a^2 * sum b^2)
  bool finite = true;
  double at(int64_t lag) const { return c[lag + max_lag]; }
};
Corr XCorr(const Vec& a, const Vec& b);
// Lags the global alignment may report: near-ties within tol*norm count.
// Truncates after `limit` candidates (then *too_many).
std::vector<int64_t> AlignCandidates(const Vec& ref, const Vec& deg, bool* too_many,
                                     double tol = 1e-5, size_t limit = 40);
Vec ApplyLag(const Vec& deg, int64_t lag);
void AlignAndTruncate(const Vec& ref, const Vec& deg, int64_t lag, size_t rate, Vec* r, Vec* d);

// ---- spectrogram
size_t WindowSize(size_t rate);
size_t HopSize(size_t rate);
Vec CenterFreqs(double lo, double hi, size_t n);  // descending, as designed
struct Gamma { double a11, a12, a13, a14, b1, b2, gain, t; };
std::vector<Gamma> Filters(size_t rate, const Vec& cf);
Vec FilterFrame(const Vec& frame, const Gamma& g);
// False when refused (signal not longer than a window, or no hop).
bool Spectrogram(const Vec& x, size_t rate, size_t bands, double min_freq, bool speech, Mat* out,
                 Vec* cf);
void Prepare(Mat* a, Mat* b);
double Spl(const Vec& x);
Vec MatchLevel(const Vec& ref, const Vec& deg);

// ---- patches
bool AudioPatchStarts(size_t frames, size_t patch, std::vector<size_t>* out);
bool SpeechPatchStarts(size_t frames, size_t patch, const Vec& ref, size_t rate,
                       std::vector<size_t>* out);
Mat Columns(const Mat& m, int64_t from, size_t n);  // beyond the end: zeros

struct Patch {
  double sim = 0, rs = 0, re = 0, ds = 0, de = 0;
  Vec means, stds, energy;
};
Patch Nsim(const Mat& r, const Mat& d);

// Best total over all ordered assignments. sims[i] is valid in [lo_i, hi_i].
struct SearchProblem {
  std::vector<std::vector<double>> sims;  // per patch, per frame (NaN = not allowed)
};
double BestTotal(const SearchProblem& p);

// ---- pooling and quality
struct Pooled {
  Vec fvnsim, fvnsim10, fstdnsim, fvdegenergy;
  double vnsim = 0;
};
// tie: how an exact multiple of the frame duration is counted (-1: as computed).
Pooled Pool(const std::vector<Patch>& p, double frame_duration, int tie = -1);
double Exponential(double x, bool scaled);
double SvrPredict(const std::string& model, const Vec& f);  // unclamped
double LatticePredict(const std::string& model, const Pooled& p);

// ---- fine realignment of one matched pair
Vec Slice(const Vec& x, double start, double end, size_t rate);
// False if the aligned audio gives no comparable spectrograms.
bool RealignWith(const Vec& ref_audio, const Vec& deg_audio, int64_t lag, size_t rate, bool speech,
                 const Patch& before, Patch* after);

// ---- whole comparison
struct Config {
  bool speech = false, lattice = false, unscaled = false, no_align = false, no_realign = false;
  int radius = 60;
  std::string model;
  std::string Str() const;
};
struct Obs {  // what the product reported
  bool ok = false;
  int code = 0;
  std::string msg;
  double moslqo = 0, vnsim = 0, lag = 0;
  Vec fvnsim, fvnsim10, fstdnsim, fvdegenergy, cf;
  std::vector<Patch> patches;
};
struct Outcome {
  std::string key, detail;   // empty key: agrees
  std::string inconclusive;  // reason, if the model could not decide
  double got = NAN, want = NAN;  // the numbers that disagree, where it is about numbers
  size_t patches = 0, dropped = 0, realigned = 0, moved = 0;
  int64_t lag = 0;
};
// Checks obs (options in cfg). When realignment is on, `base` must be the
// product's own result with realignment off for the same input.
Outcome CheckRun(const Vec& ref, const Vec& deg, size_t rate, const Config& cfg, const Obs& obs,
                 const Obs* base, bool check_quality = true);
// Invariants any successful result must satisfy (no reference needed).
std::string CheckConsistency(const Config& cfg, const Obs& o, std::string* detail);
double QualityOf(const Config& cfg, const Obs& o);
}  // namespace ref
#endif
