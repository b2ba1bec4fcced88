#include "ref.h"

#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <map>
#include <mutex>

#include "mon.h"
#include "svm.h"
#include "tensorflow/lite/mini_tflite.h"

namespace ref {
using mon::Fmt;
using mon::Head;
const double kPi = 3.14159265358979323846;

// ------------------------------------------------------------ transforms
void Fft(Vec& re, Vec& im, bool inverse) {
  const size_t n = re.size();
  for (size_t i = 1, j = 0; i < n; i++) {
    size_t bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) { std::swap(re[i], re[j]); std::swap(im[i], im[j]); }
  }
  Vec cs(n / 2 + 1), sn(n / 2 + 1);
  for (size_t k = 0; k < n / 2; k++) {
    double a = 2 * kPi * k / n;
    cs[k] = std::cos(a);
    sn[k] = inverse ? std::sin(a) : -std::sin(a);
  }
  for (size_t len = 2; len <= n; len <<= 1) {
    const size_t h = len / 2, step = n / len;
    for (size_t i = 0; i < n; i += len)
      for (size_t k = 0; k < h; k++) {
        const double wr = cs[k * step], wi = sn[k * step];
        const size_t p = i + k, q = p + h;
        const double tr = re[q] * wr - im[q] * wi, ti = re[q] * wi + im[q] * wr;
        re[q] = re[p] - tr; im[q] = im[p] - ti;
        re[p] += tr; im[p] += ti;
      }
  }
  if (inverse)
    for (size_t i = 0; i < n; i++) { re[i] /= n; im[i] /= n; }
}
size_t Pow2AtLeast(size_t n) {
  size_t p = 1;
  while (p < n) p <<= 1;
  return p;
}

// |real part of the "analytic" inverse| + mean: the imaginary part is dropped
// by the library's real inverse transform, so this is what is published as the
// conformance behaviour of this version.
Vec Envelope(const Vec& x) {
  const size_t n = x.size(), N = std::max<size_t>(32, Pow2AtLeast(n));
  double mean = 0;
  for (double v : x) mean += v;
  mean /= n;
  Vec re(N, 0.0), im(N, 0.0);
  for (size_t i = 0; i < n; i++) re[i] = x[i] - mean;
  Fft(re, im, false);
  // scaling of the bins 0..N/2, as seen by a real inverse transform
  const bool odd = n % 2 == 1;
  Vec sc(N + 1, 0.0);
  sc[0] = 1;
  if (n > 0) sc[n / 2] = odd ? 2.0 : 1.0;
  const size_t lim = odd ? (N + 1) / 2 : N / 2;
  for (size_t i = 1; i < lim; i++) sc[i] = 2.0;
  for (size_t i = 0; i <= N / 2; i++) { re[i] *= sc[i]; im[i] *= sc[i]; }
  im[0] = 0; im[N / 2] = 0;
  for (size_t i = N / 2 + 1; i < N; i++) { re[i] = re[N - i]; im[i] = -im[N - i]; }
  Fft(re, im, true);
  Vec e(n);
  for (size_t i = 0; i < n; i++) e[i] = std::fabs(re[i]) + mean;
  return e;
}

Corr XCorr(const Vec& a, const Vec& b) {
  Corr r;
  const size_t m = std::max(a.size(), b.size());
  r.max_lag = static_cast<int64_t>(m) - 1;
  double ea = 0, eb = 0;
  for (double v : a) ea += v * v;
  for (double v : b) eb += v * v;
  r.norm = std::sqrt(ea) * std::sqrt(eb);
  r.c.assign(2 * m - 1, 0.0);
  if (!std::isfinite(r.norm)) { r.finite = false; return r; }
  const size_t N = Pow2AtLeast(2 * m);
  Vec ar(N, 0.0), ai(N, 0.0);
  // both real signals in one complex transform
  for (size_t i = 0; i < a.size(); i++) ar[i] = a[i];
  for (size_t i = 0; i < b.size(); i++) ai[i] = b[i];
  Fft(ar, ai, false);
  Vec pr(N), pi(N);
  for (size_t k = 0; k < N; k++) {
    const size_t j = (N - k) & (N - 1);
    const double Ar = 0.5 * (ar[k] + ar[j]), Ai = 0.5 * (ai[k] - ai[j]);
    const double Br = 0.5 * (ai[k] + ai[j]), Bi = 0.5 * (ar[j] - ar[k]);
    pr[k] = Ar * Br + Ai * Bi;  // A * conj(B)
    pi[k] = Ai * Br - Ar * Bi;
  }
  Fft(pr, pi, true);
  for (int64_t l = -r.max_lag; l <= r.max_lag; l++)
    r.c[l + r.max_lag] = pr[l >= 0 ? l : static_cast<int64_t>(N) + l];
  return r;
}

static int64_t LagRule(int64_t lag, size_t ref_n, size_t deg_n) {
  if (std::fabs(static_cast<double>(lag)) > ref_n / 2.0) return 0;
  if (lag < 0 && -lag >= static_cast<int64_t>(deg_n)) return 0;
  return lag;
}

std::vector<int64_t> AlignCandidates(const Vec& ref, const Vec& deg, bool* too_many, double tol,
                                     size_t limit) {
  *too_many = false;
  const Corr c = XCorr(Envelope(ref), Envelope(deg));
  // all-zero or non-finite correlation: the first position wins, beyond reach
  if (!c.finite || c.norm == 0 || c.c.empty()) return {0};
  const double best = *std::max_element(c.c.begin(), c.c.end());
  std::vector<int64_t> out;
  for (int64_t l = -c.max_lag; l <= c.max_lag; l++)
    if (c.at(l) >= best - tol * c.norm) {
      const int64_t k = LagRule(l, ref.size(), deg.size());
      if (std::find(out.begin(), out.end(), k) == out.end()) out.push_back(k);
      if (out.size() > limit) { *too_many = true; break; }
    }
  // best first
  std::stable_sort(out.begin(), out.end(), [&](int64_t x, int64_t y) { return c.at(x) > c.at(y); });
  return out;
}

Vec ApplyLag(const Vec& deg, int64_t lag) {
  if (lag == 0) return deg;
  if (lag < 0) return Vec(deg.begin() - lag, deg.end());
  Vec o(lag, 0.0);
  o.insert(o.end(), deg.begin(), deg.end());
  return o;
}

void AlignAndTruncate(const Vec& ref, const Vec& deg, int64_t lag, size_t rate, Vec* r, Vec* d) {
  *d = ApplyLag(deg, lag);
  *r = ref;
  const double lag_s = lag / static_cast<double>(rate);
  if (r->size() > d->size()) {
    r->resize(d->size());
  } else if (r->size() < d->size()) {
    const size_t n = r->size();
    const size_t s = lag > 0 ? static_cast<size_t>(static_cast<int>(lag_s * rate)) : 0;
    *d = Vec(d->begin() + s, d->begin() + n);
    *r = Vec(r->begin() + s, r->end());
  }
}

// ------------------------------------------------------------ spectrogram
size_t WindowSize(size_t rate) { return static_cast<size_t>(std::round(rate * 0.08)); }
size_t HopSize(size_t rate) { return static_cast<size_t>(WindowSize(rate) * 0.25); }

Vec CenterFreqs(double lo, double hi, size_t n) {
  const double q = 9.26449 * 24.7;
  Vec v(n);
  for (size_t i = 0; i < n; i++)
    v[i] = -q + std::exp((i + 1) * (std::log(lo + q) - std::log(hi + q)) / n) * (hi + q);
  return v;
}

std::vector<Gamma> Filters(size_t rate, const Vec& cf) {
  typedef std::complex<double> C;
  const double T = 1.0 / rate;
  const C i(0, 1);
  std::vector<Gamma> out;
  for (double f : cf) {
    const double erb = f / 9.26449 + 24.7;
    const double B = 1.019 * 2 * kPi * erb;
    const double e = std::exp(B * T), w = 2 * kPi * f * T;
    const double cs = std::cos(w), sn = std::sin(w);
    const double rp = std::sqrt(3 + std::pow(2, 1.5)), rm = std::sqrt(3 - std::pow(2, 1.5));
    Gamma g;
    g.t = T;
    g.b1 = -2 * cs / e;
    g.b2 = std::exp(-2 * B * T);
    g.a11 = -(T * cs + rp * T * sn) / e;
    g.a12 = -(T * cs - rp * T * sn) / e;
    g.a13 = -(T * cs + rm * T * sn) / e;
    g.a14 = -(T * cs - rm * T * sn) / e;
    // gain at the centre frequency: |prod numerators| / |denominator|^4
    const C z2 = std::exp(2.0 * i * w);      // e^{4 pi i f T}
    const C zb = std::exp(C(-B * T, w));     // e^{-BT + 2 pi i f T}
    C num(1, 0);
    for (double k : {-rm, rm, -rp, rp}) num *= -2.0 * z2 * T + 2.0 * zb * T * (cs + k * sn);
    const C den = -2.0 / std::exp(2 * B * T) - 2.0 * z2 + 2.0 * (1.0 + z2) / e;
    g.gain = std::abs(num / (den * den * den * den));
    out.push_back(g);
  }
  return out;
}

// Largest relative change of every value inside the filters, at random: how far
// the model's answer is decided by rounding.
static thread_local double jitter = 0;
static thread_local uint64_t jitter_state = 1;
static double Jittered(double y) {
  jitter_state ^= jitter_state << 13; jitter_state ^= jitter_state >> 7; jitter_state ^= jitter_state << 17;
  return y * (1 + jitter * (static_cast<double>(jitter_state >> 11) / 4503599627370496.0 - 1));
}

Vec FilterFrame(const Vec& frame, const Gamma& g) {
  // four second-order sections in series, each starting at rest
  const double b1 = g.b1, b2 = g.b2;
  const double n0[4] = {g.t / g.gain, g.t, g.t, g.t};
  const double n1[4] = {g.a11 / g.gain, g.a12, g.a13, g.a14};
  Vec x = frame;
  for (int s = 0; s < 4; s++) {
    double z0 = 0, z1 = 0;
    for (double& v : x) {
      const double in = v, y = jitter ? Jittered(n0[s] * in + z0) : n0[s] * in + z0;
      z0 = n1[s] * in + z1 - b1 * y;
      z1 = -b2 * y;
      v = y;
    }
  }
  return x;
}

bool Spectrogram(const Vec& x, size_t rate, size_t bands, double min_freq, bool speech, Mat* out,
                 Vec* cf) {
  const size_t w = WindowSize(rate), hop = HopSize(rate);
  if (hop == 0 || x.size() <= w) return false;
  double hi = speech ? 8000.0 : rate / 2.0;
  if (hi > rate / 2.0) hi = rate / 2.0;
  Vec f = CenterFreqs(min_freq, hi, bands);
  std::reverse(f.begin(), f.end());  // ascending
  const std::vector<Gamma> g = Filters(rate, f);
  const size_t cols = 1 + (x.size() - w) / hop;
  *out = Mat(bands, cols);
  Vec hann(w);
  for (size_t i = 0; i < w; i++) hann[i] = 0.5 - 0.5 * std::cos(2.0 * kPi * i / (w - 1));
  Vec fr(w);
  for (size_t c = 0; c < cols; c++) {
    for (size_t i = 0; i < w; i++) fr[i] = hann[i] * x[c * hop + i];
    for (size_t b = 0; b < bands; b++) {
      const Vec y = FilterFrame(fr, g[b]);
      double s = 0;
      for (double v : y) s += v * v;
      (*out)(b, c) = std::sqrt(s / w);
    }
  }
  if (cf) *cf = f;
  return true;
}

void Prepare(Mat* a, Mat* b) {
  for (Mat* m : {a, b})
    for (double& v : m->d) {
      double t = std::fabs(v);
      if (t == 0) t = std::numeric_limits<double>::epsilon();
      t = 10 * std::log10(t);
      v = t > -45.0 ? t : -45.0;  // also for NaN
    }
  const size_t n = std::min(a->c, b->c);
  for (size_t j = 0; j < n; j++) {
    double mx = -1e300;
    for (Mat* m : {a, b})
      for (size_t i = 0; i < m->r; i++) mx = std::max(mx, (*m)(i, j));
    for (Mat* m : {a, b})
      for (size_t i = 0; i < m->r; i++) (*m)(i, j) = std::max((*m)(i, j), mx - 45.0);
  }
  double mn = 1e300;
  for (Mat* m : {a, b})
    for (double v : m->d) mn = std::min(mn, v);
  for (Mat* m : {a, b})
    for (double& v : m->d) v -= mn;
}

double Spl(const Vec& x) {
  double s = 0;
  for (double v : x) s += v * v;
  return 20 * std::log10(std::sqrt(s / x.size()) / 0.00002);
}
Vec MatchLevel(const Vec& ref, const Vec& deg) {
  const double k = std::pow(10, (Spl(ref) - Spl(deg)) / 20);
  Vec o(deg);
  for (double& v : o) v *= k;
  return o;
}

// ------------------------------------------------------------ patches
bool AudioPatchStarts(size_t frames, size_t patch, std::vector<size_t>* out) {
  out->clear();
  const size_t first = patch / 2;
  if (frames < patch + first) return false;
  size_t end = frames - patch;
  if (first >= end) end = first + 1;
  for (size_t i = first; i < end; i += patch) out->push_back(i - 1);
  return true;
}

bool SpeechPatchStarts(size_t frames, size_t patch, const Vec& ref, size_t rate,
                       std::vector<size_t>* out) {
  out->clear();
  const size_t first = patch / 2 - 1;
  if (frames < first + patch) return false;
  const size_t count = (frames - first) / patch, hop = HopSize(rate);
  double mx = ref[0];
  for (double v : ref) if (mx < v) mx = v;
  std::vector<int> active;  // per hop-sized chunk, starting at sample `first`
  std::vector<int> loud;
  for (size_t k = 0; k < count * patch; k++) {
    double sq = 0;
    for (size_t i = 0; i < hop; i++) {
      double v = ref[first + k * hop + i] / mx * 32768.0;
      if (!(v < 32767.0)) v = 32767.0;
      if (v < -32768.0) v = -32768.0;
      const double q = static_cast<int16_t>(v);
      sq += q * q;
    }
    loud.push_back(std::sqrt(sq / hop) >= 5000.0);
    const bool silent = k >= 2 && !loud[k] && !loud[k - 1] && !loud[k - 2];
    active.push_back(!silent);
  }
  for (size_t p = 0; p < count; p++)
    for (size_t j = 0; j < patch; j++)
      if (active[p * patch + j]) { out->push_back(first + p * patch); break; }
  return true;
}

Mat Columns(const Mat& m, int64_t from, size_t n) {
  Mat o(m.r, n);
  for (size_t j = 0; j < n; j++) {
    const int64_t s = from + static_cast<int64_t>(j);
    if (s < 0 || s >= static_cast<int64_t>(m.c)) continue;
    for (size_t i = 0; i < m.r; i++) o(i, j) = m(i, s);
  }
  return o;
}

Patch Nsim(const Mat& r, const Mat& d) {
  static const double w0 = 0.0113033910173052, w1 = 0.0838251475442633, w2 = 0.619485845753726;
  const double c1 = 1e-4, c3 = 9e-4 / 2;
  const int R = r.r, C = r.c;
  // separable access through precomputed clamped neighbours
  Patch p;
  p.means.assign(R, 0); p.stds.assign(R, 0); p.energy.assign(R, 0);
  Vec row(C);
  static const double W[3][3] = {{w0, w1, w0}, {w1, w2, w1}, {w0, w1, w0}};
  for (int i = 0; i < R; i++) {
    double sum = 0, en = 0;
    for (int j = 0; j < C; j++) {
      double mr = 0, md = 0, rr = 0, dd = 0, rd = 0;
      for (int a = -1; a <= 1; a++) {
        const int y = std::min(std::max(i + a, 0), R - 1);
        for (int b = -1; b <= 1; b++) {
          const int x = std::min(std::max(j + b, 0), C - 1);
          const double k = W[a + 1][b + 1], u = r(y, x), v = d(y, x);
          mr += k * u; md += k * v;
          rr += k * u * u; dd += k * v * v; rd += k * u * v;
        }
      }
      const double vr = rr - mr * mr, vd = dd - md * md, cov = rd - mr * md;
      const double inten = (2 * mr * md + c1) / (mr * mr + md * md + c1);
      const double prod = vr * vd;
      const double den = prod < 0 ? c3 : std::sqrt(prod) + c3;
      row[j] = inten * ((cov + c3) / den);
      sum += row[j];
      en += d(i, j);
    }
    const double mean = sum / C;
    double ss = 0;
    for (double v : row) ss += (v - mean) * (v - mean);
    p.means[i] = mean;
    p.stds[i] = C > 1 ? std::sqrt(ss / (C - 1)) : 0.0;
    p.energy[i] = en / C;
    p.sim += mean;
  }
  p.sim /= R;
  return p;
}

double BestTotal(const SearchProblem& p) {
  const double NEG = -std::numeric_limits<double>::infinity();
  std::vector<double> prev;
  const size_t F = p.sims.empty() ? 0 : p.sims[0].size();
  for (size_t i = 0; i < p.sims.size(); i++) {
    std::vector<double> cur(F, NEG);
    double run = NEG;  // best of prev[0..s-1]
    for (size_t s = 0; s < F; s++) {
      if (!std::isnan(p.sims[i][s])) {
        if (i == 0) cur[s] = p.sims[0][s];
        else {
          if (run > NEG) cur[s] = run + p.sims[i][s];
          if (prev[s] > cur[s]) cur[s] = prev[s];
        }
      }
      if (i > 0 && prev[s] > run) run = prev[s];
    }
    prev = cur;
  }
  double best = NEG;
  for (double v : prev) best = std::max(best, v);
  return best;
}

// ------------------------------------------------------------ pooling
Pooled Pool(const std::vector<Patch>& p, double fd, int tie) {
  Pooled o;
  const size_t n = p.size(), B = p[0].means.size();
  o.fvnsim.assign(B, 0); o.fvnsim10.assign(B, 0); o.fstdnsim.assign(B, 0); o.fvdegenergy.assign(B, 0);
  std::vector<long> frames;
  long total = 0;
  for (const Patch& q : p) {
    const double x = (q.re - q.rs) / fd;
    long k = static_cast<long>(std::ceil(x));
    // an exact multiple may round either way
    if (tie >= 0 && std::fabs(x - std::round(x)) < 1e-7) k = std::lround(x) + tie;
    frames.push_back(k);
    total += frames.back();
  }
  const size_t k = std::max<size_t>(1, static_cast<size_t>(n * 0.10));
  for (size_t b = 0; b < B; b++) {
    double m = 0, e = 0, acc = 0;
    Vec v;
    for (size_t i = 0; i < n; i++) {
      m += p[i].means[b]; e += p[i].energy[b];
      v.push_back(p[i].means[b]);
      acc += (frames[i] - 1) * p[i].stds[b] * p[i].stds[b] + frames[i] * p[i].means[b] * p[i].means[b];
    }
    m /= n;
    o.fvnsim[b] = m;
    o.fvdegenergy[b] = e / n;
    std::sort(v.begin(), v.end());
    double q = 0;
    for (size_t i = 0; i < k; i++) q += v[i];
    o.fvnsim10[b] = q / k;
    const double var = (acc - m * m * total) / (total - 1);
    o.fstdnsim[b] = var < 0 ? 0 : std::sqrt(var);
    o.vnsim += m;
  }
  o.vnsim /= B;
  return o;
}

double Exponential(double x, bool scaled) {
  const float k = scaled ? 1.245063 : 1.0;
  const double v = (-262.847869 + std::exp(0.0154302525 * (x + 361.063949))) * k;
  return std::min(5.0, std::max(1.0, v));
}

static std::mutex model_mu;
double SvrPredict(const std::string& model, const Vec& f) {
  static std::map<std::string, svm_model*> cache;
  std::lock_guard<std::mutex> l(model_mu);
  svm_model*& m = cache[model];
  if (!m) m = svm_load_model(model.c_str());
  if (!m) return NAN;
  std::vector<svm_node> x(f.size() + 1);
  for (size_t i = 0; i < f.size(); i++) { x[i].index = i + 1; x[i].value = f[i]; }
  x[f.size()].index = -1;
  return svm_predict(m, x.data());
}
double LatticePredict(const std::string& model, const Pooled& p) {
  static std::map<std::string, std::shared_ptr<const tflite::mini::Graph>> cache;
  std::lock_guard<std::mutex> l(model_mu);
  auto& g = cache[model];
  if (!g) g = tflite::mini::Load(model);
  if (!g) return NAN;
  std::map<std::string, float> feed;
  for (size_t b = 0; b < p.fvnsim.size(); b++) {
    const std::string i = std::to_string(b);
    feed["fvnsim" + i] = p.fvnsim[b];
    feed["fvnsim10_" + i] = p.fvnsim10[b];
    feed["fstdnsim" + i] = p.fstdnsim[b];
    feed["fvdegenergy" + i] = p.fvdegenergy[b];
  }
  feed["tau"] = 0.5f;
  float out = NAN;
  if (!tflite::mini::Run(*g, feed, "predictions", &out)) return NAN;
  return out;
}

double QualityOf(const Config& cfg, const Obs& o) {
  double q;
  if (!cfg.speech) {
    q = std::max(1.0, std::min(5.0, SvrPredict(cfg.model, o.fvnsim)));
  } else if (cfg.lattice) {
    Pooled p;
    p.fvnsim = o.fvnsim; p.fvnsim10 = o.fvnsim10; p.fstdnsim = o.fstdnsim;
    p.fvdegenergy = o.fvdegenergy;
    q = LatticePredict(cfg.model, p);
  } else {
    double m = 0;
    for (double v : o.fvnsim) m += v;
    q = Exponential(m / o.fvnsim.size(), !cfg.unscaled);
  }
  return o.vnsim < 0.15 ? 1.0 : q;
}

std::string Config::Str() const {
  return Fmt("%s%s%s radius=%d%s%s", speech ? "speech" : "audio",
             speech ? (lattice ? "/lattice" : "/exp") : "/svr", unscaled ? "/unscaled" : "", radius,
             no_align ? " noalign" : "", no_realign ? " norealign" : "");
}

// ------------------------------------------------------------ whole run
Vec Slice(const Vec& x, double s, double e, size_t rate) {
  const int a = std::max(0, static_cast<int>(s * rate));
  const int b = std::min(static_cast<int>(x.size()) - 1, static_cast<int>(e * rate));
  Vec o(x.begin() + a, x.begin() + b);
  const double over = e * rate - x.size();
  // the conformance scores have the missing part as silence in front
  if (over > 0) o.insert(o.begin(), static_cast<size_t>(over), 0.0);
  return o;
}

bool RealignWith(const Vec& ra, const Vec& da, int64_t lag, size_t rate, bool speech,
                 const Patch& b, Patch* q) {
  const size_t bands = speech ? 21 : 32;
  Vec r2, d2;
  AlignAndTruncate(ra, da, lag, rate, &r2, &d2);
  Mat RS, DS;
  if (!Spectrogram(r2, rate, bands, 50, speech, &RS, nullptr) ||
      !Spectrogram(d2, rate, bands, 50, speech, &DS, nullptr) || RS.c != DS.c)
    return false;
  Prepare(&RS, &DS);
  *q = Nsim(RS, DS);
  const double ls = lag / static_cast<double>(rate);
  q->rs = b.rs; q->ds = b.ds;
  if (ls > 0) q->rs += ls; else q->ds -= ls;
  q->re = q->rs + r2.size() / static_cast<double>(rate);
  q->de = q->ds + d2.size() / static_cast<double>(rate);
  return true;
}

static Outcome CheckOnce(const Vec& ref, const Vec& deg_in, size_t rate, const Config& cfg, const Obs& obs,
                         const Obs* base, bool check_quality) {
  Outcome out;
  auto numbers = [&](double got, double want) { if (out.key.empty()) { out.got = got; out.want = want; } };
  auto bad = [&](const std::string& k, const std::string& d) {
    if (out.key.empty()) { out.key = k; out.detail = d; }
    return out;
  };
  const int kInvalid = 3, kCancelled = 1;
  auto expect_error = [&](int code, const char* why) -> Outcome& {
    if (obs.ok) { bad("accepted-uncomparable", Fmt("expected an error (%s) but got a result", why)); }
    else if (obs.code != code)
      bad("wrong-error-code", Fmt("%s: expected code %d got %d (%s)", why, code, obs.code, obs.msg.c_str()));
    return out;
  };
  if (ref.empty() || deg_in.empty()) return expect_error(kInvalid, "empty signal");
  const size_t bands = cfg.speech ? 21 : 32, psz = cfg.speech ? 20 : 30;
  const size_t hop = HopSize(rate);

  // --- alignment
  Vec deg = deg_in;
  if (!cfg.no_align) {
    bool many;
    std::vector<int64_t> cand = AlignCandidates(ref, deg_in, &many);
    if (obs.ok) {
      const int64_t l = std::llround(obs.lag * rate);
      if (std::fabs(obs.lag * rate - l) > 1e-6)
        return bad("lag-not-integral", Fmt("reported lag %.17g s is no whole number of samples", obs.lag));
      if (!many && std::find(cand.begin(), cand.end(), l) == cand.end())
        return bad("lag", Fmt("reported lag %lld samples, expected %lld (of %zu candidates)",
                              (long long)l, (long long)cand[0], cand.size()));
      if (many) {
        // only check that it is within reach
        if (LagRule(l, ref.size(), deg_in.size()) != l) return bad("lag-range", Fmt("lag %lld", (long long)l));
      }
      deg = ApplyLag(deg_in, l);
      out.lag = l;
    } else {
      if (many || cand.size() > 1) { out.inconclusive = "error with ambiguous lag"; return out; }
      deg = ApplyLag(deg_in, cand[0]);
      out.lag = cand[0];
    }
  } else if (obs.ok && obs.lag != 0) {
    return bad("lag-when-disabled", Fmt("lag %.9g reported with alignment disabled", obs.lag));
  }
  deg = MatchLevel(ref, deg);

  // --- spectrograms
  Mat R, D;
  Vec cf;
  if (!Spectrogram(ref, rate, bands, 50, cfg.speech, &R, &cf)) return expect_error(kInvalid, "reference shorter than a window");
  if (!Spectrogram(deg, rate, bands, 50, cfg.speech, &D, nullptr)) return expect_error(kInvalid, "degraded shorter than a window");
  Prepare(&R, &D);

  // --- patches
  std::vector<size_t> idx;
  if (!(cfg.speech ? SpeechPatchStarts(R.c, psz, ref, rate, &idx) : AudioPatchStarts(R.c, psz, &idx)))
    return expect_error(kInvalid, "reference shorter than a patch");
  size_t n = idx.size();
  const int64_t win = static_cast<int64_t>(cfg.radius) * psz;
  while (n > 0 && (static_cast<int64_t>(idx[n - 1]) - static_cast<int64_t>(psz / 2) > static_cast<int64_t>(D.c) ||
                   static_cast<int64_t>(idx[n - 1]) - win >= static_cast<int64_t>(D.c)))
    n--;
  if (n == 0) return expect_error(kCancelled, "no reference patch can be scored");
  if (!obs.ok) return bad("refused-comparable", Fmt("expected a result, got code %d: %s", obs.code, obs.msg.c_str()));
  const double fd = hop / static_cast<double>(rate), pd = fd * psz;
  out.patches = n;

  if (obs.patches.size() != n)
    return bad("patch-count", Fmt("%zu patches reported, expected %zu", obs.patches.size(), n));
  if (mon::Mismatch(obs.cf, cf, 1e-6, 1e-9) != -1)
    return bad("center-frequencies", Head(obs.cf) + " vs " + Head(cf));

  const Obs& b0 = cfg.no_realign ? obs : *base;
  if (!cfg.no_realign) {
    if (!b0.ok || b0.patches.size() != n) return bad("base-run-differs", "the run without realignment gave a different outcome");
  }
  // --- search: decode the reported frames and check optimality
  std::vector<Patch> exp(n);
  std::vector<int64_t> pos(n);
  std::vector<char> dropped(n, 0);
  {
    std::vector<Mat> RP(n);
    for (size_t i = 0; i < n; i++) RP[i] = Columns(R, idx[i], psz);
    SearchProblem sp;
    sp.sims.assign(n, std::vector<double>(D.c, NAN));
    std::vector<Mat> DP(D.c);
    for (size_t s = 0; s < D.c; s++) DP[s] = Columns(D, s, psz);
    for (size_t i = 0; i < n; i++)
      for (int64_t s = std::max<int64_t>(0, idx[i] - win); s <= static_cast<int64_t>(idx[i]) + win && s < static_cast<int64_t>(D.c); s++)
        sp.sims[i][s] = Nsim(RP[i], DP[s]).sim;
    double total = 0;
    int64_t prev = -1;
    for (size_t i = 0; i < n; i++) {
      const Patch& o = b0.patches[i];
      const double er = idx[i] * fd;
      if (cfg.no_realign && (!mon::Close(o.rs, er, 1e-9) || !mon::Close(o.re, er + pd, 1e-9)))
        return bad("reference-times", Fmt("patch %zu: [%.9g,%.9g], expected [%.9g,%.9g]", i, o.rs, o.re, er, er + pd));
      if (o.ds == 0 && o.de == 0) {
        if (i == 0) return bad("first-patch-dropped", "the first patch was reported as dropped");
        dropped[i] = 1;
        pos[i] = prev;
        out.dropped++;
        if (std::isnan(sp.sims[i][prev])) return bad("drop-outside-window", Fmt("patch %zu at frame %lld", i, (long long)prev));
      } else {
        pos[i] = std::llround(o.ds / fd);
        if (!mon::Close(o.ds, pos[i] * fd, 1e-9) || !mon::Close(o.de, pos[i] * fd + pd, 1e-9))
          return bad("degraded-times", Fmt("patch %zu: [%.9g,%.9g] is not frame aligned (%.9g s frames)", i, o.ds, o.de, fd));
        if (pos[i] < 0 || pos[i] >= static_cast<int64_t>(D.c) || std::isnan(sp.sims[i][pos[i]]))
          return bad("match-outside-window", Fmt("patch %zu (frame %zu) matched at frame %lld of %zu, radius %lld", i, idx[i], (long long)pos[i], D.c, (long long)win));
        if (pos[i] <= prev) return bad("match-order", Fmt("patch %zu at frame %lld, previous at %lld", i, (long long)pos[i], (long long)prev));
        total += sp.sims[i][pos[i]];
      }
      prev = pos[i];
    }
    const double best = BestTotal(sp);
    if (!(total >= best - 1e-6 * n)) numbers(total - best, 0);
    if (!(total >= best - 1e-6 * n))
      return bad("search-not-optimal", Fmt("total similarity %.9g, best ordered assignment %.9g (%zu patches)", total, best, n));
    for (size_t i = 0; i < n; i++) {
      exp[i] = Nsim(RP[i], DP[pos[i]]);
      exp[i].rs = idx[i] * fd; exp[i].re = exp[i].rs + pd;
      if (dropped[i]) {
        exp[i].sim = 0;
        std::fill(exp[i].means.begin(), exp[i].means.end(), 0.0);
      } else {
        exp[i].ds = pos[i] * fd; exp[i].de = exp[i].ds + pd;
      }
    }
  }
  // --- fine realignment
  std::vector<Patch> alt(n);
  if (!cfg.no_realign) {
    for (size_t i = 0; i < n; i++) {
      const Patch& o = obs.patches[i];
      const Patch b = exp[i];
      auto same_times = [&](const Patch& x) {
        return mon::Close(o.rs, x.rs, 1e-9) && mon::Close(o.re, x.re, 1e-9) && mon::Close(o.ds, x.ds, 1e-9) && mon::Close(o.de, x.de, 1e-9);
      };
      if (dropped[i]) {
        if (!same_times(b) || o.sim != 0) return bad("dropped-patch-changed", Fmt("patch %zu", i));
        continue;
      }
      if (o.sim < b.sim - 1e-6)
        return bad("realignment-lowered", Fmt("patch %zu: %.9g before, %.9g after", i, b.sim, o.sim));
      const Vec ra = Slice(ref, b.rs, b.re, rate), da = Slice(deg, b.ds, b.de, rate);
      bool many;
      std::vector<int64_t> cand = AlignCandidates(ra, da, &many);
      auto eval = [&](int64_t lag, Patch* q) { return RealignWith(ra, da, lag, rate, cfg.speech, b, q); };
      // which lag does the report imply?
      int64_t lo = 0;
      if (o.rs > b.rs + 1e-9) lo = std::llround((o.rs - b.rs) * rate);
      else if (o.ds > b.ds + 1e-9) lo = -std::llround((o.ds - b.ds) * rate);
      bool moved = lo != 0;
      if (same_times(b) && std::fabs(o.sim - b.sim) <= 1e-6) {
        // kept, or replaced by an equal one: some admissible lag must not be better
        bool explained = many, failed = false;
        for (int64_t l : cand) {
          Patch q;
          if (!eval(l, &q)) { failed = true; continue; }
          if (q.sim <= b.sim + 1e-6) explained = true;
        }
        if (!explained && !failed)
          return bad("better-realignment-ignored", Fmt("patch %zu kept %.9g although lag %lld gives more", i, b.sim, (long long)cand[0]));
        // an equally similar replacement has its own spread and energy
        Patch q;
        if (eval(0, &q) && q.sim >= b.sim - 1e-6) {
          if (mon::Mismatch(o.means, b.means, 1e-6) != -1) exp[i] = q;
          else if (mon::Mismatch(q.means, b.means, 2e-6) == -1) alt[i] = q;
        }
        continue;
      }
      if (!many && std::find(cand.begin(), cand.end(), lo) == cand.end())
        return bad("fine-lag", Fmt("patch %zu moved by %lld samples, expected %lld (%zu candidates)", i, (long long)lo, (long long)cand[0], cand.size()));
      Patch q;
      if (!eval(lo, &q)) { out.inconclusive = "model cannot realign"; return out; }
      if (!same_times(q))
        return bad("realigned-times", Fmt("patch %zu lag %lld: ref [%.9g,%.9g] deg [%.9g,%.9g], expected [%.9g,%.9g] [%.9g,%.9g]", i, (long long)lo, o.rs, o.re, o.ds, o.de, q.rs, q.re, q.ds, q.de));
      exp[i] = q;
      out.realigned++;
      if (moved) out.moved++;
    }
  }
  // --- values
  for (size_t i = 0; i < n; i++) {
    const Patch& o = obs.patches[i];
    if (!mon::Close(o.sim, exp[i].sim, 1e-6)) numbers(o.sim, exp[i].sim);
    if (!mon::Close(o.sim, exp[i].sim, 1e-6))
      return bad("patch-similarity", Fmt("patch %zu: %.9g, expected %.9g", i, o.sim, exp[i].sim));
    int64_t m = mon::Mismatch(o.means, exp[i].means, 1e-6);
    if (m >= 0) numbers(o.means[m], exp[i].means[m]);
    if (m != -1) return bad("patch-bands", Fmt("patch %zu band %lld: ", i, (long long)m) + Head(o.means, std::max<int64_t>(m, 0), 1) + " expected " + Head(exp[i].means, std::max<int64_t>(m, 0), 1));
  }
  const Pooled p = Pool(exp, fd);
  // what ties leave open: rounding of frame counts, kept or equal replacement
  std::vector<Pooled> ends;
  for (int tie = 0; tie < 2; tie++)
    for (int side = 0; side < 2; side++) {
      std::vector<Patch> e = exp;
      for (size_t i = 0; i < n; i++)
        if (!alt[i].means.empty())
          for (size_t k = 0; k < bands; k++) {
            e[i].stds[k] = side ? std::max(e[i].stds[k], alt[i].stds[k]) : std::min(e[i].stds[k], alt[i].stds[k]);
            e[i].energy[k] = side ? std::max(e[i].energy[k], alt[i].energy[k]) : std::min(e[i].energy[k], alt[i].energy[k]);
          }
      ends.push_back(Pool(e, fd, tie));
    }
  auto ranged = [&](const char* nm, const Vec& got, Vec Pooled::*f, double tol) {
    if (got.size() != bands) { bad(nm, Fmt("%zu values", got.size())); return; }
    for (size_t k = 0; k < bands; k++) {
      double lo = (p.*f)[k], hi = lo;
      for (const Pooled& e : ends) { lo = std::min(lo, (e.*f)[k]); hi = std::max(hi, (e.*f)[k]); }
      if (f == &Pooled::fstdnsim) {
        // frame counts of exact multiples may round differently per patch
        double nlo = 0, nhi = 0, tlo = 0, thi = 0;
        for (size_t i = 0; i < n; i++) {
          const double x = (exp[i].re - exp[i].rs) / fd, m = exp[i].means[k], mm = p.fvnsim[k];
          const bool tie = std::fabs(x - std::round(x)) < 1e-7;
          const double k0 = tie ? std::round(x) : std::ceil(x), k1 = tie ? k0 + 1 : k0;
          const double s0 = exp[i].stds[k], s1 = alt[i].stds.empty() ? s0 : alt[i].stds[k];
          const double sl = std::min(s0, s1) * std::min(s0, s1), sh = std::max(s0, s1) * std::max(s0, s1);
          const double q = m * m - mm * mm;
          nlo += std::min((k0 - 1) * sl + k0 * q, (k1 - 1) * sl + k1 * q);
          nhi += std::max((k0 - 1) * sh + k0 * q, (k1 - 1) * sh + k1 * q);
          tlo += k0; thi += k1;
        }
        lo = std::min(lo, std::sqrt(std::max(0.0, nlo) / (thi - 1)));
        hi = std::max(hi, std::sqrt(std::max(0.0, nhi) / (tlo - 1)));
      }
      const double w = tol + 1e-7 * std::fabs(hi) + 0.01 * (hi - lo);
      // square roots of rounded variances are coarse near zero
      if (f == &Pooled::fstdnsim && std::fabs(got[k] * got[k] - hi * hi) < 1e-8) continue;
      if (!(got[k] >= lo - w && got[k] <= hi + w)) { numbers(got[k], got[k] < lo ? lo : hi); bad(nm, Fmt("band %zu: %.9g expected %.9g..%.9g", k, got[k], lo, hi)); return; }
    }
  };
  ranged("fstdnsim", obs.fstdnsim, &Pooled::fstdnsim, 2e-5);
  ranged("fvdegenergy", obs.fvdegenergy, &Pooled::fvdegenergy, 1e-5);
  if (!out.key.empty()) return out;
  struct { const char* n; const Vec *a, *b; double t; } cmp[] = {
      {"fvnsim", &obs.fvnsim, &p.fvnsim, 1e-6}, {"fvnsim10", &obs.fvnsim10, &p.fvnsim10, 1e-6}};
  for (auto& x : cmp) {
    int64_t m = mon::Mismatch(*x.a, *x.b, x.t, 1e-7);
    if (m >= 0) numbers((*x.a)[m], (*x.b)[m]);
    if (m != -1) return bad(x.n, Fmt("band %lld: ", (long long)m) + Head(*x.a, std::max<int64_t>(m, 0), 1) + " expected " + Head(*x.b, std::max<int64_t>(m, 0), 1));
  }
  if (!mon::Close(obs.vnsim, p.vnsim, 1e-6)) numbers(obs.vnsim, p.vnsim);
  if (!mon::Close(obs.vnsim, p.vnsim, 1e-6)) return bad("vnsim", Fmt("%.9g expected %.9g", obs.vnsim, p.vnsim));
  if (check_quality) {
    if (std::fabs(p.vnsim - 0.15) < 1e-6) { out.inconclusive = "at the 0.15 boundary"; return out; }
    const double q = QualityOf(cfg, obs);
    if (!mon::Close(obs.moslqo, q, 1e-6))
      return bad("moslqo", Fmt("%.9g, model value for the reported features %.9g", obs.moslqo, q));
  }
  return out;
}

// A disagreement counts only if it is well beyond what rounding inside the
// filters does to the model's own answer.
Outcome CheckRun(const Vec& ref, const Vec& deg, size_t rate, const Config& cfg, const Obs& obs, const Obs* base,
                 bool check_quality) {
  const Outcome o = CheckOnce(ref, deg, rate, cfg, obs, base, check_quality);
  if (o.key.empty()) return o;
  for (int k = 1; k <= 4; k++) {
    jitter = 4e-16;
    jitter_state = 0x9e3779b97f4a7c15u * k;
    Outcome j = CheckOnce(ref, deg, rate, cfg, obs, base, check_quality);
    jitter = 0;
    const bool moved = j.key == o.key && std::fabs(j.want - o.want) * 10 >= std::fabs(o.got - o.want);
    if (j.key.empty() || moved) {
      j.key.clear();
      j.inconclusive = "decided by rounding inside the filters";
      return j;
    }
  }
  return o;
}

std::string CheckConsistency(const Config& cfg, const Obs& o, std::string* det) {
  const size_t B = cfg.speech ? 21 : 32;
  auto fail = [&](const std::string& k, const std::string& d) { *det = d; return k; };
  struct { const char* n; const Vec* v; } vs[] = {{"fvnsim", &o.fvnsim}, {"fvnsim10", &o.fvnsim10}, {"fstdnsim", &o.fstdnsim}, {"fvdegenergy", &o.fvdegenergy}, {"center_freq_bands", &o.cf}};
  for (auto& x : vs) {
    if (x.v->size() != B) return fail(std::string("size-") + x.n, Fmt("%zu values, expected %zu", x.v->size(), B));
    for (size_t i = 0; i < B; i++)
      if (!std::isfinite((*x.v)[i])) return fail(std::string("nonfinite-") + x.n, Fmt("band %zu is %g", i, (*x.v)[i]));
  }
  if (!std::isfinite(o.moslqo) || !std::isfinite(o.vnsim) || !std::isfinite(o.lag))
    return fail("nonfinite-scalar", Fmt("moslqo %g vnsim %g lag %g", o.moslqo, o.vnsim, o.lag));
  if (o.moslqo < 1 || o.moslqo > 5) return fail("moslqo-range", Fmt("%.17g", o.moslqo));
  if (o.vnsim > 1 + 1e-9) return fail("vnsim-range", Fmt("%.17g", o.vnsim));
  if (o.vnsim < 0.15 - 1e-9 && o.moslqo != 1) return fail("low-similarity-score", Fmt("vnsim %.9g moslqo %.9g", o.vnsim, o.moslqo));
  double s = 0;
  for (size_t b = 0; b < B; b++) {
    s += o.fvnsim[b];
    if (o.fvnsim[b] > 1 + 1e-9) return fail("fvnsim-range", Fmt("band %zu %.17g", b, o.fvnsim[b]));
    if (o.fvnsim10[b] > o.fvnsim[b] + 1e-9) return fail("quantile-above-mean", Fmt("band %zu %.17g > %.17g", b, o.fvnsim10[b], o.fvnsim[b]));
    if (o.fstdnsim[b] < 0) return fail("negative-spread", Fmt("band %zu %g", b, o.fstdnsim[b]));
    if (b && !(o.cf[b] > o.cf[b - 1])) return fail("frequency-order", Fmt("band %zu: %.9g after %.9g", b, o.cf[b], o.cf[b - 1]));
    if (o.cf[b] <= 0) return fail("frequency-sign", Fmt("%g", o.cf[b]));
    if (o.fvdegenergy[b] < -1e-9) return fail("negative-energy", Fmt("band %zu %g", b, o.fvdegenergy[b]));
  }
  if (!mon::Close(o.vnsim, s / B, 1e-9)) return fail("vnsim-mean", Fmt("%.17g vs mean %.17g", o.vnsim, s / B));
  if (o.patches.empty()) return fail("no-patches", "no patch reported");
  Vec m(B, 0.0);
  for (size_t i = 0; i < o.patches.size(); i++) {
    const Patch& p = o.patches[i];
    if (p.means.size() != B) return fail("patch-bands-size", Fmt("patch %zu: %zu", i, p.means.size()));
    double t = 0;
    for (size_t b = 0; b < B; b++) {
      if (!std::isfinite(p.means[b])) return fail("nonfinite-patch", Fmt("patch %zu band %zu", i, b));
      if (p.means[b] > 1 + 1e-9) return fail("patch-range", Fmt("patch %zu band %zu %.17g", i, b, p.means[b]));
      t += p.means[b];
      m[b] += p.means[b];
    }
    for (double v : {p.sim, p.rs, p.re, p.ds, p.de})
      if (!std::isfinite(v)) return fail("nonfinite-patch", Fmt("patch %zu", i));
    const bool drop = p.ds == 0 && p.de == 0;
    if (!mon::Close(p.sim, t / B, 1e-9)) return fail("patch-mean", Fmt("patch %zu: similarity %.17g, mean of bands %.17g", i, p.sim, t / B));
    if (drop && (p.sim != 0 || t != 0)) return fail("dropped-nonzero", Fmt("patch %zu sim %g", i, p.sim));
    if (drop && i == 0) return fail("first-patch-dropped", "first patch has no degraded times");
    if (p.rs < 0 || p.ds < 0) return fail("negative-time", Fmt("patch %zu", i));
    if (!(p.re > p.rs) || (!drop && !(p.de > p.ds))) return fail("patch-times", Fmt("patch %zu ref [%.9g,%.9g] deg [%.9g,%.9g]", i, p.rs, p.re, p.ds, p.de));
    if (i && cfg.no_realign && !(p.rs > o.patches[i - 1].rs)) return fail("reference-order", Fmt("patch %zu", i));
    if (i && cfg.no_realign && !drop) {
      for (size_t j = i; j-- > 0;)
        if (o.patches[j].de != 0) {
          if (!(p.ds > o.patches[j].ds)) return fail("degraded-order", Fmt("patch %zu starts %.9g, patch %zu starts %.9g", i, p.ds, j, o.patches[j].ds));
          break;
        }
    }
  }
  for (size_t b = 0; b < B; b++)
    if (!mon::Close(o.fvnsim[b], m[b] / o.patches.size(), 1e-9)) return fail("fvnsim-mean", Fmt("band %zu: %.17g vs patch mean %.17g", b, o.fvnsim[b], m[b] / o.patches.size()));
  return "";
}
}  // namespace ref
