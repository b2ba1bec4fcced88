#include "sig.h"

#include <algorithm>

namespace sig {
using mon::Fmt;
using mon::Rng;
static const double kPi = 3.14159265358979323846;

double Rms(const Vec& x) {
  double s = 0;
  for (double v : x) s += v * v;
  return x.empty() ? 0 : std::sqrt(s / x.size());
}
Vec Noise(Rng& r, size_t n, double amp) {
  Vec v(n);
  for (double& x : v) x = amp * r.gauss();
  return v;
}
size_t Rate(Rng& r) {
  static const std::vector<size_t> rates = {1000, 1600, 2000, 2205, 3000, 4000, 4410, 6000, 8000, 8000, 11025};
  return r.pick(rates);
}
Vec Shift(const Vec& x, int64_t k) {
  if (k >= 0) {
    Vec o(k, 0.0);
    o.insert(o.end(), x.begin(), x.end());
    return o;
  }
  return static_cast<size_t>(-k) >= x.size() ? Vec() : Vec(x.begin() - k, x.end());
}

Vec Speechy(Rng& r, size_t n, size_t rate) {
  Vec v(n, 0.0);
  size_t i = 0;
  bool on = r.chance(0.6);
  double f0 = r.uni(80, 250);
  const double nyq = rate / 2.0;
  while (i < n) {
    const size_t len = std::max<size_t>(1, static_cast<size_t>(rate * r.uni(0.05, 0.5)));
    const int kind = on ? static_cast<int>(r.range(0, 3)) : 0;
    const double amp = r.uni(0.1, 0.8), fr = r.uni(0.05, 0.45) * rate;
    f0 = std::min(nyq * 0.45, std::max(60.0, f0 * r.uni(0.85, 1.2)));
    for (size_t k = 0; k < len && i < n; k++, i++) {
      const double t = k / static_cast<double>(rate);
      const double env = std::sin(kPi * std::min(1.0, (k + 0.5) / len));
      if (!on) v[i] = 1e-4 * r.gauss();
      else if (kind == 0) v[i] = amp * env * 0.5 * r.gauss();
      else {
        double s = 0;
        for (int h = 1; h <= 8 && h * f0 < nyq; h++)
          s += std::sin(2 * kPi * h * f0 * t) / (1 + std::fabs(h * f0 - fr) / (0.1 * rate));
        v[i] = amp * env * 0.3 * s;
      }
      if (v[i] > 1) v[i] = 1;
      if (v[i] < -1) v[i] = -1;
    }
    on = !on || r.chance(0.4);
  }
  return v;
}

// Tones that repeat exactly in every frame, so that most cells of a patch are equal.
Vec Steady(Rng& r, size_t n, size_t rate) {
  Vec v(n, 0.0);
  const size_t w = static_cast<size_t>(std::lround(rate * 0.08)), hop = std::max<size_t>(1, w / 4);
  const size_t k = r.chance(0.6) ? r.range(0, 2) : r.range(0, hop / 2);
  size_t i = 0;
  bool on = r.chance(0.5);
  while (i < n) {
    const size_t len = hop * r.range(1, 60);
    const double a = on ? std::pow(10, r.uni(-2, -0.1)) : r.chance(0.7) ? 0 : 1e-5;
    for (size_t j = 0; j < len && i < n; j++, i++) v[i] = a * std::cos(2 * kPi * (k * (i % hop)) / hop);
    on = !on;
  }
  return v;
}

Vec Gen(Rng& r, size_t n, size_t rate, std::string* what) {
  const int kind = static_cast<int>(r.range(0, 12));
  Vec v(n, 0.0);
  std::string d;
  switch (kind) {
    case 0: d = "noise"; v = Noise(r, n, r.uni(0.02, 0.4)); break;
    case 1: case 2: case 3: d = "speechy"; v = Speechy(r, n, rate); break;
    case 4: {
      d = "harmonics";
      const double f0 = r.uni(0.005, 0.1) * rate;
      double ph[6];
      for (double& p : ph) p = r.uni(0, 6.28);
      for (size_t i = 0; i < n; i++) {
        const double t = i / static_cast<double>(rate);
        for (int h = 1; h <= 6 && h * f0 < rate / 2.0; h++) v[i] += 0.2 / h * std::sin(2 * kPi * h * f0 * t + ph[h - 1]);
        v[i] *= 0.6 + 0.4 * std::sin(2 * kPi * 3.1 * t);
      }
      break;
    }
    case 5: {
      d = "chirp";
      const double a = r.uni(0.01, 0.1) * rate, b = r.uni(0.1, 0.48) * rate, T = n / static_cast<double>(rate);
      for (size_t i = 0; i < n; i++) {
        const double t = i / static_cast<double>(rate);
        v[i] = 0.5 * std::sin(2 * kPi * (a * t + (b - a) * t * t / (2 * T)));
      }
      break;
    }
    case 6: {
      d = "clicks";
      const int c = static_cast<int>(r.range(1, 30));
      for (int k = 0; k < c && n; k++) {
        const size_t p = r.range(0, n - 1);
        const double a = r.uni(-1, 1);
        for (size_t i = p; i < n && i < p + rate / 20; i++) v[i] += a * std::exp(-(double)(i - p) / (rate * 0.005));
      }
      break;
    }
    case 7: {
      d = "bursts";
      for (size_t i = 0; i < n;) {
        const size_t len = 1 + r.range(rate / 50, rate / 2);
        const double a = r.chance(0.5) ? r.uni(0.05, 0.6) : 0.0;
        for (size_t k = 0; k < len && i < n; k++, i++) v[i] = a * r.gauss();
      }
      break;
    }
    case 8: {
      d = "notes";
      for (size_t i = 0; i < n;) {
        const size_t len = 1 + r.range(rate / 20, rate / 3);
        const double f = r.uni(0.01, 0.4) * rate, a = r.uni(0.1, 0.6);
        for (size_t k = 0; k < len && i < n; k++, i++)
          v[i] = a * std::exp(-3.0 * k / len) * std::sin(2 * kPi * f * k / rate);
      }
      break;
    }
    case 9: {
      d = "dc+noise";
      const double dc = r.uni(-0.5, 0.5), a = r.uni(0.01, 0.2);
      for (double& x : v) x = dc + a * r.gauss();
      break;
    }
    case 10: {
      d = "clipped";
      v = Speechy(r, n, rate);
      for (double& x : v) x = std::max(-0.2, std::min(0.2, 3 * x));
      break;
    }
    case 11: d = "steady tones"; v = Steady(r, n, rate); break;
    default: {
      d = "mixture";
      const Vec a = Speechy(r, n, rate), b = Noise(r, n, r.uni(0.001, 0.05));
      for (size_t i = 0; i < n; i++) v[i] = a[i] + b[i];
    }
  }
  if (n && r.chance(0.25)) {  // long pauses at the ends
    const size_t k = static_cast<size_t>(n * r.uni(0, 0.3)), m = static_cast<size_t>(n * r.uni(0, 0.3));
    for (size_t i = 0; i < k; i++) v[i] = 0;
    for (size_t i = n - m; i < n; i++) v[i] = 0;
    d += "+pauses";
  }
  if (n && r.chance(0.15)) {
    const double g = std::pow(10, r.uni(-4, 0));
    for (double& x : v) x *= g;
    d += "+quiet";
  }
  if (Rms(v) == 0 && n) v[r.range(0, n - 1)] = 0.5;
  if (r.chance(0.5))
    for (double& x : v) x = std::max(-1.0, std::min(32767.0 / 32768, std::round(x * 32768) / 32768));
  if (Rms(v) == 0 && n) v[n / 2] = 0.25;
  if (what) *what = d;
  return v;
}

static Vec OneDegrade(Rng& r, const Vec& x, size_t rate, std::string* d) {
  Vec v = x;
  const size_t n = x.size();
  if (!n) return v;
  const double rms = std::max(1e-6, Rms(x));
  switch (r.range(0, 14)) {
    case 0: {
      const double a = rms * std::pow(10, r.uni(-2.5, 0.3));
      for (double& s : v) s += a * r.gauss();
      *d += "noise ";
      break;
    }
    case 1: {
      const double a = r.uni(0.02, 0.7);
      double z = 0;
      for (double& s : v) { z += a * (s - z); s = z; }
      *d += "lowpass ";
      break;
    }
    case 2: {
      const double c = rms * r.uni(0.3, 2);
      for (double& s : v) s = std::max(-c, std::min(c, s));
      *d += "clip ";
      break;
    }
    case 3: {
      const double q = rms * r.uni(0.05, 1.0);
      for (double& s : v) s = q * std::round(s / q);
      *d += "quantise ";
      break;
    }
    case 4: case 5: {
      const int k = static_cast<int>(r.range(1, 6));
      for (int j = 0; j < k; j++) {
        const size_t p = r.range(0, n - 1), l = r.range(1, std::max<size_t>(1, rate / 2));
        for (size_t i = p; i < n && i < p + l; i++) v[i] = 0;
      }
      *d += "loss ";
      break;
    }
    case 6: {
      const int64_t k = r.range(0, n / 3);
      v = Shift(v, k);
      *d += Fmt("delay%lld ", (long long)k);
      break;
    }
    case 7: {
      const int64_t k = r.range(0, n / 3);
      v = Shift(v, -k);
      *d += Fmt("advance%lld ", (long long)k);
      break;
    }
    case 8: {
      const size_t p = r.range(0, n - 1), l = r.range(1, std::max<size_t>(1, n / 3));
      v.erase(v.begin() + p, v.begin() + std::min(n, p + l));
      *d += "cut ";
      break;
    }
    case 9: {
      const size_t p = r.range(0, n - 1), l = r.range(1, std::max<size_t>(1, n / 3));
      const double a = r.chance(0.5) ? 0 : rms;
      Vec ins(l);
      for (double& s : ins) s = a * r.gauss();
      v.insert(v.begin() + p, ins.begin(), ins.end());
      *d += "insert ";
      break;
    }
    case 10: {  // jitter: local shifts
      Vec o;
      size_t i = 0;
      while (i < n) {
        const size_t l = r.range(std::max<size_t>(1, rate / 5), std::max<size_t>(2, rate));
        const int64_t j = r.range(-(int64_t)rate / 25, rate / 25);
        for (size_t k = 0; k < l && i < n; k++, i++) {
          const int64_t q = static_cast<int64_t>(i) + j;
          o.push_back(q >= 0 && q < static_cast<int64_t>(n) ? x[q] : 0);
        }
      }
      v = o;
      *d += "jitter ";
      break;
    }
    case 11: {
      const double g = std::pow(10, r.uni(-2, 1.5));
      for (double& s : v) s *= g;
      *d += "gain ";
      break;
    }
    case 12: {
      const size_t m = static_cast<size_t>(n * r.uni(0.4, 1.0));
      v.resize(std::max<size_t>(m, 1));
      *d += "truncate ";
      break;
    }
    case 13: {
      Vec e = Noise(r, static_cast<size_t>(n * r.uni(0, 0.4)), r.chance(0.5) ? 0 : rms);
      v.insert(v.end(), e.begin(), e.end());
      *d += "extend ";
      break;
    }
    default:
      for (double& s : v) s = -s;
      *d += "invert ";
  }
  return v;
}

Vec Degrade(Rng& r, const Vec& x, size_t rate, std::string* what) {
  std::string d;
  Vec v = x;
  const double u = r.uni();
  if (u < 0.06) {
    d = "same";
  } else if (u < 0.14) {
    std::string g;
    v = Gen(r, std::max<size_t>(1, static_cast<size_t>(x.size() * r.uni(0.6, 1.4))), rate, &g);
    d = "unrelated:" + g;
  } else {
    const int k = static_cast<int>(r.range(1, 3));
    for (int i = 0; i < k; i++) v = OneDegrade(r, v, rate, &d);
    if (Rms(v) == 0 && !v.empty()) v[v.size() / 2] = 0.1;
  }
  if (what) *what = d;
  return v;
}
}  // namespace sig
