#include "pffft.h"

#include <atomic>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

namespace {
typedef std::complex<double> C;
// Twiddle tables are immutable and shared between set-ups.
std::shared_ptr<const std::vector<C>> Twiddles(int n) {
  static std::mutex m;
  static std::map<int, std::weak_ptr<const std::vector<C>>> cache;
  std::lock_guard<std::mutex> l(m);
  if (auto p = cache[n].lock()) return p;
  auto v = std::make_shared<std::vector<C>>(n / 2 + 1);
  for (int i = 0; i <= n / 2; i++) {
    double a = -2.0 * M_PI * i / n;
    (*v)[i] = C(std::cos(a), std::sin(a));
  }
  cache[n] = v;
  return v;
}
void Bitrev(C* x, int n) {
  for (int i = 1, j = 0; i < n; i++) {
    int bit = n >> 1;
    for (; j & bit; bit >>= 1) j ^= bit;
    j ^= bit;
    if (i < j) std::swap(x[i], x[j]);
  }
}
void CFft(C* x, int n, const std::vector<C>& tw, int twn, bool inv) {
  Bitrev(x, n);
  for (int len = 2; len <= n; len <<= 1) {
    int step = twn / len, half = len / 2;
    for (int i = 0; i < n; i += len) {
      for (int k = 0; k < half; k++) {
        const C& w0 = tw[(size_t)k * step];
        double wr = w0.real(), wi = inv ? -w0.imag() : w0.imag();
        C& a = x[i + k];
        C& b = x[i + k + half];
        double tr = b.real() * wr - b.imag() * wi;
        double ti = b.real() * wi + b.imag() * wr;
        b = C(a.real() - tr, a.imag() - ti);
        a = C(a.real() + tr, a.imag() + ti);
      }
    }
  }
}
}  // namespace
// Defined by the monitor that checks how the libraries are used (see mon_contract.cc).
extern "C" void verif_contract(const char* what) __attribute__((weak));
extern "C" void verif_event(const char* what) __attribute__((weak));
namespace {
// What is alive; kept for that monitor only, for the lock would order threads.
struct Alive {
  std::mutex m;
  std::map<const void*, size_t> blocks;
  std::map<const void*, int> setups;
  std::map<const void*, int> dead;
};
Alive& alive() {
  static Alive* a = new Alive;
  return *a;
}
void Broken(const std::string& what) { verif_contract(("PFFFT: " + what).c_str()); }
// A buffer of n floats: within one block that is still held.
void Room(const void* p, size_t n, const char* what) {
  std::lock_guard<std::mutex> l(alive().m);
  auto it = alive().blocks.upper_bound(p);
  if (it == alive().blocks.begin()) return;
  --it;
  const char *b = (const char*)it->first, *q = (const char*)p;
  if (q >= b + it->second) return;
  if (q + n * sizeof(float) > b + it->second)
    Broken(std::string(what) + " of " + std::to_string((b + it->second - q) / sizeof(float)) + " numbers for a transform of " + std::to_string(n));
}
[[noreturn]] void Misuse(const char* what) {
  // Contract of the PFFFT API broken by the code under test.
  std::fprintf(stderr, "PFFFT-CONTRACT: %s\n", what);
  std::abort();
}
bool Aligned(const void* p) { return ((size_t)p & 15) == 0; }
}  // namespace

struct PFFFT_Setup {
  int n;
  pffft_transform_t t;
  std::shared_ptr<const std::vector<C>> tw;
  std::atomic<int> in_use;
};

extern "C" {

int pffft_simd_size() { return 4; }

PFFFT_Setup* pffft_new_setup(int N, pffft_transform_t t) {
  if (t != PFFFT_REAL || N < 32 || (N & (N - 1))) {
    if (verif_contract) Broken("a size it has no transform for: " + std::to_string(N));
    return nullptr;
  }
  PFFFT_Setup* s = new PFFFT_Setup();
  s->n = N;
  s->t = t;
  s->tw = Twiddles(N);
  s->in_use = 0;
  if (verif_contract) {
    verif_event("transforms set up");
    std::lock_guard<std::mutex> l(alive().m);
    alive().setups[s] = N;
  }
  return s;
}
void pffft_destroy_setup(PFFFT_Setup* s) {
  if (verif_contract) {
    std::lock_guard<std::mutex> l(alive().m);
    if (!alive().setups.erase(s)) {
      Broken("a transform destroyed that is not set up");
      return;
    }
  }
  delete s;
}
// For the monitor: what is still held.
void verif_pffft_held(size_t* setups, size_t* blocks) {
  std::lock_guard<std::mutex> l(alive().m);
  *setups = alive().setups.size();
  *blocks = alive().blocks.size();
}

void* pffft_aligned_malloc(size_t n) {
  void* p = nullptr;
  if (posix_memalign(&p, 64, n ? n : 1)) return nullptr;
  // PFFFT does not clear memory; make dependence on its content visible.
  static const bool as_is = std::getenv("VERIF_FFT_AS_IS") != nullptr;
  if (n < (64u << 20) && !as_is) std::memset(p, 0x7f, n);
  if (verif_contract) {
    std::lock_guard<std::mutex> l(alive().m);
    alive().blocks[p] = n;
  }
  return p;
}
void pffft_aligned_free(void* p) {
  if (verif_contract && p) {
    std::lock_guard<std::mutex> l(alive().m);
    if (!alive().blocks.erase(p)) {
      Broken("memory freed that is not held");
      return;
    }
  }
  free(p);
}

static void Live(PFFFT_Setup* s) {
  bool gone;
  {
    std::lock_guard<std::mutex> l(alive().m);
    gone = !alive().setups.count(s);
  }
  if (gone) {
    Broken("a transform used that is not set up");
    Misuse("setup not alive");
  }
}

// Internal ("z") order: like PFFFT's SIMD order, a fixed permutation of the
// canonical one: 4-way interleave of blocks of 4.
static inline int ZIndex(int n, int i) {
  // i: canonical index; groups of 4 columns, n/4 rows (transpose).
  int rows = n / 4;
  return (i % rows) * 4 + i / rows;
}

void pffft_zreorder(PFFFT_Setup* s, const float* in, float* out,
                    pffft_direction_t d) {
  if (!s) Misuse("null setup");
  if (in == out) Misuse("zreorder in place");
  if (!Aligned(in) || !Aligned(out)) Misuse("unaligned buffer");
  if (verif_contract) {
    verif_event("reorderings");
    Live(s);
    Room(in, s->n, "an input");
    Room(out, s->n, "an output");
  }
  for (int i = 0; i < s->n; i++) {
    int z = ZIndex(s->n, i);
    if (d == PFFFT_FORWARD)
      out[i] = in[z];
    else
      out[z] = in[i];
  }
}

static void Forward(PFFFT_Setup* s, const float* in, std::vector<double>* out) {
  int n = s->n, h = n / 2;
  // real FFT through a half-size complex one.
  std::vector<C> x(h);
  for (int i = 0; i < h; i++) x[i] = C(in[2 * i], in[2 * i + 1]);
  CFft(x.data(), h, *s->tw, n, false);
  out->resize(n);
  (*out)[0] = x[0].real() + x[0].imag();
  (*out)[1] = x[0].real() - x[0].imag();
  for (int k = 1; k < h; k++) {
    C a = x[k], b = std::conj(x[h - k]);
    C e = 0.5 * (a + b), o = C(0, -0.5) * (a - b);
    const C w = (*s->tw)[k];
    C r(e.real() + w.real() * o.real() - w.imag() * o.imag(),
        e.imag() + w.real() * o.imag() + w.imag() * o.real());
    (*out)[2 * k] = r.real();
    (*out)[2 * k + 1] = r.imag();
  }
}
static void Backward(PFFFT_Setup* s, const std::vector<double>& in, float* out) {
  int n = s->n, h = n / 2;
  std::vector<C> x(h);
  double dc = in[0], ny = in[1];
  x[0] = C(dc + ny, dc - ny);
  for (int k = 1; k < h; k++) {
    C a(in[2 * k], in[2 * k + 1]);
    C b(in[2 * (h - k)], -in[2 * (h - k) + 1]);
    const C w = std::conj((*s->tw)[k]);
    C e = a + b, d = a - b;
    C o(d.real() * w.real() - d.imag() * w.imag(),
        d.real() * w.imag() + d.imag() * w.real());
    x[k] = C(e.real() - o.imag(), e.imag() + o.real());
  }
  CFft(x.data(), h, *s->tw, n, true);
  for (int i = 0; i < h; i++) {
    out[2 * i] = (float)x[i].real();
    out[2 * i + 1] = (float)x[i].imag();
  }
}

static void Transform(PFFFT_Setup* s, const float* in, float* out, float* work,
                      pffft_direction_t d, bool ordered) {
  if (!s) Misuse("null setup");
  if (!Aligned(in) || !Aligned(out) || !Aligned(work))
    Misuse("unaligned buffer");
  if (verif_contract) {
    verif_event(work ? "transforms with a work area" : "transforms without a work area");
    Live(s);
    Room(in, s->n, "an input");
    Room(out, s->n, "an output");
    if (work) Room(work, s->n, "a work area");
    if (work && (work == in || work == out)) Broken("a work area that is also a signal");
    if (!work && s->n > 16384) Broken("no work area for " + std::to_string(s->n) + " points, which go on the stack");
  }
  if (work) {  // the library may scribble over the n-float work area
    for (int i = 0; i < s->n; i += 16) work[i] = 1e30f;
    work[s->n - 1] = 1e30f;
  }
  int n = s->n;
  if (d == PFFFT_FORWARD) {
    std::vector<double> f;
    Forward(s, in, &f);
    for (int i = 0; i < n; i++) out[ordered ? i : ZIndex(n, i)] = (float)f[i];
  } else {
    std::vector<double> f(n);
    for (int i = 0; i < n; i++) f[i] = in[ordered ? i : ZIndex(n, i)];
    Backward(s, f, out);
  }
}
void pffft_transform(PFFFT_Setup* s, const float* in, float* out, float* work,
                     pffft_direction_t d) {
  Transform(s, in, out, work, d, false);
}
void pffft_transform_ordered(PFFFT_Setup* s, const float* in, float* out,
                             float* work, pffft_direction_t d) {
  Transform(s, in, out, work, d, true);
}
void pffft_zconvolve_accumulate(PFFFT_Setup* s, const float* a, const float* b,
                                float* ab, float scaling) {
  int n = s->n;
  auto at = [n](const float* p, int i) { return (double)p[ZIndex(n, i)]; };
  auto add = [n, ab](int i, double v) { ab[ZIndex(n, i)] += (float)v; };
  add(0, at(a, 0) * at(b, 0) * scaling);
  add(1, at(a, 1) * at(b, 1) * scaling);
  for (int k = 1; k < n / 2; k++) {
    double ar = at(a, 2 * k), ai = at(a, 2 * k + 1);
    double br = at(b, 2 * k), bi = at(b, 2 * k + 1);
    add(2 * k, (ar * br - ai * bi) * scaling);
    add(2 * k + 1, (ar * bi + ai * br) * scaling);
  }
}
}
