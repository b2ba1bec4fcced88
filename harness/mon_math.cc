// C23 matrix semantics (a pool of matrices driven through random operation
// histories next to a plain model), C24 transforms, correlation, convolution.
#include <algorithm>
#include <complex>
#include <memory>
#include <valarray>

#include "audio_channel.h"
#include "convolution_2d.h"
#include "envelope.h"
#include "fast_fourier_transform.h"
#include "fft_manager.h"
#include "misc_math.h"
#include "misc_vector.h"
#include "prod.h"
#include "sig.h"
#include "xcorr.h"

namespace again {  // common_abs.cc
std::vector<double> Abs(size_t r, size_t c, const std::vector<double>& v);
std::vector<double> Abs(size_t r, size_t c, const std::vector<std::complex<double>>& v);
std::vector<double> ToVector(size_t r, size_t c, const std::vector<double>& v);
std::vector<std::complex<double>> ToVector(size_t r, size_t c, const std::vector<std::complex<double>>& v);
}  // namespace again

namespace mon {
using ref::Vec;
using Visqol::AMatrix;
using Visqol::kDimension;
using Cx = std::complex<double>;

// ---------------------------------------------------------------- C23
template <class T> struct Val;
template <> struct Val<double> {
  static const char* Name() { return "real"; }
  static double Make(Rng& r) {
    const double u = r.uni();
    if (u < 0.5) return static_cast<double>(r.range(-9, 9));
    if (u < 0.97) return r.gauss() * std::pow(10.0, static_cast<double>(r.range(-3, 3)));
    return r.pick(std::vector<double>{0.0, -0.0, 1e300, -1e300, 1e-300, INFINITY, -INFINITY});
  }
  static bool Near(double a, double b, double scale) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) == std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + scale);
  }
  static bool Same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
  static std::string Str(double a) { return Fmt("%.17g", a); }
};
template <> struct Val<Cx> {
  static const char* Name() { return "complex"; }
  static Cx Make(Rng& r) {
    if (r.chance(0.5)) return Cx(static_cast<double>(r.range(-9, 9)), static_cast<double>(r.range(-9, 9)));
    return Cx(r.gauss(), r.gauss()) * std::pow(10.0, static_cast<double>(r.range(-2, 2)));
  }
  static bool Near(Cx a, Cx b, double scale) {
    const bool fa = std::isfinite(a.real()) && std::isfinite(a.imag());
    const bool fb = std::isfinite(b.real()) && std::isfinite(b.imag());
    if (!fa || !fb) return fa == fb;  // the parts of a complex quotient by zero are not specified
    return std::abs(a - b) <= 1e-12 * (std::abs(a) + scale);
  }
  static bool Same(Cx a, Cx b) { return a == b || !Near(a, a, 0) || a != a; }
  static std::string Str(Cx a) { return Fmt("%.17g%+.17gi", a.real(), a.imag()); }
};

template <class T>
struct Model {
  size_t r = 0, c = 0;
  std::vector<T> d;
  Model() {}
  Model(size_t rows, size_t cols) : r(rows), c(cols), d(rows * cols) {}
  T& at(size_t i, size_t j) { return d[j * r + i]; }
  const T& at(size_t i, size_t j) const { return d[j * r + i]; }
};
template <class T>
struct Slot {
  AMatrix<T> a;
  Model<T> m;
};

template <class T, class S>
static std::string Differ(const AMatrix<T>& a, const Model<T>& m, S near) {
  if (a.NumRows() != m.r || a.NumCols() != m.c || a.NumElements() != m.d.size())
    return Fmt("%zux%zu (%zu elements), expected %zux%zu", a.NumRows(), a.NumCols(), a.NumElements(), m.r, m.c);
  for (size_t j = 0; j < m.c; j++)
    for (size_t i = 0; i < m.r; i++)
      if (!near(a(i, j), m.at(i, j)))
        return Fmt("element (%zu,%zu) of %zux%zu is %s, expected %s", i, j, m.r, m.c, Val<T>::Str(a(i, j)).c_str(),
                   Val<T>::Str(m.at(i, j)).c_str());
  return "";
}

template <class T>
static void Scribble(std::vector<T>& v) {
  for (auto& x : v) x = T(-777.0);
}

template <class T>
struct Histories {
  Ctx& c;
  std::vector<std::unique_ptr<Slot<T>>> pool;
  std::string log;

  explicit Histories(Ctx& ctx) : c(ctx) {}
  size_t Dim() {
    const double u = c.rng.uni();
    return static_cast<size_t>(u < 0.3 ? 1 : u < 0.9 ? c.rng.range(1, 6) : c.rng.range(7, 40));
  }
  Model<T> RandomModel(size_t r, size_t k) {
    Model<T> m(r, k);
    for (auto& x : m.d) x = Val<T>::Make(c.rng);
    return m;
  }
  std::string Where(const std::string& op) { return std::string(Val<T>::Name()) + " " + op; }
  void Fail(const std::string& op, const std::string& why) {
    Viol(op + "/" + Val<T>::Name(), Where(op) + ": " + why + " | history:" + (log.size() > 900 ? log.substr(log.size() - 900) : log));
  }
  // Exact: data movement; otherwise arithmetic up to rounding relative to `scale`.
  void Exact(const std::string& op, const AMatrix<T>& a, const Model<T>& m) {
    const std::string d = Differ(a, m, [](const T& x, const T& y) { return Val<T>::Same(x, y); });
    if (!d.empty()) Fail(op, d);
    Stat("matrices compared");
  }
  void Near(const std::string& op, const AMatrix<T>& a, const Model<T>& m, double scale = 0) {
    const std::string d = Differ(a, m, [scale](const T& x, const T& y) { return Val<T>::Near(x, y, scale); });
    if (!d.empty()) Fail(op, d);
    Stat("matrices compared");
  }
  void ExactVec(const std::string& op, const std::vector<T>& v, const std::vector<T>& w) {
    if (v.size() != w.size()) return Fail(op, Fmt("%zu values, expected %zu", v.size(), w.size()));
    for (size_t i = 0; i < v.size(); i++)
      if (!Val<T>::Same(v[i], w[i]))
        return Fail(op, Fmt("value %zu is %s, expected %s", i, Val<T>::Str(v[i]).c_str(), Val<T>::Str(w[i]).c_str()));
    Stat("vectors compared");
  }

  // Builds a matrix in one of the documented ways; its source is destroyed.
  std::unique_ptr<Slot<T>> Make(size_t r, size_t k) {
    auto s = std::make_unique<Slot<T>>();
    int how = static_cast<int>(c.rng.range(0, 9));
    if (r == 0 || k == 0) how = 7;
    if (k != 1 && how <= 3) how = static_cast<int>(c.rng.range(4, 9));
    s->m = RandomModel(r, k);
    const Model<T>& m = s->m;
    log += Fmt(" make%d(%zux%zu)", how, r, k);
    switch (how) {
      case 0: {
        auto v = std::make_unique<std::vector<T>>(m.d);
        if (c.rng.chance(0.5)) {  // neither sees what happens to the other
          AMatrix<T> x(*v);
          const T first = (*v)[0];
          x(0, 0) = T(-3.0);
          if (!((*v)[0] == first) && first == first) Viol("source-changed", log);
          x(0, 0) = first;
          Scribble(*v);
          s->a = x;
          break;
        }
        s->a = AMatrix<T>(*v);
        Scribble(*v);
        break;
      }
      case 1: {
        auto v = std::make_unique<std::vector<T>>(m.d);
        if (c.rng.chance(0.5)) {  // neither sees what happens to the other
          absl::Span<T> sp(v->data(), v->size()); AMatrix<T> x(sp);
          const T first = (*v)[0];
          x(0, 0) = T(-3.0);
          if (!((*v)[0] == first) && first == first) Viol("source-changed", log);
          x(0, 0) = first;
          Scribble(*v);
          s->a = x;
          break;
        }
        { absl::Span<T> sp(v->data(), v->size()); s->a = AMatrix<T>(sp); }
        Scribble(*v);
        break;
      }
      case 2: {
        auto v = std::make_unique<std::valarray<T>>(m.d.data(), m.d.size());
        if (c.rng.chance(0.5)) {  // neither sees what happens to the other
          AMatrix<T> x(*v);
          const T first = (*v)[0];
          x(0, 0) = T(-3.0);
          if (!((*v)[0] == first) && first == first) Viol("source-changed", log);
          x(0, 0) = first;
          *v = T(-777.0);
          s->a = x;
          break;
        }
        s->a = AMatrix<T>(*v);
        *v = T(-777.0);
        break;
      }
      case 3: {
        std::vector<T> v = m.d;
        AMatrix<T> x(v);
        Scribble(v);
        AMatrix<T> y(x);
        for (auto& e : x) e = T(-5.0);
        s->a = y;
        break;
      }
      case 4: {
        std::vector<std::vector<T>> cols;
        for (size_t j = 0; j < k; j++) cols.emplace_back(m.d.begin() + j * r, m.d.begin() + (j + 1) * r);
        s->a = AMatrix<T>(cols);
        for (auto& v : cols) Scribble(v);
        break;
      }
      case 5: {
        auto v = std::make_unique<std::vector<T>>(m.d);
        s = std::make_unique<Slot<T>>(Slot<T>{AMatrix<T>(r, k, static_cast<const std::vector<T>&>(*v)), m});
        Scribble(*v);
        break;
      }
      case 6: {
        auto v = std::make_unique<std::vector<T>>(m.d);
        T* p = v->data();
        auto out = std::make_unique<Slot<T>>(Slot<T>{AMatrix<T>(r, k, std::move(*v)), m});
        // the vector may or may not have been emptied; either way it is gone now
        if (!v->empty() && v->data() == p) Scribble(*v);
        v.reset();
        return out;
      }
      case 7: {
        AMatrix<T> x(r, k);
        for (size_t j = 0; j < k; j++)
          for (size_t i = 0; i < r; i++) x(i, j) = m.at(i, j);
        s->a = x;
        for (size_t i = 0; i < x.NumElements(); i++) x(i) = T(3.0);
        break;
      }
      case 8: {
        AMatrix<T> x(r, k);
        for (size_t i = 0; i < m.d.size(); i++) x(i) = m.d[i];
        auto y = std::make_unique<AMatrix<T>>(x);
        s->a = *y;
        for (auto it = y->begin(); it != y->end(); ++it) *it = T(9.0);
        y.reset();
        break;
      }
      default: {
        const T v = Val<T>::Make(c.rng);
        s->a = AMatrix<T>::Filled(r, k, v);
        Model<T> f(r, k);
        std::fill(f.d.begin(), f.d.end(), v);
        Exact("filled", s->a, f);
        T* p = s->a.mutData();
        for (size_t i = 0; i < m.d.size(); i++) p[i] = m.d[i];
      }
    }
    return s;
  }

  // Changes to one of two matrices do not show in the other.
  void Apart(const std::string& op, const AMatrix<T>& result, const Slot<T>& s) {
    if (s.m.d.empty() || result.NumElements() == 0) return;
    AMatrix<T>& src = const_cast<AMatrix<T>&>(s.a);
    AMatrix<T>& res = const_cast<AMatrix<T>&>(result);
    const Model<T> before = FromProduct(result);
    const T v = T(-1234.5);
    const size_t e = c.rng.range(0, s.m.d.size() - 1), f = c.rng.range(0, before.d.size() - 1);
    for (size_t i : {size_t{0}, e}) src(i) = v;
    Exact(op + " shares elements with its operand", result, before);
    for (size_t i : {size_t{0}, e}) src(i) = s.m.d[i];
    for (size_t i : {size_t{0}, f}) res(i) = v;
    Exact(op + " shares elements with its operand", s.a, s.m);
    for (size_t i : {size_t{0}, f}) res(i) = before.d[i];
    Stat("independence checked");
  }

  void ToVec(const AMatrix<double>& a, const std::vector<double>& first) { ExactVec("to vector", a.ToVector(), first); }
  void ToVec(const AMatrix<Cx>&, const std::vector<Cx>&) {}

  void Inspect(const Slot<T>& s) {
    Exact("pool", s.a, s.m);
    if (s.m.d.empty()) return;
    // the accessors agree with one another
    const size_t i = c.rng.range(0, s.m.r - 1), j = c.rng.range(0, s.m.c - 1), e = j * s.m.r + i;
    AMatrix<T>& w = const_cast<AMatrix<T>&>(s.a);
    const bool ok = Val<T>::Same(s.a(e), s.m.d[e]) && Val<T>::Same(w(e), s.m.d[e]) && Val<T>::Same(w(i, j), s.m.d[e]) &&
                    Val<T>::Same(s.a.data()[e], s.m.d[e]) && Val<T>::Same(s.a.MemPtr()[e], s.m.d[e]) &&
                    Val<T>::Same(s.a.GetArmaMat()(i, j), s.m.d[e]);
    if (!ok) Fail("indexing", Fmt("accessors disagree at (%zu,%zu) of %zux%zu", i, j, s.m.r, s.m.c));
    ExactVec("iteration", std::vector<T>(s.a.cbegin(), s.a.cend()), s.m.d);
    ExactVec("iteration", std::vector<T>(w.begin(), w.end()), s.m.d);
    if (s.a.LongestDimensionLength() != std::max(s.m.r, s.m.c))
      Fail("longest dimension", Fmt("%zu for %zux%zu", s.a.LongestDimensionLength(), s.m.r, s.m.c));
    const std::vector<T> first(s.m.d.begin(), s.m.d.begin() + s.m.r);
    ToVec(s.a, first);
    const std::valarray<T> va = s.a.ToValArray();
    ExactVec("to valarray", std::vector<T>(std::begin(va), std::end(va)), first);
  }

  void Step() {
    Rng& g = c.rng;
    Slot<T>& s = *pool[g.range(0, pool.size() - 1)];
    const size_t r = s.m.r, k = s.m.c;
    const bool some = r > 0 && k > 0;
    double big = 0;
    for (const T& x : s.m.d) if (std::isfinite(std::abs(x))) big = std::max(big, std::abs(x));
    int op = static_cast<int>(g.range(0, 27));
    // armadillo itself forms null references for matrices without elements
    if (!some && op != 0 && op != 1 && op != 22 && op != 26) op = 27;
    log += Fmt(" %d[%zux%zu]", op, r, k);
    Stat(Fmt("operation %02d", op));
    auto add = [&](const AMatrix<T>& a, const Model<T>& m) {
      auto n = std::make_unique<Slot<T>>();
      n->a = a;
      n->m = m;
      // continue from what the product computed (it has been checked)
      for (size_t j = 0; j < m.c && a.NumCols() == m.c && a.NumRows() == m.r; j++)
        for (size_t i = 0; i < m.r; i++) n->m.at(i, j) = a(i, j);
      if (a.NumCols() != m.c || a.NumRows() != m.r) return;
      if (pool.size() < 6) pool.push_back(std::move(n));
      else pool[g.range(0, 5)] = std::move(n);
    };
    auto same_shape = [&]() -> std::unique_ptr<Slot<T>> { return Make(r, k); };
    switch (op) {
      case 0: {  // copies
        Slot<T> cp{s.a, s.m};
        if (some) {
          const T v = Val<T>::Make(g);
          const size_t i = g.range(0, r - 1), j = g.range(0, k - 1);
          cp.a(i, j) = v;
          cp.m.at(i, j) = v;
        }
        Exact("copy", cp.a, cp.m);
        Exact("copy source", s.a, s.m);
        add(cp.a, cp.m);
        break;
      }
      case 1: {  // assignment, also to itself and between shapes
        Slot<T>& o = *pool[g.range(0, pool.size() - 1)];
        AMatrix<T>& back = (o.a = s.a);
        o.m = Model<T>(s.m);
        if (&back != &o.a) Fail("assign", "does not return the target");
        Exact("assign", o.a, o.m);
        Exact("assign source", s.a, s.m);
        break;
      }
      case 2: case 3: case 4: case 5: {  // with a scalar
        T v = g.chance(0.25) ? T(static_cast<double>(g.range(-1, 1))) : Val<T>::Make(g);
        if (op == 5 && v == T(0.0) && g.chance(0.7)) v = T(2.0);
        Model<T> m(r, k);
        for (size_t i = 0; i < m.d.size(); i++) {
          const T x = s.m.d[i];
          m.d[i] = op == 2 ? x + v : op == 3 ? x - v : op == 4 ? x * v : x / v;
        }
        const char* nm[] = {"add scalar", "subtract scalar", "multiply scalar", "divide scalar"};
        const AMatrix<T> a = op == 2 ? s.a + v : op == 3 ? s.a - v : op == 4 ? s.a * v : s.a / v;
        Near(nm[op - 2], a, m);
        Exact("operand", s.a, s.m);
        Apart(nm[op - 2], a, s);
        add(a, m);
        break;
      }
      case 6: case 7: case 8: case 9: {  // with a matrix
        std::unique_ptr<Slot<T>> made;
        const double u = g.uni();
        Slot<T>* o = &s;  // sometimes with itself
        if (u > 0.07) {
          made = u < 0.14 ? std::make_unique<Slot<T>>(s) : same_shape();
          o = made.get();
          if (u > 0.85) {  // neutral elements
            const T v = T(op > 7 ? 1.0 : 0.0);
            for (size_t i = 0; i < o->m.d.size(); i++) { o->a(i) = v; o->m.d[i] = v; }
          }
        }
        Model<T> m(r, k);
        for (size_t i = 0; i < m.d.size(); i++) {
          const T x = s.m.d[i], y = o->m.d[i];
          m.d[i] = op == 6 ? x + y : op == 7 ? x - y : op == 8 ? x * y : x / y;
        }
        const char* nm[] = {"add", "subtract", "pointwise product", "pointwise quotient"};
        const AMatrix<T> a = op == 6 ? s.a + o->a : op == 7 ? s.a - o->a
                             : op == 8 ? s.a.PointWiseProduct(o->a) : s.a.PointWiseDivide(o->a);
        Near(nm[op - 6], a, m);
        Exact("operand", s.a, s.m);
        Exact("operand", o->a, o->m);
        Apart(nm[op - 6], a, s);
        Apart(nm[op - 6], a, *o);
        add(a, m);
        break;
      }
      case 10: {
        Model<T> m(k, r);
        for (size_t i = 0; i < r; i++)
          for (size_t j = 0; j < k; j++) m.at(j, i) = s.m.at(i, j);
        const AMatrix<T> a = s.a.Transpose();
        // for complex values the conjugate transpose is equally a transpose
        Model<T> h = m;
        for (auto& x : h.d) x = Conj(x);
        if (Differ(a, m, [](const T& x, const T& y) { return Val<T>::Same(x, y); }) != "") Exact("transpose", a, h);
        Apart("transpose", a, s);
        add(a, m);
        break;
      }
      case 11: {
        if (!some) break;
        const std::vector<double> a = again::Abs(r, k, s.m.d);
        if (a.size() != s.m.d.size()) { Fail("abs", "wrong shape"); break; }
        for (size_t i = 0; i < a.size(); i++)
          if (!Val<double>::Near(a[i], std::abs(s.m.d[i]), 0)) {
            Fail("abs", Fmt("element %zu: %.17g, expected %.17g", i, a[i], std::abs(s.m.d[i])));
            return;
          }
        ExactVec("to vector", again::ToVector(r, k, s.m.d), std::vector<T>(s.m.d.begin(), s.m.d.begin() + r));
        break;
      }
      case 12: {
        if (!some) break;
        const size_t i = g.range(0, r - 1), a = g.range(0, k - 1), b = g.range(a, k - 1);
        std::vector<T> w, full;
        for (size_t j = 0; j < k; j++) { full.push_back(s.m.at(i, j)); if (j >= a && j <= b) w.push_back(s.m.at(i, j)); }
        ExactVec("row subset", s.a.RowSubset(i, a, b), w);
        ExactVec("row", s.a.GetRow(i), full);
        break;
      }
      case 13: case 14: case 15: case 16: {
        if (!some) break;
        size_t r0 = 0, r1 = r - 1, c0 = 0, c1 = k - 1;
        if (op == 13 || op == 16) { r0 = g.range(0, r - 1); r1 = g.range(r0, r - 1); }
        if (op != 13) { c0 = g.range(0, k - 1); c1 = op == 15 ? c0 : g.range(c0, k - 1); }
        Model<T> m(r1 - r0 + 1, c1 - c0 + 1);
        for (size_t i = 0; i < m.r; i++)
          for (size_t j = 0; j < m.c; j++) m.at(i, j) = s.m.at(r0 + i, c0 + j);
        const char* nm[] = {"rows", "columns", "column", "span"};
        AMatrix<T> a = op == 13 ? s.a.GetRows(r0, r1) : op == 14 ? s.a.GetColumns(c0, c1)
                       : op == 15 ? s.a.GetColumn(c0) : s.a.GetSpan(r0, r1, c0, c1);
        Exact(nm[op - 13], a, m);
        const T v = Val<T>::Make(g);
        a(0, 0) = v;
        m.at(0, 0) = v;
        Exact("slice source", s.a, s.m);
        Apart(nm[op - 13], a, s);
        add(a, m);
        break;
      }
      case 17: case 18: {
        if (!some) break;
        const size_t i = g.range(0, r - 1);
        std::vector<T> w;
        for (size_t j = 0; j < k; j++) { w.push_back(Val<T>::Make(g)); s.m.at(i, j) = w.back(); }
        if (op == 17) s.a.SetRow(i, w);
        else s.a.SetRow(i, std::valarray<T>(w.data(), w.size()));
        Scribble(w);
        Exact(op == 17 ? "set row" : "set row (valarray)", s.a, s.m);
        break;
      }
      case 19: case 20: case 21: {
        if (!some) break;
        const size_t j = g.range(0, k - 1), q = g.range(0, k - 1);
        std::vector<T> w;
        for (size_t i = 0; i < r; i++) w.push_back(op == 19 && g.chance(0.0) ? T() : Val<T>::Make(g));
        if (op == 19 && g.chance(0.5)) for (size_t i = 0; i < r; i++) w[i] = s.m.at(i, q), (void)0;
        const bool own = op == 19 && [&] { for (size_t i = 0; i < r; i++) if (!Val<T>::Same(w[i], s.m.at(i, q))) return false; return true; }();
        for (size_t i = 0; i < r; i++) s.m.at(i, j) = w[i];
        if (op == 19) s.a.SetColumn(j, own ? s.a.GetColumn(q) : AMatrix<T>(w));
        else if (op == 20) { std::vector<T> cp = w; s.a.SetColumn(j, std::move(cp)); }
        else s.a.SetColumn(j, std::valarray<T>(w.data(), w.size()));
        Scribble(w);
        Exact(op == 19 ? "set column" : op == 20 ? "set column (vector)" : "set column (valarray)", s.a, s.m);
        break;
      }
      case 22: {  // elements common to both shapes stay where they are
        const size_t nr = Dim(), nk = Dim();
        Model<T> m(nr, nk);
        s.a.Resize(nr, nk);
        if (s.a.NumRows() != nr || s.a.NumCols() != nk) { Fail("resize", "wrong shape"); s.m = FromProduct(s.a); break; }
        for (size_t i = 0; i < nr; i++)
          for (size_t j = 0; j < nk; j++) {
            if (i < r && j < k) m.at(i, j) = s.m.at(i, j);
            else { const T v = Val<T>::Make(g); s.a(i, j) = v; m.at(i, j) = v; }
          }
        s.m = m;
        Exact("resize", s.a, s.m);
        break;
      }
      case 23: {
        if (!some) break;
        auto o = g.chance(0.15) ? std::make_unique<Slot<T>>(s) : Make(Dim(), k);
        Model<T> m(r + o->m.r, k);
        for (size_t j = 0; j < k; j++) {
          for (size_t i = 0; i < r; i++) m.at(i, j) = s.m.at(i, j);
          for (size_t i = 0; i < o->m.r; i++) m.at(r + i, j) = o->m.at(i, j);
        }
        const AMatrix<T> a = s.a.JoinVertically(o->a);
        Exact("join", a, m);
        Exact("operand", s.a, s.m);
        Apart("join", a, s);
        Apart("join", a, *o);
        if (m.r < 200) add(a, m);
        break;
      }
      case 24: {
        Model<T> m(r, k);
        for (size_t i = 0; i < r; i++)
          for (size_t j = 0; j < k; j++) m.at(r - 1 - i, j) = s.m.at(i, j);
        const AMatrix<T> a = s.a.FlipUpDown();
        Exact("flip", a, m);
        Apart("flip", a, s);
        add(a, m);
        break;
      }
      case 25: {
        if (!some || !std::isfinite(big) || big > 1e100 || !Finite(s.m)) break;
        for (kDimension dim : {kDimension::COLUMN, kDimension::ROW}) {
          const bool col = dim == kDimension::COLUMN;
          const size_t n = col ? k : r, len = col ? r : k;
          Model<T> m(col ? 1 : r, col ? k : 1);
          Vec sd(n);
          for (size_t q = 0; q < n; q++) {
            T sum = T(0.0);
            for (size_t p = 0; p < len; p++) sum += col ? s.m.at(p, q) : s.m.at(q, p);
            m.d[q] = sum / T(static_cast<double>(len));
            double ss = 0;
            for (size_t p = 0; p < len; p++) ss += std::norm((col ? s.m.at(p, q) : s.m.at(q, p)) - m.d[q]);
            sd[q] = len > 1 ? std::sqrt(ss / (len - 1)) : 0;
          }
          Near(col ? "mean of columns" : "mean of rows", s.a.Mean(dim), m, big);
          const AMatrix<double> a = s.a.StdDev(dim);
          if (a.NumRows() != m.r || a.NumCols() != m.c) { Fail("deviation", "wrong shape"); continue; }
          for (size_t q = 0; q < n; q++)
            if (!Close(a(q), sd[q], 1e-7 * big, 1e-9))
              Fail("deviation", Fmt("%s %zu of %zux%zu: %.17g, expected %.17g", col ? "column" : "row", q, r, k, a(q), sd[q]));
        }
        break;
      }
      case 26: {  // comparison: equal exactly if shape and elements agree
        AMatrix<T> cp(s.a);
        if (!Finite(s.m)) break;
        if (!(cp == s.a) || !(s.a == s.a)) Fail("equality", "a copy is not equal");
        if (some) {
          const size_t e = g.range(0, s.m.d.size() - 1);
          cp(e) = s.m.d[e] == T(1.5) ? T(2.5) : T(1.5);
          if (g.chance(0.4)) cp(e) = s.m.d[e] + T(std::max(4e-16 * std::abs(s.m.d[e]), 1e-300));  // by hardly anything
          if (cp == s.a || s.a == cp) Fail("equality", Fmt("equal although element %zu differs", e));
          AMatrix<T> more = s.a.JoinVertically(s.a);
          if (more == s.a || s.a == more) Fail("equality", "equal although there are more rows");
          AMatrix<T> wide(s.a);
          wide.Resize(r, k + 1);
          for (size_t i = 0; i < r; i++) wide(i, k) = T(0.0);
          if (wide == s.a || s.a == wide) Fail("equality", "equal although there are more columns");
          if (r != k) {
            AMatrix<T> flat(k, r, s.m.d);
            if (flat == s.a || s.a == flat) Fail("equality", Fmt("equal although %zux%zu is not %zux%zu", r, k, k, r));
          }
        }
        break;
      }
      default: {
        const size_t nr = g.chance(0.04) ? 0 : Dim(), nk = g.chance(0.04) ? 0 : g.chance(0.4) ? 1 : Dim();
        if (nr == 0 || nk == 0) {
          auto n = std::make_unique<Slot<T>>();
          n->a = AMatrix<T>(nr, nk);
          n->m = Model<T>(nr, nk);
          if (pool.size() < 6) pool.push_back(std::move(n));
          Stat("empty matrices");
          break;
        }
        auto n = Make(nr, nk);
        if (pool.size() < 6) pool.push_back(std::move(n));
        else pool[g.range(0, 5)] = std::move(n);
      }
    }
  }
  static double Conj(double x) { return x; }
  static Cx Conj(Cx x) { return std::conj(x); }
  static bool Finite(const Model<T>& m) {
    for (const T& x : m.d) if (!std::isfinite(std::abs(x))) return false;
    return true;
  }
  static Model<T> FromProduct(const AMatrix<T>& a) {
    Model<T> m(a.NumRows(), a.NumCols());
    for (size_t j = 0; j < m.c; j++)
      for (size_t i = 0; i < m.r; i++) m.at(i, j) = a(i, j);
    return m;
  }

  void Run() {
    for (int i = 0; i < 3; i++) pool.push_back(Make(Dim(), c.rng.chance(0.4) ? 1 : Dim()));
    const int steps = static_cast<int>(c.rng.range(10, 60));
    for (int i = 0; i < steps; i++) {
      Step();
      // nothing else in the pool may have changed
      for (auto& s : pool) Inspect(*s);
      if (log.size() > 4000) log.erase(0, 2000);
    }
    Cover(Fmt("%s %016zx", Val<T>::Name(), std::hash<std::string>()(log)));
    if (c.index < 6) Sample(Where("history:") + log.substr(0, 300));
  }
};

static void VectorHelpers(Ctx& c) {
  const size_t n = c.rng.range(1, 60), k = c.rng.chance(0.7) ? 1 : c.rng.range(1, 5);
  ref::Mat m(n, k);
  double sum = 0, mag = 0, mx = -INFINITY;
  for (auto& x : m.d) {
    x = c.rng.gauss() * 10;
    sum += x;
    mag += std::fabs(x);
    mx = std::max(mx, x);
  }
  const AMatrix<double> a = prod::ToA(m);
  if (!Close(Visqol::MiscVector::Sum(a), sum, 1e-12 * mag)) Viol("sum", Fmt("%zux%zu: %.17g, expected %.17g", n, k, Visqol::MiscVector::Sum(a), sum));
  if (!Close(Visqol::MiscVector::Mean(a), sum / m.d.size(), 1e-12 * mag))
    Viol("mean", Fmt("%zux%zu: %.17g, expected %.17g", n, k, Visqol::MiscVector::Mean(a), sum / m.d.size()));
  const AMatrix<double> q = Visqol::MiscMath::Normalize(a);
  bool ok = q.NumRows() == n && q.NumCols() == k;
  for (size_t i = 0; ok && i < m.d.size(); i++) ok = Close(q(i), m.d[i] / mx, 0, 1e-13);
  if (!ok) Viol("normalise", Fmt("%zux%zu", n, k));
  std::vector<std::vector<double>> vv;
  for (double x : m.d) vv.push_back({x, -x});
  if (Visqol::MiscVector::ConvertVecOfVecToVec(vv) != m.d) Viol("first column of rows", Fmt("%zu rows", vv.size()));
}

static void MatrixCase(Ctx& c) {
  Note("matrix history");
  if (c.rng.chance(0.6)) Histories<double>(c).Run();
  else Histories<Cx>(c).Run();
  VectorHelpers(c);
}

// ---------------------------------------------------------------- C24
static size_t Length(Rng& g, bool thorough) {
  const double u = g.uni();
  if (u < 0.3) return g.range(1, 40);
  if (u < 0.55) {
    const size_t p = size_t(1) << g.range(3, 13);
    return std::max<int64_t>(1, static_cast<int64_t>(p) + g.range(-2, 2));
  }
  if (u < 0.93) return g.range(1, 3000);
  return g.range(8193, thorough ? 140000 : 40000);
}
static Vec RandomSignal(Rng& g, size_t n, std::string* what) {
  Vec x(n);
  const int k = static_cast<int>(g.range(0, 6));
  static const char* nm[] = {"noise", "impulse", "constant", "sine", "ramp", "alternating", "sparse"};
  *what = nm[k];
  const double amp = std::pow(10.0, g.uni(-3, 3)), w = g.uni(0, 3.1), off = g.chance(0.3) ? amp * g.uni(-3, 3) : 0;
  const size_t at = g.range(0, n - 1);
  for (size_t i = 0; i < n; i++) {
    double v = 0;
    switch (k) {
      case 0: v = g.gauss(); break;
      case 1: v = i == at; break;
      case 2: v = 1; break;
      case 3: v = std::sin(w * i + 0.3); break;
      case 4: v = i / double(n); break;
      case 5: v = i % 2 ? 1 : -1; break;
      default: v = g.chance(0.05) ? g.gauss() : 0;
    }
    x[i] = amp * v + off;
  }
  return x;
}
static double Norm(const Vec& x) {
  double s = 0;
  for (double v : x) s += v * v;
  return std::sqrt(s);
}
using Manager = std::unique_ptr<Visqol::FftManager>;

static std::string BadDft(const AMatrix<Cx>& X, const Vec& x, size_t N) {
  if (X.NumElements() != N) return Fmt("%zu bins, expected %zu", X.NumElements(), N);
  Vec re(N, 0.0), im(N, 0.0);
  if (N <= 512) {  // by the definition
    for (size_t k = 0; k < N; k++)
      for (size_t i = 0; i < x.size(); i++) {
        const double a = -2 * M_PI * static_cast<double>((k * i) % N) / N;
        re[k] += x[i] * std::cos(a);
        im[k] += x[i] * std::sin(a);
      }
  } else {
    std::copy(x.begin(), x.end(), re.begin());
    ref::Fft(re, im, false);
  }
  double top = 0;
  for (size_t k = 0; k < N; k++) top = std::max(top, std::hypot(re[k], im[k]));
  // single precision error grows with the root of the length
  const double tol = 4e-6 * Norm(x) + 1e-6 * top + 1e-30;
  for (size_t k = 0; k < N; k++)
    if (!(std::abs(X(k) - Cx(re[k], im[k])) <= tol))
      return Fmt("bin %zu of %zu is %.9g%+.9gi, expected %.9g%+.9gi (tolerance %.2g)", k, N, X(k).real(), X(k).imag(), re[k], im[k], tol);
  return "";
}

static void TransformCase(Ctx& c) {
  Rng& g = c.rng;
  const size_t n = Length(g, c.thorough);
  const size_t N = std::max<size_t>(32, ref::Pow2AtLeast(n));
  Note(Fmt("transform of %zu samples", n));
  if (Visqol::MiscMath::NextPowTwo(static_cast<uint32_t>(n)) != ref::Pow2AtLeast(n))
    Viol("next power of two", Fmt("of %zu is %zu", n, Visqol::MiscMath::NextPowTwo(static_cast<uint32_t>(n))));
  Manager m = std::make_unique<Visqol::FftManager>(n);
  if (m->GetFftSize() != N || m->GetSamplesPerChannel() != n)
    return Viol("transform size", Fmt("%zu samples: size %zu, expected %zu", n, m->GetFftSize(), N));
  using F = Visqol::FastFourierTransform;
  const int rounds = static_cast<int>(g.range(1, 4));
  for (int r = 0; r < rounds; r++) {
    std::string what;
    const Vec x = RandomSignal(g, n, &what);
    const AMatrix<Cx> X = F::Forward1d(m, AMatrix<double>(x));
    const std::string bad = BadDft(X, x, N);
    if (!bad.empty()) { Viol("forward transform", Fmt("%s, %zu samples, use %d: ", what.c_str(), n, r + 1) + bad); return; }
    Stat("forward transforms");
    // independent of what the manager did before
    if (r > 0) {
      Manager fresh = std::make_unique<Visqol::FftManager>(n);
      const AMatrix<Cx> Y = F::Forward1d(fresh, AMatrix<double>(x));
      if (!(X == Y)) { Viol("transform remembers", Fmt("%zu samples, use %d", n, r + 1)); return; }
    }
    const double tol = 4e-6 * Norm(x) + 1e-30;
    const AMatrix<double> y = F::Inverse1dConjSym(m, X);
    const AMatrix<Cx> z = F::Inverse1d(m, X);
    if (y.NumElements() != n || z.NumElements() != n) { Viol("inverse transform", Fmt("%zu values for %zu samples", y.NumElements(), n)); return; }
    for (size_t i = 0; i < n; i++)
      if (!Close(y(i), x[i], tol) || !(std::abs(z(i) - x[i]) <= tol)) {
        Viol("inverse transform", Fmt("%s, %zu samples: sample %zu comes back as %.9g (%.9g%+.9gi), expected %.9g", what.c_str(), n, i, y(i),
                                      z(i).real(), z(i).imag(), x[i]));
        return;
      }
    Stat("inverse transforms");
    if (r == 0) Cover(Fmt("fft %zu %s", n, what.c_str()));
    if (c.index < 3) Sample(Fmt("transform of %zu samples (%s)", n, what.c_str()));
    // padded to more points
    const size_t pts = std::max<size_t>(32, ref::Pow2AtLeast(n) << g.range(0, 2));
    if (pts <= 65536) {
      Manager pm = std::make_unique<Visqol::FftManager>(pts);
      const std::string pad = BadDft(F::Forward1d(pm, AMatrix<double>(x), pts), x, pts);
      if (!pad.empty()) { Viol("padded transform", Fmt("%s, %zu samples: ", what.c_str(), n) + pad); return; }
      Stat("padded transforms");
    }
  }
}

static void CorrelationCase(Ctx& c) {
  Rng& g = c.rng;
  const size_t n = g.chance(0.8) ? std::min<size_t>(Length(g, c.thorough), 6000) : Length(g, c.thorough);
  size_t k = g.chance(0.35) ? n : g.chance(0.5) ? std::max<int64_t>(1, static_cast<int64_t>(n) + g.range(-5, 5)) : std::min<size_t>(Length(g, c.thorough), 12000);
  std::string wa, wb;
  Vec a = RandomSignal(g, n, &wa), b;
  int64_t shift = 0;
  const bool rel = g.chance(0.65);
  if (rel) {
    shift = g.range(-static_cast<int64_t>(n) + 1, static_cast<int64_t>(k) - 1);
    b.assign(k, 0.0);
    const double gain = std::pow(10.0, g.uni(-2, 2));
    for (size_t i = 0; i < k; i++) {
      const int64_t j = static_cast<int64_t>(i) - shift;
      if (j >= 0 && j < static_cast<int64_t>(n)) b[i] = gain * a[j];
    }
    wb = Fmt("shifted by %lld", (long long)shift);
  } else {
    b = RandomSignal(g, k, &wb);
  }
  Note(Fmt("correlation of %zu (%s) with %zu (%s)", n, wa.c_str(), k, wb.c_str()));
  const int64_t lag = Visqol::XCorr::FindLowestLagIndex(AMatrix<double>(a), AMatrix<double>(b));
  const int64_t lim = static_cast<int64_t>(std::max(n, k)) - 1;
  if (lag < -lim || lag > lim) return Viol("correlation lag out of range", Fmt("lag %lld for lengths %zu, %zu", (long long)lag, n, k));
  ref::Corr r;
  if (std::max(n, k) <= 700) {  // the direct sum
    r.max_lag = lim;
    r.c.assign(2 * lim + 1, 0.0);
    r.norm = Norm(a) * Norm(b);
    for (int64_t l = -lim; l <= lim; l++)
      for (int64_t i = std::max<int64_t>(0, -l); i < static_cast<int64_t>(k) && i + l < static_cast<int64_t>(n); i++) r.c[l + lim] += a[i + l] * b[i];
    Stat("direct sums");
  } else {
    r = ref::XCorr(a, b);
  }
  const double best = *std::max_element(r.c.begin(), r.c.end());
  if (r.norm > 0 && !(r.at(lag) >= best - 5e-6 * r.norm - 1e-30)) {
    const int64_t at = std::max_element(r.c.begin(), r.c.end()) - r.c.begin() - lim;
    return Viol("correlation lag", Fmt("%zu (%s) with %zu (%s): lag %lld has correlation %.9g, lag %lld has %.9g (norm %.3g)", n, wa.c_str(), k,
                                       wb.c_str(), (long long)lag, r.at(lag), (long long)at, best, r.norm));
  }
  Stat("correlations");
  Cover(Fmt("xcorr %zu %zu %s %lld", n, k, wa.c_str(), (long long)lag));
  if (c.index < 6) Sample(Fmt("correlation of %zu (%s) with %zu (%s): lag %lld", n, wa.c_str(), k, wb.c_str(), (long long)lag));
}

static void EnvelopeCase(Ctx& c) {
  Rng& g = c.rng;
  const size_t n = Length(g, c.thorough);
  std::string what;
  const Vec x = RandomSignal(g, n, &what);
  Note(Fmt("envelope of %zu (%s)", n, what.c_str()));
  const AMatrix<double> in(x);
  const AMatrix<double> e = Visqol::Envelope::CalcUpperEnv(in);
  const Vec w = ref::Envelope(x);
  if (e.NumElements() != n) return Viol("envelope length", Fmt("%zu values for %zu samples", e.NumElements(), n));
  const double tol = 1e-5 * Norm(x) + 1e-30;
  for (size_t i = 0; i < n; i++) {
    if (!Close(e(i), w[i], tol))
      return Viol("envelope", Fmt("%s, %zu samples: value %zu is %.9g, expected %.9g", what.c_str(), n, i, e(i), w[i]));
    if (in(i) != x[i]) return Viol("envelope changed its input", Fmt("sample %zu", i));
  }
  Stat("envelopes");
  Cover(Fmt("envelope %zu %s", n, what.c_str()));
}

static void ConvolutionCase(Ctx& c) {
  Rng& g = c.rng;
  const size_t r = g.chance(0.2) ? 1 : g.range(1, 40), k = g.chance(0.2) ? 1 : g.range(1, 40);
  ref::Mat m(r, k), f(3, 3);
  for (auto& x : m.d) x = g.gauss() * 10;
  for (auto& x : f.d) x = g.chance(0.2) ? 0 : g.gauss();
  Note(Fmt("convolution %zux%zu", r, k));
  const AMatrix<double> am = prod::ToA(m), af = prod::ToA(f);
  const AMatrix<double> o = Visqol::Convolution2D<double>::Valid2DConvWithBoundary(af, am);
  if (o.NumRows() != r || o.NumCols() != k) return Viol("convolution shape", Fmt("%zux%zu for %zux%zu", o.NumRows(), o.NumCols(), r, k));
  for (size_t i = 0; i < r; i++)
    for (size_t j = 0; j < k; j++) {
      double s = 0;
      for (int p = 0; p < 3; p++)
        for (int q = 0; q < 3; q++) {
          const int64_t y = std::clamp<int64_t>(static_cast<int64_t>(i) + 1 - p, 0, r - 1), x = std::clamp<int64_t>(static_cast<int64_t>(j) + 1 - q, 0, k - 1);
          s += f(p, q) * m(y, x);
        }
      if (!Close(o(i, j), s, 1e-10)) return Viol("convolution", Fmt("(%zu,%zu) of %zux%zu: %.17g, expected %.17g", i, j, r, k, o(i, j), s));
    }
  if (!(am == prod::ToA(m))) Viol("convolution changed its input", "");
  Stat("convolutions");
  Cover(Fmt("convolution %zux%zu", r, k));
}

static void NumericCase(Ctx& c) {
  const double u = c.rng.uni();
  if (u < 0.4) TransformCase(c);
  else if (u < 0.75) CorrelationCase(c);
  else if (u < 0.9) EnvelopeCase(c);
  else ConvolutionCase(c);
}

void RunCase(Ctx& c) {
  if (c.mode == "matrix") MatrixCase(c);
  else if (c.mode == "numeric") NumericCase(c);
}
}  // namespace mon
