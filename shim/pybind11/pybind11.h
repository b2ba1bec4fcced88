// Stand-in for pybind11, which is not in the sandbox: a module's definitions are
// kept in a table through which a monitor can call them with dynamically typed
// arguments, converted as an interpreter's would be.
#ifndef SHIM_PYBIND11_H
#define SHIM_PYBIND11_H
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"

namespace pybind11 {
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };

// A dynamically typed value: bool, long long, double, string, array of doubles,
// or an object (shared_ptr<void> and its type).
struct value {
  enum kind { none, boolean, integer, real, text, array, object } k = none;
  bool b = false;
  long long i = 0;
  double d = 0;
  std::string s;
  std::shared_ptr<std::vector<double>> a;
  std::shared_ptr<void> o;
  std::type_index t = typeid(void);
  value() = default;
  value(bool x) : k(boolean), b(x) {}
  value(int x) : k(integer), i(x) {}
  value(long long x) : k(integer), i(x) {}
  value(double x) : k(real), d(x) {}
  value(const char* x) : k(text), s(x) {}
  value(const std::string& x) : k(text), s(x) {}
  value(const std::vector<double>& x) : k(array), a(std::make_shared<std::vector<double>>(x)) {}
  template <class T> static value of(std::shared_ptr<T> p) { value v; v.k = object; v.t = typeid(T); v.o = p; return v; }
};

// Name of an argument, with its default if it has one.
struct arg {
  std::string name;
  bool has = false;
  value def;
  explicit arg(const char* n) : name(n) {}
  arg& noconvert(bool = true) { return *this; }
  arg& none(bool = true) { return *this; }
  arg operator=(value v) const { arg a(name.c_str()); a.has = true; a.def = std::move(v); return a; }
};

namespace detail {
template <class T> struct is_span : std::false_type {};
template <class T> struct is_span<absl::Span<T>> : std::true_type {};
// Holds what an argument refers to while the call lasts.
template <class A> struct loader {
  using T = std::decay_t<A>;
  using P = std::remove_cv_t<std::remove_pointer_t<T>>;
  static constexpr bool vec = std::is_same_v<T, std::vector<double>>;
  static constexpr bool str = std::is_same_v<T, std::string> || std::is_same_v<T, absl::string_view>;
  std::vector<double> copy;
  std::string text;
  value v;
  std::any made;
  decltype(auto) get(const value& x) {
    v = x;
    if constexpr (std::is_same_v<T, bool>) {
      if (v.k != value::boolean) throw type_error("bool expected");
      return bool(v.b);
    } else if constexpr (std::is_integral_v<T>) {
      if (v.k == value::boolean) return static_cast<T>(v.b);
      if (v.k != value::integer) throw type_error("int expected");
      if (static_cast<long long>(static_cast<T>(v.i)) != v.i) throw type_error("int out of range");
      return static_cast<T>(v.i);
    } else if constexpr (std::is_floating_point_v<T>) {
      if (v.k == value::integer) return static_cast<T>(v.i);
      if (v.k != value::real) throw type_error("float expected");
      return static_cast<T>(v.d);
    } else if constexpr (is_span<T>::value) {
      if (v.k != value::array) throw type_error("array expected");
      return T(v.a->data(), v.a->size());
    } else if constexpr (vec) {
      if (v.k != value::array) throw type_error("array expected");
      copy = *v.a;
      return static_cast<std::vector<double>&>(copy);
    } else if constexpr (str) {
      if (v.k != value::text) throw type_error("str expected");
      return T(v.s);
    } else if constexpr (std::is_same_v<T, const char*>) {
      if (v.k != value::text) throw type_error("str expected");
      return static_cast<const char*>(v.s.c_str());
    } else if constexpr (std::is_pointer_v<T>) {
      if (v.k != value::object || v.t != typeid(P)) throw type_error("object expected");
      return static_cast<P*>(v.o.get());
    } else {
      if (v.k != value::object || v.t != typeid(T)) throw type_error("object expected");
      return *static_cast<T*>(v.o.get());
    }
  }
};
template <class R> std::any keep(R&& r) {
  using T = std::decay_t<R>;
  if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*> || std::is_same_v<T, absl::string_view>)
    return std::any(std::string(r));
  else if constexpr (std::is_floating_point_v<T>)
    return std::any(static_cast<double>(r));
  else
    return std::any(T(std::forward<R>(r)));
}
struct caller {
  std::function<std::any(const std::vector<value>&)> f;
  size_t n = 0;           // parameters, the object included
  std::vector<arg> args;  // those named, the last ones
  std::any operator()(std::vector<value> v, const std::map<std::string, value>& named) const {
    if (v.size() > n) throw type_error("incompatible function arguments");
    size_t used = 0;
    for (size_t i = 0; i < n; i++) {
      const arg* a = i + args.size() >= n ? &args[i + args.size() - n] : nullptr;
      const auto k = a ? named.find(a->name) : named.end();
      if (i < v.size()) {
        if (k != named.end()) throw type_error("argument given twice");
      } else if (k != named.end()) {
        v.push_back(k->second);
        used++;
      } else if (a && a->has) {
        v.push_back(a->def);
      } else {
        throw type_error("incompatible function arguments");
      }
    }
    if (used != named.size()) throw type_error("unknown keyword argument");
    return f(v);
  }
};
inline void options(caller&) {}
template <class X, class... Y> void options(caller& c, const X& x, const Y&... y) {
  if constexpr (std::is_same_v<X, arg>) c.args.push_back(x);
  options(c, y...);
}
template <class... X> caller with(caller c, const X&... x) { options(c, x...); return c; }
template <class R, class... A, class F, size_t... I>
caller wrap(F f, std::index_sequence<I...>) {
  caller made;
  made.n = sizeof...(A);
  made.f = [f](const std::vector<value>& v) -> std::any {
    if (v.size() != sizeof...(A)) throw type_error("incompatible function arguments");
    std::tuple<loader<A>...> l;
    (void)l;
    if constexpr (std::is_void_v<R>) { f(static_cast<A>(std::get<I>(l).get(v[I]))...); return {}; }
    else return keep(f(static_cast<A>(std::get<I>(l).get(v[I]))...));
  };
  return made;
}
template <class R, class... A, class F> caller make(F f) { return wrap<R, A...>(f, std::index_sequence_for<A...>{}); }
template <class R, class... A> caller from(R (*f)(A...)) { return make<R, A...>(f); }
template <class R, class C, class... A> caller from(R (C::*f)(A...)) { return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); }
template <class R, class C, class... A> caller from(R (C::*f)(A...) const) { return make<R, C&, A...>([f](C& c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); }); }
template <class L, class R, class... A> caller from_op(L l, R (L::*)(A...) const) { return make<R, A...>(l); }
template <class L, class = decltype(&L::operator())> caller from(L l) { return from_op(l, &L::operator()); }
}  // namespace detail

struct table {
  std::string doc;
  // "f" or "Class.f" -> overloads, in order
  std::map<std::string, std::vector<detail::caller>> defs;
  std::map<std::string, std::any> attrs;
  std::any call(const std::string& name, const std::vector<value>& v, const std::map<std::string, value>& named = {}) const {
    auto i = defs.find(name);
    if (i == defs.end()) throw type_error("no attribute " + name);
    for (const auto& c : i->second) {
      try { return c(v, named); } catch (const type_error&) {}
    }
    throw type_error(name + "(): incompatible function arguments");
  }
};

struct attr_proxy {
  table* t; std::string n;
  template <class X> void operator=(X&& x) { t->attrs[n] = detail::keep(std::forward<X>(x)); }
};
class module_ {
 public:
  explicit module_(table* t) : t_(t) {}
  struct D { table* t; D& operator=(const std::string& s) { t->doc = s; return *this; } };
  D doc() { return D{t_}; }
  template <class F, class... X> module_& def(const char* name, F f, const X&... x) { t_->defs[name].push_back(detail::with(detail::from(f), x...)); return *this; }
  attr_proxy attr(const char* n) { return {t_, n}; }
  table* t_;
};
using module = module_;

template <class... A> struct ctor {};
template <class F> struct factory { F f; };
template <class... A> ctor<A...> init() { return {}; }
template <class F> factory<F> init(F f) { return {f}; }
namespace detail {
template <class T> std::shared_ptr<T> hold(std::shared_ptr<T> p) { return p; }
template <class T> std::shared_ptr<T> hold(std::unique_ptr<T> p) { return p; }
template <class T> std::shared_ptr<T> hold(T* p) { return std::shared_ptr<T>(p); }
template <class T> std::shared_ptr<T> hold(T v) { return std::make_shared<T>(std::move(v)); }
template <class T, class L, class R, class... A> caller from_factory(L l, R (L::*)(A...) const) {
  return make<std::shared_ptr<T>, A...>([l](A... a) -> std::shared_ptr<T> { return hold<T>(l(std::forward<A>(a)...)); });
}
}  // namespace detail
struct gil_scoped_release {};
struct gil_scoped_acquire {};
template <class T> struct call_guard {};

template <class T, class... H> class class_ {
 public:
  class_(module_& m, const char* name) : t_(m.t_), n_(name) {}
  template <class F, class... X> class_& def(factory<F> f, const X&... x) {
    t_->defs[n_].push_back(detail::with(detail::from_factory<T>(f.f, &F::operator()), x...));
    return *this;
  }
  template <class... A, class... X> class_& def(ctor<A...>, const X&... x) {
    t_->defs[n_].push_back(detail::with(detail::make<std::shared_ptr<T>, A...>([](A... a) { return std::make_shared<T>(std::forward<A>(a)...); }), x...));
    return *this;
  }
  template <class F, class... X> class_& def(const char* name, F f, const X&... x) { t_->defs[n_ + "." + name].push_back(detail::with(detail::from(f), x...)); return *this; }
 private:
  table* t_;
  std::string n_;
};

template <class... A> struct overload_cast_impl {
  template <class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
  template <class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
template <class... A> constexpr overload_cast_impl<A...> overload_cast{};
static constexpr std::true_type const_{};

namespace google { inline void ImportStatusModule() {} }
}  // namespace pybind11
namespace pybind11_protobuf { inline void ImportNativeProtoCasters() {} }

// m.doc() = "..." assigns to a temporary holding the table.
#define PYBIND11_MODULE(name, m) void pybind11_init_##name(pybind11::module_& m)
#endif
