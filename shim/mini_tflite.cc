#include "tensorflow/lite/mini_tflite.h"

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <mutex>
#include <sstream>

// Defined by the monitor that checks how the libraries are used (see mon_contract.cc).
extern "C" void verif_contract(const char* what) __attribute__((weak));
extern "C" void verif_event(const char* what) __attribute__((weak));
namespace {
// Who needs whom; kept for that monitor only, for the lock would order threads.
struct Uses {
  std::mutex m;
  std::map<const void*, const void*> model, delegate;  // by interpreter
  std::map<const void*, int> models, delegates;        // alive
};
Uses& uses() {
  static Uses* u = new Uses;
  return *u;
}
void Broken(const std::string& what) { verif_contract(("TensorFlow Lite: " + what).c_str()); }
}  // namespace
extern "C" void verif_tflite_held(size_t* interpreters, size_t* models, size_t* delegates) {
  std::lock_guard<std::mutex> l(uses().m);
  *interpreters = uses().model.size();
  *models = uses().models.size();
  *delegates = uses().delegates.size();
}

namespace tflite {
namespace mini {

struct Val {
  std::vector<int> shape;
  std::vector<float> v;  // ints and bools are held as floats (all are small)
  bool set = false;
};
struct Op {
  int code;
  std::vector<int> in, out;
  int a0 = 0, a1 = 0;  // options, by op
  int fused = 0;
};
struct Graph {
  std::vector<Val> consts;  // by tensor index; set only for constants
  std::vector<Op> ops;
  std::map<std::string, int> inputs, outputs;
  std::string key;
};

namespace {
struct Buf {
  std::string d;
  uint32_t u32(size_t o) const {
    uint32_t x;
    if (o + 4 > d.size()) throw std::string("truncated model");
    std::memcpy(&x, d.data() + o, 4);
    return x;
  }
  int32_t i32(size_t o) const { return (int32_t)u32(o); }
  uint16_t u16(size_t o) const {
    uint16_t x;
    if (o + 2 > d.size()) throw std::string("truncated model");
    std::memcpy(&x, d.data() + o, 2);
    return x;
  }
};
struct Tab {
  const Buf* b;
  size_t o;
  size_t f(int i) const {
    size_t vt = o - b->i32(o);
    int n = (b->u16(vt) - 4) / 2;
    if (i >= n) return 0;
    int x = b->u16(vt + 4 + 2 * i);
    return x ? o + x : 0;
  }
  Tab tab(int i) const {
    size_t p = f(i);
    return Tab{b, p ? p + b->u32(p) : 0};
  }
  bool vec(int i, size_t* at, size_t* n) const {
    size_t p = f(i);
    *at = *n = 0;
    if (!p) return false;
    size_t v = p + b->u32(p);
    *n = b->u32(v);
    *at = v + 4;
    return true;
  }
  std::vector<Tab> tabs(int i) const {
    size_t at, n;
    vec(i, &at, &n);
    std::vector<Tab> r;
    for (size_t k = 0; k < n; k++)
      r.push_back(Tab{b, at + 4 * k + b->u32(at + 4 * k)});
    return r;
  }
  std::vector<int> ints(int i) const {
    size_t at, n;
    vec(i, &at, &n);
    std::vector<int> r;
    for (size_t k = 0; k < n; k++) r.push_back(b->i32(at + 4 * k));
    return r;
  }
  std::string str(int i) const {
    size_t at, n;
    if (!vec(i, &at, &n)) return "";
    return b->d.substr(at, n);
  }
  int byte(int i) const {
    size_t p = f(i);
    return p ? (int)(signed char)b->d[p] : 0;
  }
  int num(int i) const {
    size_t p = f(i);
    return p ? b->i32(p) : 0;
  }
};
int Size(const std::vector<int>& s) {
  int n = 1;
  for (int x : s) n *= x;
  return n;
}
float Act(float x, int a) {
  switch (a) {
    case 0: return x;
    case 1: return x > 0 ? x : 0;
    case 3: return std::min(6.f, std::max(0.f, x));
    default: throw std::string("activation");
  }
}
template <typename F>
Val Broadcast(const Val& a, const Val& b, F fn) {
  size_t r = std::max(a.shape.size(), b.shape.size());
  Val o;
  o.shape.assign(r, 1);
  std::vector<int> sa(r, 1), sb(r, 1);
  std::copy(a.shape.begin(), a.shape.end(), sa.begin() + (r - a.shape.size()));
  std::copy(b.shape.begin(), b.shape.end(), sb.begin() + (r - b.shape.size()));
  for (size_t i = 0; i < r; i++) {
    if (sa[i] != sb[i] && sa[i] != 1 && sb[i] != 1)
      throw std::string("broadcast");
    o.shape[i] = sa[i] == 1 ? sb[i] : sa[i];
  }
  int n = Size(o.shape);
  o.v.resize(n);
  for (int k = 0; k < n; k++) {
    int rem = k, ia = 0, ib = 0, ma = 1, mb = 1;
    for (int i = (int)r - 1; i >= 0; i--) {
      int c = rem % o.shape[i];
      rem /= o.shape[i];
      if (sa[i] != 1) ia += c * ma;
      if (sb[i] != 1) ib += c * mb;
      ma *= sa[i];
      mb *= sb[i];
    }
    o.v[k] = fn(a.v[ia], b.v[ib]);
  }
  return o;
}
void Exec(const Op& op, std::vector<Val>* t, const std::vector<Val>& c) {
  auto in = [&](int i) -> const Val& {
    int x = op.in[i];
    const Val& v = c[x].set ? c[x] : (*t)[x];
    if (!v.set) throw std::string("unset tensor");
    return v;
  };
  auto put = [&](int i, Val v) {
    v.set = true;
    if ((int)v.v.size() != Size(v.shape)) throw std::string("size");
    (*t)[op.out[i]] = std::move(v);
  };
  int fu = op.fused;
  switch (op.code) {
    case 0:
      put(0, Broadcast(in(0), in(1), [fu](float x, float y) { return Act(x + y, fu); }));
      break;
    case 18:
      put(0, Broadcast(in(0), in(1), [fu](float x, float y) { return Act(x * y, fu); }));
      break;
    case 41:
      put(0, Broadcast(in(0), in(1), [fu](float x, float y) { return Act(x - y, fu); }));
      break;
    case 57:
      put(0, Broadcast(in(0), in(1), [](float x, float y) { return x < y ? x : y; }));
      break;
    case 71:
      put(0, Broadcast(in(0), in(1), [](float x, float y) { return x == y ? 1.f : 0.f; }));
      break;
    case 53: put(0, in(0)); break;
    case 101: {
      Val o = in(0);
      for (float& x : o.v) x = std::fabs(x);
      put(0, o);
      break;
    }
    case 19: {
      Val o = in(0);
      for (float& x : o.v) x = x > 0 ? x : 0;
      put(0, o);
      break;
    }
    case 77: {
      Val o;
      for (int s : in(0).shape) o.v.push_back((float)s);
      o.shape = {(int)o.v.size()};
      put(0, o);
      break;
    }
    case 94: {
      Val o;
      for (float s : in(0).v) o.shape.push_back((int)s);
      o.v.assign(Size(o.shape), in(1).v[0]);
      put(0, o);
      break;
    }
    case 70: {
      Val o = in(0);
      int ax = (int)in(1).v[0];
      if (ax < 0) ax += (int)o.shape.size() + 1;
      o.shape.insert(o.shape.begin() + ax, 1);
      put(0, o);
      break;
    }
    case 22: {
      Val o = in(0);
      std::vector<int> s;
      for (float x : in(1).v) s.push_back((int)x);
      int known = 1, at = -1;
      for (size_t i = 0; i < s.size(); i++)
        if (s[i] == -1) at = (int)i; else known *= s[i];
      if (at >= 0) s[at] = (int)o.v.size() / known;
      o.shape = s;
      put(0, o);
      break;
    }
    case 2: {
      Val o;
      o.shape = in(0).shape;
      int ax = op.a0 < 0 ? op.a0 + (int)o.shape.size() : op.a0;
      int outer = 1, inner = 1, total = 0;
      for (int i = 0; i < ax; i++) outer *= o.shape[i];
      for (size_t i = ax + 1; i < o.shape.size(); i++) inner *= o.shape[i];
      for (size_t i = 0; i < op.in.size(); i++) total += in(i).shape[ax];
      o.shape[ax] = total;
      for (int u = 0; u < outer; u++)
        for (size_t i = 0; i < op.in.size(); i++) {
          const Val& x = in(i);
          int n = x.shape[ax] * inner;
          for (int k = 0; k < n; k++) o.v.push_back(Act(x.v[u * n + k], fu));
        }
      put(0, o);
      break;
    }
    case 49: {
      const Val x = in(1);
      int ax = (int)in(0).v[0];
      if (ax < 0) ax += (int)x.shape.size();
      int outer = 1, inner = 1, n = (int)op.out.size();
      for (int i = 0; i < ax; i++) outer *= x.shape[i];
      for (size_t i = ax + 1; i < x.shape.size(); i++) inner *= x.shape[i];
      int each = x.shape[ax] / n;
      for (int j = 0; j < n; j++) {
        Val o;
        o.shape = x.shape;
        o.shape[ax] = each;
        for (int u = 0; u < outer; u++)
          for (int k = 0; k < each * inner; k++)
            o.v.push_back(x.v[(u * x.shape[ax] + j * each) * inner + k]);
        put(j, o);
      }
      break;
    }
    case 9: {
      const Val &x = in(0), &w = in(1);
      int n = w.shape[0], m = w.shape[1], b = (int)x.v.size() / m;
      Val o;
      o.shape = {b, n};
      if (op.a1) {
        o.shape = x.shape;
        o.shape.back() = n;
      }
      for (int i = 0; i < b; i++)
        for (int j = 0; j < n; j++) {
          float s = 0;
          for (int k = 0; k < m; k++) s += x.v[i * m + k] * w.v[j * m + k];
          if (op.in.size() > 2 && op.in[2] >= 0) s += in(2).v[j];
          o.v.push_back(Act(s, fu));
        }
      put(0, o);
      break;
    }
    case 126: {
      const Val &x = in(0), &y = in(1);
      size_t r = std::max(x.shape.size(), y.shape.size());
      std::vector<int> sx(r, 1), sy(r, 1);
      std::copy(x.shape.begin(), x.shape.end(), sx.begin() + (r - x.shape.size()));
      std::copy(y.shape.begin(), y.shape.end(), sy.begin() + (r - y.shape.size()));
      int rx = sx[r - 2], cx = sx[r - 1], ry = sy[r - 2], cy = sy[r - 1];
      int m = op.a0 ? cx : rx, k = op.a0 ? rx : cx, n = op.a1 ? ry : cy;
      if (k != (op.a1 ? cy : ry)) throw std::string("matmul");
      Val o;
      int batch = 1;
      for (size_t i = 0; i + 2 < r; i++) {
        o.shape.push_back(std::max(sx[i], sy[i]));
        batch *= o.shape.back();
      }
      o.shape.push_back(m);
      o.shape.push_back(n);
      for (int q = 0; q < batch; q++) {
        int rem = q, qx = 0, qy = 0, mx = 1, my = 1;
        for (int i = (int)r - 3; i >= 0; i--) {
          int cc = rem % o.shape[i];
          rem /= o.shape[i];
          if (sx[i] != 1) qx += cc * mx;
          if (sy[i] != 1) qy += cc * my;
          mx *= sx[i];
          my *= sy[i];
        }
        const float* X = &x.v[(size_t)qx * rx * cx];
        const float* Y = &y.v[(size_t)qy * ry * cy];
        for (int i = 0; i < m; i++)
          for (int j = 0; j < n; j++) {
            float s = 0;
            for (int l = 0; l < k; l++)
              s += (op.a0 ? X[l * cx + i] : X[i * cx + l]) *
                   (op.a1 ? Y[j * cy + l] : Y[l * cy + j]);
            o.v.push_back(s);
          }
      }
      put(0, o);
      break;
    }
    default: throw std::string("op");
  }
}
}  // namespace

static std::shared_ptr<const Graph> Parse(const Buf& b) {
  if (b.d.size() < 8 || b.d.compare(4, 4, "TFL3") != 0) return nullptr;
  auto g = std::make_shared<Graph>();
  Tab m{&b, b.u32(0)};
  std::vector<int> codes;
  for (Tab t : m.tabs(1)) codes.push_back(std::max(t.byte(0), t.num(3)));
  Tab sg = m.tabs(2).at(0);
  std::vector<Tab> bufs = m.tabs(4);
  for (Tab t : sg.tabs(0)) {
    Val v;
    v.shape = t.ints(0);
    int type = t.byte(1);
    size_t at, n;
    if (bufs.at(t.num(2)).vec(0, &at, &n) && n) {
      v.set = true;
      for (int i = 0; i < Size(v.shape); i++) {
        if (type == 0) {
          float f;
          std::memcpy(&f, b.d.data() + at + 4 * i, 4);
          v.v.push_back(f);
        } else if (type == 2) {
          v.v.push_back((float)b.i32(at + 4 * i));
        } else if (type == 6) {
          v.v.push_back(b.d[at + i] ? 1.f : 0.f);
        } else {
          throw std::string("type");
        }
      }
    }
    g->consts.push_back(v);
  }
  for (Tab t : sg.tabs(3)) {
    Op o;
    o.code = codes.at(t.num(0));
    o.in = t.ints(1);
    o.out = t.ints(2);
    Tab opt = t.tab(4);
    if (opt.o) {
      if (o.code == 0 || o.code == 18 || o.code == 41) o.fused = opt.byte(0);
      if (o.code == 2) { o.a0 = opt.num(0); o.fused = opt.byte(1); }
      if (o.code == 9) { o.fused = opt.byte(0); o.a1 = opt.byte(2); }
      if (o.code == 126) { o.a0 = opt.byte(0); o.a1 = opt.byte(1); }
    }
    g->ops.push_back(o);
  }
  Tab sd = m.tabs(7).at(0);
  g->key = sd.str(2);
  for (Tab t : sd.tabs(0)) g->inputs[t.str(0)] = t.num(1);
  for (Tab t : sd.tabs(1)) g->outputs[t.str(0)] = t.num(1);
  return g;
}

std::shared_ptr<const Graph> Load(const std::string& path) {
  static std::mutex m;
  static std::map<std::string, std::shared_ptr<const Graph>> cache;
  std::ifstream f(path, std::ios::binary);
  if (!f) return nullptr;
  std::stringstream ss;
  ss << f.rdbuf();
  Buf b;
  b.d = ss.str();
  std::lock_guard<std::mutex> l(m);
  auto it = cache.find(b.d);
  if (it != cache.end()) return it->second;
  std::shared_ptr<const Graph> g;
  try {
    g = Parse(b);
  } catch (...) {
    g = nullptr;
  }
  cache[b.d] = g;
  return g;
}

bool Run(const Graph& g, const std::map<std::string, float>& feed,
         const std::string& output, float* out) {
  try {
    std::vector<Val> t(g.consts.size());
    for (auto& kv : g.inputs) {
      Val& v = t[kv.second];
      v.shape = {1};
      v.v = {feed.at(kv.first)};
      v.set = true;
    }
    for (const Op& o : g.ops) Exec(o, &t, g.consts);
    *out = t[g.outputs.at(output)].v.at(0);
    return true;
  } catch (const std::string& s) {
    std::fprintf(stderr, "mini_tflite: %s\n", s.c_str());
    return false;
  } catch (const std::exception& e) {
    std::fprintf(stderr, "mini_tflite: %s\n", e.what());
    return false;
  }
}
}  // namespace mini

std::unique_ptr<FlatBufferModel> FlatBufferModel::BuildFromFile(
    const char* filename) {
  auto g = mini::Load(filename);
  if (!g) return nullptr;
  auto m = std::make_unique<FlatBufferModel>();
  m->graph = g;
  if (verif_contract) {
    verif_event("lattice models loaded");
    std::lock_guard<std::mutex> l(uses().m);
    uses().models[m.get()] = 1;
  }
  return m;
}
FlatBufferModel::~FlatBufferModel() {
  if (!verif_contract) return;
  bool used = false;
  {
    std::lock_guard<std::mutex> l(uses().m);
    uses().models.erase(this);
    for (auto& kv : uses().model) used |= kv.second == this;
  }
  if (used) Broken("a model destroyed before its interpreter");
}
Interpreter::~Interpreter() {
  if (!verif_contract) return;
  std::lock_guard<std::mutex> l(uses().m);
  uses().model.erase(this);
  uses().delegate.erase(this);
}
TfLiteStatus Interpreter::ModifyGraphWithDelegate(TfLiteDelegate* d) {
  if (verif_contract) {
    bool gone;
    {
      std::lock_guard<std::mutex> l(uses().m);
      gone = !uses().delegates.count(d);
      uses().delegate[this] = d;
    }
    if (gone) Broken("a delegate that does not exist");
  }
  return kTfLiteOk;
}
Interpreter::Interpreter(std::shared_ptr<const mini::Graph> g, const FlatBufferModel* model) {
  runner_.graph_ = g;
  if (verif_contract) {
    bool gone;
    {
      std::lock_guard<std::mutex> l(uses().m);
      uses().model[this] = model;
      gone = !uses().models.count(model);
    }
    if (gone) Broken("an interpreter for a model that is gone");
  }
  auto add = [](const std::string& n,
                std::map<std::string, std::unique_ptr<SignatureRunner::Slot>>* m) {
    auto s = std::make_unique<SignatureRunner::Slot>();
    // An input the caller never fills in poisons the prediction.
    s->v = std::numeric_limits<float>::quiet_NaN();
    s->t = TfLiteTensor();
    s->t.type = kTfLiteFloat32;
    s->t.data.f = &s->v;
    s->t.bytes = 4;
    (*m)[n] = std::move(s);
  };
  for (auto& kv : g->inputs) add(kv.first, &runner_.in_);
  for (auto& kv : g->outputs) add(kv.first, &runner_.out_);
  for (auto& kv : runner_.in_) kv.second->t.name = kv.first.c_str();
}
SignatureRunner* Interpreter::GetSignatureRunner(const char* key) {
  if (verif_contract && !allocated_) Broken("a prediction asked for before tensors are allocated");
  return allocated_ && runner_.graph_->key == key ? &runner_ : nullptr;
}
std::vector<const char*> SignatureRunner::input_names() {
  std::vector<const char*> r;
  for (auto& kv : in_) r.push_back(kv.first.c_str());
  return r;
}
TfLiteTensor* SignatureRunner::input_tensor(const char* name) {
  auto it = in_.find(name);
  return it == in_.end() ? nullptr : &it->second->t;
}
const TfLiteTensor* SignatureRunner::output_tensor(const char* name) const {
  auto it = out_.find(name);
  return it == out_.end() ? nullptr : &it->second->t;
}
TfLiteStatus SignatureRunner::Invoke() {
  if (verif_event) verif_event("lattice predictions");
  std::map<std::string, float> feed;
  for (auto& kv : in_) feed[kv.first] = kv.second->v;
  for (auto& kv : out_)
    if (!mini::Run(*graph_, feed, kv.first, &kv.second->v)) return kTfLiteError;
  return kTfLiteOk;
}
TfLiteStatus InterpreterBuilder::operator()(std::unique_ptr<Interpreter>* out) {
  *out = std::make_unique<Interpreter>(graph_, model_);
  return kTfLiteOk;
}
}  // namespace tflite

TfLiteXNNPackDelegateOptions TfLiteXNNPackDelegateOptionsDefault() {
  return TfLiteXNNPackDelegateOptions{1, 0};
}
TfLiteDelegate* TfLiteXNNPackDelegateCreate(const TfLiteXNNPackDelegateOptions*) {
  TfLiteDelegate* d = new TfLiteDelegate{0};
  if (verif_contract) {
    std::lock_guard<std::mutex> l(uses().m);
    uses().delegates[d] = 1;
  }
  return d;
}
void TfLiteXNNPackDelegateDelete(TfLiteDelegate* d) {
  if (verif_contract && d) {
    bool used = false, known;
    {
      std::lock_guard<std::mutex> l(uses().m);
      known = uses().delegates.erase(d);
      for (auto& kv : uses().delegate) used |= kv.second == d;
    }
    if (!known) {
      Broken("a delegate destroyed that does not exist");
      return;
    }
    if (used) Broken("a delegate destroyed before its interpreter");
  }
  delete d;
}
