#include "prod.h"

#include <string.h>

namespace prod {
using mon::Fmt;
Visqol::AudioSignal Signal(const Vec& v, size_t rate) {
  Visqol::AudioSignal s;
  if (!v.empty()) s.data_matrix = Visqol::AMatrix<double>(v);
  s.sample_rate = rate;
  return s;
}
Vec Samples(const Visqol::AudioSignal& s) {
  Vec v;
  for (size_t i = 0; i < s.data_matrix.NumRows(); i++) v.push_back(s.data_matrix(i, 0));
  return v;
}
Visqol::AMatrix<double> ToA(const ref::Mat& m) {
  Visqol::AMatrix<double> a(m.r, m.c);
  for (size_t j = 0; j < m.c; j++)
    for (size_t i = 0; i < m.r; i++) a(i, j) = m(i, j);
  return a;
}
ref::Mat FromA(const Visqol::AMatrix<double>& m) {
  ref::Mat o(m.NumRows(), m.NumCols());
  for (size_t j = 0; j < o.c; j++)
    for (size_t i = 0; i < o.r; i++) o(i, j) = m(i, j);
  return o;
}
std::string AudioModel(const mon::Ctx& c) { return c.repo + "/model/libsvm_nu_svr_model.txt"; }
std::string LatticeModel(const mon::Ctx& c) {
  return c.repo + "/model/lattice_tcditugenmeetpackhref_ls2_nl60_lr12_bs2048_learn.005_ep2400"
                  "_train1_7_raw.tflite";
}
void SetModel(const mon::Ctx& c, ref::Config* cfg) {
  cfg->model = cfg->speech && cfg->lattice ? LatticeModel(c) : AudioModel(c);
}
ref::Config RandomConfig(mon::Ctx& c) {
  ref::Config g;
  g.speech = c.rng.chance(0.5);
  g.lattice = c.rng.chance(0.5);
  g.unscaled = c.rng.chance(0.3);
  g.no_align = c.rng.chance(0.2);
  g.no_realign = c.rng.chance(0.25);
  const double u = c.rng.uni();
  g.radius = u < 0.4 ? 60 : u < 0.5 ? 0 : u < 0.8 ? c.rng.range(1, 3) : c.rng.range(1, 200);
  SetModel(c, &g);
  return g;
}
template <class R>
static Vec Rep(const R& r) { return Vec(r.begin(), r.end()); }
ref::Obs FromMsg(const Visqol::SimilarityResultMsg& m) {
  ref::Obs o;
  o.ok = true;
  o.moslqo = m.moslqo(); o.vnsim = m.vnsim(); o.lag = m.alignment_lag_s();
  o.fvnsim = Rep(m.fvnsim()); o.fvnsim10 = Rep(m.fvnsim10());
  o.fstdnsim = Rep(m.fstdnsim()); o.fvdegenergy = Rep(m.fvdegenergy());
  o.cf = Rep(m.center_freq_bands());
  for (const auto& p : m.patch_sims()) {
    ref::Patch q;
    q.sim = p.similarity();
    q.rs = p.ref_patch_start_time(); q.re = p.ref_patch_end_time();
    q.ds = p.deg_patch_start_time(); q.de = p.deg_patch_end_time();
    q.means = Rep(p.freq_band_means());
    o.patches.push_back(q);
  }
  return o;
}
ref::Obs FromStatus(const absl::Status& s) {
  ref::Obs o;
  o.code = static_cast<int>(s.code());
  o.msg = std::string(s.message());
  return o;
}
absl::Status Init(Visqol::VisqolManager& m, const ref::Config& g) {
  // Both overloads, by a rule that a replayed case follows too.
  if ((static_cast<unsigned>(g.radius) + g.no_align + g.unscaled) & 1)
    return m.Init(absl::string_view(g.model), g.speech, g.unscaled, g.radius, g.lattice, g.no_align, g.no_realign);
  return m.Init(Visqol::FilePath(g.model), g.speech, g.unscaled, g.radius, g.lattice, g.no_align, g.no_realign);
}
ref::Obs Run(Visqol::VisqolManager& m, const Vec& r, const Vec& d, size_t rate) {
  const Visqol::AudioSignal rs = Signal(r, rate);
  Visqol::AudioSignal ds = Signal(d, rate);
  auto s = m.Run(rs, ds);
  mon::Stat("comparisons");
  if (!s.ok()) return FromStatus(s.status());
  return FromMsg(s.value());
}
ref::Obs RunFresh(const ref::Config& g, const Vec& r, const Vec& d, size_t rate) {
  Visqol::VisqolManager m;
  absl::Status s = Init(m, g);
  if (!s.ok()) return FromStatus(s);
  return Run(m, r, d, rate);
}

namespace {
struct Field { const char* n; Vec v; };
std::vector<Field> Flat(const ref::Obs& o) {
  std::vector<Field> f = {{"status", {o.ok ? 1.0 : 0.0, (double)o.code}},
                          {"moslqo", {o.moslqo}}, {"vnsim", {o.vnsim}}, {"lag", {o.lag}},
                          {"fvnsim", o.fvnsim}, {"fvnsim10", o.fvnsim10}, {"fstdnsim", o.fstdnsim},
                          {"fvdegenergy", o.fvdegenergy}, {"center_freq_bands", o.cf}};
  for (const auto& p : o.patches) {
    f.push_back({"patch", {p.sim, p.rs, p.re, p.ds, p.de}});
    f.push_back({"patch.means", p.means});
  }
  return f;
}
}  // namespace

std::string Differs(const ref::Obs& a, const ref::Obs& b) {
  const auto x = Flat(a), y = Flat(b);
  for (size_t i = 0; i < x.size() && i < y.size(); i++) {
    if (x[i].v.size() != y[i].v.size()) return Fmt("%s: %zu vs %zu values", x[i].n, x[i].v.size(), y[i].v.size());
    for (size_t k = 0; k < x[i].v.size(); k++)
      if (memcmp(&x[i].v[k], &y[i].v[k], sizeof(double)))
        return Fmt("%s[%zu]: %.17g vs %.17g", x[i].n, k, x[i].v[k], y[i].v[k]);
  }
  if (x.size() != y.size()) return Fmt("%zu vs %zu patches", a.patches.size(), b.patches.size());
  return "";
}
std::string DiffersBy(const ref::Obs& a, const ref::Obs& b, double tol) {
  const auto x = Flat(a), y = Flat(b);
  for (size_t i = 0; i < x.size() && i < y.size(); i++) {
    if (x[i].v.size() != y[i].v.size()) return Fmt("%s: %zu vs %zu values", x[i].n, x[i].v.size(), y[i].v.size());
    for (size_t k = 0; k < x[i].v.size(); k++)
      if (!mon::Close(x[i].v[k], y[i].v[k], tol, tol))
        return Fmt("%s[%zu]: %.9g vs %.9g", x[i].n, k, x[i].v[k], y[i].v[k]);
  }
  if (x.size() != y.size()) return Fmt("%zu vs %zu patches", a.patches.size(), b.patches.size());
  return "";
}
std::string Brief(const ref::Obs& o) {
  if (!o.ok) return Fmt("error %d (%s)", o.code, o.msg.c_str());
  size_t dropped = 0;
  for (auto& p : o.patches) dropped += p.ds == 0 && p.de == 0;
  return Fmt("moslqo %.6f vnsim %.6f lag %.6f patches %zu dropped %zu", o.moslqo, o.vnsim, o.lag, o.patches.size(), dropped);
}
}  // namespace prod
