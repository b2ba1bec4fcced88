// C01, C10: whole comparisons against the reference model.
#include <cstring>

#include "prod.h"
#include "sig.h"

namespace mon {
using ref::Config;
using ref::Obs;

static void Check(Ctx& c, const ref::Vec& r, const ref::Vec& d, size_t rate, Config g, const std::string& what) {
  Note(what);
  const Obs o = prod::RunFresh(g, r, d, rate);
  Obs base;
  if (!g.no_realign) {
    Config b = g;
    b.no_realign = true;
    base = prod::RunFresh(b, r, d, rate);
  }
  const ref::Outcome x = ref::CheckRun(r, d, rate, g, o, &base);
  Stat("patches", x.patches);
  Stat("patches dropped", x.dropped);
  Stat("patches realigned", x.realigned);
  Stat("patches moved", x.moved);
  Stat(o.ok ? "results" : "errors");
  if (!x.inconclusive.empty()) Inconclusive(x.inconclusive);
  if (!x.key.empty()) {
    Viol("model:" + x.key, what + ": " + x.detail + "; got " + prod::Brief(o));
    return;
  }
  if (o.ok) Cover(Fmt("%s %.9g %zu %zu", g.Str().c_str(), o.vnsim, o.patches.size(), rate));
  Sample(what + " -> " + prod::Brief(o));
}

static void Random(Ctx& c) {
  Rng& r = c.rng;
  Config g = prod::RandomConfig(c);
  const bool realign = c.mode == "realign";
  if (realign) g.no_realign = false;
  size_t rate = sig::Rate(r);
  if (r.chance(0.03)) rate = 16000;
  double secs = (g.speech ? 0.7 : 1.0) + (r.chance(0.75) ? r.uni(0, 2.2) : r.uni(-0.3, 0.3));
  if (realign) secs += 0.5;
  if (r.chance(0.08)) secs += r.uni(2, 5);
  if (r.chance(0.015)) { rate = r.chance(0.5) ? 48000 : 44100; secs = (g.speech ? 0.7 : 1.0) + r.uni(0, 0.2); }
  if (c.index % 41 == 7) {  // a minute or more, hundreds of patches
    rate = r.pick(std::vector<size_t>{500, 1000, 1000, 1600});
    secs = r.uni(12, c.thorough ? 240 : 50);
    g.radius = static_cast<int>(r.range(0, 3));
    Stat("long signals");
  } else if (c.index % 149 == 11) {
    rate = r.pick(std::vector<size_t>{88200, 96000, 192000});
    secs = (g.speech ? 0.7 : 1.0) + r.uni(0, 0.2);
    Stat("rates above 48 kHz");
  }
  // the match lies further away than the usual window reaches
  const bool distant = !realign && c.index % 59 == 17;
  if (distant) {
    rate = r.pick(std::vector<size_t>{200, 250, 400, 500});
    g.no_align = true;
    g.radius = static_cast<int>(r.range(62, 140));
    secs = (g.speech ? 0.7 : 1.0) + r.uni(0.3, 2.2);
  }
  std::string a, b;
  ref::Vec x = sig::Gen(r, static_cast<size_t>(secs * rate), rate, &a);
  if (r.chance(0.12)) {  // beyond full scale, as 16-bit integers are
    const double k = std::pow(10, r.uni(0, 4.6));
    for (double& v : x) v *= k;
    a += Fmt(" x%.3g", k);
  }
  ref::Vec y = sig::Degrade(r, x, rate, &b);
  if (realign && r.chance(0.6)) {
    // each stretch of the signal has its own small offset
    y.clear();
    const size_t n = x.size();
    for (size_t i = 0; i < n;) {
      const size_t l = static_cast<size_t>(rate * r.uni(0.3, 1.0)) + 1;
      const int64_t j = r.range(-(int64_t)rate / 12, rate / 12);
      for (size_t k = 0; k < l && i < n; k++, i++) {
        const int64_t q = static_cast<int64_t>(i) + j;
        y.push_back((q >= 0 && q < static_cast<int64_t>(n) ? x[q] : 0) + 1e-3 * r.gauss());
      }
    }
    b = "offsets";
    if (r.chance(0.3)) { y.resize(std::max<size_t>(1, n - r.range(0, n / 4))); b += " truncated"; }
  }
  if (distant) {
    const size_t lead = static_cast<size_t>(0.02 * rate * (g.speech ? 20 : 30) * r.uni(58, g.radius));
    const double l = r.chance(0.5) ? 0 : 0.05 * r.uni(0, 1);
    ref::Vec z(lead);
    for (double& v : z) v = l * r.gauss();
    const bool late_ref = r.chance(0.35);
    ref::Vec& t = late_ref ? x : y;
    z.insert(z.end(), t.begin(), t.end());
    t = z;
    b += Fmt(" %s %zu samples later", late_ref ? "reference" : "degraded", lead);
    Stat("distant matches");
  }
  Check(c, x, y, rate, g, Fmt("%s rate=%zu n=%zu/%zu %s -> %s", g.Str().c_str(), rate, x.size(), y.size(), a.c_str(), b.c_str()));
}

// The published scores of conformance version 320 (recordings of the repository).
struct Conf { const char *ref, *deg; int mode; double want; };
static const Conf kConf[] = {
    {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 1, 3.31292},
    {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 2, 3.37451},
    {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 3, 2.71031},
    {"clean_speech/CA01_01.wav", "clean_speech/CA01_01.wav", 1, 4.50555},
    {"clean_speech/CA01_01.wav", "clean_speech/CA01_01.wav", 3, 4.01586},
    {"clean_speech/CA01_01.wav", "clean_speech/CA01_01.wav", 2, 5.0},
    {"clean_speech/CA01_01.wav", "clean_speech/transcoded_CA01_01.wav", 0, 1.76584},
    {"conformance_testdata_subset/guitar48_stereo.wav", "short_duration/5_second/guitar48_stereo_5_sec.wav", 0, 4.31451},
    {"short_duration/5_second/guitar48_stereo_5_sec.wav", "conformance_testdata_subset/guitar48_stereo.wav", 0, 4.55079},
    {"conformance_testdata_subset/contrabassoon48_stereo.wav", "conformance_testdata_subset/contrabassoon48_stereo_24kbps_aac.wav", 0, 2.34687},
    {"conformance_testdata_subset/strauss48_stereo.wav", "conformance_testdata_subset/strauss48_stereo_lp35.wav", 0, 1.38888},
    {"conformance_testdata_subset/steely48_stereo.wav", "conformance_testdata_subset/steely48_stereo_lp7.wav", 0, 2.25017},
    {"conformance_testdata_subset/sopr48_stereo.wav", "conformance_testdata_subset/sopr48_stereo_256kbps_aac.wav", 0, 4.68229},
    {"conformance_testdata_subset/ravel48_stereo.wav", "conformance_testdata_subset/ravel48_stereo_128kbps_opus.wav", 0, 4.46514},
    {"conformance_testdata_subset/moonlight48_stereo.wav", "conformance_testdata_subset/moonlight48_stereo_128kbps_aac.wav", 0, 4.68429},
    {"conformance_testdata_subset/harpsichord48_stereo.wav", "conformance_testdata_subset/harpsichord48_stereo_96kbps_mp3.wav", 0, 4.22375},
    {"conformance_testdata_subset/guitar48_stereo.wav", "conformance_testdata_subset/guitar48_stereo_64kbps_aac.wav", 0, 4.34972},
    {"conformance_testdata_subset/glock48_stereo.wav", "conformance_testdata_subset/glock48_stereo_48kbps_aac.wav", 0, 4.33245},
    {"conformance_testdata_subset/castanets48_stereo.wav", "conformance_testdata_subset/castanets48_stereo.wav", 0, 4.73210},
    {"conformance_testdata_subset/guitar48_stereo.wav", "mismatched_duration/guitar48_stereo_middle_2sec_cut.wav", 0, 4.23840},
    {"conformance_testdata_subset/guitar48_stereo.wav", "mismatched_duration/guitar48_stereo_middle_50ms_cut.wav", 0, 4.65856},
};

static void Conformance(Ctx& c) {
  const Conf& k = kConf[c.index % (sizeof kConf / sizeof *kConf)];
  Config g;
  g.speech = k.mode > 0;
  g.lattice = k.mode == 1;
  g.unscaled = k.mode == 3;
  prod::SetModel(c, &g);
  const std::string what = Fmt("%s vs %s, %s", k.ref, k.deg, g.Str().c_str());
  Note(what);
  Visqol::VisqolManager m;
  absl::Status s = prod::Init(m, g);
  if (!s.ok()) { Viol("conformance:init", what + ": " + s.ToString()); return; }
  auto res = m.Run(Visqol::FilePath(c.repo + "/testdata/" + k.ref), Visqol::FilePath(c.repo + "/testdata/" + k.deg));
  Stat("recordings compared");
  if (!res.ok()) { Viol("conformance:status", what + ": " + res.status().ToString()); return; }
  const Obs o = prod::FromMsg(res.value());
  if (!Close(o.moslqo, k.want, 1e-4)) Viol("conformance:score", what + Fmt(": %.6f, published %.5f", o.moslqo, k.want));
  Cover(what);
  Sample(what + " -> " + prod::Brief(o));
}

void RunCase(Ctx& c) {
  if (c.mode == "conformance") Conformance(c);
  else Random(c);
}
}  // namespace mon
