// C20, C21: batch files, result files and console output; also prints engine
// results for the checks that run the program itself (tools/cli.py).
#include <sys/stat.h>
#include <unistd.h>

#include <climits>
#include <cmath>
#include <fstream>
#include <iostream>
#include <regex>
#include <sstream>

#include "commandline_parser.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/message_differencer.h"
#include "prod.h"
#include "sim_results_writer.h"

namespace mon {
using Visqol::FilePath;
using Msg = Visqol::SimilarityResultMsg;

static std::string Slurp(const std::string& p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static bool Exists(const std::string& p) { struct stat st; return stat(p.c_str(), &st) == 0; }

// ---------------------------------------------------------------- C20
static std::string Name(Rng& r) {
  static const std::vector<std::string> parts = {"a", "ref", "deg", "x.wav", "speech 1", "..", ".", "file-01", "LONG_NAME_0123456789", "\xc3\xa9t\xc3\xa9", "a;b", "t\tab", "q\"q", "#", "%s", "$HOME", "'", "reference", "degraded", "~"};
  std::string s = r.chance(0.4) ? "/" : "";
  const int n = static_cast<int>(r.range(1, 4));
  for (int i = 0; i < n; i++) s += (i ? "/" : "") + r.pick(parts) + Fmt("%d", static_cast<int>(r.range(0, 99)));
  if (r.chance(0.04)) s = " " + s;
  if (r.chance(0.04)) s += " ";
  if (r.chance(0.02)) s += std::string(3000, 'z');
  return s + (r.chance(0.7) ? ".wav" : "") + (r.chance(0.04) ? " " : "");
}
static void Batch(Ctx& c) {
  Rng& r = c.rng;
  const std::string path = c.scratch + "/batch.csv";
  std::vector<std::pair<std::string, std::string>> want;
  const int style = static_cast<int>(r.range(0, 3));  // LF, CRLF, mixed
  auto eol = [&] { return style == 0 ? "\n" : style == 1 ? "\r\n" : r.chance(0.5) ? "\n" : "\r\n"; };
  std::string text, what;
  static const std::vector<std::string> heads = {"reference,degraded", "", "ref1.wav,deg1.wav", "reference", "a,b,c", ","};
  text = (r.chance(0.6) ? heads[0] : r.pick(heads)) + eol();
  const int lines = r.chance(0.05) ? static_cast<int>(r.range(50, 400)) : c.index % 331 == 7 ? static_cast<int>(r.range(1000, 12000)) : static_cast<int>(r.range(0, 9));
  if (lines > 400) Stat("lists of thousands");
  int odd = 0;
  for (int i = 0; i < lines; i++) {
    const double u = r.uni();
    if (u < 0.05) { odd++; }                                  // blank
    else if (u < 0.10) { text += Name(r); odd++; }            // one file
    else if (u < 0.12) { text += Name(r) + ","; odd++; }      // nothing after the comma
    else {
      std::string a = Name(r), b = Name(r);
      if (!want.empty() && r.chance(0.1)) { a = want.back().first; b = want.back().second; }
      if (r.chance(0.05)) b = a;
      if (r.chance(0.05)) {  // names that look like something else
        static const std::vector<std::string> odd_names = {"reference", "degraded", "Reference", "Degraded", "ref1.wav", "deg1.wav", "#a.wav", "# note", "//x", "-", "--verbose", "0", "1.wav",
                                                           "\"a.wav\"", "reference_file", "moslqo", "a=b", "NULL", "null", "nan", "end", "\t", " ", "*", "?", "file://a.wav", "C:\\a.wav", "\xef\xbb\xbfx", "\x1a", "\x01"};
        a = r.chance(0.4) ? "reference" : r.pick(odd_names);
        b = r.chance(0.5) && a == "reference" ? "degraded" : r.pick(odd_names);
      }
      want.push_back({a, b});
      text += a + "," + b;
    }
    text += eol();
  }
  if (r.chance(0.3) && text.size() && lines) {  // no line end after the last line
    text.pop_back();
    if (text.size() && text.back() == '\r') text.pop_back();
  }
  std::ofstream(path, std::ios::binary) << text;
  const bool both = r.chance(0.4);
  Visqol::CommandLineArgs args{};
  args.batch_input_csv = FilePath(path);
  if (both) { args.reference_signal_path = FilePath(path); args.degraded_signal_path = FilePath(path); }
  const auto got = Visqol::VisqolCommandLineParser::BuildFilePairPaths(args);
  const std::string det = Fmt("batch of %d lines (%zu pairs, %d incomplete), style %d%s: ", lines, want.size(), odd, style, both ? ", single pair given too" : "");
  if (got.size() != want.size()) Viol("number of pairs", det + Fmt("%zu pairs", got.size()));
  else
    for (size_t i = 0; i < want.size(); i++)
      if (got[i].reference.Path() != want[i].first || got[i].degraded.Path() != want[i].second) {
        Viol("wrong pair", det + Fmt("pair %zu is '%.200s' and '%.200s', listed '%.200s' and '%.200s'", i, got[i].reference.Path().c_str(), got[i].degraded.Path().c_str(), want[i].first.c_str(), want[i].second.c_str()));
        break;
      }
  // a single pair
  if (r.chance(0.3)) {
    Visqol::CommandLineArgs args{};
    const std::string a = c.scratch + "/one", b = c.scratch + "/two";
    std::ofstream(a) << "1";
    std::ofstream(b) << "2";
    const int miss = static_cast<int>(r.range(0, 3));
    args.reference_signal_path = FilePath(miss & 1 ? a + "no" : a);
    args.degraded_signal_path = FilePath(miss & 2 ? b + "no" : b);
    const auto one = Visqol::VisqolCommandLineParser::BuildFilePairPaths(args);
    if (miss ? !one.empty() : one.size() != 1 || one[0].reference.Path() != a || one[0].degraded.Path() != b)
      Viol("single pair", Fmt("%d files missing, %zu pairs", miss, one.size()));
  }
  Stat("pairs listed", want.size());
  Stat("incomplete lines", odd);
  Cover(text);
  Sample(det + text.substr(0, 200));
}

// ---------------------------------------------------------------- C21
static double Value(Rng& r) {
  switch (r.range(0, 9)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return r.pick(std::vector<double>{5, 1.0 / 3, 0.1, 4.732101253042348, 0.999999999999, 123456789.123, 0.00001234567891234, 1e-7, 1e20, -0.5});
    case 3: return std::pow(10, r.uni(-12, 12)) * (r.chance(0.3) ? -1 : 1);
    default: return r.uni();
  }
}
static Msg RandomMsg(Rng& r) {
  Msg m;
  const int bands = r.pick(std::vector<int>{21, 32, 32, 21, 1, 2, 40, 0});
  m.set_moslqo(r.chance(0.8) ? r.uni(1, 5) : Value(r));
  m.set_vnsim(Value(r));
  m.set_alignment_lag_s(Value(r));
  for (int i = 0; i < bands; i++) {
    m.add_fvnsim(Value(r)); m.add_fvnsim10(Value(r)); m.add_fstdnsim(Value(r)); m.add_fvdegenergy(Value(r));
    m.add_center_freq_bands(r.chance(0.9) ? 50 + 300.123456 * i : std::fabs(Value(r)));
  }
  const int patches = r.chance(0.05) ? static_cast<int>(r.range(50, 300)) : static_cast<int>(r.range(0, 7));
  for (int i = 0; i < patches; i++) {
    auto* p = m.add_patch_sims();
    p->set_similarity(Value(r));
    p->set_ref_patch_start_time(r.chance(0.9) ? 0.6 * i : Value(r)); p->set_ref_patch_end_time(0.6 * i + 0.57 + Value(r) * 0.01);
    p->set_deg_patch_start_time(Value(r)); p->set_deg_patch_end_time(Value(r));
    for (int k = 0; k < bands; k++) p->add_freq_band_means(Value(r));
  }
  if (r.chance(0.95)) { m.set_reference_filepath(Name(r)); m.set_degraded_filepath(Name(r)); }
  return m;
}
// Splits concatenated objects.
static std::vector<std::string> Objects(const std::string& s) {
  std::vector<std::string> out;
  int depth = 0;
  bool str = false;
  size_t from = 0;
  for (size_t i = 0; i < s.size(); i++) {
    const char ch = s[i];
    if (str) { if (ch == '\\') i++; else if (ch == '"') str = false; continue; }
    if (ch == '"') str = true;
    else if (ch == '{') { if (!depth++) from = i; }
    else if (ch == '}') { if (!--depth) out.push_back(s.substr(from, i - from + 1)); }
  }
  return out;
}
static std::string Row(const Msg& m) {
  std::string s = m.reference_filepath() + "," + m.degraded_filepath();
  auto add = [&](double v) { s += Fmt(",%.9g", v); };
  add(m.moslqo());
  for (double v : m.fvnsim()) add(v);
  for (double v : m.fvnsim10()) add(v);
  for (double v : m.fstdnsim()) add(v);
  for (double v : m.fvdegenergy()) add(v);
  return s + "\n";
}
static std::string Header(const Msg& m) {
  std::string s = "reference,degraded,moslqo";
  for (int i = 0; i < m.fvnsim_size(); i++) s += Fmt(",fvnsim%d", i);
  for (int i = 0; i < m.fvnsim10_size(); i++) s += Fmt(",fvnsim10_%d", i);
  for (int i = 0; i < m.fstdnsim_size(); i++) s += Fmt(",fstdnsim%d", i);
  for (int i = 0; i < m.fvdegenergy_size(); i++) s += Fmt(",fvdegenergy%d", i);
  return s + "\n";
}
// The console output: key, then detail.
static std::string Console(const std::string& out, const Msg& m, bool verbose, bool speech, bool lattice, std::string* det) {
  auto has = [&](const std::string& x) { return out.find(x) != std::string::npos; };
  if (has("Speech mode") != speech || has("Audio mode") == speech) return "mode named";
  if (has("lattice model") != (speech && lattice) || has("exponential model") != (speech && !lattice) || has("support vector regression model") == speech) return "model named";
  std::istringstream in(out);
  std::string l;
  int scores = 0, bands = 0, patches = 0, paths = 0;
  const std::regex num("-?[0-9.]+(?:[eE][-+]?[0-9]+)?");
  while (std::getline(in, l)) {
    if (l.find("MOS-LQO") == 0) {
      scores++;
      std::string v = l.substr(l.rfind('\t') + 1);
      if (v != Fmt("%g", m.moslqo())) { *det = Fmt("'%s' for %.17g", v.c_str(), m.moslqo()); return "score shown"; }
    } else if (l.find("Reference Filepath:") == 0) { paths++; if (l.substr(l.find(':') + 2) != m.reference_filepath()) { *det = l; return "reference path shown"; } }
    else if (l.find("Degraded Filepath:") == 0) { paths++; if (l.substr(l.find(':') + 2) != m.degraded_filepath()) { *det = l; return "degraded path shown"; } }
    else if (l.size() > 3 && l[0] == '|' && l.find("Hz") != std::string::npos) {
      std::vector<std::string> v;
      for (std::sregex_iterator i(l.begin(), l.end(), num), e; i != e; ++i) v.push_back(i->str());
      if (bands >= m.fvnsim_size() || v.size() != 3 || v[0] != Fmt("%.6f", m.fvnsim(bands)) || v[1] != Fmt("%.6f", m.fvnsim10(bands)) || v[2] != Fmt("%.1f", m.center_freq_bands(bands))) { *det = Fmt("row %d: ", bands) + l; return "band row"; }
      bands++;
    } else if (l.size() > 3 && l[0] == '|' && l.find_first_of("0123456789") != std::string::npos && l.find("FVNSIM") == std::string::npos) {
      // idx | sim | start - end | start - end
      std::string t = l;
      for (char& ch : t) if (ch == '|') ch = ' ';
      std::istringstream w(t);
      std::vector<std::string> v;
      std::string x;
      while (w >> x) if (x != "-") v.push_back(x);
      if (patches >= m.patch_sims_size()) { *det = l; return "patch row"; }
      const auto& p = m.patch_sims(patches);
      const std::vector<std::string> want = {Fmt("%d", patches), Fmt("%.6f", p.similarity()), Fmt("%.3f", p.ref_patch_start_time()), Fmt("%.3f", p.ref_patch_end_time()), Fmt("%.3f", p.deg_patch_start_time()), Fmt("%.3f", p.deg_patch_end_time())};
      if (v != want) { *det = Fmt("row %d: ", patches) + l; return "patch row"; }
      patches++;
    }
  }
  if (scores != 1) { *det = Fmt("%d scores", scores); return "score shown"; }
  if (paths != (verbose ? 2 : 0)) { *det = Fmt("%d paths", paths); return "paths shown"; }
  if (bands != (verbose ? m.fvnsim_size() : 0)) { *det = Fmt("%d band rows for %d", bands, m.fvnsim_size()); return "band rows"; }
  if (patches != (verbose ? m.patch_sims_size() : 0)) { *det = Fmt("%d patch rows for %d", patches, m.patch_sims_size()); return "patch rows"; }
  return "";
}
static void Writer(Ctx& c) {
  Rng& r = c.rng;
  const std::string csv = c.scratch + "/r.csv", json = c.scratch + "/r.json";
  unlink(csv.c_str());
  unlink(json.c_str());
  std::string want_csv, before_json;
  bool csv_made = false;
  if (r.chance(0.25)) { want_csv = r.pick(std::vector<std::string>{"", "old,contents\n", "reference,degraded,moslqo\n", "no line end"}); std::ofstream(csv) << want_csv; csv_made = true; }
  if (r.chance(0.25)) { before_json = r.pick(std::vector<std::string>{"", "{\"moslqo\": 1}\n", "notes: "}); std::ofstream(json) << before_json; }
  std::vector<Msg> wrote;
  const int steps = static_cast<int>(r.range(1, 6));
  std::string what;
  for (int k = 0; k < steps; k++) {
    const Msg m = k && r.chance(0.1) && !wrote.empty() ? wrote.back() : RandomMsg(r);
    const bool verbose = r.chance(0.5), speech = r.chance(0.5), lattice = r.chance(0.5), to_csv = r.chance(0.7), to_json = r.chance(0.7);
    what += Fmt("[%s%s%s%s%s %d bands %d patches] ", speech ? "speech" : "audio", lattice ? " lattice" : "", verbose ? " verbose" : "", to_csv ? " csv" : "", to_json ? " json" : "", m.fvnsim_size(), m.patch_sims_size());
    Note(what);
    std::stringstream cap;
    std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
    const auto flags = std::cout.flags();
    const auto prec = std::cout.precision();
    if (k && r.chance(0.15) && !to_csv && to_json) { }
    Visqol::SimilarityResultsWriter::Write(verbose, FilePath(to_csv ? csv : ""), FilePath(to_json ? json : ""), m, speech, lattice);
    std::cout.rdbuf(old);
    std::string det, key = Console(cap.str(), m, verbose, speech, lattice, &det);
    if (!key.empty()) Viol("console: " + key, what + det + " | " + cap.str());
    if (std::cout.flags() != flags || std::cout.precision() != prec) Stat("stream state changed");  // shows up in the next score, if it matters
    if (to_csv) { if (!csv_made) { want_csv += Header(m); csv_made = true; } want_csv += Row(m); }
    if (to_json) wrote.push_back(m);
    Stat("results written");
  }
  if (csv_made != Exists(csv)) Viol("csv existence", what);
  if (csv_made) {
    const std::string got = Slurp(csv);
    if (got != want_csv) {
      size_t i = 0;
      while (i < got.size() && i < want_csv.size() && got[i] == want_csv[i]) i++;
      size_t b = i > 60 ? i - 60 : 0;
      Viol(got.compare(0, std::min(i, got.size()), want_csv, 0, std::min(i, got.size())) ? "csv" : "csv contents", what + Fmt("differs at byte %zu: '%s', expected '%s'", i, got.substr(b, 140).c_str(), want_csv.substr(b, 140).c_str()));
    }
    Stat("csv files compared");
  }
  const std::string j = Slurp(json);
  if (j.compare(0, before_json.size(), before_json)) Viol("json earlier contents", what + j.substr(0, 100));
  else {
    const auto obj = Objects(j.substr(before_json.size()));
    if (obj.size() != wrote.size()) Viol("json objects", what + Fmt("%zu objects for %zu results", obj.size(), wrote.size()));
    else
      for (size_t i = 0; i < obj.size(); i++) {
        Msg back;
        if (!google::protobuf::util::JsonStringToMessage(obj[i], &back).ok()) { Viol("json unreadable", what + obj[i].substr(0, 300)); break; }
        if (!google::protobuf::util::MessageDifferencer::Equals(back, wrote[i])) { Viol("json differs", what + back.ShortDebugString().substr(0, 500)); break; }
      }
  }
  Cover(what + want_csv.substr(0, 200));
  Sample(what);
}

// ---------------------------------------------------------------- engine results
static void Dump(const std::string& job) {
  std::ifstream in(job);
  std::ofstream out(job + ".out");
  std::string l;
  while (std::getline(in, l)) {
    std::vector<std::string> f;
    std::stringstream s(l);
    std::string t;
    while (std::getline(s, t, '\x1f')) f.push_back(t);
    if (f.size() != 9) { out << "BAD\n"; continue; }
    ref::Config g;
    g.speech = f[0] == "1"; g.lattice = f[1] == "1"; g.unscaled = f[2] == "1"; g.radius = atoi(f[3].c_str());
    g.no_align = f[4] == "1"; g.no_realign = f[5] == "1"; g.model = f[6];
    Visqol::VisqolManager m;
    const absl::Status st = prod::Init(m, g);
    if (!st.ok()) { out << "INIT " << static_cast<int>(st.code()) << "\n"; continue; }
    auto r = m.Run(FilePath(f[7]), FilePath(f[8]));
    if (!r.ok()) { out << "ERR " << static_cast<int>(r.status().code()) << "\n"; continue; }
    const Msg& v = r.value();
    auto vec = [&](const google::protobuf::RepeatedField<double>& x) { std::string o; for (double d : x) o += Fmt("%a,", d); return o; };
    out << "OK|" << Fmt("%a|%a|%a|", v.moslqo(), v.vnsim(), v.alignment_lag_s()) << vec(v.fvnsim()) << "|" << vec(v.fvnsim10()) << "|" << vec(v.fstdnsim()) << "|" << vec(v.fvdegenergy()) << "|" << vec(v.center_freq_bands());
    for (const auto& p : v.patch_sims())
      out << "|" << Fmt("%a,%a,%a,%a,%a,", p.similarity(), p.ref_patch_start_time(), p.ref_patch_end_time(), p.deg_patch_start_time(), p.deg_patch_end_time()) << vec(p.freq_band_means());
    out << "\n";
  }
}

// Writes the rows a job lists with the library's own writer (tools/prep.py).
static void Rows(const std::string& job) {
  std::ifstream in(job);
  std::string l, csv;
  std::getline(in, csv);
  while (std::getline(in, l)) {
    std::vector<std::string> f;
    std::stringstream s(l);
    std::string t;
    while (std::getline(s, t, '\x1f')) f.push_back(t);
    if (f.size() < 3) continue;
    Msg m;
    m.set_reference_filepath(f[0]);
    m.set_degraded_filepath(f[1]);
    m.set_moslqo(strtod(f[2].c_str(), nullptr));
    for (size_t i = 3; i + 3 < f.size(); i += 4) {
      m.add_fvnsim(strtod(f[i].c_str(), nullptr));
      m.add_fvnsim10(strtod(f[i + 1].c_str(), nullptr));
      m.add_fstdnsim(strtod(f[i + 2].c_str(), nullptr));
      m.add_fvdegenergy(strtod(f[i + 3].c_str(), nullptr));
      m.add_center_freq_bands(50 + static_cast<double>(i));
    }
    Visqol::SimilarityResultsWriter::Write(false, FilePath(csv), FilePath(""), m, true, true);
  }
}

void RunCase(Ctx& c) {
  if (c.mode.compare(0, 5, "rows:") == 0) Rows(c.mode.substr(5));
  else if (c.mode == "batch") Batch(c);
  else if (c.mode == "writer") Writer(c);
  else if (c.mode.compare(0, 5, "dump:") == 0) Dump(c.mode.substr(5));
}
}  // namespace mon
