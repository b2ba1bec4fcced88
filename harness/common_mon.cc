#include "mon.h"

#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <exception>
#include <map>
#include <mutex>
#include <set>
#include <typeinfo>

namespace mon {
namespace {
std::mutex mu;
int64_t cur = -1;
int out_fd = 1;
std::map<std::string, double> stats;
std::set<uint64_t> covered;
int nviol = 0, nsample = 0;

void Emit(const std::string& s) {
  std::string l = "@@" + s + "\n";
  size_t off = 0;
  while (off < l.size()) {
    ssize_t n = write(out_fd, l.data() + off, l.size() - off);
    if (n <= 0) _exit(99);
    off += n;
  }
}
std::string Clean(std::string s) {
  for (char& ch : s)
    if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
  if (s.size() > 1500) s.resize(1500);
  return s;
}
}  // namespace

std::string Fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
void Viol(const std::string& key, const std::string& detail) {
  std::lock_guard<std::mutex> l(mu);
  if (++nviol > 60) return;
  Emit("V " + std::to_string(cur) + " " + Clean(key) + "\t" + Clean(detail));
}
void Stat(const std::string& name, double n) {
  std::lock_guard<std::mutex> l(mu);
  stats[name] += n;
}
void Cover(const std::string& sig) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char ch : sig) h = (h ^ ch) * 1099511628211ull;
  std::lock_guard<std::mutex> l(mu);
  if (covered.insert(h).second) Emit(Fmt("C %016llx", (unsigned long long)h));
}
void Sample(const std::string& t) {
  std::lock_guard<std::mutex> l(mu);
  if (++nsample <= 3) Emit("X " + Clean(t));
}
void Inconclusive(const std::string& why) { Stat("inconclusive: " + why); }
void Digest(const std::string& t) {
  std::lock_guard<std::mutex> l(mu);
  Emit("D " + std::to_string(cur) + " " + Clean(t));
}
void Note(const std::string& t) {
  std::lock_guard<std::mutex> l(mu);
  Emit("N " + Clean(t));
}
bool Close(double a, double b, double at, double rt) {
  if (a == b) return true;
  return std::fabs(a - b) <= at + rt * std::max(std::fabs(a), std::fabs(b));
}
int64_t Mismatch(const std::vector<double>& a, const std::vector<double>& b, double at, double rt) {
  if (a.size() != b.size()) return -2;
  for (size_t i = 0; i < a.size(); i++)
    if (!Close(a[i], b[i], at, rt)) return i;
  return -1;
}
std::string Head(const std::vector<double>& v, size_t from, size_t n) {
  std::string s = Fmt("[%zu]{", v.size());
  for (size_t i = from; i < v.size() && i < from + n; i++) s += Fmt("%s%.9g", i > from ? "," : "", v[i]);
  return s + "}";
}
}  // namespace mon

static uint64_t Mix(const std::string& s, uint64_t seed, uint64_t i) {
  uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h ^ (i * 0xd6e8feb86659fd93ull);
}

int main(int argc, char** argv) {
  using namespace mon;
  Ctx c;
  int64_t n = 0, shard = 0, shards = 1, only = -1, skip_to = 0;
  const bool backwards = getenv("VERIF_BACKWARDS") != nullptr;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--mode") c.mode = v;
    else if (a == "--tier") c.thorough = v == "thorough";
    else if (a == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--n") n = atoll(v.c_str());
    else if (a == "--shard") shard = atoll(v.c_str());
    else if (a == "--shards") shards = atoll(v.c_str());
    else if (a == "--only") only = atoll(v.c_str());
    else if (a == "--from") skip_to = atoll(v.c_str());
    else if (a == "--scratch") c.scratch = v;
    else if (a == "--repo") c.repo = v;
  }
  // keep the protocol apart from whatever the code under test prints
  out_fd = dup(1);
  dup2(2, 1);
  std::string mode = c.mode;
  for (int64_t k = 0; k < n; k++) {
    const int64_t i = backwards ? n - 1 - k : k;
    if (only >= 0 ? i != only : (i % shards != shard || i < skip_to)) continue;
    cur = i;
    Emit(Fmt("B %lld", (long long)i));
    c.index = i;
    c.rng = Rng(Mix(mode, c.seed, i));
    try {
      RunCase(c);
    } catch (const std::exception& e) {
      Viol(Fmt("exception:%s", typeid(e).name()), Fmt("escaped exception: %s", e.what()));
    } catch (...) {
      Viol("exception:unknown", "escaped exception of unknown type");
    }
  }
  for (auto& kv : stats) Emit(Fmt("S %.17g ", kv.second) + Clean(kv.first));
  Emit("E");
  fflush(stdout);
  _exit(0);
}
