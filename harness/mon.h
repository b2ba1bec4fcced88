// Support for the monitors: case loop, seeded randomness, violation protocol.
#ifndef VERIF_MON_H
#define VERIF_MON_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace mon {

// xoshiro256** seeded through splitmix64.
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) {
    for (auto& v : s) {
      seed += 0x9e3779b97f4a7c15ull;
      uint64_t z = seed;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      v = z ^ (z >> 31);
    }
  }
  static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  uint64_t next() {
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
    s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
  // inclusive bounds
  int64_t range(int64_t lo, int64_t hi) {
    return hi <= lo ? lo : lo + static_cast<int64_t>(next() % static_cast<uint64_t>(hi - lo + 1));
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  double gauss() {
    double u = 1.0 - uni(), v = uni();
    return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  bool chance(double p) { return uni() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

// Context of the current case.
struct Ctx {
  std::string mode;
  bool thorough = false;
  uint64_t seed = 1;
  int64_t index = 0;
  std::string scratch;   // private directory of this shard
  std::string repo;      // root of the tree under test
  Rng rng;
};

// key: short and stable across seeds (used for known findings);
// detail: the concrete witness.
void Viol(const std::string& key, const std::string& detail);
void Stat(const std::string& name, double n = 1);
// Counts a distinct non-trivial case by its signature.
void Cover(const std::string& signature);
void Sample(const std::string& text);
void Inconclusive(const std::string& why);
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
void Digest(const std::string& text);  // what must not differ between processes
void Note(const std::string& text);  // describes the running case, for crash reports

// Compares with absolute + relative tolerance; NaN never close.
bool Close(double a, double b, double abs_tol, double rel_tol = 0);
// First mismatching position or -1; a size mismatch gives -2.
int64_t Mismatch(const std::vector<double>& a, const std::vector<double>& b, double abs_tol,
                 double rel_tol = 0);
std::string Head(const std::vector<double>& v, size_t from = 0, size_t n = 6);

// Each monitor defines these.
extern void RunCase(Ctx& c);
}  // namespace mon
#endif
