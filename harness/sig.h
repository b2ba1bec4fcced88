// Workload signals.
#ifndef VERIF_SIG_H
#define VERIF_SIG_H
#include <string>
#include <vector>

#include "mon.h"

namespace sig {
using Vec = std::vector<double>;
// Reference-like content; `what` (optional) receives a description.
Vec Gen(mon::Rng& r, size_t n, size_t rate, std::string* what = nullptr);
// A voiced/unvoiced pattern with pauses (exercises voice activity).
Vec Speechy(mon::Rng& r, size_t n, size_t rate);
// What a transmission path does to it.
Vec Degrade(mon::Rng& r, const Vec& x, size_t rate, std::string* what = nullptr);
// Tones that repeat exactly in every frame.
Vec Steady(mon::Rng& r, size_t n, size_t rate);
Vec Noise(mon::Rng& r, size_t n, double amp);
// Adds/removes samples in front: k > 0 delays.
Vec Shift(const Vec& x, int64_t k);
double Rms(const Vec& x);
size_t Rate(mon::Rng& r);  // a low, cheap sample rate
}  // namespace sig
#endif
