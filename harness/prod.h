// Drives the library under test and records what it reports.
#ifndef VERIF_PROD_H
#define VERIF_PROD_H
#include <string>
#include <vector>

#include "amatrix.h"
#include "audio_signal.h"
#include "mon.h"
#include "ref.h"
#include "src/proto/similarity_result.pb.h"
#include "visqol_manager.h"

namespace prod {
using Vec = std::vector<double>;
Visqol::AudioSignal Signal(const Vec& v, size_t rate);
Vec Samples(const Visqol::AudioSignal& s);
Visqol::AMatrix<double> ToA(const ref::Mat& m);
ref::Mat FromA(const Visqol::AMatrix<double>& m);
std::string AudioModel(const mon::Ctx& c);
std::string LatticeModel(const mon::Ctx& c);
void SetModel(const mon::Ctx& c, ref::Config* cfg);
ref::Config RandomConfig(mon::Ctx& c);
ref::Obs FromMsg(const Visqol::SimilarityResultMsg& m);
ref::Obs FromStatus(const absl::Status& s);
absl::Status Init(Visqol::VisqolManager& m, const ref::Config& cfg);
ref::Obs Run(Visqol::VisqolManager& m, const Vec& ref, const Vec& deg, size_t rate);
ref::Obs RunFresh(const ref::Config& cfg, const Vec& ref, const Vec& deg, size_t rate);
// Bit-for-bit comparison; returns the first difference or "".
std::string Differs(const ref::Obs& a, const ref::Obs& b);
// Comparison up to rounding.
std::string DiffersBy(const ref::Obs& a, const ref::Obs& b, double tol);
std::string Brief(const ref::Obs& o);
}  // namespace prod
#endif
