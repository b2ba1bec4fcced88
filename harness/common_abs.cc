// Members of the matrix type that are explicit inline specialisations exist only
// inside amatrix.cc; this compiles that file once more, under another name, to
// reach them.
#include <armadillo>
#include <complex>
#include <memory>
#include <valarray>
#include <vector>

#include "absl/types/span.h"
#define Visqol VisqolAgain
#include "src/amatrix.cc"
#undef Visqol

namespace again {
std::vector<double> Abs(size_t r, size_t c, const std::vector<double>& v) {
  const VisqolAgain::AMatrix<double> a = VisqolAgain::AMatrix<double>(r, c, v).Abs();
  if (a.NumRows() != r || a.NumCols() != c) return {};
  return std::vector<double>(a.cbegin(), a.cend());
}
std::vector<double> Abs(size_t r, size_t c, const std::vector<std::complex<double>>& v) {
  const VisqolAgain::AMatrix<double> a = VisqolAgain::AMatrix<std::complex<double>>(r, c, v).Abs();
  if (a.NumRows() != r || a.NumCols() != c) return {};
  return std::vector<double>(a.cbegin(), a.cend());
}
std::vector<double> ToVector(size_t r, size_t c, const std::vector<double>& v) {
  return VisqolAgain::AMatrix<double>(r, c, v).ToVector();
}
std::vector<std::complex<double>> ToVector(size_t r, size_t c, const std::vector<std::complex<double>>& v) {
  return VisqolAgain::AMatrix<std::complex<double>>(r, c, v).ToVector();
}
}  // namespace again
