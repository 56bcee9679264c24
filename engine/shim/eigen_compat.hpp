// Eigen >= 3.5 API used by the sources but absent from the system Eigen 3.4.
#pragma once
#define EIGEN_DENSEBASE_PLUGIN "eigen_densebase_plugin.hpp"
#define EIGEN_MATRIXBASE_PLUGIN "eigen_matrixbase_plugin.hpp"
#define EIGEN_SPARSEMATRIX_PLUGIN "eigen_sparsematrix_plugin.hpp"
#include <Eigen/Core>
namespace Eigen {
template <typename A, typename B>
auto operator*(const DiagonalWrapper<A>& a, const DiagonalWrapper<B>& b) {
  using S = typename A::Scalar;
  struct Helper {};
  return DiagonalMatrix<S, Dynamic>{Matrix<S, Dynamic, 1>{a.diagonal().cwiseProduct(b.diagonal())}};
}
}  // namespace Eigen
