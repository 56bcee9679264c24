template <typename D = Derived>
EIGEN_DEVICE_FUNC decltype(auto) operator[](Index row, Index col) const {
  if constexpr (requires(const typename Eigen::internal::evaluator<D>& e) { e.coeff(row, col); } &&
                !requires(const D& d) { d.rhs(); d.dec(); }) {
    return static_cast<const D&>(derived()).coeff(row, col);
  } else {
    return typename D::Scalar(static_cast<const D&>(derived()).eval().coeff(row, col));
  }
}
template <typename D = Derived>
EIGEN_DEVICE_FUNC decltype(auto) operator[](Index row, Index col) { return static_cast<D&>(derived()).coeffRef(row, col); }
