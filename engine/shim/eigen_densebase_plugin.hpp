EIGEN_DEVICE_FUNC CoeffReturnType operator[](Index row, Index col) const { return derived().coeff(row, col); }
template <typename D = Derived>
EIGEN_DEVICE_FUNC decltype(auto) operator[](Index row, Index col) { return static_cast<D&>(derived()).coeffRef(row, col); }
