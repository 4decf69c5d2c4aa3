// EIGEN_MATRIX_PLUGIN: Eigen 3.4's vectors are not C++20 contiguous ranges (Eigen 5's are),
// so std::span<T>(VectorX&) needs this conversion.
operator std::span<Scalar>() { return std::span<Scalar>(this->data(), this->size()); }
operator std::span<const Scalar>() const {
  return std::span<const Scalar>(this->data(), this->size());
}
