template <typename InputIterators>
void setFromSortedTriplets(const InputIterators& begin, const InputIterators& end) {
  setFromTriplets(begin, end);
}
