// Analysis-only stand-in for gch::small_vector (the real header is not installed
// in this sandbox).  Same interface, std::vector semantics.
#pragma once
#include <vector>
#include <memory>
#include <cstddef>
namespace gch {
template <typename T, unsigned InlineCapacity = 4,
          typename Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator> {
 public:
  using std::vector<T, Allocator>::vector;
  small_vector() = default;
};
template <typename T, unsigned N, typename A, typename Pred>
std::size_t erase_if(small_vector<T, N, A>& v, Pred pred) {
  return std::erase_if(static_cast<std::vector<T, A>&>(v), pred);
}
}  // namespace gch
