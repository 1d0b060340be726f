#pragma once
#include <vector>
namespace absl
{
template <class T, size_t N> class InlinedVector : public std::vector<T>
{
  public:
    using std::vector<T>::vector;
};
} // namespace absl
