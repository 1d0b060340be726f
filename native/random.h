// Included before every source: integers drawn through the standard library come from the checks too.
#pragma once
#include <algorithm>
#include <cstdint>
#include <random>
extern "C" int64_t vp_draw_int(int64_t low, int64_t high);
namespace std
{
template <class T = int> class vp_uniform_int_distribution
{
  public:
    explicit vp_uniform_int_distribution(T low = 0, T high = std::numeric_limits<T>::max()) : m_low(low), m_high(high)
    {
    }
    template <class Engine> T operator()(Engine &)
    {
        return T(vp_draw_int(int64_t(m_low), int64_t(m_high)));
    }

  private:
    T m_low, m_high;
};
} // namespace std
#define uniform_int_distribution vp_uniform_int_distribution
