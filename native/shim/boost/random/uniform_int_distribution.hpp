#pragma once
#include <cstdint>
#include <limits>
extern "C" int64_t vp_draw_int(int64_t low, int64_t high);
namespace boost
{
namespace random
{
template <class T = int> class uniform_int_distribution
{
  public:
    explicit uniform_int_distribution(T low = 0, T high = std::numeric_limits<T>::max()) : m_low(low), m_high(high)
    {
    }
    template <class Engine> T operator()(Engine &)
    {
        return T(vp_draw_int(m_low, m_high));
    }

  private:
    T m_low, m_high;
};
} // namespace random
} // namespace boost
