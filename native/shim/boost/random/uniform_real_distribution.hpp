// Stand-in for the random source: a draw is any value the distribution can give.
#pragma once
extern "C" float vp_draw_real(float low, float high);
namespace boost
{
namespace random
{
template <class T = double> class uniform_real_distribution
{
  public:
    explicit uniform_real_distribution(T low = T(0), T high = T(1)) : m_low(low), m_high(high)
    {
    }
    template <class Engine> T operator()(Engine &)
    {
        return vp_draw_real(m_low, m_high);
    }

  private:
    T m_low, m_high;
};
} // namespace random
} // namespace boost
