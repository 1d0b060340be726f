#pragma once
#include <cstdint>
extern "C" int64_t vp_draw_binomial(int64_t trials, double probability);
namespace boost
{
namespace random
{
template <class T = int, class R = double> class binomial_distribution
{
  public:
    explicit binomial_distribution(T trials = 1, R probability = R(0.5)) : m_trials(trials), m_probability(probability)
    {
    }
    template <class Engine> T operator()(Engine &)
    {
        return T(vp_draw_binomial(m_trials, m_probability));
    }

  private:
    T m_trials;
    R m_probability;
};
} // namespace random
} // namespace boost
