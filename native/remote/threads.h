// Included before the sources of the client and the server: their threads do not run on their own.
// A thread that serves a queue runs when somebody waits for a reply; which of the outstanding
// replies arrives next is a choice of the checks.
#pragma once
#include <chrono>
#include <cstdarg>
#include <cstring>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <vector>
extern "C" int64_t vp_draw_order(int64_t n);
void vp_deliver();

namespace std
{
class vp_thread
{
  public:
    vp_thread() = default;
    template <class F, class... A> explicit vp_thread(F &&f, A &&...a)
    {
        if constexpr (sizeof...(A) == 0)
            m_at = add(std::function<void()>(std::forward<F>(f)));
    }
    static unsigned hardware_concurrency()
    {
        return 1;
    }
    vp_thread(vp_thread &&o) : m_at(o.m_at)
    {
        o.m_at = -1;
    }
    vp_thread &operator=(vp_thread &&o)
    {
        std::swap(m_at, o.m_at);
        return *this;
    }
    bool joinable() const
    {
        return m_at >= 0;
    }
    void join();
    void detach()
    {
    }

  private:
    static int add(std::function<void()> f);
    int m_at = -1;
};

struct vp_state
{
    bool ready = false;
    std::exception_ptr error;
};

template <class T> class vp_future;
template <> class vp_future<void>
{
  public:
    vp_future() = default;
    explicit vp_future(std::shared_ptr<vp_state> s) : m_state(std::move(s))
    {
    }
    vp_future(vp_future &&) = default;
    vp_future &operator=(vp_future &&) = default;
    bool valid() const
    {
        return bool(m_state);
    }
    void wait()
    {
        while (!m_state->ready)
            vp_deliver();
    }
    void get()
    {
        wait();
        auto s = std::move(m_state);
        if (s->error)
            std::rethrow_exception(s->error);
    }

  private:
    std::shared_ptr<vp_state> m_state;
};

template <class T> class vp_promise;
template <> class vp_promise<void>
{
  public:
    vp_promise() : m_state(std::make_shared<vp_state>())
    {
    }
    vp_promise(vp_promise &&) = default;
    vp_promise &operator=(vp_promise &&) = default;
    vp_future<void> get_future()
    {
        return vp_future<void>(m_state);
    }
    void set_value()
    {
        m_state->ready = true;
    }
    void set_exception(std::exception_ptr e)
    {
        m_state->error = std::move(e);
        m_state->ready = true;
    }

  private:
    std::shared_ptr<vp_state> m_state;
};
} // namespace std
#define thread vp_thread
#define future vp_future
#define promise vp_promise
