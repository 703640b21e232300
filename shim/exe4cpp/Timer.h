#ifndef EXE4CPP_TIMER_H
#define EXE4CPP_TIMER_H
#include <memory>
#include "exe4cpp/ITimer.h"
namespace exe4cpp
{
class Timer final
{
public:
    Timer() = default;
    Timer(const std::shared_ptr<ITimer>& timer) : m_timer{timer} {}

    explicit operator bool() const { return static_cast<bool>(m_timer); }
    bool is_active() const { return static_cast<bool>(m_timer); }

    bool cancel()
    {
        if(m_timer)
        {
            m_timer->cancel();
            m_timer.reset();
            return true;
        }
        return false;
    }

    steady_time_t expires_at() const
    {
        return m_timer ? m_timer->expires_at() : steady_time_t::max();
    }

private:
    std::shared_ptr<ITimer> m_timer;
};
}
#endif
