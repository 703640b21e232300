#ifndef EXE4CPP_MOCKEXECUTOR_H
#define EXE4CPP_MOCKEXECUTOR_H
#include <deque>
#include <limits>
#include <memory>
#include <vector>
#include <algorithm>
#include "exe4cpp/IExecutor.h"
namespace exe4cpp
{
class MockExecutor final : public IExecutor, public std::enable_shared_from_this<MockExecutor>
{
    class MockTimer final : public ITimer
    {
    public:
        MockTimer(MockExecutor* source, const steady_time_t& time, const action_t& action)
            : m_time{time}, m_source{source}, m_action{action} {}
        void cancel() override { if(m_source) { auto s = m_source; m_source = nullptr; s->remove(this); } }
        steady_time_t expires_at() override { return m_time; }
        steady_time_t m_time;
        MockExecutor* m_source;
        action_t m_action;
    };

public:
    Timer start(const duration_t& duration, const action_t& action) override { return start(m_now + duration, action); }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<MockTimer>(this, expiration, action);
        m_timers.push_back(timer);
        return Timer{timer};
    }
    void post(const action_t& action) override { m_posts.push_back(action); }
    steady_time_t get_time() override { return m_now; }

    bool run_one()
    {
        check_timers();
        if(m_posts.empty()) return false;
        auto action = m_posts.front();
        m_posts.pop_front();
        action();
        return true;
    }
    size_t run_many(size_t max = 1000)
    {
        size_t n = 0;
        while(n < max && run_one()) ++n;
        return n;
    }
    size_t advance_time(const duration_t& d) { m_now += d; return check_timers(); }
    size_t num_active() const { return m_posts.size(); }
    size_t num_pending_timers() const { return m_timers.size(); }
    size_t num_timers() const { return m_timers.size(); }

private:
    void remove(MockTimer* t)
    {
        m_timers.erase(std::remove_if(m_timers.begin(), m_timers.end(), [t](const std::shared_ptr<MockTimer>& p){ return p.get() == t; }), m_timers.end());
    }
    size_t check_timers()
    {
        size_t n = 0;
        for(;;)
        {
            auto best = m_timers.end();
            for(auto it = m_timers.begin(); it != m_timers.end(); ++it)
                if((*it)->m_time <= m_now && (best == m_timers.end() || (*it)->m_time < (*best)->m_time)) best = it;
            if(best == m_timers.end()) break;
            auto t = *best;
            m_timers.erase(best);
            t->m_source = nullptr;
            m_posts.push_back(t->m_action);
            ++n;
        }
        return n;
    }
    steady_time_t m_now{};
    std::deque<action_t> m_posts;
    std::vector<std::shared_ptr<MockTimer>> m_timers;
};
}
#endif
