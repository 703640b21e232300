#ifndef EXE4CPP_ASIO_STRANDEXECUTOR_H
#define EXE4CPP_ASIO_STRANDEXECUTOR_H
#include <memory>
#include <asio.hpp>
#include "exe4cpp/IExecutor.h"
#include "exe4cpp/asio/AsioTimer.h"
namespace exe4cpp
{
class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
public:
    explicit StrandExecutor(const std::shared_ptr<asio::io_service>& io_service)
        : m_io_service{io_service}, m_strand{*io_service} {}

    static std::shared_ptr<StrandExecutor> create(const std::shared_ptr<asio::io_service>& io_service)
    {
        return std::make_shared<StrandExecutor>(io_service);
    }
    std::shared_ptr<StrandExecutor> fork() const { return create(m_io_service); }

    Timer start(const duration_t& duration, const action_t& action) override
    {
        const auto now = std::chrono::steady_clock::now();
        const auto max_duration = steady_time_t::max() - now;
        return start(duration > max_duration ? steady_time_t::max() : now + duration, action);
    }

    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<AsioTimer>(m_io_service);
        timer->impl.expires_at(expiration);
        // neither the executor nor the timer can be deleted while the timer is still active
        auto callback = [timer, action, self = shared_from_this()](const std::error_code& ec) {
            if(!ec) action();
        };
        timer->impl.async_wait(m_strand.wrap(callback));
        return Timer{timer};
    }

    void post(const action_t& action) override
    {
        auto callback = [action, self = shared_from_this()]() { action(); };
        m_strand.post(callback);
    }

    steady_time_t get_time() override { return std::chrono::steady_clock::now(); }

    template<typename handler_t>
    auto wrap(const handler_t& handler)
    {
        // the wrapped handler keeps the executor alive
        auto callback = [handler, self = shared_from_this()](auto&&... args) mutable {
            handler(std::forward<decltype(args)>(args)...);
        };
        return m_strand.wrap(callback);
    }

    std::shared_ptr<asio::io_service> get_context() const { return m_io_service; }
    std::shared_ptr<asio::io_service> get_service() const { return m_io_service; }

private:
    std::shared_ptr<asio::io_service> m_io_service;
    asio::io_service::strand m_strand;
};
}
#endif
