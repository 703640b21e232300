#ifndef EXE4CPP_ASIO_ASIOTIMER_H
#define EXE4CPP_ASIO_ASIOTIMER_H
#include <memory>
#include <asio.hpp>
#include "exe4cpp/ITimer.h"
namespace exe4cpp
{
class AsioTimer final : public ITimer
{
public:
    explicit AsioTimer(const std::shared_ptr<asio::io_service>& io_service) : m_io_service{io_service}, impl{*io_service} {}
    void cancel() override { impl.cancel(); }
    steady_time_t expires_at() override { return impl.expires_at(); }

private:
    std::shared_ptr<asio::io_service> m_io_service;   // outlives the timer

public:
    asio::basic_waitable_timer<std::chrono::steady_clock> impl;
};
}
#endif
