#ifndef EXE4CPP_ASIO_THREADPOOL_H
#define EXE4CPP_ASIO_THREADPOOL_H
#include <cstdint>
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include <asio.hpp>
namespace exe4cpp
{
class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io_service,
               uint32_t concurrency,
               std::function<void(uint32_t)> on_thread_start = [](uint32_t) {},
               std::function<void(uint32_t)> on_thread_exit = [](uint32_t) {})
        : m_io_service{io_service},
          m_on_thread_start{std::move(on_thread_start)},
          m_on_thread_exit{std::move(on_thread_exit)},
          m_infinite_timer{*io_service}
    {
        if(concurrency == 0) concurrency = 1;
        m_infinite_timer.expires_at(std::chrono::steady_clock::time_point::max());
        m_infinite_timer.async_wait([](const std::error_code&) {});
        for(uint32_t i = 0; i < concurrency; ++i)
        {
            m_threads.push_back(std::make_unique<std::thread>([this, i]() { run(i); }));
        }
    }
    ThreadPool(const ThreadPool&) = delete;
    ThreadPool& operator=(const ThreadPool&) = delete;
    ~ThreadPool() { shutdown(); }

    void shutdown()
    {
        if(!m_is_shutdown)
        {
            m_is_shutdown = true;
            m_infinite_timer.cancel();
            for(auto& thread : m_threads) thread->join();
        }
    }

private:
    void run(uint32_t i)
    {
        m_on_thread_start(i);
        m_io_service->run();
        m_on_thread_exit(i);
    }

    std::shared_ptr<asio::io_service> m_io_service;
    std::function<void(uint32_t)> m_on_thread_start;
    std::function<void(uint32_t)> m_on_thread_exit;
    bool m_is_shutdown = false;
    asio::basic_waitable_timer<std::chrono::steady_clock> m_infinite_timer;
    std::vector<std::unique_ptr<std::thread>> m_threads;
};
}
#endif
