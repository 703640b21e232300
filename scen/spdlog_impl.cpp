// spdlog's compiled-library part, rebuilt here so that the logging code the
// system runs is instrumented like the rest of it (what libspdlog.so contains).
#include <spdlog/spdlog-inl.h>
#include <spdlog/common-inl.h>
#include <spdlog/details/backtracer-inl.h>
#include <spdlog/details/registry-inl.h>
#include <spdlog/details/os-inl.h>
#include <spdlog/pattern_formatter-inl.h>
#include <spdlog/details/log_msg-inl.h>
#include <spdlog/details/log_msg_buffer-inl.h>
#include <spdlog/logger-inl.h>
#include <spdlog/sinks/sink-inl.h>
#include <spdlog/sinks/base_sink-inl.h>
#include <spdlog/details/null_mutex.h>
#include <spdlog/details/periodic_worker-inl.h>
#include <spdlog/sinks/stdout_sinks-inl.h>
#include <spdlog/sinks/stdout_color_sinks-inl.h>
#include <spdlog/sinks/ansicolor_sink-inl.h>
#include <spdlog/sinks/basic_file_sink-inl.h>
#include <spdlog/details/file_helper-inl.h>
#include <mutex>
namespace spdlog {
template class SPDLOG_API sinks::base_sink<std::mutex>;
template class SPDLOG_API sinks::base_sink<details::null_mutex>;
template class SPDLOG_API sinks::stdout_sink_base<details::console_mutex>;
template class SPDLOG_API sinks::stdout_sink_base<details::console_nullmutex>;
template class SPDLOG_API sinks::ansicolor_sink<details::console_mutex>;
template class SPDLOG_API sinks::ansicolor_sink<details::console_nullmutex>;
template class SPDLOG_API sinks::ansicolor_stdout_sink<details::console_mutex>;
template class SPDLOG_API sinks::ansicolor_stdout_sink<details::console_nullmutex>;
template class SPDLOG_API sinks::ansicolor_stderr_sink<details::console_mutex>;
template class SPDLOG_API sinks::ansicolor_stderr_sink<details::console_nullmutex>;
}
template SPDLOG_API std::shared_ptr<spdlog::logger> spdlog::stdout_color_mt<spdlog::synchronous_factory>(const std::string&, color_mode);
template SPDLOG_API std::shared_ptr<spdlog::logger> spdlog::stdout_color_st<spdlog::synchronous_factory>(const std::string&, color_mode);
