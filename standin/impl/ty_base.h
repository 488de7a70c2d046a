// Stand-in for tateyama base headers.
#pragma once
#include <cstddef>
#include <ostream>
#include <string_view>
#define cache_align alignas(64)
#ifndef LOG_LP
#define LOG_LP(x) LOG(x)
#define VLOG_LP(x) VLOG(x)
#define DVLOG_LP(x) DVLOG(x)
#define LOG_IF_LP(x, c) LOG_IF(x, c)
#define VLOG_IF_LP(x, c) VLOG_IF(x, c)
#endif
#define trace_scope
#define trace_scope_name(x)
namespace tateyama {
constexpr static std::int32_t log_error = 10, log_warning = 20, log_info = 30, log_debug = 40, log_trace = 50;
enum class status { ok, unknown, not_found, already_exists, user_rollback, operation_denied, err_unknown, err_io_error, err_invalid_argument };
inline constexpr std::string_view to_string_view(status s) { return s == status::ok ? "ok" : "error"; }
inline std::ostream& operator<<(std::ostream& o, status s) { return o << to_string_view(s); }
}
