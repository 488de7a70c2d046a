// Stand-in for altimeter: log items are counted, or handed to an observer of the simulation.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <vector>
#include <string>
#include <string_view>
namespace altimeter {
class log_item {
public:
    void category(std::string_view c) { c_ = c; } void type(std::string_view t) { t_ = t; } void level(std::int32_t l) { l_ = l; }
    std::string_view category() const { return c_; } std::string_view type() const { return t_; } std::int32_t level() const { return l_; }
    void add(std::string_view k, std::string_view v) { s[std::string(k)] = std::string(v); }
    void add(std::string_view k, char const* v) { s[std::string(k)] = v; }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> void add(std::string_view k, T v) { s[std::string(k)] = std::to_string(v); }
    std::map<std::string, std::string> s; std::vector<std::string> items() const { std::vector<std::string> r; for (auto& [k, v] : s) r.push_back(k + ":" + v); return r; }
private: std::string c_, t_; std::int32_t l_{};
};
class logger { public: inline static std::function<void(log_item const&)> sink; inline static std::int32_t lv{}; static bool is_log_on(std::string_view, std::int32_t l) { return sink && l <= lv; } static void log(log_item const& i) { if (sink) sink(i); } };
namespace event {
constexpr std::string_view category = "event";
namespace level { constexpr std::int32_t min = 1, statement = 50, transaction = 40; }
namespace type { constexpr std::string_view stmt_start = "stmt_start", stmt_end = "stmt_end", stmt_explain = "stmt_explain", tx_start = "tx_start", tx_end = "tx_end"; }
namespace item { constexpr std::string_view user = "user", dbname = "dbname", pid = "pid", remote_host = "remote_host", application_name = "application_name", session_id = "session_id", session_label = "session_label", instance_id = "instance_id", tx_id = "tx_id", tx_type = "tx_type", tx_label = "tx_label", job_id = "job_id", statement = "statement", parameter = "parameter", result = "result", state_code = "state_code", fetched = "fetched", inserted = "inserted", updated = "updated", deleted = "deleted", merged = "merged", duration_time = "duration_time", message = "message", data = "data"; }
struct event_logger { inline static std::int64_t threshold{-1}; static bool is_over_stmt_duration_threshold(std::int64_t ns) { return threshold >= 0 && ns > threshold; } };
}
}
