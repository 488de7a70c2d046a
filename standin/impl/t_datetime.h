// Stand-in for takatori::datetime
#pragma once
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <iomanip>
#include <ostream>
#include <string>
#include <string_view>
#include <optional>
#include "t_util.h"
namespace takatori::datetime {
class date {
public:
    using difference_type = std::int64_t; 
    constexpr date() = default;
    constexpr explicit date(difference_type days) : d_(days) {}
    constexpr date(std::int32_t y, std::uint32_t m, std::uint32_t d) : d_(civil(y, m, d)) {}
    constexpr difference_type days_since_epoch() const { return d_; }
    std::int32_t year() const { return std::get<0>(split()); } std::uint32_t month() const { return std::get<1>(split()); } std::uint32_t day() const { return std::get<2>(split()); }
    friend constexpr bool operator==(date a, date b) { return a.d_ == b.d_; } friend constexpr bool operator!=(date a, date b) { return a.d_ != b.d_; }
    friend constexpr bool operator<(date a, date b) { return a.d_ < b.d_; } friend constexpr bool operator>(date a, date b) { return b < a; } friend constexpr bool operator<=(date a, date b) { return !(b < a); } friend constexpr bool operator>=(date a, date b) { return !(a < b); }
    friend std::ostream& operator<<(std::ostream& o, date d) { char b[64]; std::snprintf(b, sizeof b, "%04d-%02u-%02u", d.year(), d.month(), d.day()); return o << b; }
    date& operator+=(difference_type n) { d_ += n; return *this; }
    std::tuple<std::int32_t, std::uint32_t, std::uint32_t> split() const {
        std::int64_t z = d_ + 719468, era = (z >= 0 ? z : z - 146096) / 146097; auto doe = static_cast<std::uint64_t>(z - era * 146097);
        std::uint64_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; std::int64_t y = static_cast<std::int64_t>(yoe) + era * 400; std::uint64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        std::uint64_t mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
        return {static_cast<std::int32_t>(y + (m <= 2)), static_cast<std::uint32_t>(m), static_cast<std::uint32_t>(d)};
    }
private:
    static constexpr std::int64_t civil(std::int64_t y, std::uint64_t m, std::uint64_t d) {
        y -= m <= 2; std::int64_t era = (y >= 0 ? y : y - 399) / 400; auto yoe = static_cast<std::uint64_t>(y - era * 400);
        std::uint64_t doy = (153 * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        return era * 146097 + static_cast<std::int64_t>(doe) - 719468;
    }
    difference_type d_{};
};
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>; using difference_type = std::chrono::nanoseconds;
    static constexpr time_unit max_value{86400ULL * 1000000000ULL - 1};
    constexpr time_of_day() = default;
    constexpr explicit time_of_day(time_unit t) : t_(t) {}
    constexpr explicit time_of_day(difference_type t) : t_(static_cast<std::uint64_t>(t.count())) {}
    constexpr time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit ss = {}) : t_(ss.count() + 1000000000ULL * (s + 60ULL * (m + 60ULL * h))) {}
    constexpr time_unit time_since_epoch() const { return t_; }
    constexpr time_unit subsecond() const { return time_unit{t_.count() % 1000000000ULL}; }
    std::uint32_t hour() const { return static_cast<std::uint32_t>(t_.count() / 3600000000000ULL); } std::uint32_t minute() const { return static_cast<std::uint32_t>(t_.count() / 60000000000ULL % 60); } std::uint32_t second() const { return static_cast<std::uint32_t>(t_.count() / 1000000000ULL % 60); }
    friend constexpr bool operator==(time_of_day a, time_of_day b) { return a.t_ == b.t_; } friend constexpr bool operator!=(time_of_day a, time_of_day b) { return a.t_ != b.t_; }
    friend constexpr bool operator<(time_of_day a, time_of_day b) { return a.t_ < b.t_; } friend constexpr bool operator>(time_of_day a, time_of_day b) { return b < a; } friend constexpr bool operator<=(time_of_day a, time_of_day b) { return !(b < a); } friend constexpr bool operator>=(time_of_day a, time_of_day b) { return !(a < b); }
    template <class R, class P> time_of_day& operator+=(std::chrono::duration<R, P> d) { auto n = static_cast<std::int64_t>(t_.count()) + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); constexpr std::int64_t day = 86400LL * 1000000000LL; n %= day; if (n < 0) n += day; t_ = time_unit{static_cast<std::uint64_t>(n)}; return *this; }
    template <class R, class P> time_of_day& operator-=(std::chrono::duration<R, P> d) { return *this += -d; }
    template <class R, class P> friend time_of_day operator+(time_of_day t, std::chrono::duration<R, P> d) { t += d; return t; }
    template <class R, class P> friend time_of_day operator-(time_of_day t, std::chrono::duration<R, P> d) { t -= d; return t; }
    friend std::ostream& operator<<(std::ostream& o, time_of_day t) { char b[64]; std::snprintf(b, sizeof b, "%02u:%02u:%02u.%09u", t.hour(), t.minute(), t.second(), static_cast<unsigned>(t.subsecond().count())); return o << b; }
private:
    time_unit t_{};
};
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>; using difference_type = std::chrono::nanoseconds; using subsecond_unit = std::chrono::duration<std::uint32_t, std::nano>;
    constexpr time_point() = default;
    constexpr explicit time_point(offset_type s, difference_type ns = {}) : s_(s.count()), ns_(static_cast<std::uint32_t>(ns.count())) {}
    constexpr explicit time_point(datetime::date d, time_of_day t = {}) : s_(d.days_since_epoch() * 86400 + static_cast<std::int64_t>(t.time_since_epoch().count() / 1000000000ULL)), ns_(static_cast<std::uint32_t>(t.subsecond().count())) {}
    template <class C, class D> explicit time_point(std::chrono::time_point<C, D> p) { auto n = std::chrono::duration_cast<std::chrono::nanoseconds>(p.time_since_epoch()).count(); s_ = n / 1000000000; auto r = n % 1000000000; if (r < 0) { r += 1000000000; --s_; } ns_ = static_cast<std::uint32_t>(r); }
    constexpr offset_type seconds_since_epoch() const { return offset_type{s_}; }
    constexpr subsecond_unit subsecond() const { return subsecond_unit{ns_}; }
    datetime::date to_date() const { return datetime::date{fl(s_)}; }
    datetime::date date() const { return to_date(); }
    time_of_day time() const { return time_of_day{time_of_day::time_unit{static_cast<std::uint64_t>(s_ - fl(s_) * 86400) * 1000000000ULL + ns_}}; }
    friend constexpr bool operator==(time_point a, time_point b) { return a.s_ == b.s_ && a.ns_ == b.ns_; } friend constexpr bool operator!=(time_point a, time_point b) { return !(a == b); }
    friend constexpr bool operator<(time_point a, time_point b) { return a.s_ != b.s_ ? a.s_ < b.s_ : a.ns_ < b.ns_; } friend constexpr bool operator>(time_point a, time_point b) { return b < a; } friend constexpr bool operator<=(time_point a, time_point b) { return !(b < a); } friend constexpr bool operator>=(time_point a, time_point b) { return !(a < b); }
    template <class D> time_point& operator+=(D d) { add(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); return *this; }
    template <class D> time_point& operator-=(D d) { add(-std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()); return *this; }
    template <class D> friend time_point operator+(time_point t, D d) { t += d; return t; }
    template <class D, class = std::enable_if_t<!std::is_same_v<D, time_point>>> friend time_point operator-(time_point t, D d) { t -= d; return t; }
    friend difference_type operator-(time_point a, time_point b) { return difference_type{(a.s_ - b.s_) * 1000000000 + a.ns_ - b.ns_}; }
    friend std::ostream& operator<<(std::ostream& o, time_point t) { return o << t.to_date() << "T" << t.time(); }
private:
    static constexpr std::int64_t fl(std::int64_t s) { return s >= 0 ? s / 86400 : -((-s + 86399) / 86400); }
    void add(std::int64_t n) { std::int64_t t = static_cast<std::int64_t>(ns_) + n % 1000000000; s_ += n / 1000000000; if (t < 0) { t += 1000000000; --s_; } else if (t >= 1000000000) { t -= 1000000000; ++s_; } ns_ = static_cast<std::uint32_t>(t); }
    std::int64_t s_{}; std::uint32_t ns_{};
};
class date_interval { public: constexpr date_interval(std::int32_t y = 0, std::int32_t m = 0, std::int32_t d = 0) : y_(y), m_(m), d_(d) {} constexpr std::int32_t year() const { return y_; } constexpr std::int32_t month() const { return m_; } constexpr std::int32_t day() const { return d_; }
    friend constexpr bool operator==(date_interval a, date_interval b) { return a.y_ == b.y_ && a.m_ == b.m_ && a.d_ == b.d_; } private: std::int32_t y_, m_, d_; };
class time_interval { public: using time_unit = std::chrono::nanoseconds; constexpr time_interval(time_unit t = {}) : t_(t) {} constexpr time_unit offset() const { return t_; } private: time_unit t_; };
class datetime_interval { public: constexpr datetime_interval(date_interval d = {}, time_interval t = {}) : d_(d), t_(t) {} constexpr date_interval date() const { return d_; } constexpr time_interval time() const { return t_; }
    friend bool operator==(datetime_interval a, datetime_interval b) { return a.d_ == b.d_ && a.t_.offset() == b.t_.offset(); } friend std::ostream& operator<<(std::ostream& o, datetime_interval) { return o << "interval"; } private: date_interval d_; time_interval t_; };
// conversion.h
template <class T> using conversion_result = util::either<std::string, T>;
struct date_info { std::uint32_t year{}, month{}, day{}; }; struct time_info { std::uint32_t hour{}, minute{}, second{}; std::chrono::nanoseconds subsecond{}; }; struct zone_offset_info { bool plus{}; std::uint32_t hour{}, minute{}; };
struct datetime_info { date_info date{}; time_info time{}; std::optional<zone_offset_info> offset{}; };
inline conversion_result<date_info> parse_date(std::string_view s) { date_info d; if (std::sscanf(std::string(s).c_str(), "%u-%u-%u", &d.year, &d.month, &d.day) == 3 && d.month >= 1 && d.month <= 12 && d.day >= 1 && d.day <= 31) return conversion_result<date_info>(std::in_place_index<1>, d); return conversion_result<date_info>(std::in_place_index<0>, "bad date"); }
inline conversion_result<time_info> parse_time(std::string_view s) { time_info d; if (std::sscanf(std::string(s).c_str(), "%u:%u:%u", &d.hour, &d.minute, &d.second) == 3) return conversion_result<time_info>(std::in_place_index<1>, d); return conversion_result<time_info>(std::in_place_index<0>, "bad time"); }
inline conversion_result<datetime_info> parse_datetime(std::string_view) { return conversion_result<datetime_info>(std::in_place_index<0>, "unsupported in the stand-in"); }
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view) { return conversion_result<zone_offset_info>(std::in_place_index<0>, "unsupported in the stand-in"); }
}
template <> struct std::hash<takatori::datetime::date> { std::size_t operator()(takatori::datetime::date d) const noexcept { return static_cast<std::size_t>(d.days_since_epoch()); } };
template <> struct std::hash<takatori::datetime::time_of_day> { std::size_t operator()(takatori::datetime::time_of_day d) const noexcept { return static_cast<std::size_t>(d.time_since_epoch().count()); } };
template <> struct std::hash<takatori::datetime::time_point> { std::size_t operator()(takatori::datetime::time_point d) const noexcept { return static_cast<std::size_t>(d.seconds_since_epoch().count()) * 31 + d.subsecond().count(); } };
