// Stand-ins for libmpdec++ (decimal.hh) and takatori::decimal::triple, over boost::multiprecision.
#pragma once
#include <cstdint>
#include <iostream>
#include <limits>
#include <stdexcept>
#include <string>
#include <tuple>
#include <boost/multiprecision/cpp_int.hpp>

#define MPD_Inexact 0x40U
#define MPD_Rounded 0x1000U
#define MPD_Overflow 0x800U
#define MPD_Division_by_zero 0x4U
#define MPD_Invalid_operation 0x100U
#define MPD_IEEE_Invalid_operation 0x3baU
#define MPD_Conversion_syntax 0x2U
enum { MPD_ROUND_UP, MPD_ROUND_DOWN, MPD_ROUND_CEILING, MPD_ROUND_FLOOR, MPD_ROUND_HALF_UP, MPD_ROUND_HALF_DOWN, MPD_ROUND_HALF_EVEN, MPD_ROUND_05UP, MPD_ROUND_TRUNC };
enum mpd_triple_class { MPD_TRIPLE_NORMAL, MPD_TRIPLE_INF, MPD_TRIPLE_QNAN, MPD_TRIPLE_SNAN, MPD_TRIPLE_ERROR };
struct mpd_uint128_triple_t { mpd_triple_class tag; std::uint8_t sign; std::uint64_t hi, lo; std::int64_t exp; };

namespace takatori::decimal { class triple; }
namespace decimal {
using cpp_int = boost::multiprecision::cpp_int;
struct DecimalException : std::runtime_error { using std::runtime_error::runtime_error; };
// a thread starts with libmpdec++'s context_template: 16 digits and exceptions
struct Context {
    std::uint32_t status_{}; int round_{MPD_ROUND_HALF_EVEN}; std::int64_t prec_{16}; std::uint32_t traps_{MPD_IEEE_Invalid_operation | MPD_Division_by_zero | MPD_Overflow};
    std::uint32_t status() const { return status_; }
    void clear_status() { status_ = 0; }
    void status(std::uint32_t v) { status_ = v; }
    int round() const { return round_; }
    void round(int r) { round_ = r; }
    void add_status(std::uint32_t v) { status_ |= v; }
    void raise(std::uint32_t v) { status_ |= v; if (v & traps_) throw DecimalException("decimal exception"); }
    void traps(std::uint32_t v) { traps_ = v; }
    void prec(std::int64_t v) { prec_ = v; }
    std::int64_t prec() const { return prec_; }
    std::string repr() const { return "Context"; }
};
inline Context IEEEContext(int) { Context c; c.traps_ = 0; c.prec_ = 43; return c; }
inline Context& ctx_() { static thread_local Context c; return c; }
inline thread_local Context context{};
class Decimal {
public:
    Decimal() : nan_(true) {}
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> explicit Decimal(T v) : neg_(v < 0), c_(v) { if (neg_) c_ = -c_; }
    explicit Decimal(std::string const& s) { parse(s); }
    explicit Decimal(char const* s) { parse(s); }
    inline Decimal(takatori::decimal::triple const& t);
    bool isnan() const { return nan_; } bool isinfinite() const { return inf_; } bool isfinite() const { return !nan_ && !inf_; } bool isspecial() const { return nan_ || inf_; }
    bool iszero() const { return !isspecial() && c_ == 0; }
    bool issigned() const { return neg_; }
    int sign() const { return neg_ ? -1 : 1; }
    std::int64_t exponent() const { return e_; }
    Decimal coeff() const { Decimal d; d.nan_ = false; d.c_ = c_; return d; }
    std::int64_t digits() const { return c_ == 0 ? 1 : static_cast<std::int64_t>(c_.str().size()); }
    std::int64_t adjexp() const { return e_ + digits() - 1; }
    struct raw { std::int64_t digits; };
    raw const* get() const { static thread_local raw r; r.digits = digits(); return &r; }
    Decimal copy_sign(Decimal const& o) const { Decimal d(*this); d.neg_ = o.neg_; return d; }
    Decimal rescale(std::int64_t e) const {
        if (isspecial()) return *this;
        Decimal d(*this);
        if (c_ != 0 && adjexp() - e + 1 > context.prec()) return bad();
        if (e <= e_) { if (c_ != 0) d.c_ = c_ * p10(e_ - e); d.e_ = e; return d; }
        if (c_ != 0 && e > adjexp() + 2) { d.c_ = 0; d.e_ = e; context.add_status(MPD_Inexact | MPD_Rounded); return d; }
        d.round_to(e);
        return d;
    }
    Decimal to_integral_exact() const { return (isspecial() || e_ >= 0) ? *this : rescale(0); }
    Decimal to_integral() const { return to_integral_exact(); }
    Decimal reduce() const {
        if (isspecial()) return *this;
        Decimal d(*this);
        if (c_ == 0) { d.e_ = 0; return d; }
        while (d.c_ % 10 == 0) { d.c_ /= 10; ++d.e_; }
        return d;
    }
    std::int64_t i64() const { Decimal d = e_ >= 0 ? rescale(0) : rescale(0); return static_cast<std::int64_t>(d.signed_()); }
    std::string to_sci() const {
        if (nan_) return "NaN";
        if (inf_) return neg_ ? "-Infinity" : "Infinity";
        std::string s = c_.str(); std::int64_t a = adjexp(); std::string r;
        if (e_ <= 0 && a >= -6) {
            if (e_ == 0) r = s;
            else { std::int64_t p = static_cast<std::int64_t>(s.size()) + e_; if (p <= 0) r = "0." + std::string(static_cast<std::size_t>(-p), '0') + s; else r = s.substr(0, static_cast<std::size_t>(p)) + "." + s.substr(static_cast<std::size_t>(p)); }
        } else { r = s.substr(0, 1); if (s.size() > 1) r += "." + s.substr(1); r += "E" + std::string(a >= 0 ? "+" : "") + std::to_string(a); }
        return (neg_ ? "-" : "") + r;
    }
    std::string to_eng() const { return to_sci(); }
    std::string format(char const*) const { return to_sci(); }
    mpd_uint128_triple_t as_uint128_triple() const {
        mpd_uint128_triple_t t{MPD_TRIPLE_NORMAL, neg_, 0, 0, e_};
        if (nan_) t.tag = MPD_TRIPLE_QNAN; else if (inf_) t.tag = MPD_TRIPLE_INF;
        else if (c_ >> 128 != 0) { t.tag = MPD_TRIPLE_ERROR; }
        else { t.lo = static_cast<std::uint64_t>(c_ & 0xffffffffffffffffULL); t.hi = static_cast<std::uint64_t>(c_ >> 64); }
        return t;
    }
    friend Decimal operator+(Decimal const& a, Decimal const& b) {
        if (a.isspecial() || b.isspecial()) return bad();
        std::int64_t e = std::min(a.e_, b.e_);
        return from_signed(a.signed_() * p10(a.e_ - e) + b.signed_() * p10(b.e_ - e), e);
    }
    friend Decimal operator-(Decimal const& a, Decimal const& b) { return a + (-b); }
    friend Decimal operator*(Decimal const& a, Decimal const& b) { if (a.isspecial() || b.isspecial()) return bad(); Decimal d = from_signed(a.signed_() * b.signed_(), a.e_ + b.e_); d.neg_ = a.neg_ != b.neg_; return d; }
    friend Decimal operator/(Decimal const& a, Decimal const& b) {
        if (a.isspecial() || b.isspecial()) return bad();
        if (b.c_ == 0) { if (a.c_ == 0) return bad(); context.raise(MPD_Division_by_zero); Decimal d; d.nan_ = false; d.inf_ = true; d.neg_ = a.neg_ != b.neg_; return d; }
        std::int64_t k = 40;
        cpp_int n = a.c_ * p10(k);
        cpp_int q = n / b.c_, r = n % b.c_;
        if (r != 0) { context.add_status(MPD_Inexact | MPD_Rounded); if (r * 2 > b.c_ || (r * 2 == b.c_ && q % 2 != 0)) q += 1; }
        Decimal d; d.nan_ = false; d.c_ = q; d.e_ = a.e_ - b.e_ - k; d.neg_ = a.neg_ != b.neg_;
        std::int64_t ideal = a.e_ - b.e_;
        while (d.c_ != 0 && d.e_ < ideal && d.c_ % 10 == 0) { d.c_ /= 10; ++d.e_; }
        if (d.digits() > 34) d.round_to(d.e_ + d.digits() - 34);
        return d;
    }
    friend Decimal operator%(Decimal const& a, Decimal const& b) {
        if (a.isspecial() || b.isspecial() || b.c_ == 0) return bad();
        std::int64_t e = std::min(a.e_, b.e_);
        Decimal d = from_signed((a.c_ * p10(a.e_ - e)) % (b.c_ * p10(b.e_ - e)), e); d.neg_ = a.neg_; return d;
    }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> friend Decimal operator/(Decimal const& a, T b) { return a / Decimal(b); }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> friend Decimal operator-(Decimal const& a, T b) { return a - Decimal(b); }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> friend bool operator<(Decimal const& a, T b) { return a < Decimal(b); }
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>> friend bool operator>(Decimal const& a, T b) { return a > Decimal(b); }
    std::int32_t i32() const { return static_cast<std::int32_t>(i64()); }
    Decimal scaleb(std::int64_t n) const { Decimal d(*this); d.e_ += static_cast<decltype(d.e_)>(n); return d; }
    Decimal operator-() const { Decimal d(*this); d.neg_ = !neg_ && c_ != 0; return d; }
    Decimal operator+() const { return *this; }
    Decimal abs() const { Decimal d(*this); d.neg_ = false; return d; }
    int cmp(Decimal const& o) const {
        std::int64_t e = std::min(e_, o.e_); cpp_int x = signed_() * p10(e_ - e), y = o.signed_() * p10(o.e_ - e);
        return x < y ? -1 : x > y ? 1 : 0;
    }
    friend bool operator==(Decimal const& a, Decimal const& b) { return !a.nan_ && !b.nan_ && a.cmp(b) == 0; }
    friend bool operator!=(Decimal const& a, Decimal const& b) { return !(a == b); }
    friend bool operator<(Decimal const& a, Decimal const& b) { return !a.nan_ && !b.nan_ && a.cmp(b) < 0; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return b < a; }
    friend bool operator<=(Decimal const& a, Decimal const& b) { return !a.nan_ && !b.nan_ && a.cmp(b) <= 0; }
    friend bool operator>=(Decimal const& a, Decimal const& b) { return b <= a; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const& d) { return o << d.to_sci(); }
private:
    bool neg_{}, nan_{}, inf_{}; std::int64_t e_{}; cpp_int c_{};
    static Decimal bad() { context.raise(0x100U); return Decimal{}; }
    cpp_int signed_() const { return neg_ ? cpp_int(-c_) : c_; }
    static Decimal from_signed(cpp_int const& v, std::int64_t e) { Decimal d; d.nan_ = false; d.neg_ = v < 0; d.c_ = v < 0 ? cpp_int(-v) : v; d.e_ = e; return d; }
    static cpp_int p10(std::int64_t n) { cpp_int r = 1; for (; n > 0; --n) r *= 10; return r; }
    void round_to(std::int64_t e) {
        cpp_int p = p10(e - e_), q = c_ / p, r = c_ % p;
        if (r != 0) context.add_status(MPD_Inexact | MPD_Rounded);
        bool up = false;
        switch (context.round()) {
            case MPD_ROUND_UP: up = r != 0; break;
            case MPD_ROUND_CEILING: up = r != 0 && !neg_; break;
            case MPD_ROUND_FLOOR: up = r != 0 && neg_; break;
            case MPD_ROUND_HALF_UP: up = r * 2 >= p; break;
            case MPD_ROUND_HALF_DOWN: up = r * 2 > p; break;
            case MPD_ROUND_HALF_EVEN: up = r * 2 > p || (r * 2 == p && q % 2 != 0); break;
            default: break;
        }
        if (up) q += 1;
        c_ = q; e_ = e;
    }
    void parse(std::string const& s) {
        std::size_t i = 0; neg_ = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        bool any = false, dot = false; c_ = 0; e_ = 0;
        for (; i < s.size(); ++i) {
            if (s[i] == '.' && !dot) { dot = true; continue; }
            if (s[i] < '0' || s[i] > '9') break;
            any = true; c_ = c_ * 10 + (s[i] - '0'); if (dot) --e_;
        }
        if (any && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { try { std::size_t u{}; e_ += std::stoll(s.substr(i + 1), &u); i += 1 + u; } catch (...) { any = false; } }
        if (!any || i != s.size()) {
            std::string t = s.substr(s.size() && (s[0] == '+' || s[0] == '-') ? 1 : 0); for (auto& c : t) c = static_cast<char>(tolower(c));
            if (t == "inf" || t == "infinity") { inf_ = true; return; }
            nan_ = true; if (t != "nan") context.raise(MPD_Conversion_syntax);
        }
    }
};
} // namespace decimal

namespace takatori::decimal {
class triple {
public:
    using coefficient_type = std::uint64_t;
    constexpr triple() = default;
    constexpr triple(std::int64_t sign, std::uint64_t hi, std::uint64_t lo, std::int32_t e) : sign_(hi == 0 && lo == 0 ? 0 : (sign < 0 ? -1 : sign > 0 ? 1 : 0)), hi_(hi), lo_(lo), e_(e) {}
    constexpr triple(std::int64_t v, std::int32_t e = 0) : sign_(v < 0 ? -1 : v > 0 ? 1 : 0), lo_(v < 0 ? 0 - static_cast<std::uint64_t>(v) : static_cast<std::uint64_t>(v)), e_(e) {}
    constexpr triple(std::int32_t v) : triple(static_cast<std::int64_t>(v)) {}
    constexpr triple(std::size_t v) : sign_(v != 0), lo_(v) {}
    triple(mpd_uint128_triple_t t) : triple(t.sign ? -1 : 1, t.hi, t.lo, static_cast<std::int32_t>(t.exp)) {}
    triple(::decimal::Decimal const& d) : triple(d.as_uint128_triple()) {}
    constexpr std::int32_t sign() const { return sign_; }
    constexpr std::int32_t exponent() const { return e_; }
    constexpr std::uint64_t coefficient_high() const { return hi_; }
    constexpr std::uint64_t coefficient_low() const { return lo_; }
    explicit operator ::decimal::Decimal() const { return ::decimal::Decimal(*this); }
    friend constexpr bool operator==(triple const& a, triple const& b) { return a.sign_ == b.sign_ && a.hi_ == b.hi_ && a.lo_ == b.lo_ && a.e_ == b.e_; }
    friend constexpr bool operator!=(triple const& a, triple const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple const& t) { return o << ::decimal::Decimal(t).to_sci(); }
    std::string str() const { return ::decimal::Decimal(*this).to_sci(); }
    static triple max() { return {}; }
private:
    std::int32_t sign_{}; std::uint64_t hi_{}, lo_{}; std::int32_t e_{};
};
}
namespace decimal {
inline Decimal::Decimal(takatori::decimal::triple const& t) : neg_(t.sign() < 0), e_(t.exponent()), c_(t.coefficient_high()) { c_ = (c_ << 64) | t.coefficient_low(); }
}
template <> struct std::hash<takatori::decimal::triple> { std::size_t operator()(takatori::decimal::triple const& t) const noexcept { return t.coefficient_low() * 31 + t.coefficient_high() * 17 + static_cast<std::size_t>(t.exponent()) * 7 + static_cast<std::size_t>(t.sign()); } };
