// Stand-in for takatori::type and takatori::value
#pragma once
#include "t_util.h"
#include "t_datetime.h"
#include "t_decimal.h"
namespace takatori {
namespace serializer { class object_scanner {}; class json_printer : public object_scanner { public: template <class... A> explicit json_printer(A&&...) {} }; }
namespace document { struct region { explicit operator bool() const { return false; } }; class document_map {}; }
namespace type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, table, unknown, row_reference, row_id, declared, extension, blob, clob, xml };
inline std::string_view to_string_view(type_kind k) { static char const* const n[] = {"boolean", "int1", "int2", "int4", "int8", "float4", "float8", "decimal", "character", "octet", "bit", "date", "time_of_day", "time_point", "datetime_interval", "array", "record", "table", "unknown", "row_reference", "row_id", "declared", "extension", "blob", "clob", "xml"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << to_string_view(k); }
class data {
public:
    virtual ~data() = default;
    virtual type_kind kind() const noexcept = 0;
    virtual std::unique_ptr<data> clone() const = 0;
    virtual std::string sig() const { return std::string(to_string_view(kind())); }
    friend bool operator==(data const& a, data const& b) { return a.sig() == b.sig(); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << d.sig(); }
};
template <class Self, type_kind K> class base_ : public data {
public:
    static constexpr type_kind tag = K;
    type_kind kind() const noexcept override { return K; }
    std::unique_ptr<data> clone() const override { return std::make_unique<Self>(static_cast<Self const&>(*this)); }
};
template <type_kind K> class simple_type : public base_<simple_type<K>, K> { public: using entity_type = void; };
using boolean = simple_type<type_kind::boolean>; using int1 = simple_type<type_kind::int1>; using int2 = simple_type<type_kind::int2>; using int4 = simple_type<type_kind::int4>; using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>; using float8 = simple_type<type_kind::float8>; using date = simple_type<type_kind::date>; using datetime_interval = simple_type<type_kind::datetime_interval>;
using unknown = simple_type<type_kind::unknown>; using blob = simple_type<type_kind::blob>; using clob = simple_type<type_kind::clob>; using row_id = simple_type<type_kind::row_id>;
struct varying_t { bool value{}; constexpr varying_t() = default; constexpr explicit varying_t(bool v) : value(v) {} constexpr bool operator*() const { return value; } friend constexpr bool operator!(varying_t v) { return !v.value; } friend constexpr varying_t operator~(varying_t v) { return varying_t{!v.value}; } };
inline constexpr varying_t varying{true};
struct with_time_zone_t { bool value{}; constexpr with_time_zone_t() = default; constexpr explicit with_time_zone_t(bool v) : value(v) {} friend constexpr with_time_zone_t operator~(with_time_zone_t v) { return with_time_zone_t{!v.value}; } };
inline constexpr with_time_zone_t with_time_zone{true};
template <type_kind K> class string_like : public base_<string_like<K>, K> {
public:
    using size_type = std::size_t;
    explicit string_like(std::optional<size_type> n) : n_(n) {}
    explicit string_like(size_type n) : n_(n) {}
    explicit string_like(varying_t v, std::optional<size_type> n = {}) : v_(v.value), n_(n) {}
    bool varying() const noexcept { return v_; }
    std::optional<size_type> length() const noexcept { return n_; }
    std::string sig() const override { return std::string(to_string_view(K)) + (v_ ? "var" : "") + (n_ ? std::to_string(*n_) : "*"); }
private:
    bool v_{false}; std::optional<size_type> n_{};
};
using character = string_like<type_kind::character>; using octet = string_like<type_kind::octet>; using bit = string_like<type_kind::bit>;
class decimal : public base_<decimal, type_kind::decimal> {
public:
    using size_type = std::size_t;
    static constexpr size_type max_precision = 38;
    decimal() = default;
    explicit decimal(std::optional<size_type> p, std::optional<size_type> s = 0) : p_(p), s_(s) {}
    std::optional<size_type> precision() const noexcept { return p_; }
    std::optional<size_type> scale() const noexcept { return s_; }
    std::string sig() const override { return "decimal" + (p_ ? std::to_string(*p_) : "*") + "," + (s_ ? std::to_string(*s_) : "*"); }
private:
    std::optional<size_type> p_{}, s_{};
};
template <type_kind K> class zoned : public base_<zoned<K>, K> {
public:
    zoned() = default;
    explicit zoned(with_time_zone_t z) : z_(z.value) {}
    bool with_time_zone() const noexcept { return z_; }
    std::string sig() const override { return std::string(to_string_view(K)) + (z_ ? "tz" : ""); }
private:
    bool z_{false};
};
using time_of_day = zoned<type_kind::time_of_day>; using time_point = zoned<type_kind::time_point>;
class table : public base_<table, type_kind::table> {
public:
    struct column_type { column_type() = default; column_type(std::string n, std::shared_ptr<data const> t) : name_(std::move(n)), type_(std::move(t)) {} std::string name_; std::shared_ptr<data const> type_; std::string_view name() const { return name_; } data const& type() const { return *type_; } std::shared_ptr<data const> const& shared_type() const { return type_; } };
    table() = default; explicit table(std::vector<column_type> c) : cols_(std::move(c)) {}
    std::vector<column_type> cols_;
    std::vector<column_type> const& columns() const { return cols_; }
};
} // namespace type

namespace value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
inline std::ostream& operator<<(std::ostream& o, value_kind k) { return o << static_cast<int>(k); }
class data { public: virtual ~data() = default; virtual value_kind kind() const noexcept = 0; virtual std::unique_ptr<data> clone() const = 0; friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << "value" << static_cast<int>(d.kind()); }
    friend bool operator==(data const& a, data const& b) { return &a == &b; } };
template <value_kind K, class T, class View = T> class simple_value : public data {
public:
    using entity_type = T; using view_type = View;
    static constexpr value_kind tag = K;
    simple_value() = default;
    template <class U, class = std::enable_if_t<std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, simple_value>>> explicit simple_value(U&& v) : v_(std::forward<U>(v)) {}
    value_kind kind() const noexcept override { return K; }
    View get() const noexcept { return View(v_); }
    std::unique_ptr<data> clone() const override { return std::make_unique<simple_value>(*this); }
private:
    T v_{};
};
using boolean = simple_value<value_kind::boolean, bool>; using int4 = simple_value<value_kind::int4, std::int32_t>; using int8 = simple_value<value_kind::int8, std::int64_t>; using float4 = simple_value<value_kind::float4, float>; using float8 = simple_value<value_kind::float8, double>;
using decimal = simple_value<value_kind::decimal, takatori::decimal::triple>; using character = simple_value<value_kind::character, std::string, std::string_view>; using octet = simple_value<value_kind::octet, std::string, std::string_view>;
using date = simple_value<value_kind::date, datetime::date>; using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>; using time_point = simple_value<value_kind::time_point, datetime::time_point>;
using unknown = simple_value<value_kind::unknown, int>;
} // namespace value
} // namespace takatori

namespace takatori::value { inline std::string_view truncate_utf8(std::string_view s, std::size_t n) { if (s.size() <= n) return s; while (n > 0 && (static_cast<unsigned char>(s[n]) & 0xC0U) == 0x80U) --n; return s.substr(0, n); } }
