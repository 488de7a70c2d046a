// Stand-in for yugawara: the storage catalog (tables, indices, sequences), variable criteria and function declarations.
#pragma once
#include "t_util.h"
#include "t_type.h"
#include <map>
#include <shared_mutex>
#include <mutex>

namespace takatori::relation { enum class sort_direction { ascendant, descendant }; inline std::ostream& operator<<(std::ostream& o, sort_direction d) { return o << (d == sort_direction::ascendant ? "ascendant" : "descendant"); } }
namespace yugawara {
enum class runtime_feature { broadcast_exchange, aggregate_exchange, broadcast_join_scan, index_join, index_join_scan, always_inline_scalar_local_variables };
enum class restricted_feature { relation_identify, relation_difference, relation_intersection, exchange_broadcast, exchange_discard, statement_write_delete, statement_write_update, statement_rename_column, statement_rename_index, statement_rename_table, statement_truncate_table, statement_truncate_table_restart_identity };
namespace util {
template <class M> class maybe_shared_lock { public: maybe_shared_lock() = default; explicit maybe_shared_lock(M& m) : l_(m) {} private: std::shared_lock<M> l_; };
}
namespace variable {
class nullity { public: constexpr nullity(bool n = true) : n_(n) {} constexpr bool nullable() const noexcept { return n_; } constexpr nullity operator~() const { return nullity{!n_}; } friend constexpr bool operator==(nullity a, nullity b) { return a.n_ == b.n_; } private: bool n_; };
inline constexpr nullity nullable{true};
class criteria { public: criteria(variable::nullity n = variable::nullity{true}) : n_(n) {} variable::nullity nullity() const { return n_; } void nullity(variable::nullity n) { n_ = n; } private: variable::nullity n_; };
class declaration {
public:
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>> declaration(std::string_view n, T&& t, variable::criteria c = {}) : name_(n), t_(std::make_shared<std::decay_t<T>>(std::forward<T>(t))), c_(c) {}
    declaration(std::string_view n, std::shared_ptr<takatori::type::data const> t, variable::criteria c = {}) : name_(n), t_(std::move(t)), c_(c) {}
    std::string_view name() const { return name_; } takatori::type::data const& type() const { return *t_; } std::shared_ptr<takatori::type::data const> shared_type() const { return t_; }
    variable::criteria const& criteria() const { return c_; }
private:
    std::string name_; std::shared_ptr<takatori::type::data const> t_; variable::criteria c_;
};
template <class M> class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> find(std::string_view n) const { std::lock_guard l{m_}; auto i = d_.find(std::string(n)); return i == d_.end() ? nullptr : i->second; }
    void add(declaration d, bool overwrite = false) { std::lock_guard l{m_}; auto p = std::make_shared<declaration>(std::move(d)); std::string n{p->name()}; if (d_.count(n) && !overwrite) throw std::invalid_argument(n); d_[n] = std::move(p); }
    template <class F> void each(F&& f) const { for (auto& [n, p] : d_) f(p); }
    bool remove(std::string_view n) { std::lock_guard l{m_}; return d_.erase(std::string(n)) > 0; }
private:
    mutable std::mutex m_; std::map<std::string, std::shared_ptr<declaration const>> d_;
};
using configurable_provider = basic_configurable_provider<std::mutex>;
using provider = configurable_provider;
} // namespace variable
namespace function {
enum class function_feature { scalar_function, table_valued_function };
class declaration {
public:
    using definition_id_type = std::size_t; using parameter_types_type = std::vector<std::shared_ptr<takatori::type::data const>>; using feature_set_type = std::set<function_feature>;
    static constexpr definition_id_type minimum_user_function_id = 20000;
    static constexpr definition_id_type minimum_system_function_id = 0, minimum_builtin_function_id = 10000;
    struct parameter_def { std::shared_ptr<takatori::type::data const> t; template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>> parameter_def(T&& x) : t(std::make_shared<std::decay_t<T>>(std::forward<T>(x))) {} };
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>>
    declaration(definition_id_type id, std::string n, T&& r, std::vector<parameter_def> p, feature_set_type f = {}) : id_(id), n_(std::move(n)), r_(std::make_shared<std::decay_t<T>>(std::forward<T>(r))), f_(std::move(f)) { for (auto& x : p) p_.push_back(x.t); }
    declaration(definition_id_type id, std::string n, std::shared_ptr<takatori::type::data const> r, parameter_types_type p, feature_set_type f = {}, std::string = {}) : id_(id), n_(std::move(n)), r_(std::move(r)), p_(std::move(p)), f_(std::move(f)) {}
    definition_id_type definition_id() const { return id_; } std::string_view name() const { return n_; } takatori::type::data const& return_type() const { return *r_; } std::shared_ptr<takatori::type::data const> shared_return_type() const { return r_; }
    parameter_types_type const& shared_parameter_types() const { return p_; } auto parameter_types() const { return takatori::util::reference_list_view<typename parameter_types_type::const_iterator>(p_.begin(), p_.end()); }
    feature_set_type& features() { return f_; } feature_set_type const& features() const { return f_; }
    explicit operator bool() const { return r_ != nullptr; }
private:
    definition_id_type id_; std::string n_; std::shared_ptr<takatori::type::data const> r_; parameter_types_type p_; feature_set_type f_;
};
template <class M> class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration> d, bool = false) { std::lock_guard l{m_}; d_.push_back(d); return d; }
    std::shared_ptr<declaration const> add(declaration d, bool = false) { return add(std::make_shared<declaration>(std::move(d))); }
    template <class F> void each(F&& f) const { for (auto& p : d_) f(p); }
    template <class F> void each(std::string_view n, std::size_t c, F&& f) const { for (auto& p : d_) if (p->name() == n && p->shared_parameter_types().size() == c) f(p); }
    bool remove(declaration const& d) { std::lock_guard l{m_}; for (auto i = d_.begin(); i != d_.end(); ++i) if (i->get() == &d) { d_.erase(i); return true; } return false; }
private:
    mutable std::mutex m_; std::vector<std::shared_ptr<declaration>> d_;
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
using provider = configurable_provider;
} // namespace function
namespace aggregate {
class declaration {
public:
    using definition_id_type = std::size_t; static constexpr std::string_view name_suffix_distinct = "$distinct"; static constexpr definition_id_type minimum_builtin_function_id = 10000; static constexpr definition_id_type minimum_user_function_id = 20000;
    using parameter_types_type = std::vector<std::shared_ptr<takatori::type::data const>>;
    struct parameter_def { std::shared_ptr<takatori::type::data const> t; template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>> parameter_def(T&& x) : t(std::make_shared<std::decay_t<T>>(std::forward<T>(x))) {} };
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>>
    declaration(definition_id_type id, std::string n, T&& r, std::vector<parameter_def> p, bool inc = false) : id_(id), n_(std::move(n)), r_(std::make_shared<std::decay_t<T>>(std::forward<T>(r))), inc_(inc) { for (auto& x : p) p_.push_back(x.t); }
    definition_id_type definition_id() const { return id_; } std::string_view name() const { return n_; } takatori::type::data const& return_type() const { return *r_; } std::shared_ptr<takatori::type::data const> shared_return_type() const { return r_; }
    parameter_types_type const& shared_parameter_types() const { return p_; } bool incremental() const { return inc_; }
    explicit operator bool() const { return true; }
private:
    definition_id_type id_; std::string n_; std::shared_ptr<takatori::type::data const> r_; parameter_types_type p_; bool inc_;
};
template <class M> class basic_configurable_provider {
public:
    std::shared_ptr<declaration const> add(std::shared_ptr<declaration> d, bool = false) { d_.push_back(d); return d; }
    std::shared_ptr<declaration const> add(declaration d, bool = false) { return add(std::make_shared<declaration>(std::move(d))); }
    template <class F> void each(F&& f) const { for (auto& p : d_) f(p); }
private:
    std::vector<std::shared_ptr<declaration>> d_;
};
using configurable_provider = basic_configurable_provider<std::mutex>; using provider = configurable_provider;
} // namespace aggregate
namespace schema {
class declaration;
class provider { public: virtual ~provider() = default; };
class configurable_provider : public provider { public: std::shared_ptr<declaration> const& add(declaration d); std::vector<std::shared_ptr<declaration>> d_; };
class search_path { public: search_path(std::initializer_list<std::shared_ptr<declaration const>> l) : e(l) {} std::vector<std::shared_ptr<declaration const>> e; };
class catalog { public: explicit catalog(std::string n) : n_(std::move(n)) {} void schema_provider(std::shared_ptr<provider const> p) { p_ = std::move(p); } private: std::string n_; std::shared_ptr<provider const> p_; };
}
namespace storage { class provider; }
namespace schema {
class declaration {
public:
    using definition_id_type = std::size_t;
    explicit declaration(std::string n = {}) : n_(std::move(n)) {}
    struct none_ { };
    declaration(std::optional<definition_id_type>, std::string n, std::shared_ptr<storage::provider const> s, none_, std::shared_ptr<function::configurable_provider const> f, std::shared_ptr<aggregate::configurable_provider const> a) : n_(std::move(n)), s_(std::move(s)), f_(std::move(f)), a_(std::move(a)) {}
    std::string_view name() const { return n_; }
    storage::provider const& storage_provider() const { return *s_; } std::shared_ptr<storage::provider const> shared_storage_provider() const { return s_; }
    function::configurable_provider const& function_provider() const { return *f_; } aggregate::configurable_provider const& set_function_provider() const { return *a_; }
private: std::string n_; std::shared_ptr<storage::provider const> s_; std::shared_ptr<function::configurable_provider const> f_; std::shared_ptr<aggregate::configurable_provider const> a_;
};
inline std::shared_ptr<declaration> const& configurable_provider::add(declaration d) { d_.push_back(std::make_shared<declaration>(std::move(d))); return d_.back(); }
}
namespace storage {
using takatori::relation::sort_direction;
using takatori::util::sequence_view; using takatori::util::reference_vector;
class column; class table; class index; class sequence;
enum class column_feature { synthesized, hidden, identity, read_only };
inline std::ostream& operator<<(std::ostream& o, column_feature f) { return o << static_cast<int>(f); }
using column_feature_set = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& o, index_feature f) { static char const* const n[] = {"primary", "find", "scan", "unique", "unique_constraint"}; return o << n[static_cast<int>(f)]; }
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
enum class relation_kind { table, view };
inline std::ostream& operator<<(std::ostream& o, relation_kind f) { return o << static_cast<int>(f); }
enum class column_value_kind { nothing, immediate, sequence, function };
inline std::ostream& operator<<(std::ostream& o, column_value_kind f) { return o << static_cast<int>(f); }

class sequence {
public:
    using definition_id_type = std::size_t;
    static constexpr std::int64_t default_initial_value = 0, default_increment_value = 1, default_min_value = 0, default_max_value = std::numeric_limits<std::int64_t>::max();
    static constexpr bool default_cycle = true;
    sequence(std::optional<definition_id_type> id, std::string n, std::int64_t i = default_initial_value, std::int64_t inc = default_increment_value, std::int64_t mn = default_min_value, std::int64_t mx = default_max_value, bool c = default_cycle, std::string d = {}) : id_(id), n_(std::move(n)), i_(i), inc_(inc), mn_(mn), mx_(mx), c_(c), desc_(std::move(d)) {}
    explicit sequence(std::string n, std::int64_t i = default_initial_value, std::int64_t inc = default_increment_value, std::int64_t mn = default_min_value, std::int64_t mx = default_max_value, bool c = default_cycle, std::string d = {}) : sequence(std::nullopt, std::move(n), i, inc, mn, mx, c, std::move(d)) {}
    std::optional<definition_id_type> definition_id() const { return id_; } sequence& definition_id(std::optional<definition_id_type> v) { id_ = v; return *this; }
    std::string_view simple_name() const { return n_; } sequence& simple_name(std::string v) { n_ = std::move(v); return *this; }
    std::int64_t initial_value() const { return i_; } std::int64_t increment_value() const { return inc_; } std::int64_t min_value() const { return mn_; } std::int64_t max_value() const { return mx_; } bool cycle() const { return c_; }
    sequence& initial_value(std::int64_t v) { i_ = v; return *this; } sequence& increment_value(std::int64_t v) { inc_ = v; return *this; } sequence& min_value(std::int64_t v) { mn_ = v; return *this; } sequence& max_value(std::int64_t v) { mx_ = v; return *this; } sequence& cycle(bool v) { c_ = v; return *this; }
    std::string const& description() const { return desc_; }
    friend std::ostream& operator<<(std::ostream& o, sequence const& s) { return o << "sequence " << s.n_; }
private:
    std::optional<definition_id_type> id_; std::string n_; std::int64_t i_, inc_, mn_, mx_; bool c_; std::string desc_;
};
class column_value {
public:
    column_value() = default; column_value(std::nullptr_t) {}
    column_value(std::shared_ptr<takatori::value::data const> v) { if (v) v_ = std::move(v); }
    column_value(std::shared_ptr<storage::sequence const> v) { if (v) v_ = std::move(v); }
    column_value(std::shared_ptr<function::declaration const> v) { if (v) v_ = std::move(v); }
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::value::data, T>>, class = void> column_value(std::shared_ptr<T> v) : v_(std::shared_ptr<takatori::value::data const>(std::move(v))) {}
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::value::data, std::decay_t<T>>>> column_value(T&& v) : v_(std::shared_ptr<takatori::value::data const>(std::make_shared<std::decay_t<T>>(std::forward<T>(v)))) {}
    column_value_kind kind() const { return static_cast<column_value_kind>(v_.index()); }
    explicit operator bool() const { return v_.index() != 0; }
    template <column_value_kind K> auto const& element() const { return std::get<static_cast<std::size_t>(K)>(v_); }
    friend std::ostream& operator<<(std::ostream& o, column_value const& v) { return o << "column_value" << v.v_.index(); }
private:
    std::variant<std::monostate, std::shared_ptr<takatori::value::data const>, std::shared_ptr<storage::sequence const>, std::shared_ptr<function::declaration const>> v_{};
};
class relation;
class column {
public:
    using feature_set_type = column_feature_set;
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>>
    column(std::string n, T&& t, variable::criteria c = {}, column_value d = {}, feature_set_type f = {}, std::string desc = {}) : column(std::move(n), std::shared_ptr<takatori::type::data const>(std::make_shared<std::decay_t<T>>(std::forward<T>(t))), c, std::move(d), f, std::move(desc)) {}
    template <class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, std::decay_t<T>>>>
    column(std::string n, T&& t, variable::nullity c, column_value d = {}, feature_set_type f = {}, std::string desc = {}) : column(std::move(n), std::shared_ptr<takatori::type::data const>(std::make_shared<std::decay_t<T>>(std::forward<T>(t))), variable::criteria{c}, std::move(d), f, std::move(desc)) {}
    column(std::string n, std::shared_ptr<takatori::type::data const> t, variable::criteria c, column_value d = {}, feature_set_type f = {}, std::string desc = {}) : n_(std::move(n)), t_(std::move(t)), c_(c), d_(std::move(d)), f_(f), desc_(std::move(desc)) {}
    std::string_view simple_name() const { return n_; } takatori::type::data const& type() const { return *t_; } takatori::util::optional_ptr<takatori::type::data const> optional_type() const { return takatori::util::optional_ptr<takatori::type::data const>(t_.get()); }
    std::shared_ptr<takatori::type::data const> shared_type() const { return t_; } void type(std::shared_ptr<takatori::type::data const> t) { t_ = std::move(t); }
    variable::criteria& criteria() { return c_; } variable::criteria const& criteria() const { return c_; }
    column_value& default_value() { return d_; } column_value const& default_value() const { return d_; }
    feature_set_type& features() { return f_; } feature_set_type const& features() const { return f_; }
    std::string const& description() const { return desc_; }
    relation const& owner() const { return *o_; } takatori::util::optional_ptr<relation const> optional_owner() const { return takatori::util::optional_ptr<relation const>(o_); }
    void bind(relation const* o) { o_ = o; }
    std::unique_ptr<column> clone() const { return std::make_unique<column>(*this); }
    friend bool operator==(column const& a, column const& b); friend bool operator!=(column const& a, column const& b) { return !(a == b); }   // by name: an index keeps referring to the replaced definition of a truncated table
    friend std::ostream& operator<<(std::ostream& o, column const& c) { return o << "column " << c.n_; }
private:
    std::string n_; std::shared_ptr<takatori::type::data const> t_; variable::criteria c_; column_value d_; feature_set_type f_; std::string desc_; relation const* o_{};
};
class column_list_view { public: using iterator = reference_vector<column>::const_iterator; column_list_view(reference_vector<column> const& c) : c_(&c) {} auto begin() const { return c_->begin(); } auto end() const { return c_->end(); } std::size_t size() const { return c_->size(); } bool empty() const { return c_->empty(); } column const& operator[](std::size_t i) const { return (*c_)[i]; } column const& front() const { return c_->front(); } column const& back() const { return c_->back(); } private: reference_vector<column> const* c_; };
class relation {
public:
    virtual ~relation() = default; virtual relation_kind kind() const = 0; virtual std::string_view simple_name() const = 0; virtual column_list_view columns() const = 0;
    friend bool operator==(relation const& a, relation const& b) { return &a == &b; } friend bool operator!=(relation const& a, relation const& b) { return &a != &b; }
    friend std::ostream& operator<<(std::ostream& o, relation const& r) { return o << "relation " << r.simple_name(); }
};
inline bool operator==(column const& a, column const& b) { return &a == &b || (a.n_ == b.n_ && a.o_ && b.o_ && a.o_->simple_name() == b.o_->simple_name()); }
class table : public relation {
public:
    using definition_id_type = std::size_t; static constexpr relation_kind tag = relation_kind::table; using column_vector_type = reference_vector<column>;
    table(std::optional<definition_id_type> id, std::string n, reference_vector<column> c, std::string d = {}) : id_(id), n_(std::move(n)), c_(std::move(c)), desc_(std::move(d)) { bind(); }
    table(std::string_view n, std::initializer_list<column> c, std::string d = {}) : n_(n), desc_(std::move(d)) { for (auto& x : c) c_.push_back(x); bind(); }
    table(std::optional<definition_id_type> id, std::string n, std::initializer_list<column> c, std::string d = {}) : table(std::move(n), c, std::move(d)) { id_ = id; }
    table(table&& o) noexcept : id_(o.id_), n_(std::move(o.n_)), c_(std::move(o.c_)), desc_(std::move(o.desc_)) { bind(); }
    relation_kind kind() const override { return tag; }
    std::optional<definition_id_type> definition_id() const { return id_; } table& definition_id(std::optional<definition_id_type> v) { id_ = v; return *this; }
    std::string_view simple_name() const override { return n_; } table& simple_name(std::string v) { n_ = std::move(v); return *this; }
    column_list_view columns() const override { return column_list_view(c_); } reference_vector<column>& columns() { return c_; }
    std::string const& description() const { return desc_; }
    takatori::util::optional_ptr<storage::provider const> owner() const { return takatori::util::optional_ptr<storage::provider const>(o_); } void owner(storage::provider const* o) { o_ = o; }
private:
    storage::provider const* o_{};
    void bind() { for (auto& x : c_) x.bind(this); }
    std::optional<definition_id_type> id_; std::string n_; reference_vector<column> c_; std::string desc_;
};
namespace details {
class index_key_element {
public:
    index_key_element(storage::column const& c, sort_direction d = sort_direction::ascendant) : c_(&c), d_(d) {}
    storage::column const& column() const { return *c_; } sort_direction direction() const { return d_; }
    friend bool operator==(index_key_element const& a, index_key_element const& b) { return a.c_ == b.c_ && a.d_ == b.d_; }
    friend std::ostream& operator<<(std::ostream& o, index_key_element const& k) { return o << *k.c_; }
private: storage::column const* c_; sort_direction d_;
};
}
class index {
public:
    using key = details::index_key_element; using column_ref = std::reference_wrapper<storage::column const>; using definition_id_type = std::size_t; using feature_set_type = index_feature_set;
    index(std::optional<definition_id_type> id, std::shared_ptr<storage::table const> t, std::string n, std::vector<key> k, std::vector<column_ref> v, feature_set_type f, std::string d = {}) : id_(id), t_(std::move(t)), n_(std::move(n)), k_(std::move(k)), v_(std::move(v)), f_(f), desc_(std::move(d)) {}
    index(std::shared_ptr<storage::table const> t, std::string_view n, std::vector<key> k, std::vector<column_ref> v = {}, feature_set_type f = {index_feature::find, index_feature::scan}, std::string d = {}) : index(std::nullopt, std::move(t), std::string(n), std::move(k), std::move(v), f) {}
    std::optional<definition_id_type> definition_id() const { return id_; } index& definition_id(std::optional<definition_id_type> v) { id_ = v; return *this; }
    storage::table const& table() const { return *t_; } std::shared_ptr<storage::table const> shared_table() const { return t_; }
    std::string_view simple_name() const { return n_; } index& simple_name(std::string v) { n_ = std::move(v); return *this; }
    std::vector<key>& keys() { return k_; } std::vector<key> const& keys() const { return k_; } std::vector<column_ref>& values() { return v_; } std::vector<column_ref> const& values() const { return v_; }
    feature_set_type& features() { return f_; } feature_set_type const& features() const { return f_; }
    std::string const& description() const { return desc_; }
    friend bool operator==(index const& a, index const& b) { return a.n_ == b.n_; } friend bool operator!=(index const& a, index const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, index const& i) { return o << "index " << i.n_; }
private:
    std::optional<definition_id_type> id_; std::shared_ptr<storage::table const> t_; std::string n_; std::vector<key> k_; std::vector<column_ref> v_; feature_set_type f_; std::string desc_;
};
class provider {
public:
    virtual ~provider() = default;
    using relation_consumer_type = std::function<void(std::string_view, std::shared_ptr<relation const> const&)>; using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>; using sequence_consumer_type = std::function<void(std::string_view, std::shared_ptr<sequence const> const&)>;
    virtual std::shared_ptr<relation const> find_relation(std::string_view) const = 0; virtual std::shared_ptr<table const> find_table(std::string_view) const = 0; virtual std::shared_ptr<index const> find_index(std::string_view) const = 0; virtual std::shared_ptr<sequence const> find_sequence(std::string_view) const = 0;
    virtual std::shared_ptr<index const> find_primary_index(table const& t) const = 0;
    virtual void each_table_index(table const& t, index_consumer_type const& f) const = 0;
};
template <class M> class basic_configurable_provider : public provider {
public:
    basic_configurable_provider() = default;
    std::shared_ptr<relation const> find_relation(std::string_view n) const override { return find_table(n); }
    std::shared_ptr<table const> find_table(std::string_view n) const override { std::shared_lock l{m_}; return get(t_, n); }
    std::shared_ptr<index const> find_index(std::string_view n) const override { std::shared_lock l{m_}; return get(i_, n); }
    std::shared_ptr<sequence const> find_sequence(std::string_view n) const override { std::shared_lock l{m_}; return get(s_, n); }
    template <class F> void each_relation(F&& f) const { std::shared_lock l{m_}; for (auto& [n, p] : t_) f(std::string_view(n), std::shared_ptr<relation const>(p)); }
    template <class F> void each_index(F&& f) const { std::shared_lock l{m_}; for (auto& [n, p] : i_) f(std::string_view(n), std::shared_ptr<index const>(p)); }
    void each_table_index(table const& t, index_consumer_type const& f) const override { std::shared_lock l{m_}; for (auto& [n, p] : i_) if (p->table().simple_name() == t.simple_name()) f(std::string_view(n), std::shared_ptr<index const>(p)); }
    template <class F> void each_sequence(F&& f) const { std::shared_lock l{m_}; for (auto& [n, p] : s_) f(std::string_view(n), std::shared_ptr<sequence const>(p)); }
    std::shared_ptr<index const> find_primary_index(table const& t) const override { std::shared_lock l{m_}; for (auto& [n, p] : i_) if (p->table().simple_name() == t.simple_name() && p->features().contains(index_feature::primary)) return p; return {}; }
    std::shared_ptr<table> add_table(std::shared_ptr<table> t, bool ow = false) { t->owner(this); return put(t_, std::move(t), ow); }
    std::shared_ptr<table> add_table(table t, bool ow = false) { return add_table(std::make_shared<table>(std::move(t)), ow); }
    std::shared_ptr<table const> add_table(std::shared_ptr<table const> t, bool ow = false) { std::const_pointer_cast<table>(t)->owner(this); put(t_, std::const_pointer_cast<table>(t), ow); return t; }
    std::shared_ptr<table> add_relation(std::shared_ptr<table> t, bool ow = false) { t->owner(this); return put(t_, std::move(t), ow); }
    std::shared_ptr<index> add_index(std::shared_ptr<index> t, bool ow = false) { return put(i_, std::move(t), ow); }
    std::shared_ptr<index const> add_index(std::shared_ptr<index const> t, bool ow = false) { put(i_, std::const_pointer_cast<index>(t), ow); return t; }
    std::shared_ptr<sequence const> add_sequence(std::shared_ptr<sequence const> t, bool ow = false) { put(s_, std::const_pointer_cast<sequence>(t), ow); return t; }
    std::shared_ptr<index> add_index(index t, bool ow = false) { return add_index(std::make_shared<index>(std::move(t)), ow); }
    std::shared_ptr<sequence> add_sequence(std::shared_ptr<sequence> t, bool ow = false) { return put(s_, std::move(t), ow); }
    std::shared_ptr<sequence> add_sequence(sequence t, bool ow = false) { return add_sequence(std::make_shared<sequence>(std::move(t)), ow); }
    bool remove_relation(std::string_view n) { std::unique_lock l{m_}; return t_.erase(std::string(n)) > 0; }
    bool remove_index(std::string_view n) { std::unique_lock l{m_}; return i_.erase(std::string(n)) > 0; }
    bool remove_sequence(std::string_view n) { std::unique_lock l{m_}; return s_.erase(std::string(n)) > 0; }
private:
    template <class Map> static typename Map::mapped_type get(Map const& m, std::string_view n) { auto i = m.find(std::string(n)); return i == m.end() ? nullptr : i->second; }
    template <class T> std::shared_ptr<T> put(std::map<std::string, std::shared_ptr<T>>& m, std::shared_ptr<T> p, bool ow) { std::unique_lock l{m_}; std::string n{p->simple_name()}; if (!ow && m.count(n)) throw std::invalid_argument(n); m[n] = p; return p; }
    mutable std::shared_mutex m_; std::map<std::string, std::shared_ptr<table>> t_; std::map<std::string, std::shared_ptr<index>> i_; std::map<std::string, std::shared_ptr<sequence>> s_;
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
class prototype_processor {
public:
    struct diagnostic { std::string m; }; using diagnostic_consumer_type = std::function<void(diagnostic)>;
    virtual ~prototype_processor() = default;
    virtual bool ensure(schema::declaration const&, table&, index&, diagnostic_consumer_type const&) { return true; }
    virtual bool ensure(schema::declaration const&, index&, diagnostic_consumer_type const&) { return true; }
};
using basic_prototype_processor = prototype_processor;
} // namespace storage
} // namespace yugawara
