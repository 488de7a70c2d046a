// Stand-in for takatori's descriptors, scalar and relational expressions, plans and statements, and yugawara's bindings,
// compiled_info and block analysis: plain data structures that the simulated SQL front end (standin/src/sql.cpp) fills.
#pragma once
#include "t_util.h"
#include "t_type.h"
#include "t_decimal.h"
#include "t_datetime.h"
#include "yugawara.h"
#include <any>
#include <deque>
#include <functional>
#include <unordered_map>
#include <unordered_set>

namespace takatori::document { class region_; }
namespace takatori::descriptor {
// what a descriptor denotes: filled by yugawara::binding::factory
struct object { virtual ~object() = default; };
enum class descriptor_kind { variable, relation, function, aggregate_function, storage, index, declared_type, schema };
template <descriptor_kind K> class element {
public:
    using reference_type = std::uintptr_t; using entity_type = object; static constexpr descriptor_kind tag = K;
    element() = default;
    element(std::shared_ptr<object const> e, void const* id) : e_(std::move(e)), id_(id) {}
    reference_type reference() const noexcept { return reinterpret_cast<reference_type>(id_); }
    entity_type const& entity() const { return *e_; }
    takatori::util::optional_ptr<entity_type const> optional_entity() const noexcept { return takatori::util::optional_ptr<entity_type const>(e_.get()); }
    std::shared_ptr<object const> const& shared_entity() const noexcept { return e_; }
    explicit operator bool() const noexcept { return e_ != nullptr; }
    friend bool operator==(element const& a, element const& b) noexcept { return a.id_ == b.id_; }
    friend bool operator!=(element const& a, element const& b) noexcept { return a.id_ != b.id_; }
    friend std::ostream& operator<<(std::ostream& o, element const& e) { return o << "descriptor@" << e.id_; }
private:
    std::shared_ptr<object const> e_{}; void const* id_{};
};
using variable = element<descriptor_kind::variable>; using relation = element<descriptor_kind::relation>; using function = element<descriptor_kind::function>;
using aggregate_function = element<descriptor_kind::aggregate_function>; using storage = element<descriptor_kind::storage>; using index = element<descriptor_kind::index>; using schema = element<descriptor_kind::schema>; using declared_type = element<descriptor_kind::declared_type>;
}
template <takatori::descriptor::descriptor_kind K> struct std::hash<takatori::descriptor::element<K>> { std::size_t operator()(takatori::descriptor::element<K> const& e) const noexcept { return std::hash<std::uintptr_t>{}(e.reference()); } };

namespace takatori::tree {
template <class T> class tree_fragment_vector : public takatori::util::reference_vector<T> { public: using takatori::util::reference_vector<T>::reference_vector; };
template <class T> class tree_element_vector : public takatori::util::reference_vector<T> { public: using takatori::util::reference_vector<T>::reference_vector; };
}
namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << "scalar" << static_cast<int>(k); }
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
enum class cast_loss_policy { unknown, ignore, floor, ceil, warn, error };
enum class match_operator { like, similar };
inline std::ostream& operator<<(std::ostream& o, unary_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, binary_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, comparison_operator k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, cast_loss_policy k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, match_operator k) { return o << static_cast<int>(k); }
class expression { public: virtual ~expression() = default; virtual expression_kind kind() const noexcept = 0; virtual std::unique_ptr<expression> clone() const { throw std::logic_error("clone"); } friend std::ostream& operator<<(std::ostream& o, expression const& e) { return o << "scalar" << static_cast<int>(e.kind()); } };
using eptr = std::unique_ptr<expression>;
using evec = takatori::tree::tree_fragment_vector<expression>;
template <expression_kind K> struct ebase : expression { static constexpr expression_kind tag = K; expression_kind kind() const noexcept override { return K; } };
class immediate : public ebase<expression_kind::immediate> { public: immediate(std::shared_ptr<value::data const> v, std::shared_ptr<type::data const> t) : v_(std::move(v)), t_(std::move(t)) {} value::data const& value() const { return *v_; } type::data const& type() const { return *t_; } std::shared_ptr<value::data const> shared_value() const { return v_; } std::shared_ptr<type::data const> shared_type() const { return t_; } private: std::shared_ptr<value::data const> v_; std::shared_ptr<type::data const> t_; };
class variable_reference : public ebase<expression_kind::variable_reference> { public: explicit variable_reference(descriptor::variable v) : v_(std::move(v)) {} descriptor::variable& variable() { return v_; } descriptor::variable const& variable() const { return v_; } private: descriptor::variable v_; };
class unary : public ebase<expression_kind::unary> { public: using operator_kind_type = unary_operator; unary(unary_operator k, eptr e) : k_(k), e_(std::move(e)) {} unary_operator operator_kind() const { return k_; } expression const& operand() const { return *e_; } private: unary_operator k_; eptr e_; };
class cast : public ebase<expression_kind::cast> { public: cast(std::shared_ptr<type::data const> t, cast_loss_policy p, eptr e) : t_(std::move(t)), p_(p), e_(std::move(e)) {} type::data const& type() const { return *t_; } cast_loss_policy loss_policy() const { return p_; } expression const& operand() const { return *e_; } private: std::shared_ptr<type::data const> t_; cast_loss_policy p_; eptr e_; };
class binary : public ebase<expression_kind::binary> { public: using operator_kind_type = binary_operator; binary(binary_operator k, eptr l, eptr r) : k_(k), l_(std::move(l)), r_(std::move(r)) {} binary_operator operator_kind() const { return k_; } expression const& left() const { return *l_; } expression const& right() const { return *r_; } private: binary_operator k_; eptr l_, r_; };
class compare : public ebase<expression_kind::compare> { public: using operator_kind_type = comparison_operator; compare(comparison_operator k, eptr l, eptr r) : k_(k), l_(std::move(l)), r_(std::move(r)) {} comparison_operator operator_kind() const { return k_; } expression const& left() const { return *l_; } expression const& right() const { return *r_; } private: comparison_operator k_; eptr l_, r_; };
class match : public ebase<expression_kind::match> { public: using operator_kind_type = match_operator; match(match_operator k, eptr i, eptr p, eptr e) : k_(k), i_(std::move(i)), p_(std::move(p)), e_(std::move(e)) {} match_operator operator_kind() const { return k_; } expression const& input() const { return *i_; } expression const& pattern() const { return *p_; } expression const& escape() const { return *e_; } takatori::util::optional_ptr<expression const> optional_escape() const { return takatori::util::optional_ptr<expression const>(e_.get()); } private: match_operator k_; eptr i_, p_, e_; };
class conditional : public ebase<expression_kind::conditional> { public: struct alternative { eptr c, b; expression const& condition() const { return *c; } expression const& body() const { return *b; } }; std::deque<alternative> const& alternatives() const { return a_; } std::deque<alternative>& alternatives() { return a_; } takatori::util::optional_ptr<expression const> default_expression() const { return takatori::util::optional_ptr<expression const>(d_.get()); } eptr d_; private: std::deque<alternative> a_; };
class coalesce : public ebase<expression_kind::coalesce> { public: evec const& alternatives() const { return a_; } evec& alternatives() { return a_; } private: evec a_; };
class let : public ebase<expression_kind::let> {};
class function_call : public ebase<expression_kind::function_call> { public: explicit function_call(descriptor::function f) : f_(std::move(f)) {} descriptor::function const& function() const { return f_; } evec const& arguments() const { return a_; } evec& arguments() { return a_; } private: descriptor::function f_; evec a_; };
class extension : public ebase<expression_kind::extension> {};
template <class F> decltype(auto) dispatch(F&& f, expression const& e) {
    switch (e.kind()) {
        case expression_kind::immediate: return f(static_cast<immediate const&>(e)); case expression_kind::variable_reference: return f(static_cast<variable_reference const&>(e)); case expression_kind::unary: return f(static_cast<unary const&>(e)); case expression_kind::cast: return f(static_cast<cast const&>(e));
        case expression_kind::binary: return f(static_cast<binary const&>(e)); case expression_kind::compare: return f(static_cast<compare const&>(e)); case expression_kind::match: return f(static_cast<match const&>(e)); case expression_kind::conditional: return f(static_cast<conditional const&>(e)); case expression_kind::coalesce: return f(static_cast<coalesce const&>(e));
        case expression_kind::let: return f(static_cast<let const&>(e)); case expression_kind::function_call: return f(static_cast<function_call const&>(e)); case expression_kind::extension: return f(static_cast<extension const&>(e));
    }
    std::abort();
}
}
namespace takatori::graph {
template <class E> class graph;
template <class E> class port {
public:
    enum class dir { in, out }; port(E& o, dir d, std::size_t i) : o_(&o), d_(d), i_(i) {} E& owner() { return *o_; } E const& owner() const { return *o_; } std::size_t index() const { return i_; }
    takatori::util::optional_ptr<port> opposite() { return takatori::util::optional_ptr<port>(p_); } takatori::util::optional_ptr<port const> opposite() const { return takatori::util::optional_ptr<port const>(p_); }
    void connect_to(port& q) { p_ = &q; q.p_ = this; } port& operator>>(port& q) { connect_to(q); return q; }
private: E* o_; dir d_; std::size_t i_; port* p_{};
};
template <class E> class graph {
    using store = std::vector<std::unique_ptr<E>>;
public:
    using expression_type = E; using iterator = takatori::util::reference_iterator<typename store::iterator>; using const_iterator = takatori::util::reference_iterator<typename store::const_iterator>;
    graph() = default; graph(graph&&) noexcept = default; graph& operator=(graph&&) noexcept = default;
    template <class T, class... A> T& emplace(A&&... a) { auto p = std::make_unique<T>(std::forward<A>(a)...); auto& r = *p; v_.push_back(std::move(p)); return r; }
    E& insert(std::unique_ptr<E> p) { v_.push_back(std::move(p)); return *v_.back(); }
    iterator begin() { return iterator(v_.begin()); } iterator end() { return iterator(v_.end()); }
    struct const_it { typename store::const_iterator i; E const& operator*() const { return **i; } E const* operator->() const { return i->get(); } const_it& operator++() { ++i; return *this; } bool operator==(const_it const& o) const { return i == o.i; } bool operator!=(const_it const& o) const { return i != o.i; } };
    const_it begin() const { return const_it{v_.begin()}; } const_it end() const { return const_it{v_.end()}; } std::size_t size() const { return v_.size(); } bool empty() const { return v_.empty(); }
private: store v_;
};
}
namespace takatori::relation {
enum class expression_kind { find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write, join_relation, intersection_relation, difference_relation, aggregate_relation, distinct_relation, limit_relation, union_relation, escape, join_group, aggregate_group, intersection_group, difference_group, flatten_group, take_flat, take_group, take_cogroup, offer };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << "relation" << static_cast<int>(k); }
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
enum class join_kind { inner, left_outer, full_outer, semi, anti, left_outer_at_most_one };
enum class apply_kind { cross, outer };
enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& o, write_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, join_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, apply_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, endpoint_kind k) { return o << static_cast<int>(k); }
inline std::string_view to_string_view(expression_kind) { return "expression"; } inline std::string_view to_string_view(join_kind) { return "join"; } inline std::string_view to_string_view(write_kind) { return "write"; }
class expression {
public:
    using port_type = graph::port<expression>; using input_port_type = port_type; using output_port_type = port_type;
    virtual ~expression() = default; virtual expression_kind kind() const noexcept = 0;
    std::deque<port_type>& input_ports() { return in_; } std::deque<port_type> const& input_ports() const { return in_; } std::deque<port_type>& output_ports() { return out_; } std::deque<port_type> const& output_ports() const { return out_; }
    port_type& input() { return in_.at(0); } port_type const& input() const { return in_.at(0); } port_type& output() { return out_.at(0); } port_type const& output() const { return out_.at(0); }
    port_type& left() { return in_.at(0); } port_type const& left() const { return in_.at(0); } port_type& right() { return in_.at(1); }
    friend std::ostream& operator<<(std::ostream& o, expression const& e) { return o << e.kind(); }
protected:
    expression(int i, int o) { for (int k = 0; k < i; ++k) in_.emplace_back(*this, port_type::dir::in, k); for (int k = 0; k < o; ++k) out_.emplace_back(*this, port_type::dir::out, k); }
    std::deque<port_type> in_, out_;
};
using graph_type = graph::graph<expression>; using takatori::graph::graph;
template <expression_kind K, int I, int O> struct rbase : expression { static constexpr expression_kind tag = K; rbase(int i = I, int o = O) : expression(i, o) {} expression_kind kind() const noexcept override { return K; } };
namespace details {
class mapping_element { public: mapping_element(descriptor::variable s, descriptor::variable d) : s_(std::move(s)), d_(std::move(d)) {} descriptor::variable const& source() const { return s_; } descriptor::variable const& destination() const { return d_; } descriptor::variable& source() { return s_; } descriptor::variable& destination() { return d_; } private: descriptor::variable s_, d_; };
class search_key_element { public: search_key_element(descriptor::variable v, scalar::eptr e) : v_(std::move(v)), e_(std::move(e)) {} descriptor::variable const& variable() const { return v_; } scalar::expression const& value() const { return *e_; } private: descriptor::variable v_; std::shared_ptr<scalar::expression> e_; };
class search_endpoint { public: using kind_type = endpoint_kind; search_endpoint() = default; search_endpoint(endpoint_kind k, takatori::tree::tree_fragment_vector<search_key_element> v) : k_(k), v_(std::move(v)) {} endpoint_kind kind() const { return k_; } takatori::tree::tree_fragment_vector<search_key_element> const& keys() const { return v_; } takatori::tree::tree_fragment_vector<search_key_element>& keys() { return v_; } explicit operator bool() const { return k_ != endpoint_kind::unbound; } private: endpoint_kind k_{}; takatori::tree::tree_fragment_vector<search_key_element> v_; };
class emit_element { public: emit_element(descriptor::variable s, std::optional<std::string> n) : s_(std::move(s)), n_(std::move(n)) {} descriptor::variable const& source() const { return s_; } std::optional<std::string> const& name() const { return n_; } private: descriptor::variable s_; std::optional<std::string> n_; };
class project_element { public: project_element(descriptor::variable v, scalar::eptr e) : v_(std::move(v)), e_(std::move(e)) {} descriptor::variable const& variable() const { return v_; } scalar::expression const& value() const { return *e_; } private: descriptor::variable v_; std::shared_ptr<scalar::expression> e_; };
class values_row { public: scalar::evec const& elements() const { return e_; } scalar::evec& elements() { return e_; } private: scalar::evec e_; };
class apply_column { public: apply_column(std::size_t p, descriptor::variable v) : p_(p), v_(std::move(v)) {} std::size_t position() const { return p_; } descriptor::variable const& variable() const { return v_; } private: std::size_t p_; descriptor::variable v_; };
class aggregate_element { public: aggregate_element(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d) : f_(std::move(f)), a_(std::move(a)), d_(std::move(d)) {} descriptor::aggregate_function const& function() const { return f_; } std::vector<descriptor::variable> const& arguments() const { return a_; } descriptor::variable const& destination() const { return d_; } private: descriptor::aggregate_function f_; std::vector<descriptor::variable> a_; descriptor::variable d_; };
class cogroup_element { public: cogroup_element(descriptor::relation s, std::vector<mapping_element> c) : s_(std::move(s)), c_(std::move(c)) {} descriptor::relation const& source() const { return s_; } std::vector<mapping_element> const& columns() const { return c_; } private: descriptor::relation s_; std::vector<mapping_element> c_; };
}
using mapping = details::mapping_element;
class find : public rbase<expression_kind::find, 0, 1> { public: using column = details::mapping_element; using key = details::search_key_element; descriptor::relation source_; std::vector<column> columns_; takatori::tree::tree_fragment_vector<key> keys_; descriptor::relation const& source() const { return source_; } std::vector<column> const& columns() const { return columns_; } takatori::tree::tree_fragment_vector<key> const& keys() const { return keys_; } };
class scan : public rbase<expression_kind::scan, 0, 1> { public: using column = details::mapping_element; using endpoint = details::search_endpoint; descriptor::relation source_; std::vector<column> columns_; endpoint lower_, upper_; std::optional<std::size_t> limit_; descriptor::relation const& source() const { return source_; } std::vector<column> const& columns() const { return columns_; } endpoint const& lower() const { return lower_; } endpoint const& upper() const { return upper_; } std::optional<std::size_t> limit() const { return limit_; } };
template <expression_kind K> struct index_join_base : rbase<K, 1, 1> { using operator_kind_type = join_kind; join_kind kind_{}; descriptor::relation source_; std::vector<details::mapping_element> columns_; scalar::eptr condition_; join_kind operator_kind() const { return kind_; } descriptor::relation const& source() const { return source_; } std::vector<details::mapping_element> const& columns() const { return columns_; } takatori::util::optional_ptr<scalar::expression const> condition() const { return takatori::util::optional_ptr<scalar::expression const>(condition_.get()); } };
class join_find : public index_join_base<expression_kind::join_find> { public: using column = details::mapping_element; using key = details::search_key_element; takatori::tree::tree_fragment_vector<key> keys_; takatori::tree::tree_fragment_vector<key> const& keys() const { return keys_; } };
class join_scan : public index_join_base<expression_kind::join_scan> { public: using column = details::mapping_element; using key = details::search_key_element; using endpoint = details::search_endpoint; endpoint lower_, upper_; endpoint const& lower() const { return lower_; } endpoint const& upper() const { return upper_; } };
class apply : public rbase<expression_kind::apply, 1, 1> { public: using operator_kind_type = apply_kind; apply_kind kind_{}; descriptor::function function_; scalar::evec arguments_; std::vector<details::apply_column> columns_; apply_kind operator_kind() const { return kind_; } descriptor::function const& function() const { return function_; } scalar::evec const& arguments() const { return arguments_; } std::vector<details::apply_column> const& columns() const { return columns_; } };
class project : public rbase<expression_kind::project, 1, 1> { public: using column = details::project_element; takatori::tree::tree_fragment_vector<column> columns_; takatori::tree::tree_fragment_vector<column> const& columns() const { return columns_; } };
class filter : public rbase<expression_kind::filter, 1, 1> { public: explicit filter(scalar::eptr c) : c_(std::move(c)) {} scalar::expression const& condition() const { return *c_; } private: scalar::eptr c_; };
class buffer : public rbase<expression_kind::buffer, 1, 0> { public: explicit buffer(int n) : rbase(1, n) {} };
class identify : public rbase<expression_kind::identify, 1, 1> {};
class emit : public rbase<expression_kind::emit, 1, 0> { public: using column = details::emit_element; std::vector<column> columns_; std::vector<column> const& columns() const { return columns_; } };
class write : public rbase<expression_kind::write, 1, 0> { public: using operator_kind_type = write_kind; using key = details::mapping_element; using column = details::mapping_element; write_kind kind_{}; descriptor::relation destination_; std::vector<key> keys_; std::vector<column> columns_; write_kind operator_kind() const { return kind_; } descriptor::relation const& destination() const { return destination_; } std::vector<key> const& keys() const { return keys_; } std::vector<column> const& columns() const { return columns_; } };
class values : public rbase<expression_kind::values, 0, 1> { public: using row = details::values_row; using column = descriptor::variable; std::vector<column> columns_; std::deque<row> rows_; std::vector<column> const& columns() const { return columns_; } std::deque<row> const& rows() const { return rows_; } };
namespace step {
class join : public rbase<expression_kind::join_group, 1, 1> { public: using operator_kind_type = join_kind; join_kind kind_{}; scalar::eptr condition_; join_kind operator_kind() const { return kind_; } takatori::util::optional_ptr<scalar::expression const> condition() const { return takatori::util::optional_ptr<scalar::expression const>(condition_.get()); } };
class aggregate : public rbase<expression_kind::aggregate_group, 1, 1> { public: using column = details::aggregate_element; std::vector<column> columns_; std::vector<column> const& columns() const { return columns_; } };
class intersection : public rbase<expression_kind::intersection_group, 1, 1> {}; class difference : public rbase<expression_kind::difference_group, 1, 1> {}; class flatten : public rbase<expression_kind::flatten_group, 1, 1> {};
class take_flat : public rbase<expression_kind::take_flat, 0, 1> { public: using column = details::mapping_element; descriptor::relation source_; std::vector<column> columns_; descriptor::relation const& source() const { return source_; } std::vector<column> const& columns() const { return columns_; } };
class take_group : public rbase<expression_kind::take_group, 0, 1> { public: using column = details::mapping_element; descriptor::relation source_; std::vector<column> columns_; descriptor::relation const& source() const { return source_; } std::vector<column> const& columns() const { return columns_; } };
class take_cogroup : public rbase<expression_kind::take_cogroup, 0, 1> { public: using column = details::mapping_element; using group = details::cogroup_element; std::vector<group> groups_; std::vector<group> const& groups() const { return groups_; } };
class offer : public rbase<expression_kind::offer, 1, 0> { public: using column = details::mapping_element; descriptor::relation destination_; std::vector<column> columns_; descriptor::relation const& destination() const { return destination_; } std::vector<column> const& columns() const { return columns_; } };
template <class F> decltype(auto) dispatch(F&& f, expression const& e) {
    using k = expression_kind;
    switch (e.kind()) {
#define TK_C(n) case k::n: return f(static_cast<relation::n const&>(e));
        TK_C(find) TK_C(scan) TK_C(values) TK_C(join_find) TK_C(join_scan) TK_C(apply) TK_C(project) TK_C(filter) TK_C(buffer) TK_C(identify) TK_C(emit) TK_C(write)
#undef TK_C
        case k::join_group: return f(static_cast<join const&>(e)); case k::aggregate_group: return f(static_cast<aggregate const&>(e)); case k::intersection_group: return f(static_cast<intersection const&>(e)); case k::difference_group: return f(static_cast<difference const&>(e)); case k::flatten_group: return f(static_cast<flatten const&>(e));
        case k::take_flat: return f(static_cast<take_flat const&>(e)); case k::take_group: return f(static_cast<take_group const&>(e)); case k::take_cogroup: return f(static_cast<take_cogroup const&>(e)); case k::offer: return f(static_cast<offer const&>(e));
        default: std::abort();
    }
}
}
template <class G, class F> void enumerate_top(G& g, F&& f) { for (auto& e : g) if (e.input_ports().empty()) f(e); }
template <class G, class F> void enumerate_bottom(G& g, F&& f) { for (auto& e : g) if (e.output_ports().empty()) f(e); }
template <class E, class F> void enumerate_downstream(E& e, F&& f) { for (auto& p : e.output_ports()) if (p.opposite()) f(p.opposite()->owner()); }
template <class E, class F> void enumerate_upstream(E& e, F&& f) { for (auto& p : e.input_ports()) if (p.opposite()) f(p.opposite()->owner()); }
template <class E, class F> void visit_down_(E& e, F& f) { f(e); enumerate_downstream(e, [&](auto& d) { visit_down_(d, f); }); }
template <class G, class F> void sort_from_upstream(G& g, F&& f) { enumerate_top(g, [&](auto& e) { visit_down_(e, f); }); }
}
namespace takatori::plan {
enum class step_kind { process, forward, group, aggregate, broadcast, discard };
enum class group_mode { equivalence, equivalence_or_whole };
inline std::ostream& operator<<(std::ostream& o, step_kind k) { return o << static_cast<int>(k); }
inline std::ostream& operator<<(std::ostream& o, group_mode k) { return o << static_cast<int>(k); }
class step { public: virtual ~step() = default; virtual step_kind kind() const noexcept = 0; friend bool operator==(step const& a, step const& b) { return &a == &b; } std::vector<step*> up_, down_; friend std::ostream& operator<<(std::ostream& o, step const& s) { return o << s.kind(); } };
template <class S> struct step_list { std::vector<step*> const* v; struct it { std::vector<step*>::const_iterator i; S& operator*() const { return static_cast<S&>(**i); } it& operator++() { ++i; return *this; } bool operator!=(it const& o) const { return i != o.i; } bool operator==(it const& o) const { return i == o.i; } }; it begin() const { return it{v->begin()}; } it end() const { return it{v->end()}; } std::size_t size() const { return v->size(); } bool empty() const { return v->empty(); } S& operator[](std::size_t i) const { return static_cast<S&>(*(*v)[i]); } };
class process; class exchange : public step { public: step_list<process> upstreams() const; step_list<process> downstreams() const; };
class process : public step { public: static constexpr step_kind tag = step_kind::process; step_kind kind() const noexcept override { return tag; } relation::graph_type& operators() { return g_; } relation::graph_type const& operators() const { return g_; } step_list<exchange> upstreams() const { return {&up_}; } step_list<exchange> downstreams() const { return {&down_}; } relation::graph_type g_; };
inline step_list<process> exchange::upstreams() const { return {&up_}; } inline step_list<process> exchange::downstreams() const { return {&down_}; }
class forward : public exchange { public: static constexpr step_kind tag = step_kind::forward; step_kind kind() const noexcept override { return tag; } std::vector<descriptor::variable> columns_; std::optional<std::size_t> limit_; std::vector<descriptor::variable> const& columns() const { return columns_; } std::optional<std::size_t> limit() const { return limit_; } };
struct sort_key { descriptor::variable v; relation::sort_direction d; descriptor::variable const& variable() const { return v; } relation::sort_direction direction() const { return d; } };
class group : public exchange { public: static constexpr step_kind tag = step_kind::group; using mode_type = group_mode; step_kind kind() const noexcept override { return tag; } std::vector<descriptor::variable> columns_, group_keys_; std::vector<sort_key> sort_keys_; std::optional<std::size_t> limit_; group_mode mode_{}; std::vector<descriptor::variable> const& columns() const { return columns_; } std::vector<descriptor::variable> const& group_keys() const { return group_keys_; } std::vector<sort_key> const& sort_keys() const { return sort_keys_; } std::optional<std::size_t> limit() const { return limit_; } group_mode mode() const { return mode_; } };
class aggregate : public exchange { public: static constexpr step_kind tag = step_kind::aggregate; step_kind kind() const noexcept override { return tag; } std::vector<descriptor::variable> source_columns_, destination_columns_, group_keys_; std::vector<relation::details::aggregate_element> aggregations_; group_mode mode_{}; std::vector<descriptor::variable> const& source_columns() const { return source_columns_; } std::vector<descriptor::variable> const& destination_columns() const { return destination_columns_; } std::vector<descriptor::variable> const& group_keys() const { return group_keys_; } std::vector<relation::details::aggregate_element> const& aggregations() const { return aggregations_; } group_mode mode() const { return mode_; } };
using graph_type = graph::graph<step>;
inline bool has_upstream(step const& s) { return !s.up_.empty(); } inline bool has_downstream(step const& s) { return !s.down_.empty(); }
template <class F> void enumerate_upstream(step const& s, F&& f) { for (auto* u : s.up_) f(*u); } template <class F> void enumerate_downstream(step const& s, F&& f) { for (auto* u : s.down_) f(*u); }
template <class G, class F> void enumerate_bottom(G& g, F&& f) { for (auto& s : g) if (s.down_.empty()) f(s); } template <class G, class F> void enumerate_top(G& g, F&& f) { for (auto& s : g) if (s.up_.empty()) f(s); }
template <class G, class F> void sort_from_upstream(G& g, F&& f) { std::set<step const*> done; std::size_t n = 0; while (n < g.size()) { bool any = false; for (auto& s : g) { if (done.count(&s)) continue; bool ok = true; for (auto* u : s.up_) ok = ok && done.count(u) != 0; if (!ok) continue; done.insert(&s); ++n; any = true; f(s); } if (!any) std::abort(); } }
inline void connect(step& a, step& b) { a.down_.push_back(&b); b.up_.push_back(&a); }
}
namespace takatori::statement {
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, grant_table, revoke_table, truncate_table, empty, rename_column, rename_index, rename_table };
inline std::ostream& operator<<(std::ostream& o, statement_kind k) { return o << "statement" << static_cast<int>(k); }
inline std::string_view to_string_view(statement_kind) { return "statement"; }
class statement { public: virtual ~statement() = default; virtual statement_kind kind() const noexcept = 0; std::any& runtime_hint() { return h_; } std::any const& runtime_hint() const { return h_; } private: std::any h_; };
template <statement_kind K> struct sbase : statement { static constexpr statement_kind tag = K; statement_kind kind() const noexcept override { return K; } };
class execute : public sbase<statement_kind::execute> { public: plan::graph_type& execution_plan() { return g_; } plan::graph_type const& execution_plan() const { return g_; } private: plan::graph_type g_; };
struct write_tuple { scalar::evec e; scalar::evec const& elements() const { return e; } scalar::evec& elements() { return e; } };
class write : public sbase<statement_kind::write> { public: using tuple = write_tuple; using column = descriptor::variable; using operator_kind_type = relation::write_kind; relation::write_kind kind_{}; descriptor::relation destination_; std::vector<descriptor::variable> columns_; std::deque<tuple> tuples_; relation::write_kind operator_kind() const { return kind_; } descriptor::relation const& destination() const { return destination_; } std::vector<descriptor::variable> const& columns() const { return columns_; } std::deque<tuple> const& tuples() const { return tuples_; } };
class create_table : public sbase<statement_kind::create_table> { public: descriptor::storage d; descriptor::storage pk; std::shared_ptr<void> keep; descriptor::storage const& definition() const { return d; } descriptor::storage const& primary_key() const { return pk; } };
class drop_table : public sbase<statement_kind::drop_table> { public: descriptor::storage t; descriptor::storage const& target() const { return t; } };
class create_index : public sbase<statement_kind::create_index> { public: descriptor::storage d; descriptor::storage const& definition() const { return d; } };
class drop_index : public sbase<statement_kind::drop_index> { public: descriptor::storage t; descriptor::storage const& target() const { return t; } };
enum class truncate_table_option_kind { continue_identity, restart_identity };
inline std::ostream& operator<<(std::ostream& o, truncate_table_option_kind k) { return o << static_cast<int>(k); }
using truncate_table_option_kind_set = takatori::util::enum_set<truncate_table_option_kind, truncate_table_option_kind::continue_identity, truncate_table_option_kind::restart_identity>;
class truncate_table : public sbase<statement_kind::truncate_table> { public: descriptor::storage t; truncate_table_option_kind_set o; descriptor::storage const& target() const { return t; } truncate_table_option_kind_set const& options() const { return o; } };
class empty : public sbase<statement_kind::empty> {};
enum class authorization_user_kind { specified, current_user, all_users };
namespace details {
enum class table_action_kind { control, select, insert, update, delete_ };
class table_privilege_action { public: using action_kind_type = table_action_kind; explicit table_privilege_action(table_action_kind k) : k_(k) {} table_action_kind action_kind() const { return k_; } private: table_action_kind k_; };
class table_authorization_entry { public: using user_kind_type = authorization_user_kind; authorization_user_kind k{}; std::string id; std::vector<table_privilege_action> p; authorization_user_kind user_kind() const { return k; } std::string const& authorization_identifier() const { return id; } std::vector<table_privilege_action> const& privileges() const { return p; } };
class table_privilege_element { public: descriptor::storage t; std::vector<table_privilege_action> d; std::vector<table_authorization_entry> a; descriptor::storage const& table() const { return t; } std::vector<table_privilege_action> const& default_privileges() const { return d; } std::vector<table_authorization_entry> const& authorization_entries() const { return a; } };
}
class grant_table : public sbase<statement_kind::grant_table> { public: std::vector<details::table_privilege_element> e; std::vector<details::table_privilege_element> const& elements() const { return e; } };
class revoke_table : public sbase<statement_kind::revoke_table> { public: std::vector<details::table_privilege_element> e; std::vector<details::table_privilege_element> const& elements() const { return e; } };
}
namespace yugawara::binding {
template <class T> struct bound : takatori::descriptor::object { explicit bound(std::shared_ptr<T const> p) : p(std::move(p)) {} std::shared_ptr<T const> p; };
// stream and exchange variables carry their type in this stand-in (the original resolves types in its compiler)
struct typed_variable : takatori::descriptor::object { std::string name; std::shared_ptr<takatori::type::data const> type; storage::column const* column{}; std::shared_ptr<variable::declaration const> external; };
template <class T> struct no_delete { static std::shared_ptr<T const> of(T const& r) { return std::shared_ptr<T const>(std::shared_ptr<T const>(), &r); } };
// columns are equal by name, so that the definitions that replace each other when a table is truncated denote the same columns
inline void const* column_id(storage::column const& c) { auto w = c.optional_owner(); if (!w) return &c; static std::mutex m; static std::map<std::pair<std::string, std::string>, std::uintptr_t> ids; std::lock_guard l{m}; auto i = ids.emplace(std::pair{std::string(w->simple_name()), std::string(c.simple_name())}, ids.size() * 64 + 1).first; return reinterpret_cast<void const*>(i->second); }
class factory {
public:
    takatori::descriptor::variable table_column(storage::column const& c) const { auto o = std::make_shared<typed_variable>(); o->name = std::string(c.simple_name()); o->column = &c; o->type = c.shared_type(); return {std::move(o), column_id(c)}; }
    takatori::descriptor::variable operator()(storage::column const& c) const { return table_column(c); }
    takatori::descriptor::variable external_variable(std::shared_ptr<variable::declaration const> d) const { auto o = std::make_shared<typed_variable>(); o->name = std::string(d->name()); o->type = d->shared_type(); o->external = d; auto* id = d.get(); return {std::move(o), id}; }
    takatori::descriptor::variable operator()(std::shared_ptr<variable::declaration const> d) const { return external_variable(std::move(d)); }
    takatori::descriptor::variable stream_variable(std::string n = {}, std::shared_ptr<takatori::type::data const> t = {}) const { auto o = std::make_shared<typed_variable>(); o->name = std::move(n); o->type = std::move(t); auto* id = o.get(); return {std::move(o), id}; }
    takatori::descriptor::variable exchange_column(std::string n = {}, std::shared_ptr<takatori::type::data const> t = {}) const { return stream_variable(std::move(n), std::move(t)); }
    takatori::descriptor::relation index(std::shared_ptr<storage::index const> i) const { auto* id = i.get(); return {std::make_shared<bound<storage::index>>(std::move(i)), id}; }
    takatori::descriptor::relation operator()(std::shared_ptr<storage::index const> i) const { return index(std::move(i)); }
    takatori::descriptor::relation operator()(takatori::plan::exchange const& e) const { return {std::make_shared<bound<takatori::plan::exchange>>(no_delete<takatori::plan::exchange>::of(e)), &e}; }
    takatori::descriptor::function function(std::shared_ptr<function::declaration const> f) const { auto* id = f.get(); return {std::make_shared<bound<yugawara::function::declaration>>(std::move(f)), id}; }
    takatori::descriptor::function operator()(std::shared_ptr<function::declaration const> f) const { return function(std::move(f)); }
    takatori::descriptor::function operator()(std::shared_ptr<function::declaration> f) const { return function(std::move(f)); }
    takatori::descriptor::aggregate_function aggregate_function(std::shared_ptr<aggregate::declaration const> f) const { auto* id = f.get(); return {std::make_shared<bound<yugawara::aggregate::declaration>>(std::move(f)), id}; }
    takatori::descriptor::storage storage(std::shared_ptr<yugawara::storage::table const> t) const { auto* id = t.get(); return {std::make_shared<bound<yugawara::storage::table>>(std::move(t)), id}; }
    takatori::descriptor::storage storage(std::shared_ptr<yugawara::storage::index const> t) const { auto* id = t.get(); return {std::make_shared<bound<yugawara::storage::index>>(std::move(t)), id}; }
};
template <class T, class D> std::shared_ptr<T const> extract_shared(D const& d) { auto* b = dynamic_cast<bound<T> const*>(d.optional_entity().get()); if (!b) throw std::bad_cast{}; return b->p; }
template <class T, class D> T const& extract(D const& d) { auto* b = dynamic_cast<bound<T> const*>(d.optional_entity().get()); if (!b) throw std::bad_cast{}; return *b->p; }
template <class T, class D> takatori::util::optional_ptr<T const> extract_if(D const& d) { auto* b = dynamic_cast<bound<T> const*>(d.optional_entity().get()); return takatori::util::optional_ptr<T const>(b ? b->p.get() : nullptr); }
}
namespace yugawara {
namespace analyzer {
enum class variable_resolution_kind { unresolved, unknown, scalar_expression, table_column, external, function_call, aggregation };
class variable_resolution { public: explicit variable_resolution(variable_resolution_kind k = variable_resolution_kind::unresolved) : k_(k) {} variable_resolution_kind kind() const { return k_; } explicit operator bool() const { return k_ != variable_resolution_kind::unresolved; } private: variable_resolution_kind k_; };
class variable_mapping { public: variable_resolution find(takatori::descriptor::variable const& v) const { auto* t = dynamic_cast<binding::typed_variable const*>(v.optional_entity().get()); if (!t) return variable_resolution{}; return variable_resolution{t->external ? variable_resolution_kind::external : t->column ? variable_resolution_kind::table_column : variable_resolution_kind::unknown}; } };
class index_estimator {};
// one block is a chain of operators; a buffer operator ends it and starts one block per output
class block { public: using const_iterator = std::vector<takatori::relation::expression const*>::const_iterator; std::vector<takatori::relation::expression const*> ops; std::vector<std::unique_ptr<block>> down; block* up{};
    struct it { const_iterator i; takatori::relation::expression const& operator*() const { return **i; } it& operator++() { ++i; return *this; } bool operator!=(it const& o) const { return i != o.i; } }; it begin() const { return it{ops.begin()}; } it end() const { return it{ops.end()}; }
    struct dl { std::vector<std::unique_ptr<block>> const* v; struct dit { std::vector<std::unique_ptr<block>>::const_iterator i; block const& operator*() const { return **i; } dit& operator++() { ++i; return *this; } bool operator!=(dit const& o) const { return i != o.i; } }; dit begin() const { return dit{v->begin()}; } dit end() const { return dit{v->end()}; } std::size_t size() const { return v->size(); } }; dl downstreams() const { return dl{&down}; } };
struct block_graph { std::unique_ptr<block> head; };
struct block_builder { static block_graph build(takatori::relation::graph_type& g) { block_graph b; takatori::relation::enumerate_top(g, [&](auto& e) { if (!b.head) b.head = make(e); }); return b; } static std::unique_ptr<block> make(takatori::relation::expression const& e) { auto b = std::make_unique<block>(); auto const* p = &e; for (;;) { b->ops.push_back(p); auto& o = p->output_ports(); if (o.empty()) break; if (o.size() == 1) { p = &o[0].opposite()->owner(); continue; } for (auto& q : o) { b->down.push_back(make(q.opposite()->owner())); b->down.back()->up = b.get(); } break; } return b; } };
inline takatori::util::optional_ptr<block const> find_unique_head(block_graph const& g) { return takatori::util::optional_ptr<block const>(g.head.get()); }
class variable_liveness_info { public: std::vector<takatori::descriptor::variable> d; std::unordered_set<takatori::descriptor::variable> k; std::vector<takatori::descriptor::variable> const& define() const { return d; } std::unordered_set<takatori::descriptor::variable> const& kill() const { return k; } };
class variable_liveness_analyzer { public: explicit variable_liveness_analyzer(block_graph const&) {} variable_liveness_info& inspect(block const& b);  private: std::unordered_map<block const*, variable_liveness_info> m_; };
}
class compiled_info {
public:
    takatori::type::data const& type_of(takatori::descriptor::variable const& v) const { auto* t = dynamic_cast<binding::typed_variable const*>(v.optional_entity().get()); if (!t || !t->type) throw std::invalid_argument("unresolved variable"); return *t->type; }
    takatori::type::data const& type_of(takatori::scalar::expression const& e) const;
    analyzer::variable_mapping const& variables() const { static analyzer::variable_mapping m; return m; }
    // types the front end resolved for compound expressions
    std::shared_ptr<std::unordered_map<takatori::scalar::expression const*, std::shared_ptr<takatori::type::data const>>> expr_types{std::make_shared<std::unordered_map<takatori::scalar::expression const*, std::shared_ptr<takatori::type::data const>>>()};
    struct scanner { template <class... A> void operator()(A&&...) const {} }; scanner object_scanner() const { return {}; }
};
inline takatori::type::data const& compiled_info::type_of(takatori::scalar::expression const& e) const {
    using k = takatori::scalar::expression_kind;
    if (auto i = expr_types->find(&e); i != expr_types->end()) return *i->second;
    switch (e.kind()) {
        case k::immediate: return static_cast<takatori::scalar::immediate const&>(e).type();
        case k::variable_reference: return type_of(static_cast<takatori::scalar::variable_reference const&>(e).variable());
        case k::cast: return static_cast<takatori::scalar::cast const&>(e).type();
        case k::compare: case k::match: { static takatori::type::boolean const b{}; return b; }
        case k::unary: { auto& u = static_cast<takatori::scalar::unary const&>(e); using o = takatori::scalar::unary_operator; if (u.operator_kind() == o::plus || u.operator_kind() == o::sign_inversion) return type_of(u.operand()); static takatori::type::boolean const b{}; return b; }
        case k::binary: { auto& u = static_cast<takatori::scalar::binary const&>(e); using o = takatori::scalar::binary_operator; if (u.operator_kind() == o::conditional_and || u.operator_kind() == o::conditional_or) { static takatori::type::boolean const b{}; return b; } return type_of(u.left()); }
        case k::function_call: return binding::extract<function::declaration>(static_cast<takatori::scalar::function_call const&>(e).function()).return_type();
        default: throw std::invalid_argument("unresolved expression");
    }
}
inline analyzer::variable_liveness_info& analyzer::variable_liveness_analyzer::inspect(block const& b) {
    auto [it, fresh] = m_.try_emplace(&b);
    auto& r = it->second;
    if (!fresh) return r;
    namespace rel = takatori::relation;
    using k = rel::expression_kind;
    for (auto& e : b) {
        auto def = [&](auto const& cols) { for (auto& c : cols) r.d.push_back(c.destination()); };
        switch (e.kind()) {
            case k::find: def(static_cast<rel::find const&>(e).columns()); break;
            case k::scan: def(static_cast<rel::scan const&>(e).columns()); break;
            case k::join_find: def(static_cast<rel::join_find const&>(e).columns()); break;
            case k::join_scan: def(static_cast<rel::join_scan const&>(e).columns()); break;
            case k::take_flat: def(static_cast<rel::step::take_flat const&>(e).columns()); break;
            case k::take_group: def(static_cast<rel::step::take_group const&>(e).columns()); break;
            case k::take_cogroup: for (auto& g : static_cast<rel::step::take_cogroup const&>(e).groups()) def(g.columns()); break;
            case k::aggregate_group: def(static_cast<rel::step::aggregate const&>(e).columns()); break;
            case k::project: for (auto& c : static_cast<rel::project const&>(e).columns()) r.d.push_back(c.variable()); break;
            case k::values: for (auto& c : static_cast<rel::values const&>(e).columns()) r.d.push_back(c); break;
            case k::apply: for (auto& c : static_cast<rel::apply const&>(e).columns()) r.d.push_back(c.variable()); break;
            default: break;
        }
    }
    return r;
}
using runtime_feature_set = std::set<runtime_feature>;
struct restricted_feature_set { std::set<restricted_feature> s; restricted_feature_set& operator+=(std::initializer_list<restricted_feature> l) { s.insert(l); return *this; } };
enum class compiler_code { unknown, unsupported_feature, ambiguous_type, inconsistent_type, unsupported_type, unresolved_variable, inconsistent_elements };
inline std::ostream& operator<<(std::ostream& o, compiler_code c) { return o << static_cast<int>(c); }
struct diagnostic_ { compiler_code c; std::string m; compiler_code code() const { return c; } std::string const& message() const { return m; } std::string location() const { return "?"; } };
class compiler_result {
public:
    compiler_result() = default; compiler_result(std::unique_ptr<takatori::statement::statement> s, compiled_info i) : s_(std::move(s)), i_(std::move(i)) {} explicit compiler_result(std::vector<diagnostic_> d) : d_(std::move(d)) {}
    bool success() const { return s_ != nullptr; } explicit operator bool() const { return success(); } std::vector<diagnostic_> const& diagnostics() const { return d_; } takatori::statement::statement& statement() { return *s_; } std::unique_ptr<takatori::statement::statement> release_statement() { return std::move(s_); } compiled_info& info() { return i_; } compiled_info const& info() const { return i_; }
private: std::unique_ptr<takatori::statement::statement> s_; compiled_info i_; std::vector<diagnostic_> d_;
};
class compiler_options {
public:
    compiler_options(runtime_feature_set f, std::shared_ptr<storage::prototype_processor> p, std::shared_ptr<analyzer::index_estimator>) : f_(std::move(f)), p_(std::move(p)) {}
    bool& enable_disjunction_range_hinting() { return b_; } restricted_feature_set& restricted_features() { return r_; } storage::prototype_processor& storage_processor() { return *p_; }
private: runtime_feature_set f_; std::shared_ptr<storage::prototype_processor> p_; restricted_feature_set r_; bool b_{};
};
// a statement prepared by the simulated front end: the plan, and the prototypes the storage processor completes
struct prepared_ { std::unique_ptr<takatori::statement::statement> s; compiled_info i; };
struct compiler { compiler_result operator()(compiler_options& o, prepared_ p); };
}
