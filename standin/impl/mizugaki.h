// Stand-in for mizugaki: the SQL front end. Its behaviour is in standin/src/sql.cpp: a small parser for the statements the simulation uses.
#pragma once
#include <chrono>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include "t_plan.h"
namespace mizugaki::ast {
namespace statement {
enum class kind { empty_statement, other };
class statement { public: statement(kind k, std::string t) : text(std::move(t)), k_(k) {} kind node_kind() const { return k_; } std::string text; private: kind k_; };
}
class compilation_unit { public: using list = std::vector<std::shared_ptr<statement::statement>>; list const& statements() const { return s; } list& statements() { return s; } list s; };
}
namespace mizugaki::parser {
enum class sql_parser_element_kind { unknown, select_element, insert_value, last_ = insert_value };
inline constexpr auto sql_parser_element_kind_first = sql_parser_element_kind::unknown;
inline constexpr auto sql_parser_element_kind_last = sql_parser_element_kind::last_;
struct sql_parser_options { std::unordered_map<sql_parser_element_kind, std::size_t> l; std::size_t t{}; auto& element_limits() { return l; } std::size_t& tree_depth_limit() { return t; } };
struct sql_parser_diagnostic { std::string m; std::string r; std::string const& message() const { return m; } std::string const& region() const { return r; } };
class sql_parser_result { public: std::shared_ptr<ast::compilation_unit> u; sql_parser_diagnostic d; bool bad{}; bool has_diagnostic() const { return bad; } sql_parser_diagnostic const& diagnostic() const { return d; } std::shared_ptr<ast::compilation_unit>& value() { return u; } };
class sql_parser { public: sql_parser_options& options() { return o_; } sql_parser_result operator()(std::string const& location, std::string text) const; private: sql_parser_options o_; };
}
namespace mizugaki { class placeholder_map {}; }
namespace mizugaki::analyzer {
enum class sql_analyzer_result_kind { execution_plan, statement, diagnostics };
enum class sql_analyzer_code { unknown, unsupported_feature, malformed_syntax, missing_context_of_default_value, missing_context_of_null, unsupported_decimal_value, malformed_approximate_number, unsupported_approximate_number, malformed_quoted_string, unsupported_string_value, flexible_length_is_not_supported, invalid_type_length, invalid_numeric_scale, schema_not_found, table_not_found, index_not_found, view_not_found, sequence_not_found, column_not_found, variable_not_found, function_not_found, symbol_not_found, schema_already_exists, table_already_exists, index_already_exists, view_already_exists, sequence_already_exists, column_already_exists, variable_already_exists, function_already_exists, symbol_already_exists, primary_index_not_found, primary_index_already_exists, invalid_constraint, variable_ambiguous, column_ambiguous, function_ambiguous, invalid_unsigned_integer, inconsistent_table, inconsistent_columns, invalid_aggregation_column, ambiguous_type, inconsistent_type, unresolved_variable, inconsistent_elements, catalog_not_found, relation_ambiguous };
inline std::ostream& operator<<(std::ostream& o, sql_analyzer_code c) { return o << "code" << static_cast<int>(c); }
struct sql_diagnostic { sql_analyzer_code c; std::string m; sql_analyzer_code code() const { return c; } std::string const& message() const { return m; } std::string location() const { return "?"; } };
class sql_analyzer_options {
public:
    sql_analyzer_options(takatori::util::maybe_shared_ptr<yugawara::schema::catalog const> c, takatori::util::maybe_shared_ptr<yugawara::schema::search_path const> p, std::shared_ptr<yugawara::schema::declaration const> s) : catalog(std::move(c)), path(std::move(p)), schema(std::move(s)) {}
    bool& allow_context_independent_null() { return a_; } bool& lowercase_regular_identifiers() { return l_; } bool& lowercase_function_regular_identifiers() { return f_; } std::chrono::minutes& system_zone_offset() { return z_; }
    takatori::util::maybe_shared_ptr<yugawara::schema::catalog const> catalog; takatori::util::maybe_shared_ptr<yugawara::schema::search_path const> path; std::shared_ptr<yugawara::schema::declaration const> schema;
private: bool a_{}, l_{}, f_{}; std::chrono::minutes z_{};
};
class sql_analyzer_result {
public:
    sql_analyzer_result(sql_analyzer_result_kind k, std::unique_ptr<yugawara::prepared_> p) : k_(k), p_(std::move(p)) {}
    explicit sql_analyzer_result(std::vector<sql_diagnostic> d) : k_(sql_analyzer_result_kind::diagnostics), d_(std::move(d)) {}
    sql_analyzer_result_kind kind() const { return k_; } bool is_valid() const { return k_ != sql_analyzer_result_kind::diagnostics; }
    template <sql_analyzer_result_kind K> auto release() { if constexpr (K == sql_analyzer_result_kind::diagnostics) return std::move(d_); else return std::move(p_); }
private: sql_analyzer_result_kind k_; std::unique_ptr<yugawara::prepared_> p_; std::vector<sql_diagnostic> d_;
};
class sql_analyzer { public: sql_analyzer_result operator()(sql_analyzer_options const& o, ast::statement::statement const& s, ast::compilation_unit const& u, placeholder_map const& p, takatori::util::optional_ptr<yugawara::variable::provider const> v); };
}
