// Stand-in for the tateyama framework.
#pragma once
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include "ty_server.h"
namespace tateyama::api::configuration {
class section { public: template <class T> std::optional<T> get(std::string_view n) const { auto i = v.find(std::string(n)); if (i == v.end()) return std::nullopt; if constexpr (std::is_same_v<T, std::string>) return i->second; else { std::stringstream s(i->second); T t{}; if constexpr (std::is_same_v<T, bool>) { if (i->second == "true") return true; if (i->second == "false") return false; } if (!(s >> t)) throw std::runtime_error("conversion error"); return t; } } std::map<std::string, std::string> v; };
class whole { public: section* get_section(std::string_view n) { auto i = s.find(std::string(n)); return i == s.end() ? nullptr : &i->second; } bool get_section(std::string_view n, section*& r) { r = get_section(n); return r; } std::map<std::string, section> s; std::optional<std::string> base; };
}
namespace tateyama::framework {
enum class boot_mode { unknown, database_server, maintenance_server, maintenance_standalone, quiescent_server };
class environment;
class component { public: using id_type = std::uint32_t; component() = default; virtual ~component() = default; virtual bool setup(environment&) = 0; virtual bool start(environment&) = 0; virtual bool shutdown(environment&) = 0; virtual std::string_view label() const noexcept = 0; };
class resource : public component { public: virtual id_type id() const noexcept = 0; };
class service : public component { public: virtual id_type id() const noexcept = 0; virtual bool operator()(std::shared_ptr<api::server::request> req, std::shared_ptr<api::server::response> res) = 0; };
constexpr component::id_type resource_id_sql = 1, service_id_sql = 2, service_id_remote_kvs = 3, resource_id_remote_kvs = 4, max_system_reserved_id = 255;
template <class B> class repository { public: template <class T> std::shared_ptr<T> find() const { for (auto& e : v) if (auto p = std::dynamic_pointer_cast<T>(e)) return p; return {}; } void add(std::shared_ptr<B> e) { v.push_back(std::move(e)); } std::vector<std::shared_ptr<B>> v; };
class environment { public: boot_mode m{boot_mode::database_server}; std::shared_ptr<api::configuration::whole> c; repository<resource> r; repository<service> s; boot_mode mode() const { return m; } std::shared_ptr<api::configuration::whole> const& configuration() const { return c; } repository<resource>& resource_repository() { return r; } repository<service>& service_repository() { return s; } };
class transactional_kvs_resource : public resource { public: void* p{}; template <class T> struct any_ptr { }; struct cast_ { void* p; template <class T> operator T*() const { return static_cast<T*>(p); } }; cast_ core_object() const { return cast_{p}; } id_type id() const noexcept override { return 7; } bool setup(environment&) override { return true; } bool start(environment&) override { return true; } bool shutdown(environment&) override { return true; } std::string_view label() const noexcept override { return "kvs"; } };
}
namespace tateyama::diagnostic::resource { class diagnostic_resource : public framework::resource { public: std::map<std::string, std::function<void(std::ostream&)>> c; void add_print_callback(std::string_view n, std::function<void(std::ostream&)> f) { c[std::string(n)] = std::move(f); } void remove_print_callback(std::string_view n) { c.erase(std::string(n)); } id_type id() const noexcept override { return 8; } bool setup(framework::environment&) override { return true; } bool start(framework::environment&) override { return true; } bool shutdown(framework::environment&) override { return true; } std::string_view label() const noexcept override { return "diag"; } }; }
namespace tateyama::session {
enum class session_variable_type { boolean, signed_integer, unsigned_integer, string };
struct session_variable_declaration { std::string n; session_variable_type t; std::variant<std::monostate, bool, std::int64_t, std::uint64_t, std::string> d; std::string desc; };
struct session_variable_declaration_set { std::vector<session_variable_declaration> v; bool declare(session_variable_declaration d) { v.push_back(std::move(d)); return true; } };
struct session_container { session_variable_declaration_set d; session_variable_declaration_set& variable_declarations() { return d; } };
class session_resource : public framework::resource { public: session_container c; session_container& sessions_core() { return c; } id_type id() const noexcept override { return 9; } bool setup(framework::environment&) override { return true; } bool start(framework::environment&) override { return true; } bool shutdown(framework::environment&) override { return true; } std::string_view label() const noexcept override { return "session"; } };
}
namespace data_relay_grpc::blob_relay { class blob_relay_service; }
namespace tateyama::grpc::blob_relay { class service_adapter : public framework::resource { public: std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> p; std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> blob_relay_service() const { return p; } id_type id() const noexcept override { return 10; } bool setup(framework::environment&) override { return true; } bool start(framework::environment&) override { return true; } bool shutdown(framework::environment&) override { return true; } std::string_view label() const noexcept override { return "relay"; } }; }
