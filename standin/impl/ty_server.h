// Stand-in for the tateyama server API: the interfaces jogasaki implements against; the simulation implements them.
#pragma once
#include <any>
#include <chrono>
#include <cstdint>
#include <filesystem>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <string>
#include <string_view>
#include <variant>
#include "ty_base.h"
#include <tateyama/proto/diagnostics.pb.h>
namespace tateyama::session { class session_variable_set { public: using value_type = std::variant<std::monostate, bool, std::int64_t, std::uint64_t, std::string>; bool exists(std::string_view n) const { return v.count(std::string(n)) != 0; } value_type get(std::string_view n) const { auto i = v.find(std::string(n)); return i == v.end() ? value_type{} : i->second; } bool set(std::string_view n, value_type x) { v[std::string(n)] = std::move(x); return true; } std::map<std::string, value_type> v; }; }
namespace tateyama::api::server {
using session::session_variable_set;
enum class user_type { administrator, standard };
class session_info { public: using id_type = std::size_t; using time_type = std::chrono::system_clock::time_point; virtual time_type start_at() const noexcept = 0; virtual ~session_info() = default;
    virtual id_type id() const = 0; virtual std::string_view label() const = 0; virtual std::string_view application_name() const = 0;
    virtual std::string_view connection_type_name() const = 0; virtual std::string_view connection_information() const = 0;
    virtual std::optional<std::string_view> username() const = 0; virtual enum user_type user_type() const = 0; };
class database_info { public: using process_id_type = std::int32_t; using time_type = std::chrono::system_clock::time_point; virtual time_type start_at() const noexcept = 0; virtual ~database_info() = default; virtual process_id_type process_id() const = 0; virtual std::string_view name() const = 0; virtual std::string_view instance_id() const = 0; };
class session_element { public: session_element() = default; virtual ~session_element() = default; virtual void dispose() = 0; };
class session_store {
public:
    using id_type = std::size_t;
    ~session_store() { dispose(); }
    template <class T> bool put(id_type id, std::shared_ptr<T> e) { std::lock_guard<std::mutex> l(m_); return e_.try_emplace(id, std::move(e)).second; }
    template <class T> std::shared_ptr<T> find(id_type id) { std::lock_guard<std::mutex> l(m_); auto i = e_.find(id); return i == e_.end() ? nullptr : std::dynamic_pointer_cast<T>(i->second); }
    template <class T, class... A> std::shared_ptr<T> find_or_emplace(id_type id, A&&... a) { std::lock_guard<std::mutex> l(m_); auto i = e_.find(id); if (i == e_.end()) i = e_.emplace(id, std::make_shared<T>(std::forward<A>(a)...)).first; return std::dynamic_pointer_cast<T>(i->second); }
    template <class T> bool remove(id_type id) { std::lock_guard<std::mutex> l(m_); return e_.erase(id) != 0; }
    void dispose() { std::map<id_type, std::shared_ptr<session_element>> e; { std::lock_guard<std::mutex> l(m_); e.swap(e_); } for (auto& [k, v] : e) v->dispose(); }
private: std::mutex m_; std::map<id_type, std::shared_ptr<session_element>> e_;
};
class blob_info { public: virtual ~blob_info() = default; virtual std::string_view channel_name() const noexcept = 0; virtual std::filesystem::path path() const noexcept = 0; virtual bool is_temporary() const noexcept = 0; virtual void dispose() = 0; };
class request { public: virtual ~request() = default;
    virtual std::size_t session_id() const = 0; virtual std::size_t service_id() const = 0; virtual std::size_t local_id() const = 0; virtual std::string_view payload() const = 0;
    virtual database_info const& database_info() const noexcept = 0; virtual session_info const& session_info() const noexcept = 0; virtual session_store& session_store() noexcept = 0; virtual session_variable_set& session_variable_set() noexcept = 0;
    virtual bool has_blob(std::string_view) const noexcept { return false; } virtual blob_info const& get_blob(std::string_view) const { throw std::runtime_error("no blob"); } };
class writer { public: virtual ~writer() = default; virtual status write(char const* data, std::size_t length) = 0; virtual status commit() = 0; };
class data_channel { public: virtual ~data_channel() = default; virtual status acquire(std::shared_ptr<writer>& wrt) = 0; virtual status release(writer& wrt) = 0; };
class response { public: virtual ~response() = default;
    virtual void session_id(std::size_t) = 0; virtual status body(std::string_view body) = 0; virtual status body_head(std::string_view head) = 0; virtual void error(proto::diagnostics::Record const& record) = 0;
    virtual status acquire_channel(std::string_view name, std::shared_ptr<data_channel>& ch, std::size_t max_writer_count) = 0; virtual status release_channel(data_channel& ch) = 0;
    virtual bool check_cancel() const = 0; virtual status add_blob(std::unique_ptr<blob_info> blob) = 0; };
}
