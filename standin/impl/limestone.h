// Stand-in for limestone::api
#pragma once
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <string_view>
#include <boost/filesystem/path.hpp>
namespace limestone::api {
using blob_id_type = std::uint64_t; using blob_reference_tag_type = std::uint64_t;
enum class exception_type { fatal_error, initialization_failure, blob_error };
class limestone_exception : public std::runtime_error { public: limestone_exception(exception_type t, std::string const& m, int e) : std::runtime_error(m), t_(t), e_(e) {} int error_code() const { return e_; } exception_type type() const { return t_; } private: exception_type t_; int e_; };
class limestone_blob_exception : public limestone_exception { public: using limestone_exception::limestone_exception; };
class blob_file { public: blob_file() = default; blob_file(boost::filesystem::path p, bool a) : p_(std::move(p)), a_(a) {} boost::filesystem::path const& path() const { return p_; } bool is_available() const { return a_; } explicit operator bool() const { return a_; } private: boost::filesystem::path p_; bool a_{}; };
class blob_pool { public: virtual ~blob_pool() = default; virtual void release() = 0; virtual blob_id_type register_file(boost::filesystem::path const&, bool) = 0; virtual blob_id_type register_data(std::string_view) = 0; virtual blob_id_type duplicate_data(blob_id_type) = 0; };
class datastore { public: virtual ~datastore() = default; virtual std::unique_ptr<blob_pool> acquire_blob_pool() = 0; virtual blob_file get_blob_file(blob_id_type) = 0; virtual blob_reference_tag_type generate_reference_tag(blob_id_type, std::uint64_t) = 0; };
}
