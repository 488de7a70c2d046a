// Stand-in for data_relay_grpc: sessions of the BLOB relay, with checks on their life cycle.
#pragma once
#include <atomic>
#include <cstdint>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <vector>
namespace data_relay_grpc::common {
class blob_session {
public:
    using session_id_type = std::uint64_t; using blob_id_type = std::uint64_t; using transaction_id_type = std::uint64_t; using blob_tag_type = std::uint64_t; using blob_path_type = std::filesystem::path;
    blob_session(std::uint64_t id, std::optional<std::uint64_t> tx) : id_(id), tx_(tx) {}
    std::uint64_t session_id() const { return id_; }
    void dispose() { ++disposed; }
    blob_id_type add(blob_path_type p) { std::lock_guard<std::mutex> l(m_); if (disposed) misused = true; blobs[++next_] = std::move(p); return next_; }
    std::optional<blob_path_type> find(blob_id_type b) const { std::lock_guard<std::mutex> l(m_); if (disposed) misused = true; auto i = blobs.find(b); if (i == blobs.end()) return std::nullopt; return i->second; }
    blob_tag_type compute_tag(blob_id_type b) const { if (disposed) misused = true; return (b * 0x9e3779b97f4a7c15ULL) ^ (id_ * 0x2545F4914F6CDD1DULL); }
    std::optional<std::uint64_t> transaction() const { return tx_; }
    std::atomic<int> disposed{0}; mutable std::atomic<bool> misused{false}; std::map<blob_id_type, blob_path_type> blobs;
private: std::uint64_t id_; std::optional<std::uint64_t> tx_; blob_id_type next_{}; mutable std::mutex m_;
};
}
namespace data_relay_grpc::blob_relay {
class blob_relay_service {
public:
    common::blob_session& create_session(std::optional<std::uint64_t> tx = std::nullopt) { std::lock_guard<std::mutex> l(m_); sessions.push_back(std::make_unique<common::blob_session>(sessions.size() + 1, tx)); return *sessions.back(); }
    std::vector<std::unique_ptr<common::blob_session>> sessions;
private: std::mutex m_;
};
}
