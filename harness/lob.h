// Simulated BLOB datastore (stands in for limestone's): pools own what they registered until it is stored; released pools drop the rest.
#pragma once
#include "engine.h"
#include <limestone/api/datastore.h>
#include <limestone/api/blob_pool.h>
#include <filesystem>
#include <fstream>
#include <sstream>
namespace eng {
struct Blobs : limestone::api::datastore {
    struct B { std::string data, path; int pool{}; bool stored{}, gone{}; };
    std::map<u64, B> b; u64 next{1}; int pools{}, released{}, destroyed{}, leaked{}; double fail{0}; std::string dir;
    std::set<int> live;
    struct Pool : limestone::api::blob_pool {
        Blobs* d; int id; bool rel{};
        Pool(Blobs* d, int id) : d(d), id(id) {}
        ~Pool() override { sim::NoPreempt g; ++d->destroyed; if (!rel) { ++d->leaked; sim::fail("pool-not-released", "a blob pool was dropped without being released (its data leaks)"); } }
        void use() { if (rel) sim::fail("pool-after-release", "blob registered in a released pool"); if (d->fail > 0 && sim::fault(sim::f_io_error, d->fail)) throw limestone::api::limestone_blob_exception(limestone::api::exception_type::blob_error, "injected", 5); }
        u64 add(std::string data) { auto i = d->next++; B x; x.data = std::move(data); x.pool = id; if (!d->dir.empty()) { x.path = d->dir + "/blob" + std::to_string(i); std::ofstream(x.path, std::ios::binary) << x.data; } d->b[i] = std::move(x); sim::ev("blob %llu", (unsigned long long)i); return i; }
        void release() override { sim::yield(); sim::NoPreempt g; if (rel) sim::fail("pool-released-twice", "a blob pool was released twice"); rel = true; ++d->released; d->live.erase(id); for (auto& [i, x] : d->b) if (x.pool == id && !x.stored) { x.gone = true; if (!x.path.empty()) std::filesystem::remove(x.path); } }
        u64 register_file(boost::filesystem::path const& p, bool temporary) override {
            sim::yield(); sim::NoPreempt g; use(); std::ifstream f(p.string(), std::ios::binary); if (!f) throw limestone::api::limestone_blob_exception(limestone::api::exception_type::blob_error, "no such file", 2);
            std::stringstream s; s << f.rdbuf(); if (temporary) std::filesystem::remove(p.string()); return add(s.str());
        }
        u64 register_data(std::string_view v) override { sim::yield(); sim::NoPreempt g; use(); return add(std::string(v)); }
        u64 duplicate_data(u64 id_) override { sim::yield(); sim::NoPreempt g; use(); auto i = d->b.find(id_); if (i == d->b.end() || i->second.gone) throw limestone::api::limestone_blob_exception(limestone::api::exception_type::blob_error, "no such blob", 2); return add(i->second.data); }
    };
    std::unique_ptr<limestone::api::blob_pool> acquire_blob_pool() override { sim::yield(); sim::NoPreempt g; auto p = std::make_unique<Pool>(this, ++pools); live.insert(p->id); return p; }
    limestone::api::blob_file get_blob_file(u64 id) override { sim::yield(); sim::NoPreempt g; auto i = b.find(id); if (i == b.end() || i->second.gone) return {}; return {boost::filesystem::path(i->second.path), true}; }
    static u64 tag(u64 id, u64 tx) { return vh::mix(vh::mix(0x5ec4e7, id), tx) | 1; }
    u64 generate_reference_tag(u64 id, u64 tx) override { return tag(id, tx); }
};
} // namespace eng
