// helpers shared by the harnesses
#pragma once
#include "../rt/sim.h"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <chrono>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

namespace vh {
using sim::u64;
using sim::u32;

inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6U) + (h >> 2U); return h * 0x100000001b3ULL; }
inline u64 hash_str(std::string const& s) { u64 h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }

// one operation of a concurrent history
struct OpBase { u64 call{}; u64 ret{}; };   // ret 0: never returned

// Linearizability: is there a total order of the operations, consistent with real-time order, that the model accepts?
// Model: bool step(Op const&) (false: the result is impossible in this state), std::string key() const.
// Operations that never returned may be placed anywhere after their call, or left out.
template <class Model, class Op>
bool linearizable(std::vector<Op> const& ops, Model init, u64 max_nodes = 400000, bool* gave_up = nullptr) {
    std::size_t n = ops.size();
    struct Frame { Model m; std::vector<bool> done; std::size_t left; };
    std::unordered_set<std::string> seen;
    std::vector<Frame> st;
    std::size_t must = 0;
    for (auto& o : ops) must += o.ret != 0;
    st.push_back(Frame{init, std::vector<bool>(n), must});
    u64 nodes = 0;
    while (!st.empty()) {
        Frame f = std::move(st.back());
        st.pop_back();
        if (f.left == 0) return true;
        if (++nodes > max_nodes) { if (gave_up) *gave_up = true; return true; }
        u64 min_ret = ~0ULL;
        for (std::size_t i = 0; i < n; ++i) if (!f.done[i] && ops[i].ret != 0) min_ret = std::min(min_ret, ops[i].ret);
        for (std::size_t i = n; i-- > 0;) {
            if (f.done[i] || ops[i].call > min_ret) continue;
            Frame g{f.m, f.done, f.left};
            if (!g.m.step(ops[i])) continue;
            g.done[i] = true;
            if (ops[i].ret != 0) --g.left;
            std::string k(n, '0');
            for (std::size_t q = 0; q < n; ++q) if (g.done[q]) k[q] = '1';
            k += g.m.key();
            if (!seen.insert(k).second) continue;
            st.push_back(std::move(g));
        }
    }
    return false;
}

// Joins on destruction; thread bodies must not throw.
struct Threads {
    std::vector<std::thread> t;
    template <class F> void go(F f) { t.emplace_back(std::move(f)); }
    void join() { for (auto& x : t) if (x.joinable()) x.join(); t.clear(); }
};

// runs f without preemption: oracle and model code
template <class F> auto quiet(F&& f) { sim::NoPreempt g; return f(); }
} // namespace vh
// evaluates an expression over harness state atomically
#define Q(expr) ([&] { sim::NoPreempt vh_q_; return (expr); }())
