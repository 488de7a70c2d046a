// Synchronisation primitives: latch, waitable_atomic, use_counter, watch, latch_set.
#include "common.h"
#include <jogasaki/utils/latch.h>
#include <jogasaki/utils/latch_set.h>
#include <jogasaki/utils/waitable_atomic.h>
#include <jogasaki/utils/use_counter.h>
#include <jogasaki/utils/watch.h>

using namespace vh;
using namespace jogasaki::utils;
using std::chrono::milliseconds;

namespace {
// ---- latch: one waiter and one releaser at a time, reused over rounds separated by reset ----
struct LOp : OpBase { int kind{}; bool res{true}; long ms{-1}; u64 t0{}, t1{}; };
void latch_run() {
    auto& w = sim::wl();
    bool start_released = w.chance(0.2);
    latch l{start_released};
    int rounds = 1 + static_cast<int>(w.below(4)), op = 0;
    for (int r = 0; r < rounds; ++r) {
        bool released = r == 0 && start_released;
        u64 release_call = released ? 1 : 0, release_ret = released ? 1 : 0;   // when the (first) release of this round began / returned
        int nrel = 1 + static_cast<int>(w.below(2)), nwait = 1 + static_cast<int>(w.below(4));
        bool second_waiter = w.chance(0.3);   // the second user of the latch may also be a waiter while the first waits
        bool do_release = sim::op_enabled(op++) || true;
        long rel_delay = static_cast<long>(w.below(4)) * 700000;
        std::vector<LOp> waits[2];
        auto waiter = [&](int which) {
            for (int i = 0; i < nwait; ++i) {
                LOp o; o.kind = Q(static_cast<int>(sim::wl().below(3)));
                if (o.kind > 0) { static long const ts[] = {0, 1, 2, 50}; o.ms = ts[Q(sim::wl().below(4))]; }
                o.t0 = sim::now(); o.call = sim::seq();
                if (o.ms < 0) l.wait(); else o.res = l.wait(milliseconds(o.ms));
                o.ret = sim::seq(); o.t1 = sim::now();
                sim::NoPreempt q;
                sim::ev("wait %ld -> %d", o.ms, o.res);
                if (o.res && release_call == 0) sim::fail("latch-early", "wait returned open although nothing had released the latch (round %d)", r);
                if (!o.res && release_ret != 0 && release_ret < o.call) sim::fail("latch-closed-after-release", "timed wait started after release() returned reported a timeout (round %d)", r);
                if (!o.res && o.t1 - o.t0 < static_cast<u64>(o.ms) * 1000000ULL) sim::fail("latch-early-timeout", "wait(%ld ms) gave up after %.3f ms", o.ms, double(o.t1 - o.t0) / 1e6);
                if (!o.res && release_ret == 0) sim::probe("latch timeout");
                if (o.res && release_ret == 0) sim::probe("woken while release was still running");
                waits[which].push_back(o);
            }
        };
        Threads th;
        th.go([&] { waiter(0); });
        if (second_waiter) th.go([&] { waiter(1); });
        if (do_release) th.go([&] {
            for (int i = 0; i < nrel; ++i) {
                if (rel_delay) sim::sleep_ns(static_cast<u64>(rel_delay));
                { sim::NoPreempt q; if (!release_call) release_call = sim::seq(); }
                l.release();
                sim::NoPreempt q; if (!release_ret) release_ret = sim::seq();
                sim::ev("release");
            }
        });
        th.join();
        // idempotent: an already released latch never closes again
        if (!l.wait(milliseconds(0))) sim::fail("latch-closed-after-release", "released latch closed again");
        l.wait();
        if (r + 1 < rounds || w.chance(0.5)) {
            l.reset();
            if (w.chance(0.5)) {
                u64 t0 = sim::now();
                if (l.wait(milliseconds(3))) sim::fail("latch-early", "reset latch counted as released");
                if (sim::now() - t0 < 3000000) sim::fail("latch-early-timeout", "wait(3 ms) gave up after %.3f ms", double(sim::now() - t0) / 1e6);
            }
            sim::probe("latch reused");
        }
    }
    sim::plan_size(op);
}

// ---- waitable_atomic ----
struct AOp : OpBase { int kind{}; int a{}, b{}; bool res{}; int got{}; };
struct AModel {
    int v{};
    bool step(AOp const& o) {
        switch (o.kind) {
            case 0: v = o.a; return true;
            case 1: return v == o.got;
            case 2: if (o.res) { if (v != o.a) return false; v = o.b; return true; } return v != o.a && v == o.got;
            case 3: if (o.res) { if (v != o.a) return false; v = o.b; return true; } return v == o.got;   // weak: may fail spuriously
            default: return true;
        }
    }
    std::string key() const { return std::to_string(v); }
};
void atomic_run() {
    auto& w = sim::wl();
    int nt = 2 + static_cast<int>(w.below(3));
    auto* a = new waitable_atomic<int>(0);
    std::vector<AOp> hist;
    std::set<int> ever{0};
    int op = 0;
    Threads th;
    // writers change the value and notify; waiters wait for a change and must be woken by a notify following it
    bool one = w.chance(0.4);       // notify_one with a single waiter
    int nwait = one ? 1 : 1 + static_cast<int>(w.below(3));
    int pending = 0, expect_done = nwait, done = 0;
    std::vector<std::vector<AOp>> plan(static_cast<std::size_t>(nt));
    for (auto& p : plan) for (u64 i = 0, n = w.below(4); i < n; ++i) {
        AOp o; o.kind = static_cast<int>(w.below(4)); o.a = static_cast<int>(w.below(4)); o.b = 1 + static_cast<int>(w.below(3));
        if (sim::op_enabled(op++)) p.push_back(o);
    }
    sim::plan_size(op);
    (void)pending;
    for (auto& p : plan) th.go([&] {
        for (auto o : p) {
            o.call = sim::seq();
            bool changed = false;
            switch (o.kind) {
                case 0: { sim::NoPreempt q; ever.insert(o.a); } a->store(o.a); changed = true; break;
                case 1: o.got = o.b & 1 ? a->load() : static_cast<int>(*a); break;
                default: {
                    int e = o.a; { sim::NoPreempt q; ever.insert(o.b); }
                    o.res = o.kind == 2 ? a->compare_exchange_strong(e, o.b) : a->compare_exchange_weak(e, o.b);
                    o.got = e; changed = o.res;
                }
            }
            o.ret = sim::seq();
            { sim::NoPreempt q; hist.push_back(o); sim::ev("op %d (%d %d) -> %d %d", o.kind, o.a, o.b, o.res, o.got); }
            if (changed) { if (one) a->notify_one(); else a->notify_all(); }
        }
    });
    for (int i = 0; i < nwait; ++i) th.go([&] {
        // wait until the final value 99 is seen, through whatever changes come before it
        for (;;) {
            int old = a->load();
            if (old == 99) break;
            int mode = Q(static_cast<int>(sim::wl().below(3)));
            if (mode == 2) {
                u64 t0 = sim::now();
                bool r = a->wait_for(milliseconds(5), old);
                if (!r && sim::now() - t0 < 5000000) sim::fail("atomic-early-timeout", "wait_for(5 ms) gave up after %.3f ms", double(sim::now() - t0) / 1e6);
                if (!r) sim::probe("wait_for timeout");
            } else if (mode == 1 ) {
                int never = 1000;
                u64 t0 = sim::now();
                if (!a->wait_for(milliseconds(5), never)) sim::fail("atomic-missed-change", "wait_for on a different value timed out");
                if (sim::now() - t0 > 4000000000ULL) sim::fail("atomic-missed-change", "wait_for on a different value slept");
                a->wait(old);
            } else a->wait(old);
        }
        sim::NoPreempt q; ++done;
    });
    for (std::size_t i = 0; i < plan.size(); ++i) th.t[i].join();
    { AOp o; o.kind = 0; o.a = 99; o.call = sim::seq(); *a = 99; o.ret = sim::seq(); sim::NoPreempt q; hist.push_back(o); }
    if (one) a->notify_one(); else a->notify_all();
    sim::wait_until([&] { return done == expect_done; }, "every waiter woken after the value changed");
    for (auto& t : th.t) if (t.joinable()) t.join();
    sim::NoPreempt q;
    if (!linearizable(hist, AModel{}, 60000)) sim::fail("atomic-history", "history of the atomic is not linearizable");
    delete a;
}

// ---- use_counter: every copy counts, concurrently ----
void counter_run() {
    auto& w = sim::wl();
    int nt = 1 + static_cast<int>(w.below(4));
    int live = 1;                                  // copies certainly alive
    int hi = 1;                                    // copies possibly alive
    auto* root = new use_counter();
    Threads th;
    for (int t = 0; t < nt; ++t) th.go([&] {
        std::vector<use_counter> mine;
        for (u64 i = 0, n = Q(2 + sim::wl().below(5)); i < n; ++i) {
            u64 k = Q(sim::wl().below(5));
            if (k <= 1 || mine.empty()) {
                { sim::NoPreempt q; ++hi; }
                mine.emplace_back(*root);
                { sim::NoPreempt q; ++live; }
            } else if (k == 2) {
                { sim::NoPreempt q; --live; }
                mine.pop_back();
                { sim::NoPreempt q; --hi; }
            } else if (k == 3) {
                // a moved-from counter is fresh, the target takes its place
                use_counter moved{std::move(mine.back())};
                if (mine.back().count() != 1) sim::fail("use-count", "moved-from counter reports %zu", mine.back().count());
                mine.back() = std::move(moved);
                if (moved.count() != 1) sim::fail("use-count", "moved-from counter reports %zu", moved.count());
            } else {
                // no preemption between the bounds and the read, other threads are between their two updates at most
                sim::NoPreempt q;
                std::size_t c = root->count();
                if (c < static_cast<std::size_t>(live) || c > static_cast<std::size_t>(hi)) sim::fail("use-count", "count %zu, but between %d and %d copies are alive", c, live, hi);
            }
        }
        { sim::NoPreempt q; live -= static_cast<int>(mine.size()); }
        int n = static_cast<int>(mine.size());
        mine.clear();
        { sim::NoPreempt q; hi -= n; }
    });
    th.join();
    if (root->count() != 1) sim::fail("use-count", "count %zu after every copy is gone", root->count());
    { use_counter c2{*root}; if (c2.count() != 2 || root->count() != 2) sim::fail("use-count", "copy not counted"); c2.reset(); if (c2.count() != 1 || root->count() != 1) sim::fail("use-count", "reset copy still counted"); }
    delete root;
}

// ---- watch: per worker marks, set once, consistent with the clock ----
void watch_run() {
    auto& w = sim::wl();
    auto* x = new watch();
    int nt = 1 + static_cast<int>(w.below(3));
    struct Mark { std::size_t loc, worker; u64 before, after; };
    std::vector<Mark> marks;
    std::set<std::pair<std::size_t, std::size_t>> won;
    Threads th;
    for (int t = 0; t < nt; ++t) th.go([&, t] {
        for (int i = 0; i < 4; ++i) {
            std::size_t loc = Q(sim::wl().below(4)), wk = Q(sim::wl().below(2)) ? static_cast<std::size_t>(t) : 7U;
            u64 b = sim::now();
            bool first = x->set_point(loc, wk);
            u64 e = sim::now();
            sim::NoPreempt q;
            if (first) { if (!won.emplace(loc, wk).second) sim::fail("watch-twice", "point %zu of worker %zu set twice", loc, wk); marks.push_back({loc, wk, b, e}); }
            if (Q(sim::wl().chance(0.5))) sim::sleep_ns(3000000);
        }
    });
    th.join();
    sim::NoPreempt q;
    for (std::size_t loc = 0; loc < 4; ++loc) {
        u64 fb = ~0ULL, fe = ~0ULL, lb = 0, le = 0; bool any = false;
        for (auto& m : marks) if (m.loc == loc) { any = true; fb = std::min(fb, m.before); fe = std::min(fe, m.after); lb = std::max(lb, m.before); le = std::max(le, m.after); }
        auto f = x->view_first(loc), l = x->view_last(loc);
        if (!any) { if (f != watch::Clock::time_point{} || l != watch::Clock::time_point{}) sim::fail("watch-time", "unset point has a time"); continue; }
        auto ns = [&](watch::Clock::time_point p) { return static_cast<u64>(std::chrono::duration_cast<std::chrono::nanoseconds>(p.time_since_epoch()).count()); };
        (void)fe; (void)lb;
        if (ns(f) > ns(l)) sim::fail("watch-time", "first mark after the last");
        u64 d = x->duration(loc, loc);
        if (d > (le - fb) / 1000000 + 1) sim::fail("watch-time", "duration %llu ms exceeds the time that passed", static_cast<unsigned long long>(d));
    }
    delete x;
}

// ---- latch_set: enabled latches are found by every thread, disabled ones by none ----
void set_run() {
    auto* s = new latch_set();
    auto& w = sim::wl();
    u64 n = 1 + w.below(3);
    for (u64 id = 0; id < n; ++id) s->enable(id, 1 + id);
    bool stopper = w.chance(0.4);
    int passed = 0, total = 0;
    Threads th;
    for (u64 id = 0; id < n; ++id) for (u64 i = 0; i <= id; ++i) {
        ++total;
        th.go([&, id] {
            auto* l = s->get(id);
            if (!l) sim::fail("latch-set", "enabled latch %llu not found", static_cast<unsigned long long>(id));
            l->count_down_and_wait();
            sim::NoPreempt q; ++passed;
        });
    }
    if (stopper) th.go([&] { if (s->disable(77)) sim::fail("latch-set", "disabled a latch that was never enabled"); if (s->get(77)) sim::fail("latch-set", "found a latch that was never enabled"); });
    th.join();
    if (passed != total) sim::fail("latch-set", "%d of %d threads passed", passed, total);
    for (u64 id = 0; id < n; ++id) {
        if (!s->disable(id) || s->disable(id)) sim::fail("latch-set", "disable result wrong");
        if (s->get(id)) sim::fail("latch-set", "disabled latch still found");
    }
    delete s;
}

void run() {
    auto& g = sim::cfg();
    sim::check_races(g.chance(0.5));
    if (g.chance(0.5)) sim::fault_enable(sim::f_spurious_wakeup, 2.0);
    if (g.chance(0.4)) sim::fault_enable(sim::f_stall);
    if (g.chance(0.3)) sim::fault_enable(sim::f_clock_jump);
    if (g.chance(0.4)) sim::fault_enable(sim::f_cas_weak_fail);
    sim::set_step_limit(300000, true);
    u64 k = g.below(10);
    if (k < 4) { sim::ev("latch"); latch_run(); }
    else if (k < 7) { sim::ev("waitable_atomic"); atomic_run(); }
    else if (k < 9) { sim::ev("use_counter"); counter_run(); }
    else if (g.chance(0.5)) { sim::ev("watch"); watch_run(); }
    else { sim::ev("latch_set"); set_run(); }
    sim::state(mix(k, sim::steps()));
}
} // namespace
sim::Harness const sim::harness{"sync", nullptr, run};
