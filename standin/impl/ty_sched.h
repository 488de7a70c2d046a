// Stand-in for the tateyama task scheduler: worker threads with one queue each, stealing, sticky queues and a thread for conditional tasks. All threads run under the simulator.
#pragma once
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <ostream>
#include <ratio>
#include <thread>
#include <utility>
#include <vector>
#include "ty_base.h"
namespace tateyama::task_scheduler {
class context { public: explicit context(std::size_t i) : i_(i) {} std::size_t index() const { return i_; } bool task_is_stolen() const { return stolen_; } void task_is_stolen(bool b) { stolen_ = b; } std::size_t last_steal_from() const { return from_; } void last_steal_from(std::size_t f) { from_ = f; } private: std::size_t i_, from_{}; bool stolen_{}; };
enum class schedule_policy_kind { undefined, suspended_worker };
class schedule_option { public: schedule_option() = default; explicit schedule_option(schedule_policy_kind k) : k_(k) {} schedule_policy_kind policy() const { return k_; } private: schedule_policy_kind k_{}; };
struct basic_conditional_task {};
struct rational { std::size_t n{0}, d{1}; rational() = default; rational(std::size_t n, std::size_t d) : n(n), d(d) {} };
class task_scheduler_cfg {
public:
#define F_(T, n, v) T n##_ = v; T n() const { return n##_; } void n(T x) { n##_ = x; }
    F_(std::size_t, thread_count, 3) F_(std::size_t, force_numa_node, 0) F_(bool, core_affinity, false) F_(bool, assign_numa_nodes_uniformly, false) F_(std::size_t, initial_core, 1) F_(bool, stealing_enabled, true) F_(bool, use_preferred_worker_for_current_thread, true)
    F_(std::size_t, stealing_wait, 0) F_(std::size_t, task_polling_wait, 0) F_(bool, busy_worker, false) F_(std::size_t, watcher_interval, 1000) F_(std::size_t, worker_try_count, 1000) F_(std::size_t, worker_suspend_timeout, 1000000) F_(rational, ratio_check_local_first, {})
#undef F_
};
// the simulation chooses queues and steals; 0 keeps the default order
struct chooser { inline static std::function<std::size_t(std::size_t)> pick; static std::size_t of(std::size_t n) { return pick && n > 1 ? pick(n) % n : 0; } };
template <class Task, class Cond> class scheduler {
    struct queue { std::deque<Task> tasks, sticky; };
public:
    scheduler() = default;
    explicit scheduler(task_scheduler_cfg c, std::function<void(std::size_t)> init = {}) : c_(c), init_(std::move(init)), q_(c.thread_count()) {}
    ~scheduler() { stop(); }
    scheduler(scheduler const&) = delete; scheduler& operator=(scheduler const&) = delete;
    void schedule(Task&& t, schedule_option = {}) { std::unique_lock<std::mutex> l(m_); auto i = preferred(); q_[i].tasks.push_back(std::move(t)); ++scheduled; cv_.notify_all(); }
    void schedule_at(Task&& t, std::size_t i) { std::unique_lock<std::mutex> l(m_); if (i >= q_.size()) std::abort(); q_[i].sticky.push_back(std::move(t)); ++scheduled; cv_.notify_all(); }
    void schedule_conditional(Cond&& t) { std::unique_lock<std::mutex> l(m_); cond_.push_back(std::move(t)); ++scheduled; cv_.notify_all(); }
    std::size_t preferred_worker_for_current_thread() { std::unique_lock<std::mutex> l(m_); return preferred(); }
    std::size_t next_worker() { std::unique_lock<std::mutex> l(m_); return next(); }
    void start() { std::unique_lock<std::mutex> l(m_); if (run_) return; run_ = true; for (std::size_t i = 0; i < q_.size(); ++i) th_.emplace_back([this, i] { work(i); }); th_.emplace_back([this] { watch(); }); }
    void stop() { std::vector<std::thread> t; { std::unique_lock<std::mutex> l(m_); run_ = false; t.swap(th_); cv_.notify_all(); } for (auto& x : t) x.join(); std::unique_lock<std::mutex> l(m_); for (auto& q : q_) { q.tasks.clear(); q.sticky.clear(); } cond_.clear(); }
    void print_worker_stats(std::ostream& o) { o << "scheduled:" << scheduled; }
    void print_diagnostic(std::ostream& o) { std::unique_lock<std::mutex> l(m_); for (std::size_t i = 0; i < q_.size(); ++i) { o << "worker:" << i << std::endl; for (auto& t : q_[i].tasks) print_task_diagnostic(t, o); for (auto& t : q_[i].sticky) print_task_diagnostic(t, o); } for (auto& t : cond_) print_task_diagnostic(t, o); }
    std::atomic<std::size_t> scheduled{0};
private:
    std::size_t next() { return (next_++) % q_.size(); }
    std::size_t preferred() { return chooser::pick ? chooser::of(q_.size()) : next(); }
    bool take(std::size_t i, Task& out, context& c) {
        auto pop = [&](std::deque<Task>& d) { out = std::move(d.front()); d.pop_front(); };
        auto& q = q_[i]; c.task_is_stolen(false);
        bool ls = !q.sticky.empty(), lt = !q.tasks.empty();
        if (ls && lt) { pop(chooser::of(2) ? q.tasks : q.sticky); return true; }
        if (ls) { pop(q.sticky); return true; }
        if (lt) { pop(q.tasks); return true; }
        if (c_.stealing_enabled()) for (std::size_t k = 1; k < q_.size(); ++k) { auto j = (i + k) % q_.size(); if (!q_[j].tasks.empty()) { pop(q_[j].tasks); c.task_is_stolen(true); c.last_steal_from(j); return true; } }
        return false;
    }
    void work(std::size_t i) { if (init_) init_(i); context c(i); for (;;) { Task t{}; { std::unique_lock<std::mutex> l(m_); while (run_ && !take(i, t, c)) cv_.wait(l); if (!run_) return; } t(c); } }
    void watch() { for (;;) { std::deque<Cond> b; { std::unique_lock<std::mutex> l(m_); if (!run_) return; if (cond_.empty()) { cv_.wait(l); continue; } b.swap(cond_); } bool any = false; std::deque<Cond> keep; for (auto& t : b) { if (t.check()) { t(); any = true; } else keep.push_back(std::move(t)); } { std::unique_lock<std::mutex> l(m_); for (auto& t : keep) cond_.push_back(std::move(t)); } if (!any) std::this_thread::sleep_for(std::chrono::microseconds(c_.watcher_interval())); } }
    task_scheduler_cfg c_; std::function<void(std::size_t)> init_; std::vector<queue> q_{}; std::deque<Cond> cond_; std::mutex m_; std::condition_variable cv_; std::vector<std::thread> th_; bool run_{}; std::size_t next_{};
};
}
