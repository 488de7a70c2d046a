// Deterministic simulation runtime: public interface for harnesses and stand-ins.
// One integer (the run seed) decides every schedule, delay, fault and generated operation of a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using u64 = std::uint64_t;
using u32 = std::uint32_t;

// ---- pseudo random streams -------------------------------------------------
struct Rng {
    u64 s[2]{};
    void seed(u64 v);
    u64 next();
    u64 below(u64 n) { return n == 0 ? 0 : next() % n; }
    u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
    bool chance(double p) { return static_cast<double>(next() >> 11) * 0x1.0p-53 < p; }
};

Rng& wl();    // workload stream: generated operations, sizes, values
Rng& cfg();   // per-run configuration (swarm) stream

// ---- run control -----------------------------------------------------------
// Reports a violation and ends the run at once. cls identifies the violation class for minimisation.
[[noreturn]] void fail(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish();           // ends this run normally
// Crash: everything but `durable` is lost; the harness is entered again with phase+1 and this blob.
[[noreturn]] void crash(std::string const& durable);

int phase();                          // 0 for the first life, +1 after each crash
std::string const& durable();         // blob handed over by crash()
u64 seed();

// ---- schedule --------------------------------------------------------------
u64 now();            // simulated nanoseconds
u64 seq();            // global event sequence number (strictly increasing per call)
u64 steps();
int tid();
int live_threads();
void yield();         // explicit preemption point (API boundary of stand-ins)
void sleep_ns(u64 ns);
// park the current simulated thread until pred() is true (re-evaluated whenever others ran)
void wait_until(std::function<bool()> const& pred, char const* what);

// While alive no preemption happens on this thread: oracle and model code.
struct NoPreempt {
    NoPreempt();
    ~NoPreempt();
    NoPreempt(NoPreempt const&) = delete;
    NoPreempt& operator=(NoPreempt const&) = delete;
};

// ---- faults ----------------------------------------------------------------
enum fault_kind : int {
    f_spurious_wakeup = 0, f_cas_weak_fail, f_bad_alloc, f_mmap_fail, f_hugepage_fail, f_thread_create,
    f_io_error, f_io_short, f_io_eintr, f_io_open, f_io_full, f_io_torn, f_crash, f_kvs_conflict, f_kvs_error, f_kvs_io,
    f_kvs_premature, f_clock_jump, f_stall, f_durable_delay, f_durable_stall, f_cancel, f_disconnect,
    f_net_delay, f_net_drop, f_channel, f_sched_refuse, f_abort_race, f_cpu_migrate, f_corrupt, f_stop, f_other, f_callback_delay,
    f_count
};
char const* fault_name(int k);
// true: inject here. p is the rate while the kind is enabled in this run; the decision is logged, recorded and minimised.
bool fault(fault_kind k, double p);
// as fault, but chooses one of n alternatives (0 = none)
int fault_n(fault_kind k, double p, int n);
u64 thread_faults(fault_kind k);   // how often k was injected on this thread so far
void fault_enable(fault_kind k, double scale = 1.0); // scale multiplies p
void faults_stop();   // from here on nothing is injected (liveness phases)
bool faults_stopped();
void set_tick_max(u64 ns);      // the simulated machine is at least this fast (time per scheduling point)
u64 tick_ns();
void set_stall_max(u64 ns);   // the longest a thread is stalled by f_stall (default 1.5 s)

// ---- operations of the plan: minimisation masks them --------------------------
bool op_enabled(int i);
void plan_size(int n);   // announces how many maskable operations this run has

// ---- observation -----------------------------------------------------------
void ev(char const* fmt, ...) __attribute__((format(printf, 1, 2)));  // event log (hashed, printed on replay)
void probe(char const* name, u64 n = 1);    // "this condition was reached"
void state(u64 h);                           // abstract state visited
bool verbose();

// ---- knobs (per run, usually drawn from cfg()) -------------------------------
void set_step_limit(u64 n, bool liveness_violation);
void set_time_limit(u64 ns);
void set_alloc_fault(bool on);     // current thread: allocations may fail from here (rate: fault f_bad_alloc)
void check_memory(bool on);        // use-after-free detection on instrumented accesses (default on)
void check_races(bool on);         // happens-before race detection (default off)
void set_nodes(int numa_nodes, int cpus);
// addresses whose races are declared benign by name of symbol substring are handled by the harness
struct AllocStats { u64 live_bytes; u64 live_blocks; u64 total; };
AllocStats alloc_stats();
struct MapStats { u64 live_bytes; u64 total_bytes; u64 calls; };
MapStats map_stats();                   // simulated anonymous mappings
bool mapped(void const* p);             // p is the start of a live mapping
void* map_of(void const* p);             // start of the live mapping (up to 2 MiB) that holds p, or null
int node_of_thread();                   // NUMA node the current thread last ran on

// ---- files: a tiny simulated disk layer for paths under a prefix --------------
void io_faults_prefix(std::string const& prefix);  // file faults only apply to paths under prefix

// provided by the harness ------------------------------------------------------
struct Harness {
    char const* name;
    void (*prepare)();             // once in the zygote process, before any run (may be null)
    void (*run)();                 // one simulated run, on simulated thread 0
};
extern Harness const harness;
char const* property();            // property the run is made for (the harness's name if none was given)

std::string scratch_dir();         // per-run scratch directory (created on first use, removed by the runner)

} // namespace sim
