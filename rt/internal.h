// runtime internals shared by sim.cpp, alloc.cpp, io.cpp and runner.cpp
#pragma once
#include "sim.h"
#include <pthread.h>

namespace sim::in {

enum dkind : u32 { d_preempt = 1, d_next = 2, d_signal = 3, d_fault = 4 };
struct Decision { u32 kind; u32 phase; u64 idx; u64 val; };

constexpr std::size_t max_decisions = 1U << 20U;
constexpr std::size_t max_probe = 96;
constexpr std::size_t max_states = 256;
constexpr std::size_t max_blob = 8U << 20U;
constexpr std::size_t max_msg = 4096;
constexpr std::size_t max_ops = 4096;

enum status : int { s_running = 0, s_ok = 1, s_fail = 2, s_crash = 3, s_inconclusive = 4, s_error = 5 };

struct Result {                    // lives in memory shared between worker and child
    int status;
    int phase;
    char cls[64];
    char msg[max_msg];
    u64 bt[24];
    int nbt;
    u64 loghash, ilvhash, steps, switches, simtime, events;
    u64 faults[f_count];
    u64 fault_sites[f_count];      // times a fault could have fired while enabled
    char probe_name[max_probe][48];
    u64 probe_n[max_probe];
    u64 states[max_states]; u32 nstates;
    u32 nops;
    u32 threads;
    u64 ndec; bool dec_overflow;
    u64 blob_len;
    char scratch[128]; int scratch_used;
    u64 plain;
    Decision dec[max_decisions];
    char blob[max_blob];
};

struct Spec {                      // what a child executes
    u64 seed{};
    u64 sched_seed{};              // schedule+fault stream (== seed unless the minimiser varies it)
    bool explicit_mode{};
    Decision const* dec{}; u64 ndec{};
    unsigned char const* opmask{}; u32 nopmask{};  // 1 = disabled
    bool verbose{};
};

extern Result* res;
extern bool active;                // inside a simulated run
void start_run(Spec const& spec, int phase, std::string const& blob, Result* r);  // never returns (child process)

struct Thr;
extern __thread Thr* self;
bool self_nop();
void yield_sync();
void on_malloc(void* p, std::size_t n);
void on_free(void* p, std::size_t n);
[[noreturn]] void raw_exit(int code);
void mark_crash_signal(int sig, void* addr);

// alloc.cpp
constexpr u64 arena_base = 0x200000000000ULL;
constexpr u64 arena_size = 0x80000000ULL;   // 2 GiB reserved, touched on demand
constexpr u64 stack_base = 0x210000000000ULL;
constexpr u64 stack_slot = 0x200000ULL;     // 2 MiB per thread, upper 1 MiB used
constexpr int max_threads = 128;
constexpr u64 pages_base = 0x220000000000ULL;
constexpr u64 pages_size = 0x100000000ULL;  // 4 GiB of simulated mmap space
extern unsigned char* heap_shadow;
extern bool memory_checks;
bool alloc_fault_now();            // sim.cpp: should this allocation fail
void sim_alloc_init();
void sim_alloc_run();

} // namespace sim::in
