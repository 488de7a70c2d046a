// Deterministic scheduler: real threads, exactly one of which runs at a time; who runs next is decided by a seeded
// generator at every intercepted synchronisation operation, atomic access and (instrumented) memory access.
#include "internal.h"
#include <random>
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>

namespace sim {
using namespace in;

void Rng::seed(u64 v) {
    auto mix = [&v]() { v += 0x9e3779b97f4a7c15ULL; u64 z = v; z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL; return z ^ (z >> 31U); };
    s[0] = mix(); s[1] = mix();
    if (!s[0] && !s[1]) s[0] = 1;
}
u64 Rng::next() {   // xoroshiro128+
    u64 a = s[0], b = s[1], r = a + b;
    b ^= a;
    s[0] = ((a << 24U) | (a >> 40U)) ^ b ^ (b << 16U);
    s[1] = (b << 37U) | (b >> 27U);
    return r;
}

namespace in {
Result* res = nullptr;
bool active = false;

enum tstate : int { t_free, t_run, t_block, t_done };
enum wkind : int { w_none, w_mutex, w_cond, w_join, w_sleep, w_pred, w_rw, w_once, w_guard, w_sem };
char const* const wname[] = {"-", "mutex", "condvar", "join", "sleep", "predicate", "rwlock", "once", "static-init", "semaphore"};
struct Dtor { void (*fn)(void*); void* obj; };
constexpr int max_vc = 64;
struct VC { u32 c[max_vc]; };
struct Thr {
    int id; volatile int fut; int st; int wk; void const* wo; u64 wake; bool timed_out;
    void* (*fn)(void*); void* arg; void* ret; bool detached; pthread_t real; int nop; bool alloc_fault;
    u64 prio; u64 since; u64 ran; std::function<bool()> const* pred; char const* what; u64 wait_seq; int cpu; u32 nfault[f_count];
    Dtor dt[256]; int ndt;
    VC vc, acqf, relf; bool has_acqf, has_relf;
};
__thread Thr* self = nullptr;

namespace {
Thr* thr = nullptr;       // [max_threads], own mapping
int nthr = 0;
Thr* volatile cur = nullptr;
Spec spec;
std::string blob_in;
int phase_no = 0;
u64 clk, next_timer = ~0ULL, seqno, nsteps, nplain, plain_limit = 400'000'000, nswitch, yidx, nidx, sidx, fidx, waitseq, nevents;
u64 loghash, ilvhash;
Rng r_wl, r_cfg, r_sched, r_fault, r_dev;
u64 prio_high = 1ULL << 41U, next_fair = 0;
int strategy;             // 0 random, 1 priority based, 2 switch only where a thread blocks
long long budget; u64 mean_iv; long long w_plain; u64 tick;
u64 pct_next[8]; int pct_n, pct_i; u64 prio_low;
u64 step_limit = 4'000'000; bool step_limit_viol = false; u64 time_limit = 7200ULL * 1000000000ULL;
bool f_on[f_count]; double f_scale[f_count]; bool f_stopped = false;
u64 rt_off = 0;
constexpr u64 rt_epoch = 1'700'000'000ULL * 1000000000ULL;
bool races = false;
int numa_nodes = 1, ncpus = 4;
u64 pages_next = pages_base;
u32 map_len[pages_size >> 12]; u64 map_live, map_total, map_calls;
// explicit decision lists per kind
struct DL { Decision const* d; u64 n; u64 i; } dl[5];
Decision* dl_store = nullptr;

void sys_futex_wait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void sys_futex_wake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

void hash_in(u64& h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6U) + (h >> 2U); h *= 0x100000001b3ULL; }

void rec(u32 kind, u64 idx, u64 val) {
    if (res->ndec >= max_decisions) { res->dec_overflow = true; return; }
    res->dec[res->ndec++] = Decision{kind, static_cast<u32>(phase_no), idx, val};
}
bool explicit_lookup(u32 kind, u64 idx, u64& val) {
    auto& l = dl[kind];
    while (l.i < l.n && l.d[l.i].idx < idx) ++l.i;
    if (l.i < l.n && l.d[l.i].idx == idx) { val = l.d[l.i].val; ++l.i; return true; }
    return false;
}

void flush_result(int st) {
    res->status = st; res->phase = phase_no;
    res->loghash = loghash; res->ilvhash = ilvhash; res->steps += nsteps; res->plain += nplain; res->switches += nswitch;
    res->simtime += clk; res->events += nevents; res->threads = std::max<u32>(res->threads, static_cast<u32>(nthr));
}

void wake_expired() {
    u64 nt = ~0ULL;
    for (int i = 0; i < nthr; ++i) {
        auto& t = thr[i];
        if (t.st != t_block || t.wake == 0) continue;
        if (t.wake <= clk) { t.st = t_run; t.timed_out = true; t.wake = 0; }
        else nt = std::min(nt, t.wake);
    }
    next_timer = nt;
}
int collect(int* out) {
    int n = 0;
    for (int i = 0; i < nthr; ++i) {
        auto& t = thr[i];
        if (t.st == t_block && t.wk == w_pred && t.pred) {
            ++self->nop;
            bool b = (*t.pred)();
            --self->nop;
            if (b) { t.st = t_run; t.wake = 0; }
        }
        if (t.st == t_run) out[n++] = i;
    }
    return n;
}
int highest(int const* c, int n) {
    int b = c[0];
    for (int i = 1; i < n; ++i) if (thr[c[i]].prio > thr[b].prio) b = c[i];
    return b;
}
int after(int const* c, int n, int id) {   // round robin successor
    for (int i = 0; i < n; ++i) if (c[i] > id) return c[i];
    return c[0];
}
void handoff(Thr* t) {
    ++nswitch;
    if (spec.verbose) { char b[96]; int n = snprintf(b, sizeof b, "        [%llu] -> thread %d\n", (unsigned long long)yidx, t->id); (void)!write(2, b, n); }
    if (cur) cur->ran = yidx;
    cur = t;
    t->since = 0;
    __atomic_store_n(&t->fut, 1, __ATOMIC_RELEASE);
    sys_futex_wake(&t->fut);
}
void park(Thr* me) {
    while (__atomic_load_n(&me->fut, __ATOMIC_ACQUIRE) == 0) sys_futex_wait(&me->fut, 0);
    __atomic_store_n(&me->fut, 0, __ATOMIC_RELAXED);
}
void switch_to(Thr* t) {
    if (t == self) return;
    hash_in(ilvhash, (u64(self->id) << 32U) ^ u64(t->id));
    handoff(t);
    park(self);
}
void deadlock() {
    char b[1500]; int n = 0;
    for (int i = 0; i < nthr && n < 1300; ++i) {
        auto& t = thr[i];
        if (t.st != t_done) n += snprintf(b + n, sizeof b - n, " t%d:%s%s%s", i, wname[t.wk], t.what ? "/" : "", t.what ? t.what : "");
    }
    fail("deadlock", "no thread can ever run again:%s", b);
}
// the current thread cannot go on: give the processor to somebody else
void schedule_away() {
    int c[max_threads];
    int n = 0;
    for (;;) {
        n = collect(c);
        if (n) break;
        u64 nt = ~0ULL;
        for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wake) nt = std::min(nt, thr[i].wake);
        if (nt == ~0ULL) deadlock();
        if (nt > clk) clk = nt;
        if (clk > time_limit) {
            if (step_limit_viol) fail("no-progress", "simulated time limit reached");
            flush_result(s_inconclusive); raw_exit(0);
        }
        wake_expired();
    }
    ++nidx;
    int def = after(c, n, self->id), pick = def;
    if (n > 1) {
        u64 v = 0;
        if (spec.explicit_mode) {
            if (explicit_lookup(d_next, nidx, v)) for (int i = 0; i < n; ++i) if (c[i] == static_cast<int>(v)) pick = c[i];
        } else {
            pick = strategy == 1 ? highest(c, n) : c[r_sched.below(n)];
            if (pick != def) rec(d_next, nidx, pick);
        }
    }
    Thr* t = &thr[pick];
    if (t == self) return;      // a timer fired for ourselves
    switch_to(t);
}
void block_on(wkind k, void const* o, u64 wake, char const* what = nullptr) {
    self->st = t_block; self->wk = k; self->wo = o; self->wake = wake; self->timed_out = false; self->what = what; self->wait_seq = ++waitseq;
    if (wake) next_timer = std::min(next_timer, wake);
    schedule_away();
    self->wk = w_none; self->wo = nullptr; self->wake = 0; self->what = nullptr;
}
int stall_kinds = 6;
constexpr u64 stall_ns[] = {2'000, 20'000, 300'000, 5'000'000, 60'000'000, 1'500'000'000};
void redraw() { budget = 1 + static_cast<long long>(r_sched.below(2 * mean_iv * 256)); }

void limit_reached() {
    if (step_limit_viol) fail("no-progress", "step limit of %llu reached without completion", (unsigned long long)step_limit);
    flush_result(s_inconclusive);
    raw_exit(0);
}

// a point where another thread may run. w: weight (256 = a synchronisation operation)
inline void point(long long w, bool sync) {
    Thr* me = self;
    if (!active || !me || me->nop) return;
    ++yidx; me->since += sync ? 8 : 1;
    if (sync) ++nsteps; else if (++nplain > plain_limit) limit_reached();
    if (sync) clk += tick; else if ((yidx & 7U) == 0) ++clk;
    if (clk >= next_timer) wake_expired();
    if (nsteps > step_limit) limit_reached();
    int c[max_threads]; int n = 0;
    if (sync && f_on[f_stall] && !f_stopped) {
        if (int v = fault_n(f_stall, 0.002, stall_kinds)) { block_on(w_sleep, nullptr, clk + stall_ns[v - 1]); return; }
    }
    if (me->since > 60000) {    // fairness: nobody spins forever
        n = collect(c);
        me->since = 0;
        if (n > 1) { me->prio = --prio_low; switch_to(&thr[after(c, n, me->id)]); }
        return;
    }
    if (spec.explicit_mode) {
        u64 v = 0;
        if (explicit_lookup(d_preempt, yidx, v) && v < static_cast<u64>(nthr) && static_cast<int>(v) != me->id) {
            n = collect(c);
            for (int i = 0; i < n; ++i) if (c[i] == static_cast<int>(v)) { switch_to(&thr[c[i]]); break; }
        }
        return;
    }
    if (strategy == 0) {
        budget -= w;
        if (budget > 0) return;
        redraw();
        n = collect(c);
        if (n < 2) return;
        int p = c[r_sched.below(n)];
        if (p == me->id) return;
        rec(d_preempt, yidx, p);
        switch_to(&thr[p]);
    } else if (strategy == 1) {
        bool demote = me->since > 8000;
        while (pct_i < pct_n && yidx >= pct_next[pct_i]) { ++pct_i; demote = true; }
        if (demote) { me->prio = --prio_low; me->since = 0; }
        bool fair = yidx >= next_fair;
        if (!demote && !sync && !fair) return;
        n = collect(c);
        if (fair) {     // a thread that could run for long without getting the processor becomes the first
            next_fair = yidx + 20000;
            for (int i = 0; i < n; ++i) if (c[i] != me->id && thr[c[i]].ran + 100000 < yidx) { thr[c[i]].prio = ++prio_high; thr[c[i]].ran = yidx; break; }
        }
        int p = highest(c, n);
        if (p == me->id) return;
        rec(d_preempt, yidx, p);
        switch_to(&thr[p]);
    }
}

// ---- happens-before race detection ------------------------------------------------
struct Slot { u32 clk; unsigned char tid, off, len, flags; u32 pc; u32 pad; };   // flags: 1 write 2 atomic 4 valid
Slot* sh_arena = nullptr; Slot* sh_stack = nullptr; Slot* sh_img = nullptr; Slot* sh_pages = nullptr;
constexpr u64 img_base = 0x400000, img_size = 0x10000000;
constexpr u64 race_pages = 0x20000000;      // first 512 MiB of the page space
struct SyncEnt { u64 addr; VC* vc; };
SyncEnt* sync_tab = nullptr; VC* sync_vc = nullptr; u32 sync_n = 0;
constexpr u32 sync_cap = 1U << 17U;
void* big(u64 n) {
    void* p = reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) { perror("sim: mmap"); _exit(70); }
    return p;
}
Slot* slots(u64 a) {
    if (a >= arena_base && a < arena_base + arena_size) return sh_arena + ((a - arena_base) >> 3) * 4;
    if (a >= stack_base && a < stack_base + stack_slot * max_threads) return sh_stack + ((a - stack_base) >> 3) * 4;
    if (a >= img_base && a < img_base + img_size) return sh_img + ((a - img_base) >> 3) * 4;
    if (a >= pages_base && a < pages_base + race_pages) return sh_pages + ((a - pages_base) >> 3) * 4;
    return nullptr;
}
VC* sync_of(void const* o) {
    u64 a = reinterpret_cast<u64>(o);
    u32 h = static_cast<u32>((a * 0x9e3779b97f4a7c15ULL) >> 40U) & (sync_cap - 1);
    for (u32 i = 0; i < sync_cap; ++i, h = (h + 1) & (sync_cap - 1)) {
        if (sync_tab[h].addr == a) return sync_tab[h].vc;
        if (sync_tab[h].addr == 0) {
            if (sync_n >= sync_cap / 2) return nullptr;
            sync_tab[h].addr = a; sync_tab[h].vc = &sync_vc[sync_n++];
            return sync_tab[h].vc;
        }
    }
    return nullptr;
}
void join(VC& a, VC const& b) { for (int i = 0; i < max_vc; ++i) a.c[i] = std::max(a.c[i], b.c[i]); }
void hb_acquire(void const* o) { if (!races || !self) return; if (VC* v = sync_of(o)) join(self->vc, *v); }
void hb_release(void const* o) {
    if (!races || !self || self->id >= max_vc) return;
    if (VC* v = sync_of(o)) join(*v, self->vc);
    ++self->vc.c[self->id];
}
char const* symbol(u32 pc, char* buf, std::size_t n) {
    Dl_info di{};
    if (pc && dladdr(reinterpret_cast<void*>(static_cast<u64>(pc)), &di) && di.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(buf, n, "%s", st == 0 && d ? d : di.dli_sname);
    } else snprintf(buf, n, "0x%x", pc);
    return buf;
}
void race_access(u64 a, u32 len, bool w, bool at, u32 pc) {
    Thr* me = self;
    if (me->id >= max_vc) return;
    while (len) {
        u32 off = a & 7U, l = std::min<u32>(len, 8 - off);
        Slot* s = slots(a);
        if (!s) return;
        int freei = -1, mine = -1;
        for (int i = 0; i < 4; ++i) {
            Slot& e = s[i];
            if (!(e.flags & 4U)) { if (freei < 0) freei = i; continue; }
            if (e.tid == me->id) {
                if (e.off == off && e.len == l && ((e.flags & 1U) || !(w))  && ((e.flags & 2U) == (at ? 2U : 0U))) { if (mine < 0) mine = i; }
                else if (e.off == off && e.len == l && w && !(e.flags & 1U) && ((e.flags & 2U) == (at ? 2U : 0U))) { if (mine < 0) mine = i; }
                continue;
            }
            bool overlap = e.off < off + l && off < u32(e.off) + e.len;
            bool conflict = overlap && (w || (e.flags & 1U)) && !(at && (e.flags & 2U));
            bool hb = e.clk <= me->vc.c[e.tid];
            if (conflict && !hb) {
                char b1[600], b2[600];
                u32 opc = e.pc; int ot = e.tid; unsigned fl = e.flags;
                active = false;
                symbol(pc, b1, sizeof b1); symbol(opc, b2, sizeof b2);
                active = true;
                fail("data-race", "unsynchronised %s%s by thread %d in %s [%x] and %s%s by thread %d in %s [%x]", at ? "atomic " : "", w ? "write" : "read", me->id, b1, pc,
                    fl & 2U ? "atomic " : "", fl & 1U ? "write" : "read", ot, b2, opc);
            }
            if (hb && overlap && e.off >= off && u32(e.off) + e.len <= off + l && (w || !(e.flags & 1U)) && freei < 0) freei = i; // superseded
        }
        int k = mine >= 0 ? mine : freei >= 0 ? freei : static_cast<int>((yidx + a) & 3U);
        s[k] = Slot{me->vc.c[me->id], static_cast<unsigned char>(me->id), static_cast<unsigned char>(off), static_cast<unsigned char>(l),
            static_cast<unsigned char>((w ? 1U : 0U) | (at ? 2U : 0U) | 4U), pc, 0};
        a += l; len -= l;
    }
}

inline void heap_check(u64 a, u32 n, bool w) {
    if (a - arena_base >= arena_size) return;
    unsigned char g = heap_shadow[(a - arena_base) >> 4];
    u32 end = static_cast<u32>(a & 15U) + n;
    if (end <= g) return;
    if (g == 16) {        // crosses into the next granules
        u32 rest = end - 16; u64 q = ((a - arena_base) >> 4) + 1;
        for (; rest; ++q) {
            unsigned char h = heap_shadow[q];
            u32 take = std::min<u32>(rest, 16);
            if (h < take) goto bad;
            rest -= take;
        }
        return;
    }
bad:
    memory_checks = false;
    fail("memory", "%s of %u bytes at %p: freed or never allocated heap memory", w ? "write" : "read", n, reinterpret_cast<void*>(a));
}
u64 trace_lo, trace_n;      // SIM_TRACE=lo,n: print the code addresses of these points
[[gnu::noinline, gnu::cold]] void trace(void* pc) { char b[80]; int m = snprintf(b, sizeof b, "  pc %llu t%d %p\n", (unsigned long long)yidx, self->id, pc); (void)!write(2, b, m); }
inline void access(void const* p, u32 n, bool w, void* pc) {
    if (!active || !self) return;
    if (__builtin_expect(yidx - trace_lo < trace_n, 0)) trace(pc);
    if (memory_checks) heap_check(reinterpret_cast<u64>(p), n, w);
    if (self->nop) return;
    if (races) race_access(reinterpret_cast<u64>(p), n, w, false, static_cast<u32>(reinterpret_cast<u64>(pc)));
    point(w_plain, false);
}
} // namespace

void on_malloc(void* p, std::size_t n) {
    if (!races || !active) return;
    if (Slot* s = slots(reinterpret_cast<u64>(p))) std::memset(static_cast<void*>(s), 0, ((n + 7) / 8) * 4 * sizeof(Slot));
}
void on_free(void* p, std::size_t n) {
    if (!races || !active || !self || self->nop) return;
    u32 pc = static_cast<u32>(reinterpret_cast<u64>(__builtin_return_address(1)));
    for (std::size_t i = 0; i < n; i += 8) race_access(reinterpret_cast<u64>(p) + i, static_cast<u32>(std::min<std::size_t>(8, n - i)), true, false, pc);
}
bool self_nop() { return self->nop != 0; }
void raw_exit(int code) { _exit(code); }
u64 random_bits() { if (active) return r_dev.next(); u64 v = 0; (void)!syscall(SYS_getrandom, &v, sizeof v, 0); return v; }
bool alloc_fault_now() { return self && self->alloc_fault && !self->nop && fault(f_bad_alloc, 0.02); }
void yield_sync() { point(256, true); }

void mark_crash_signal(int sig, void* addr) {
    if (!res || res->status != s_running) raw_exit(1);
    active = false;
    snprintf(res->cls, sizeof res->cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "SIGILL");
    if (!res->msg[0]) snprintf(res->msg, sizeof res->msg, "signal %d at address %p on thread %d", sig, addr, self ? self->id : -1);
    void* b[24]; res->nbt = backtrace(b, 24); for (int i = 0; i < res->nbt; ++i) res->bt[i] = reinterpret_cast<u64>(b[i]);
    hash_in(loghash, sig);
    flush_result(s_fail);
    raw_exit(0);
}

namespace {
void on_signal(int sig, siginfo_t* si, void*) { mark_crash_signal(sig, si->si_addr); }
[[noreturn]] void on_terminate() {
    char b[900] = "std::terminate without an exception"; char cls[60] = "terminate";
    if (auto* ti = abi::__cxa_current_exception_type()) {
        int st = 0; char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
        char const* w = "";
        try { throw; } catch (std::exception const& e) { w = e.what(); } catch (...) {}
        snprintf(b, sizeof b, "uncaught exception %s: %s", d ? d : ti->name(), w);
        snprintf(cls, sizeof cls, "terminate:%.40s", d ? d : ti->name());
    }
    fail(cls, "%s", b);
}
struct Boot { Spec s; };
void* main_thread(void*) {
    active = true;
    harness.run();
    finish();
}
template <class F> F real(char const* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
int (*real_create)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*);

void run_dtors() {
    while (self->ndt > 0) { auto d = self->dt[--self->ndt]; d.fn(d.obj); }
}
void* tramp(void* a) {
    self = static_cast<Thr*>(a);
    park(self);
    void* r = self->fn(self->arg);
    run_dtors();
    point(256, true);
    self->ret = r;
    self->st = t_done;
    if (races && self->id < max_vc) ++self->vc.c[self->id];
    for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wk == w_join && thr[i].wo == self) { thr[i].st = t_run; }
    // leave for good: the real thread stays parked until the process ends
    int c[max_threads]; int n = 0;
    for (;;) {
        n = collect(c);
        if (n) break;
        u64 nt = ~0ULL;
        for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wake) nt = std::min(nt, thr[i].wake);
        if (nt == ~0ULL) deadlock();
        clk = std::max(clk, nt);
        if (clk > time_limit) { if (step_limit_viol) fail("no-progress", "simulated time limit reached"); flush_result(s_inconclusive); raw_exit(0); }
        wake_expired();
    }
    ++nidx;
    int def = after(c, n, self->id), pick = def; u64 v = 0;
    if (n > 1) {
        if (spec.explicit_mode) { if (explicit_lookup(d_next, nidx, v)) for (int i = 0; i < n; ++i) if (c[i] == static_cast<int>(v)) pick = c[i]; }
        else { pick = strategy == 1 ? highest(c, n) : c[r_sched.below(n)]; if (pick != def) rec(d_next, nidx, pick); }
    }
    hash_in(ilvhash, (u64(self->id) << 32U) ^ u64(pick));
    handoff(&thr[pick]);
    for (;;) park(self);
}
int make_thread(void* (*fn)(void*), void* arg, pthread_t* out, bool detached) {
    if (nthr >= max_threads) return EAGAIN;
    Thr& t = thr[nthr];
    std::memset(static_cast<void*>(&t), 0, sizeof t);
    t.id = nthr; t.fn = fn; t.arg = arg; t.st = t_run; t.detached = detached; t.cpu = t.id;
    t.ran = yidx;
    t.prio = strategy == 1 ? (1ULL << 40U) + r_sched.below(1U << 20U) : 1;
    if (races && self) {
        if (t.id < max_vc) {
            t.vc = self->vc; t.vc.c[t.id] = 1;
            if (self->id < max_vc) ++self->vc.c[self->id];
        }
    }
    void* st = reinterpret_cast<void*>(stack_base + stack_slot * static_cast<u64>(t.id) + 0x80000);
    u64 sz = stack_slot - 0x80000;
    if (mmap(st, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) == MAP_FAILED) return EAGAIN;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, sz);
    ++nthr;
    int rc = real_create(&t.real, &at, tramp, &t);
    pthread_attr_destroy(&at);
    if (rc) { --nthr; return rc; }
    if (out) *out = t.real;
    return 0;
}
} // namespace

void start_run(Spec const& sp, int phase, std::string const& blob, Result* r) {
    spec = sp; res = r; phase_no = phase; blob_in = blob;
    if (!thr) thr = static_cast<Thr*>(big(sizeof(Thr) * max_threads));
    real_create = real<decltype(real_create)>("pthread_create");
    u64 s = sp.seed + 0x51ULL * static_cast<u64>(phase);
    r_wl.seed(s * 3 + 1); r_cfg.seed(sp.seed * 5 + 2); r_dev.seed(s * 11 + 5);
    Rng rc; rc.seed(sp.sched_seed * 7 + 3 + static_cast<u64>(phase) * 1000003ULL);
    u64 st = rc.below(10);
    strategy = st < 6 ? 0 : st < 9 ? 1 : 2;
    static u64 const ivs[] = {1, 2, 3, 5, 10, 30};
    mean_iv = ivs[rc.below(6)];
    static long long const pw[] = {0, 0, 1, 4, 16, 64};
    w_plain = pw[rc.below(6)];
    if (char const* t = getenv("SIM_TRACE")) { char* q; trace_lo = strtoull(t, &q, 10); trace_n = strtoull(q + 1, nullptr, 10); }
    static u64 const tk[] = {10, 50, 200, 1000, 10000};
    tick = tk[rc.below(5)];
    pct_n = 1 + static_cast<int>(rc.below(6));
    u64 span = 1ULL << (8 + rc.below(10));
    for (int i = 0; i < pct_n; ++i) pct_next[i] = 1 + rc.below(span);
    std::sort(pct_next, pct_next + pct_n);
    prio_low = 1ULL << 39U;
    r_sched.seed(rc.next()); r_fault.seed(rc.next());
    redraw();
    clk = 1000000; loghash = phase == 0 ? 1469598103934665603ULL : r->loghash; ilvhash = r->ilvhash;
    if (sp.explicit_mode) {
        dl_store = static_cast<Decision*>(big(sizeof(Decision) * (sp.ndec + 1)));
        u64 w = 0;
        for (u32 k = d_preempt; k <= d_fault; ++k) {
            dl[k].d = dl_store + w; dl[k].i = 0;
            for (u64 i = 0; i < sp.ndec; ++i) if (sp.dec[i].kind == k && sp.dec[i].phase == static_cast<u32>(phase)) dl_store[w++] = sp.dec[i];
            dl[k].n = static_cast<u64>(dl_store + w - dl[k].d);
        }
    }
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for (int sg : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(sg, &sa, nullptr);
    std::set_terminate(on_terminate);
    sim_alloc_run();
    if (int rcx = make_thread(main_thread, nullptr, nullptr, true)) { fprintf(stderr, "sim: cannot start (%d)\n", rcx); _exit(70); }
    cur = &thr[0];
    __atomic_store_n(&thr[0].fut, 1, __ATOMIC_RELEASE);      // hand it the baton
    sys_futex_wake(&thr[0].fut);
    for (;;) pause();
}
} // namespace in

// ---- public ----------------------------------------------------------------------
Rng& wl() { return r_wl; }
Rng& cfg() { return r_cfg; }
int phase() { return phase_no; }
std::string const& durable() { return blob_in; }
u64 seed() { return spec.seed; }
u64 now() { return clk; }
u64 seq() { return ++seqno; }
u64 steps() { return nsteps; }
int tid() { return self ? self->id : -1; }
int live_threads() { int n = 0; for (int i = 0; i < nthr; ++i) n += thr[i].st == t_run || thr[i].st == t_block; return n; }
void yield() { point(256, true); }
void sleep_ns(u64 ns) {
    if (!active || !self) return;
    block_on(w_sleep, nullptr, clk + (ns ? ns : 1));
}
void wait_until(std::function<bool()> const& pred, char const* what) {
    { NoPreempt g; if (pred()) return; }
    self->pred = &pred;
    block_on(w_pred, &pred, 0, what);
    self->pred = nullptr;
}
NoPreempt::NoPreempt() { if (self) ++self->nop; }
NoPreempt::~NoPreempt() { if (self) --self->nop; }

char const* fault_name(int k) {
    static char const* const n[] = {"spurious_wakeup", "cas_weak_fail", "bad_alloc", "mmap_fail", "hugepage_fail", "thread_create", "io_error", "io_short", "io_eintr",
        "io_open", "io_full", "io_torn", "crash", "kvs_conflict", "kvs_error", "kvs_io", "kvs_premature", "clock_jump", "stall", "durable_delay", "durable_stall", "cancel",
        "disconnect", "net_delay", "net_drop", "channel", "sched_refuse", "abort_race", "cpu_migrate", "corrupt", "stop", "other", "callback_delay"};
    static_assert(sizeof n / sizeof *n == f_count);
    return n[k];
}
int fault_n(fault_kind k, double p, int n) {
    if (!active || !self) return 0;
    ++fidx;
    if (f_stopped || !f_on[k]) return 0;
    ++res->fault_sites[k];
    int v = 0;
    if (spec.explicit_mode) { u64 x = 0; if (explicit_lookup(d_fault, fidx, x)) v = static_cast<int>(std::min<u64>(x, static_cast<u64>(n))); }
    else if (r_fault.chance(p * f_scale[k])) { v = 1 + static_cast<int>(r_fault.below(n)); rec(d_fault, fidx, v); }
    if (v) { ++self->nfault[k]; ++res->faults[k]; hash_in(loghash, 7000 + k); if (spec.verbose) { char b[64]; int m = snprintf(b, sizeof b, "  !! fault %s/%d\n", fault_name(k), v); (void)!write(2, b, m); } }
    return v;
}
bool fault(fault_kind k, double p) { return fault_n(k, p, 1) != 0; }
u64 thread_faults(fault_kind k) { return self ? self->nfault[k] : 0; }
void fault_enable(fault_kind k, double scale) { f_on[k] = scale > 0; f_scale[k] = scale; }
void faults_stop() { f_stopped = true; }
void set_stall_max(u64 ns) { stall_kinds = 0; for (auto v : stall_ns) if (v <= ns) ++stall_kinds; if (!stall_kinds) stall_kinds = 1; }
void set_tick_max(u64 ns) { tick = std::min(tick, ns); }
u64 tick_ns() { return tick; }
bool faults_stopped() { return f_stopped; }
bool op_enabled(int i) { return !(i >= 0 && static_cast<u32>(i) < spec.nopmask && spec.opmask[i]); }
void plan_size(int n) { res->nops = std::max<u32>(res->nops, static_cast<u32>(n)); }

void ev(char const* fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > static_cast<int>(sizeof b) - 1) n = sizeof b - 1;
    ++nevents;
    hash_in(loghash, self ? self->id : 99);
    for (int i = 0; i < n; ++i) hash_in(loghash, static_cast<unsigned char>(b[i]));
    if (spec.verbose) { char o[1200]; int m = snprintf(o, sizeof o, "%10llu t%-2d %s\n", (unsigned long long)clk, self ? self->id : -1, b); (void)!write(2, o, m); }
}
void probe(char const* name, u64 n) {
    for (std::size_t i = 0; i < max_probe; ++i) {
        if (!res->probe_name[i][0]) { snprintf(res->probe_name[i], sizeof res->probe_name[i], "%s", name); }
        if (!strncmp(res->probe_name[i], name, sizeof res->probe_name[i] - 1)) { res->probe_n[i] += n; return; }
    }
}
void state(u64 h) {
    h *= 0x9e3779b97f4a7c15ULL; h ^= h >> 29U;
    for (u32 i = 0; i < res->nstates; ++i) if (res->states[i] == h) return;
    if (res->nstates < max_states) res->states[res->nstates++] = h;
}
bool verbose() { return spec.verbose; }
void set_step_limit(u64 n, bool v) { step_limit = nsteps + n; step_limit_viol = v; }
void set_time_limit(u64 ns) { time_limit = clk + ns; }
void set_alloc_fault(bool on) { if (self) self->alloc_fault = on; }
void check_memory(bool on) { memory_checks = on; }
void check_races(bool on) {
    if (on && !sh_arena) {
        sh_arena = static_cast<Slot*>(big(arena_size / 8 * 4 * sizeof(Slot)));
        sh_stack = static_cast<Slot*>(big(stack_slot * max_threads / 8 * 4 * sizeof(Slot)));
        sh_img = static_cast<Slot*>(big(img_size / 8 * 4 * sizeof(Slot)));
        sh_pages = static_cast<Slot*>(big(race_pages / 8 * 4 * sizeof(Slot)));
        sync_tab = static_cast<SyncEnt*>(big(sizeof(SyncEnt) * sync_cap));
        sync_vc = static_cast<VC*>(big(sizeof(VC) * sync_cap));
        for (int i = 0; i < nthr && i < max_vc; ++i) thr[i].vc.c[i] = 1;
    }
    races = on;
}
MapStats map_stats() { return {map_live, map_total, map_calls}; }
void* map_of(void const* p) {
    u64 x = reinterpret_cast<u64>(p);
    if (x < pages_base || x >= pages_base + pages_size) return nullptr;
    for (u64 g = (x - pages_base) >> 12, i = 0; i < 600; ++i, --g) { if (map_len[g] > i) return reinterpret_cast<void*>(pages_base + (g << 12)); if (g == 0) break; }
    return nullptr;
}
bool mapped(void const* p) { u64 x = reinterpret_cast<u64>(p); return x >= pages_base && x < pages_base + pages_size && map_len[(x - pages_base) >> 12] != 0; }
int node_of_thread() { return (self->cpu % ncpus) % numa_nodes; }
void set_nodes(int nodes, int cpus) { numa_nodes = nodes; ncpus = cpus; }

void fail(char const* cls, char const* fmt, ...) {
    active = false;
    char b[max_msg];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (res->status == s_running) {
        snprintf(res->cls, sizeof res->cls, "%s", cls);
        snprintf(res->msg, sizeof res->msg, "%s", b);
        void* bt[24]; res->nbt = backtrace(bt, 24); for (int i = 0; i < res->nbt; ++i) res->bt[i] = reinterpret_cast<u64>(bt[i]);
        for (char const* p = cls; *p; ++p) hash_in(loghash, static_cast<unsigned char>(*p));
        if (spec.verbose) { char o[max_msg + 100]; int m = snprintf(o, sizeof o, "%10llu t%-2d VIOLATED %s: %s\n", (unsigned long long)clk, self ? self->id : -1, cls, b); (void)!write(2, o, m); }
        flush_result(s_fail);
    }
    raw_exit(0);
}
void finish() { active = false; flush_result(s_ok); raw_exit(0); }
void crash(std::string const& d) {
    active = false;
    if (d.size() > max_blob) { snprintf(res->msg, max_msg, "durable blob too large"); flush_result(s_error); raw_exit(0); }
    std::memcpy(res->blob, d.data(), d.size()); res->blob_len = d.size();
    flush_result(s_crash);
    raw_exit(0);
}
} // namespace sim

// ==== interposed synchronisation ====================================================
using namespace sim;
using namespace sim::in;

namespace {
struct Mx { int lock; unsigned count; int owner; unsigned nusers; int kind; };
Mx* mx(pthread_mutex_t* m) { return reinterpret_cast<Mx*>(m); }
bool on() { return active && self; }
u64 abs_to_sim(timespec const* ts, clockid_t c) {
    u64 t = static_cast<u64>(ts->tv_sec) * 1000000000ULL + static_cast<u64>(ts->tv_nsec);
    if (ts->tv_sec < 0) return 1;
    if (c == CLOCK_REALTIME) { u64 base = rt_epoch + rt_off; t = t > base ? t - base : 1; }
    return t ? t : 1;
}
void wake_waiters(int wk, void const* o) {
    for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wk == wk && thr[i].wo == o) { thr[i].st = t_run; thr[i].wake = 0; }
}
int lock_impl(pthread_mutex_t* m, u64 deadline, bool pt) {
    Mx* x = mx(m);
    if (!on()) { if (x->lock && (x->kind & 3) == 1) { ++x->count; return 0; } x->lock = 1; x->count = 1; x->owner = self ? self->id + 1 : 1; return 0; }
    if (pt) point(256, true);
    int me = self->id + 1;
    if (x->lock && x->owner == me) {
        if ((x->kind & 3) == 1) { ++x->count; return 0; }
        if ((x->kind & 3) == 2) return EDEADLK;
        fail("deadlock", "thread %d locks a non-recursive mutex it already holds", self->id);
    }
    while (x->lock) {
        if (self->nop) { fail("harness-error", "blocking lock inside NoPreempt"); }
        block_on(w_mutex, m, deadline);
        if (deadline && self->timed_out && x->lock) return ETIMEDOUT;
    }
    x->lock = 1; x->owner = me; x->count = 1;
    hash_in(ilvhash, 0x1000 + self->id);
    hb_acquire(m);
    return 0;
}
int unlock_impl(pthread_mutex_t* m, bool pt) {
    Mx* x = mx(m);
    if (!on()) { if (x->count && --x->count) return 0; x->lock = 0; x->owner = 0; return 0; }
    if (!x->lock || x->owner != self->id + 1) {
        if ((x->kind & 3) != 0) return EPERM;
        fail("sync-misuse", "thread %d unlocks a mutex %s", self->id, x->lock ? "owned by another thread" : "that is not locked");
    }
    if (--x->count) return 0;
    hb_release(m);
    x->lock = 0; x->owner = 0;
    wake_waiters(w_mutex, m);
    if (pt) point(256, true);
    return 0;
}
int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    if (!on()) return 0;
    point(256, true);
    unsigned saved = mx(m)->count;
    mx(m)->count = 1;
    unlock_impl(m, false);
    bool timed_out = false;
    if (sim::fault(f_spurious_wakeup, 0.03)) { point(256, true); }
    else {
        if (deadline && deadline <= clk) { timed_out = true; point(256, true); }
        else { block_on(w_cond, c, deadline); timed_out = self->timed_out; }
    }
    lock_impl(m, 0, false);
    mx(m)->count = saved;
    return timed_out ? ETIMEDOUT : 0;
}
struct Rw { int readers; int writer; };
Rw* rw(pthread_rwlock_t* l) { return reinterpret_cast<Rw*>(l); }
int rd_impl(pthread_rwlock_t* l, bool tr, u64 dl_) {
    if (!on()) { ++rw(l)->readers; return 0; }
    point(256, true);
    while (rw(l)->writer) { if (tr) return EBUSY; block_on(w_rw, l, dl_); if (dl_ && self->timed_out && rw(l)->writer) return ETIMEDOUT; }
    ++rw(l)->readers; hb_acquire(l); hash_in(ilvhash, 0x2000 + self->id);
    return 0;
}
int wr_impl(pthread_rwlock_t* l, bool tr, u64 dl_) {
    if (!on()) { rw(l)->writer = 1; return 0; }
    point(256, true);
    while (rw(l)->writer || rw(l)->readers) { if (tr) return EBUSY; block_on(w_rw, l, dl_); if (dl_ && self->timed_out && (rw(l)->writer || rw(l)->readers)) return ETIMEDOUT; }
    rw(l)->writer = self->id + 1; hb_acquire(l); hash_in(ilvhash, 0x3000 + self->id);
    return 0;
}
} // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return lock_impl(m, 0, true); }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!on()) return lock_impl(m, 0, false);
    point(256, true);
    Mx* x = mx(m);
    if (x->lock) { if ((x->kind & 3) == 1 && x->owner == self->id + 1) { ++x->count; return 0; } return EBUSY; }
    x->lock = 1; x->owner = self->id + 1; x->count = 1; hb_acquire(m); hash_in(ilvhash, 0x4000 + self->id);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, timespec const* t) { return lock_impl(m, on() ? abs_to_sim(t, CLOCK_REALTIME) : 0, true); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, timespec const* t) { return lock_impl(m, on() ? abs_to_sim(t, c) : 0, true); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_impl(m, true); }
int pthread_mutex_init(pthread_mutex_t* m, pthread_mutexattr_t const* a) {
    std::memset(m, 0, sizeof *m);
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); mx(m)->kind = k; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (on() && mx(m)->lock && !self->nop) fail("sync-misuse", "a locked mutex is destroyed by thread %d", self->id);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, pthread_condattr_t const*) { std::memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (on()) for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wk == w_cond && thr[i].wo == c) fail("sync-misuse", "a condition variable is destroyed while thread %d waits on it", i);
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_impl(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* t) { return cond_wait_impl(c, m, on() ? abs_to_sim(t, CLOCK_REALTIME) : 0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t) { return cond_wait_impl(c, m, on() ? abs_to_sim(t, k) : 0); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) return 0;
    point(256, true);
    int w[max_threads], n = 0;
    for (int i = 0; i < nthr; ++i) if (thr[i].st == t_block && thr[i].wk == w_cond && thr[i].wo == c) w[n++] = i;
    if (!n) return 0;
    std::sort(w, w + n, [](int a, int b) { return thr[a].wait_seq < thr[b].wait_seq; });
    ++sidx;
    int k = 0; u64 v = 0;
    if (n > 1) {
        if (spec.explicit_mode) { if (explicit_lookup(d_signal, sidx, v)) k = static_cast<int>(v % static_cast<u64>(n)); }
        else { k = static_cast<int>(r_sched.below(n)); if (k) rec(d_signal, sidx, k); }
    }
    thr[w[k]].st = t_run; thr[w[k]].wake = 0;
    point(256, true);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) return 0;
    point(256, true);
    wake_waiters(w_cond, c);
    point(256, true);
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, pthread_rwlockattr_t const*) { std::memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rd_impl(l, false, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rd_impl(l, true, 0); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, timespec const* t) { return rd_impl(l, false, abs_to_sim(t, CLOCK_REALTIME)); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return rd_impl(l, false, abs_to_sim(t, c)); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wr_impl(l, false, 0); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wr_impl(l, true, 0); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, timespec const* t) { return wr_impl(l, false, abs_to_sim(t, CLOCK_REALTIME)); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, timespec const* t) { return wr_impl(l, false, abs_to_sim(t, c)); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!on()) { if (rw(l)->writer) rw(l)->writer = 0; else --rw(l)->readers; return 0; }
    if (rw(l)->writer) {
        if (rw(l)->writer != self->id + 1) fail("sync-misuse", "thread %d unlocks a rwlock write-locked by thread %d", self->id, rw(l)->writer - 1);
        hb_release(l); rw(l)->writer = 0;
    } else {
        if (rw(l)->readers <= 0) fail("sync-misuse", "thread %d unlocks a rwlock that is not locked", self->id);
        hb_release(l); --rw(l)->readers;
    }
    wake_waiters(w_rw, l);
    point(256, true);
    return 0;
}
int pthread_create(pthread_t* out, pthread_attr_t const* a, void* (*fn)(void*), void* arg) {
    if (!on()) {
        auto f = real<int (*)(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*)>("pthread_create");
        return f(out, a, fn, arg);
    }
    point(256, true);
    if (sim::fault(f_thread_create, 0.05)) return EAGAIN;
    int st = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &st);
    int rc = make_thread(fn, arg, out, st == PTHREAD_CREATE_DETACHED);
    point(256, true);
    return rc;
}
int pthread_join(pthread_t t, void** ret) {
    if (!on()) { auto f = real<int (*)(pthread_t, void**)>("pthread_join"); return f(t, ret); }
    Thr* x = nullptr;
    for (int i = 0; i < nthr; ++i) if (thr[i].real == t) x = &thr[i];
    if (!x || x->detached) return EINVAL;
    point(256, true);
    while (x->st != t_done) block_on(w_join, x, 0);
    if (ret) *ret = x->ret;
    if (races) join(self->vc, x->vc);
    x->detached = true;
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!on()) { auto f = real<int (*)(pthread_t)>("pthread_detach"); return f(t); }
    for (int i = 0; i < nthr; ++i) if (thr[i].real == t) thr[i].detached = true;
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (*o == 2) { if (on()) hb_acquire(o); return 0; }
    if (!on()) { if (*o == 0) { *o = 1; try { fn(); } catch (...) { *o = 0; throw; } *o = 2; } return 0; }
    point(256, true);
    for (;;) {
        if (*o == 2) { hb_acquire(o); return 0; }
        if (*o == 0) {
            *o = 1;
            try { fn(); } catch (...) { *o = 0; wake_waiters(w_once, o); throw; }
            *o = 2; hb_release(o); wake_waiters(w_once, o);
            return 0;
        }
        block_on(w_once, o, 0);
    }
}
int __cxa_guard_acquire(char* g) {
    if (g[0]) { if (on()) hb_acquire(g); return 0; }
    for (;;) {
        if (g[0]) { if (on()) hb_acquire(g); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        if (!on()) abort();
        block_on(w_guard, g, 0);
    }
}
void __cxa_guard_release(char* g) { if (on()) hb_release(g); g[0] = 1; g[1] = 0; if (on()) wake_waiters(w_guard, g); }
void __cxa_guard_abort(char* g) { g[1] = 0; if (on()) wake_waiters(w_guard, g); }
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void* dso) {
    if (!on()) { auto f = real<int (*)(void (*)(void*), void*, void*)>("__cxa_thread_atexit_impl"); return f(fn, obj, dso); }
    if (self->ndt < 256) self->dt[self->ndt++] = Dtor{fn, obj};
    return 0;
}
int sem_init(sem_t* s, int, unsigned v) { std::memset(s, 0, sizeof *s); *reinterpret_cast<int*>(s) = static_cast<int>(v); return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_wait(sem_t* s) {
    if (!on()) { --*reinterpret_cast<int*>(s); return 0; }
    point(256, true);
    while (*reinterpret_cast<int*>(s) <= 0) block_on(w_sem, s, 0);
    --*reinterpret_cast<int*>(s); hb_acquire(s);
    return 0;
}
int sem_trywait(sem_t* s) { if (on()) point(256, true); if (*reinterpret_cast<int*>(s) <= 0) { errno = EAGAIN; return -1; } --*reinterpret_cast<int*>(s); if (on()) hb_acquire(s); return 0; }
int sem_timedwait(sem_t* s, timespec const* t) {
    if (!on()) return sem_wait(s);
    point(256, true);
    u64 d = abs_to_sim(t, CLOCK_REALTIME);
    while (*reinterpret_cast<int*>(s) <= 0) { block_on(w_sem, s, d); if (self->timed_out && *reinterpret_cast<int*>(s) <= 0) { errno = ETIMEDOUT; return -1; } }
    --*reinterpret_cast<int*>(s); hb_acquire(s);
    return 0;
}
int sem_post(sem_t* s) { if (on()) hb_release(s); ++*reinterpret_cast<int*>(s); if (on()) { wake_waiters(w_sem, s); point(256, true); } return 0; }

int sched_yield() {
    if (!on() || self->nop) return 0;
    ++yidx; ++nsteps; clk += tick;
    if (clk >= next_timer) wake_expired();
    if (nsteps > step_limit) limit_reached();
    if (strategy == 1 && !spec.explicit_mode) self->prio = --prio_low;
    int c[max_threads]; int n = collect(c);
    if (n < 2) { // only this thread can run: let simulated time pass for sleepers
        return 0;
    }
    ++nidx;
    int def = after(c, n, self->id), pick = def; u64 v = 0;
    if (spec.explicit_mode) { if (explicit_lookup(d_next, nidx, v)) for (int i = 0; i < n; ++i) if (c[i] == static_cast<int>(v)) pick = c[i]; }
    else { pick = strategy == 1 ? highest(c, n) : c[r_sched.below(n)]; if (pick != def) rec(d_next, nidx, pick); }
    switch_to(&thr[pick]);
    return 0;
}
int nanosleep(timespec const* t, timespec* rem) {
    u64 n = static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec);      // rem may be t
    if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
    if (on()) sim::sleep_ns(n);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, timespec const* t, timespec*) {
    if (!on()) return 0;
    if (flags & TIMER_ABSTIME) { u64 d = abs_to_sim(t, c); if (d > clk) sim::sleep_ns(d - clk); }
    else sim::sleep_ns(static_cast<u64>(t->tv_sec) * 1000000000ULL + static_cast<u64>(t->tv_nsec));
    return 0;
}
int usleep(useconds_t u) { if (on()) sim::sleep_ns(u64(u) * 1000); return 0; }
unsigned sleep(unsigned s) { if (on()) sim::sleep_ns(u64(s) * 1000000000ULL); return 0; }
int clock_gettime(clockid_t c, timespec* ts) {
    if (!active) return static_cast<int>(syscall(SYS_clock_gettime, c, ts));
    clk += 25 + tick / 4;
    u64 t = clk;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
        if (sim::fault(f_clock_jump, 0.02)) rt_off += 1000000ULL * (1 + (clk % 5000));
        t += rt_epoch + rt_off;
    }
    ts->tv_sec = static_cast<time_t>(t / 1000000000ULL); ts->tv_nsec = static_cast<long>(t % 1000000000ULL);
    return 0;
}
int gettimeofday(timeval* tv, void*) noexcept {
    timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int sched_getcpu() noexcept {
    if (!on()) return 0;
    if (sim::fault(f_cpu_migrate, 0.15)) self->cpu += 1 + static_cast<int>(self->since % 3);
    return self->cpu % ncpus;
}
int numa_num_configured_nodes() { return numa_nodes; }
int numa_node_of_cpu(int cpu) { return cpu % numa_nodes; }
int pthread_setaffinity_np(pthread_t, size_t, cpu_set_t const*) noexcept { return 0; }
[[noreturn]] void __assert_fail(char const* e, char const* f, unsigned l, char const* fn) noexcept {
    if (!on()) { fprintf(stderr, "assert %s %s:%u %s\n", e, f, l, fn); abort(); }
    char const* b = strrchr(f, '/');
    fail("assert", "assertion failed: %s (%s:%u, %s)", e, b ? b + 1 : f, l, fn);
}
// simulated page space: only anonymous private mappings asked for by the code under test
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept {
    if (!on() || a || fd != -1 || !(flags & MAP_ANONYMOUS)) return reinterpret_cast<void*>(syscall(SYS_mmap, a, n, prot, flags, fd, off));
    point(256, true);
    if ((flags & MAP_HUGETLB) && sim::fault(f_hugepage_fail, 0.7)) { errno = ENOMEM; return MAP_FAILED; }
    if (!(flags & MAP_HUGETLB) && sim::fault(f_mmap_fail, 0.05)) { errno = ENOMEM; return MAP_FAILED; }
    n = (n + 4095) & ~size_t{4095};
    if (pages_next == pages_base) pages_next += 4096 * (spec.seed % 509);
    if (pages_next + n + 4096 > pages_base + pages_size) { errno = ENOMEM; return MAP_FAILED; }
    void* p = reinterpret_cast<void*>(syscall(SYS_mmap, pages_next, n, prot, (flags & ~MAP_HUGETLB) | MAP_FIXED | MAP_NORESERVE, -1, 0));
    map_len[(pages_next - pages_base) >> 12] = static_cast<u32>(n >> 12); map_live += n; map_total += n; ++map_calls;
    pages_next += n + 4096;   // never reused: a stale page stays unmapped; one unmapped page behind each mapping
    return p;
}
int munmap(void* a, size_t n) noexcept {
    if (on()) {
        u64 x = reinterpret_cast<u64>(a);
        if (x >= pages_base && x < pages_base + pages_size) {
            point(256, true);
            n = (n + 4095) & ~size_t{4095};
            u32& len = map_len[(x - pages_base) >> 12];
            if (x % 4096 || len == 0) fail("memory", "munmap of %p, which is not mapped", a);
            if (len != n >> 12) fail("memory", "munmap of %zu bytes of a mapping of %zu bytes", n, static_cast<size_t>(len) << 12);
            map_live -= n; len = 0;
            if (syscall(SYS_mmap, a, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == -1) return -1;
            return 0;
        }
    }
    return static_cast<int>(syscall(SYS_munmap, a, n));
}

// ==== instrumentation callbacks (g++ -fsanitize=thread, linked against this runtime) =====
#define PC __builtin_return_address(0)
void __tsan_init() {}
void AnnotateBenignRaceSized(char const*, int, void const volatile*, size_t, char const*) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, u64 n) { if (n) access(p, static_cast<u32>(n), false, PC); }
void __tsan_write_range(void* p, u64 n) { if (n) access(p, static_cast<u32>(n), true, PC); }
// the old value may be garbage, so it must not decide whether another thread may run here
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); else if (active && self && !self->nop) point(w_plain, false); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, void const* s, u64 n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, void const* s, u64 n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, u64 n) { return memset(d, c, n); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline void at_pre(void const volatile* p, u32 n, bool w, void* pc) {
    if (!active || !self) return;
    if (memory_checks) heap_check(reinterpret_cast<u64>(p), n, w);
    if (self->nop) return;
    point(256, true);
    hash_in(ilvhash, (w ? 0x5000 : 0x6000) + self->id);
    if (races) race_access(reinterpret_cast<u64>(p), n, w, true, static_cast<u32>(reinterpret_cast<u64>(pc)));
}
static inline void at_load(void const volatile* p, int mo) {
    if (!races || !on() || self->nop) return;
    VC* v = sync_of(const_cast<void const*>(p));
    if (!v) return;
    if (is_acq(mo)) join(self->vc, *v); else { join(self->acqf, *v); self->has_acqf = true; }
}
static inline void at_store(void const volatile* p, int mo, bool rmw) {
    if (!races || !on() || self->nop || self->id >= max_vc) return;
    VC* v = sync_of(const_cast<void const*>(p));
    if (!v) return;
    if (is_rel(mo)) { if (rmw) join(*v, self->vc); else *v = self->vc; ++self->vc.c[self->id]; }
    else if (self->has_relf) { if (rmw) join(*v, self->relf); else *v = self->relf; }
    else if (!rmw) { std::memset(static_cast<void*>(v), 0, sizeof *v); }
}
#define ATOM(n, T) \
    T __tsan_atomic##n##_load(T const volatile* a, int mo) { at_pre(a, sizeof(T), false, PC); at_load(a, mo); return *a; } \
    void __tsan_atomic##n##_store(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_store(a, mo, false); *a = v; } \
    T __tsan_atomic##n##_exchange(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(o + v); return o; } \
    T __tsan_atomic##n##_fetch_sub(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(o - v); return o; } \
    T __tsan_atomic##n##_fetch_and(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(o & v); return o; } \
    T __tsan_atomic##n##_fetch_or(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(o | v); return o; } \
    T __tsan_atomic##n##_fetch_xor(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
    T __tsan_atomic##n##_fetch_nand(T volatile* a, T v, int mo) { at_pre(a, sizeof(T), true, PC); at_load(a, mo); at_store(a, mo, true); T o = *a; *a = static_cast<T>(~(o & v)); return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(T volatile* a, T* c, T v, int mo, int fmo) { \
        at_pre(a, sizeof(T), true, PC); \
        if (*a == *c) { at_load(a, mo); at_store(a, mo, true); *a = v; return 1; } \
        at_load(a, fmo); *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(T volatile* a, T* c, T v, int mo, int fmo) { \
        at_pre(a, sizeof(T), true, PC); \
        if (*a == *c && !(on() && !self->nop && sim::fault(f_cas_weak_fail, 0.05))) { at_load(a, mo); at_store(a, mo, true); *a = v; return 1; } \
        at_load(a, fmo); *c = *a; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(T volatile* a, T c, T v, int mo, int fmo) { \
        at_pre(a, sizeof(T), true, PC); \
        if (*a == c) { at_load(a, mo); at_store(a, mo, true); *a = v; return c; } \
        at_load(a, fmo); return *a; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long long) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) {
    if (!on() || self->nop) return;
    point(256, true);
    if (!races) return;
    if (is_acq(mo) && self->has_acqf) join(self->vc, self->acqf);
    if (is_rel(mo) && self->id < max_vc) { self->relf = self->vc; self->has_relf = true; ++self->vc.c[self->id]; }
}
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
// randomness
std::random_device::result_type std::random_device::_M_getval() { return static_cast<unsigned>(sim::in::random_bits()); }
void std::random_device::_M_init(std::string const&) {}
void std::random_device::_M_fini() {}
extern "C" {
ssize_t getrandom(void* p, size_t n, unsigned) { auto* c = static_cast<unsigned char*>(p); for (size_t i = 0; i < n; ++i) c[i] = static_cast<unsigned char>(sim::in::random_bits() >> 13U); return static_cast<ssize_t>(n); }
int getentropy(void* p, size_t n) { getrandom(p, n, 0); return 0; }
}
