// Drives simulated runs: fork per run from a clean zygote, statistics, minimisation, replay.
#include "internal.h"
#include <algorithm>
#include <cerrno>
#include <filesystem>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using namespace sim::in;

namespace sim { char const* property_name = ""; char const* property() { return property_name; } }
namespace {
struct Ctl {                      // shared between a worker and its zygote
    volatile int cmd, done;       // futex words
    u64 seed, sched_seed; int explicit_mode, verbose, phase; u64 ndec; u32 nopmask;
    u64 blob_len; int wall_ms; int timed_out; int wstatus;
    unsigned char opmask[max_ops];
    char blob[max_blob];
    Decision dec[max_decisions];
};
struct Node { Ctl* ctl; Result* res; pid_t zyg; };
double wall() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
void fwait(volatile int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
void fwake(volatile int* a) { syscall(SYS_futex, a, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
void* shared(std::size_t n) {
    void* p = reinterpret_cast<void*>(syscall(SYS_mmap, nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED) { perror("mmap"); _exit(70); }
    return p;
}
void pin(int cpu) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); (void)!syscall(SYS_sched_setaffinity, 0, sizeof s, &s); }

// A run is ended after this much processor time: a loop without any scheduling point. Elapsed time says nothing on a loaded machine.
constexpr rlim_t cpu_limit_s = 45;
[[noreturn]] void zygote(Node const& n) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Ctl* c = n.ctl;
    int devnull = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0));
    for (;;) {
        while (__atomic_load_n(&c->cmd, __ATOMIC_ACQUIRE) == 0) fwait(&c->cmd, 0);
        c->cmd = 0;
        c->timed_out = 0;
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            rlimit rl{cpu_limit_s, cpu_limit_s + 5}; setrlimit(RLIMIT_CPU, &rl);
            syscall(SYS_dup3, devnull, 1, 0);
            if (!c->verbose) syscall(SYS_dup3, devnull, 2, 0);
            Spec s;
            s.seed = c->seed; s.sched_seed = c->sched_seed; s.explicit_mode = c->explicit_mode; s.verbose = c->verbose;
            s.dec = c->dec; s.ndec = c->ndec; s.opmask = c->opmask; s.nopmask = c->nopmask;
            start_run(s, c->phase, std::string(c->blob, c->blob_len), n.res);
        }
        int fd = static_cast<int>(syscall(SYS_pidfd_open, p, 0));
        if (fd >= 0) {
            pollfd pf{fd, POLLIN, 0};
            if (poll(&pf, 1, c->wall_ms) == 0) { c->timed_out = 1; kill(p, SIGKILL); }
            syscall(SYS_close, fd);
        }
        int st = 0;
        waitpid(p, &st, 0);
        c->wstatus = st;
        __atomic_store_n(&c->done, 1, __ATOMIC_RELEASE);
        fwake(&c->done);
    }
}

struct Job {
    u64 seed{}, sched_seed{};
    bool explicit_mode{}, verbose{};
    std::vector<Decision> dec;
    std::vector<unsigned char> mask;
    int wall_ms{60000};
};
struct Out { int status{}; std::string cls, msg; u64 loghash{}, ilv{}, steps{}; int phases{}; bool timed_out{}; };

void reset_result(Result* r) { std::memset(static_cast<void*>(r), 0, offsetof(Result, dec)); static char const* const base = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp"; snprintf(r->scratch, sizeof r->scratch, "%s/vsim.%d", base, static_cast<int>(getpid())); }

Out execute(Node const& n, Job const& j) {
    Ctl* c = n.ctl;
    reset_result(n.res);
    c->seed = j.seed; c->sched_seed = j.sched_seed; c->explicit_mode = j.explicit_mode; c->verbose = j.verbose;
    c->ndec = std::min<u64>(j.dec.size(), max_decisions);
    if (c->ndec) std::memcpy(static_cast<void*>(c->dec), j.dec.data(), c->ndec * sizeof(Decision));
    c->nopmask = static_cast<u32>(std::min<std::size_t>(j.mask.size(), max_ops));
    if (c->nopmask) std::memcpy(c->opmask, j.mask.data(), c->nopmask);
    c->blob_len = 0; c->phase = 0; c->wall_ms = j.wall_ms;
    Out o;
    for (int ph = 0;; ++ph) {
        c->phase = ph;
        n.res->status = s_running;
        __atomic_store_n(&c->cmd, 1, __ATOMIC_RELEASE);
        fwake(&c->cmd);
        while (__atomic_load_n(&c->done, __ATOMIC_ACQUIRE) == 0) fwait(&c->done, 0);
        c->done = 0;
        o.phases = ph + 1;
        o.timed_out = c->timed_out != 0;
        if (n.res->status == s_crash && ph < 40) {
            std::memcpy(c->blob, n.res->blob, n.res->blob_len);
            c->blob_len = n.res->blob_len;
            continue;
        }
        break;
    }
    Result& r = *n.res;
    o.status = r.status;
    if (o.status == s_running) {
        o.status = o.timed_out ? s_inconclusive : s_error;
        if (!o.timed_out && WIFSIGNALED(c->wstatus) && WTERMSIG(c->wstatus) == SIGXCPU) { o.status = s_fail; o.cls = "processor-time"; o.msg = "the run used " + std::to_string(cpu_limit_s) + " s of processor time without reaching its end"; }
        else if (!o.timed_out) { o.msg = "child ended without a result (wait status " + std::to_string(c->wstatus) + ")"; o.cls = "harness-lost"; }
        else o.cls = "wall-clock";
    } else { o.cls = r.cls; o.msg = r.msg; }
    if (o.status == s_fail && o.cls.rfind("harness", 0) == 0) o.status = s_error;
    o.loghash = r.loghash; o.ilv = r.ilvhash; o.steps = r.steps;
    if (r.scratch_used) { std::error_code ec; std::filesystem::remove_all(r.scratch, ec); }
    return o;
}
u64 mixseed(u64 base, u64 i) {
    u64 z = base * 0x9e3779b97f4a7c15ULL + i + 0x1234567;
    z = (z ^ (z >> 30U)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27U)) * 0x94d049bb133111ebULL;
    return (z ^ (z >> 31U)) >> 2U;
}
std::string self_path() { char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, n > 0 ? static_cast<std::size_t>(n) : 0); }
std::string trace_of(Result const& r) {
    if (!r.nbt) return {};
    std::ostringstream c;
    c << "addr2line -f -C -s -e " << self_path();
    for (int i = 0; i < r.nbt; ++i) c << " 0x" << std::hex << (r.bt[i] ? r.bt[i] - 1 : 0);
    c << " 2>/dev/null";
    std::string out;
    if (FILE* f = popen(c.str().c_str(), "r")) {
        char fn[2000], loc[600];
        while (fgets(fn, sizeof fn, f) && fgets(loc, sizeof loc, f)) {
            fn[strcspn(fn, "\n")] = 0;
            if (fn[0] == '?') continue;
            if (strlen(fn) > 140) { fn[137] = 0; strcat(fn, "..."); }
            out += std::string("#   at ") + fn + "  " + loc;
        }
        pclose(f);
    }
    return out;
}

struct Replay { std::string harness, property, cls; Job job; u64 loghash{}; };
bool read_replay(char const* path, Replay& r) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[8192];
    r.job.explicit_mode = true;
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#') continue;
        char k[32]; int off = 0;
        if (sscanf(line, "%31s %n", k, &off) < 1) continue;
        char* v = line + off; v[strcspn(v, "\n")] = 0;
        std::string key = k;
        if (key == "harness") r.harness = v;
        else if (key == "property") r.property = v;
        else if (key == "class") r.cls = v;
        else if (key == "seed") r.job.seed = strtoull(v, nullptr, 10);
        else if (key == "sched_seed") r.job.sched_seed = strtoull(v, nullptr, 10);
        else if (key == "loghash") r.loghash = strtoull(v, nullptr, 16);
        else if (key == "mode") r.job.explicit_mode = std::string(v) == "explicit";
        else if (key == "ops_disabled") { std::istringstream s(v); unsigned i; while (s >> i) { if (r.job.mask.size() <= i) r.job.mask.resize(i + 1); r.job.mask[i] = 1; } }
        else if (key == "d") { Decision d{}; unsigned kk, ph; unsigned long long ix, vl; if (sscanf(v, "%u %u %llu %llu", &kk, &ph, &ix, &vl) == 4) { d.kind = kk; d.phase = ph; d.idx = ix; d.val = vl; r.job.dec.push_back(d); } }
    }
    fclose(f);
    return true;
}

// reduces job to fewer operations and decisions that still give the same violation class
void minimise(Node const& n, Job& best, std::string const& cls, double budget, std::string& note) {
    double end = wall() + budget;
    int trials = 0;
    auto fails = [&](Job const& j) { ++trials; Out o = execute(n, j); return o.status == s_fail && o.cls == cls; };
    auto recorded = [&]() { Result& r = *n.res; return std::vector<Decision>(r.dec, r.dec + r.ndec); };
    // operations first, in recording mode with a few schedules each
    Job cur = best; cur.explicit_mode = false; cur.dec.clear();
    Job ex = best;
    execute(n, cur);
    u32 nops = n.res->nops;
    std::size_t before_ops = nops;
    if (nops > max_ops) nops = max_ops;
    if (cur.mask.size() < nops) cur.mask.resize(nops);
    for (u32 chunk = std::max<u32>(1, nops / 2); nops && wall() < end - budget * 0.4;) {
        bool any = false;
        for (u32 i = 0; i < nops && wall() < end - budget * 0.4; i += chunk) {
            Job t = cur; bool change = false;
            for (u32 k = i; k < std::min(nops, i + chunk); ++k) if (!t.mask[k]) { t.mask[k] = 1; change = true; }
            if (!change) continue;
            for (u64 a = 0; a < 12; ++a) {
                Job u = t; u.sched_seed = a == 0 ? cur.sched_seed : mixseed(cur.sched_seed, a);
                if (fails(u)) { if (n.res->dec_overflow) break; ex = u; ex.explicit_mode = true; ex.dec = recorded(); cur = u; any = true; break; }
            }
        }
        if (chunk == 1 && !any) break;
        chunk = std::max<u32>(1, chunk / 2);
        if (chunk == 1 && any && wall() > end - budget * 0.5) break;
    }
    if (!fails(ex)) ex = best;
    // then decisions
    std::size_t before = ex.dec.size();
    auto without = [](std::vector<Decision> const& d, std::size_t a, std::size_t b) { std::vector<Decision> r(d.begin(), d.begin() + static_cast<long>(a)); r.insert(r.end(), d.begin() + static_cast<long>(b), d.end()); return r; };
    { Job t = ex; t.dec.clear(); if (fails(t)) ex = t; }
    std::size_t chunk = std::max<std::size_t>(1, ex.dec.size() / 2);
    while (!ex.dec.empty() && wall() < end) {
        bool any = false;
        for (std::size_t i = 0; i < ex.dec.size() && wall() < end;) {
            Job t = ex; t.dec = without(ex.dec, i, std::min(ex.dec.size(), i + chunk));
            if (fails(t)) { ex = t; any = true; } else i += chunk;
        }
        if (chunk == 1 && !any) break;
        chunk = std::max<std::size_t>(1, chunk / 2);
    }
    if (fails(ex)) best = ex;
    u32 off = 0; for (auto m : best.mask) off += m;
    note = "minimised in " + std::to_string(trials) + " re-executions: operations " + std::to_string(before_ops) + " -> " + std::to_string(before_ops - off) +
        ", decisions " + std::to_string(before) + " -> " + std::to_string(best.dec.size());
}

char const* dname(u32 k) { static char const* const n[] = {"?", "preempt", "next", "signal", "fault"}; return n[k < 5 ? k : 0]; }

int report(Node const& n, char const* property, u64 seed, u64 sched_seed, std::string const& path, double budget, std::string& summary) {
    Job j; j.seed = seed; j.sched_seed = sched_seed; j.wall_ms = 120000;
    Out a = execute(n, j); bool slow = a.cls == "processor-time"; Out b = slow ? a : execute(n, j);
    if (a.status != s_fail || b.status != s_fail || a.cls != b.cls || a.loghash != b.loghash) {
        summary = "not reproducible from its seed: " + a.cls + " / " + b.cls + " " + std::to_string(a.loghash) + " " + std::to_string(b.loghash);
        return 2;
    }
    Job best = j;
    std::string note = "not minimised";
    if (!slow && !n.res->dec_overflow) {
        Job ex = j; ex.explicit_mode = true; ex.dec.assign(n.res->dec, n.res->dec + n.res->ndec);
        Out e = execute(n, ex);
        if (e.status == s_fail && e.cls == a.cls) { best = ex; minimise(n, best, a.cls, budget, note); }
        else note = "explicit trace differs (" + e.cls + "), replay by seed";
    }
    Out fin = slow ? a : execute(n, best);
    if (fin.status != s_fail || fin.cls != a.cls) { best = j; fin = execute(n, best); }
    std::string bt = trace_of(*n.res);
    FILE* f = fopen(path.c_str(), "w");
    if (!f) { summary = "cannot write " + path; return 2; }
    fprintf(f, "# replay file: run '%s replay %s'\n", self_path().c_str(), path.c_str());
    fprintf(f, "harness %s\nproperty %s\nclass %s\nmode %s\nseed %llu\nsched_seed %llu\nloghash %llx\n", harness.name, property, fin.cls.c_str(),
        best.explicit_mode ? "explicit" : "seeded", (unsigned long long)best.seed, (unsigned long long)best.sched_seed, (unsigned long long)fin.loghash);
    fprintf(f, "ops_disabled"); for (std::size_t i = 0; i < best.mask.size(); ++i) if (best.mask[i]) fprintf(f, " %zu", i); fprintf(f, "\n");
    fprintf(f, "# %s\n# %s\n", fin.msg.c_str(), note.c_str());
    for (auto& d : best.dec) fprintf(f, "d %u %u %llu %llu   # %s\n", d.kind, d.phase, (unsigned long long)d.idx, (unsigned long long)d.val, dname(d.kind));
    fprintf(f, "%s", bt.c_str());
    fclose(f);
    // the gate: a fresh process must reproduce it from the file alone
    std::string cmd = self_path() + " replay " + path + " --quiet >/dev/null 2>&1";
    int rc = system(cmd.c_str());
    if (!WIFEXITED(rc) || WEXITSTATUS(rc) != 1) { summary = "replay file did not reproduce (" + std::to_string(WEXITSTATUS(rc)) + "): " + fin.cls + ": " + fin.msg; return 2; }
    // append the readable trace
    cmd = self_path() + " replay " + path + " 2>&1 | head -c 400000 | sed 's/^/# /' > " + path + ".t; cat " + path + ".t >> " + path + "; /bin/rm -f " + path + ".t";
    if (system(cmd.c_str())) {}
    summary = fin.cls + ": " + fin.msg + " (" + note + ")";
    return 1;
}

std::vector<std::pair<std::string, std::string>> known_list;
int known_index(std::string const& cls, std::string const& msg) {
    for (std::size_t i = 0; i < known_list.size(); ++i) if (cls == known_list[i].first && msg.find(known_list[i].second) != std::string::npos) return static_cast<int>(i);
    return -1;
}
struct Stats {
    u64 runs{}, ok{}, fail{}, incon{}, err{}, timeouts{}, steps{}, plain{}, switches{}, simtime{}, events{}, crashes{}, maxthr{};
    u64 faults[f_count]{}, sites[f_count]{}, runs_with[f_count]{};
    std::map<std::string, u64> probes, known;
    std::unordered_set<u64> ilv, logs, states;
    std::vector<std::string> samples;
};
constexpr std::size_t set_cap = 3'000'000;

struct Found { std::vector<u64> seeds; std::vector<std::string> cls; };

void worker(Node const& n, int w, int W, u64 base, double until, u64 maxruns, char const* outfile, volatile int* stop, int maxfail) {
    Stats S; Found F;
    std::map<std::string, int> per_cls;
    std::string errmsg;
    for (u64 i = static_cast<u64>(w); i < maxruns && wall() < until && !*stop; i += static_cast<u64>(W)) {
        Job j; j.seed = mixseed(base, i); j.sched_seed = j.seed; j.wall_ms = 100000;
        Out o = execute(n, j);
        Result& r = *n.res;
        ++S.runs;
        if (o.status == s_ok) ++S.ok;
        else if (o.status == s_inconclusive) { ++S.incon; if (o.timed_out) ++S.timeouts; }
        else if (o.status == s_error) { ++S.err; if (errmsg.empty()) errmsg = o.cls + ": " + o.msg + " seed " + std::to_string(j.seed); if (S.err > 20) break; }
        else if (int ki = known_index(o.cls, o.msg); ki >= 0) { ++S.ok; ++S.known["known " + std::to_string(ki)]; }
        else {
            ++S.fail;
            if (per_cls[o.cls]++ < 2) { F.seeds.push_back(j.seed); F.cls.push_back(o.cls + ": " + o.msg); }
            if (static_cast<int>(S.fail) >= maxfail) { *stop = 1; }
        }
        S.steps += r.steps; S.plain += r.plain; S.switches += r.switches; S.simtime += r.simtime; S.events += r.events; S.crashes += static_cast<u64>(o.phases - 1);
        S.maxthr = std::max<u64>(S.maxthr, r.threads);
        for (int k = 0; k < f_count; ++k) { S.faults[k] += r.faults[k]; S.sites[k] += r.fault_sites[k]; S.runs_with[k] += r.faults[k] != 0; }
        for (std::size_t k = 0; k < max_probe && r.probe_name[k][0]; ++k) S.probes[r.probe_name[k]] += r.probe_n[k];
        if (S.ilv.size() < set_cap) S.ilv.insert(r.ilvhash);
        if (S.logs.size() < set_cap) S.logs.insert(r.loghash);
        if (S.states.size() < set_cap) for (u32 k = 0; k < r.nstates; ++k) S.states.insert(r.states[k]);
        if (S.samples.size() < 2 && w < 2 && o.status == s_ok) {
            char b[400]; std::string fs;
            for (int k = 0; k < f_count; ++k) if (r.faults[k]) fs += std::string(fs.empty() ? "" : ",") + fault_name(k) + "x" + std::to_string(r.faults[k]);
            snprintf(b, sizeof b, "run seed %llu: %u threads, %llu sync steps, %llu switches, %llu events, %.3f simulated ms, %d lives, faults [%s], history hash %llx",
                (unsigned long long)j.seed, r.threads, (unsigned long long)r.steps, (unsigned long long)r.switches, (unsigned long long)r.events, double(r.simtime) / 1e6, o.phases, fs.c_str(), (unsigned long long)r.loghash);
            S.samples.push_back(b);
        }
    }
    FILE* f = fopen(outfile, "w");
    if (!f) _exit(3);
    fprintf(f, "n runs %llu\nn ok %llu\nn fail %llu\nn inconclusive %llu\nn errors %llu\nn timeouts %llu\nn steps %llu\nn plain %llu\nn switches %llu\nn simtime %llu\nn events %llu\nn crashes %llu\nm maxthreads %llu\n",
        (unsigned long long)S.runs, (unsigned long long)S.ok, (unsigned long long)S.fail, (unsigned long long)S.incon, (unsigned long long)S.err, (unsigned long long)S.timeouts, (unsigned long long)S.steps, (unsigned long long)S.plain,
        (unsigned long long)S.switches, (unsigned long long)S.simtime, (unsigned long long)S.events, (unsigned long long)S.crashes, (unsigned long long)S.maxthr);
    for (int k = 0; k < f_count; ++k) if (S.sites[k]) fprintf(f, "f %s %llu %llu %llu\n", fault_name(k), (unsigned long long)S.faults[k], (unsigned long long)S.sites[k], (unsigned long long)S.runs_with[k]);
    for (auto& [k, v] : S.probes) fprintf(f, "p %s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto& [k, v] : S.known) fprintf(f, "k %s %llu\n", k.c_str(), (unsigned long long)v);
    for (auto& s : S.samples) fprintf(f, "s %s\n", s.c_str());
    for (std::size_t i = 0; i < F.seeds.size(); ++i) { std::string m = F.cls[i]; for (auto& ch : m) if (ch == '\n') ch = ' '; fprintf(f, "v %llu %s\n", (unsigned long long)F.seeds[i], m.c_str()); }
    if (!errmsg.empty()) { for (auto& ch : errmsg) if (ch == '\n') ch = ' '; fprintf(f, "e %s\n", errmsg.c_str()); }
    for (auto h : S.ilv) fprintf(f, "I %llx\n", (unsigned long long)h);
    for (auto h : S.logs) fprintf(f, "L %llx\n", (unsigned long long)h);
    for (auto h : S.states) fprintf(f, "S %llx\n", (unsigned long long)h);
    fclose(f);
    _exit(0);
}
std::string esc(std::string const& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += static_cast<char>(c); } return r; }
} // namespace

int main(int argc, char** argv) {
    // fixed addresses and a fixed environment
    if (char const* v = getenv("VSIM_PID"); !v || atoi(v) != getpid()) {
        static char id[40]; snprintf(id, sizeof id, "VSIM_PID=%d", static_cast<int>(getpid()));
        static char tz[] = "TZ=UTC", home[] = "HOME=/nonexistent", path[] = "PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin";
        char* env[32] = {id, tz, home, path}; int n = 4;
        for (char** e = environ; *e && n < 31; ++e) if (!strncmp(*e, "SIM_", 4)) env[n++] = *e;
        if (personality(ADDR_NO_RANDOMIZE) != -1) execve("/proc/self/exe", argv, env);
    }
    setenv("TZ", "UTC", 1);
    sim_alloc_init();
    { void* b[4]; backtrace(b, 4); }
    // number of workers, without allocating
    char const* mode = argc > 1 ? argv[1] : "help";
    int W = 1;
    for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], "--workers")) W = atoi(argv[i + 1]);
    if (strcmp(mode, "run") != 0 && strcmp(mode, "selfcheck") != 0) W = 1;
    if (W < 1) W = 1;
    if (W > 64) W = 64;
    {   // the property decides what a harness generates; fixed before the first fork, without allocating
        static char prop[64]; char const* q = harness.name;
        for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], "--property")) q = argv[i + 1];
        snprintf(prop, sizeof prop, "%s", q);
        if (!strcmp(mode, "replay") && argc > 2) if (int fd = open(argv[2], O_RDONLY | O_CLOEXEC); fd >= 0) {
            static char b[4096]; ssize_t n = read(fd, b, sizeof b - 1); close(fd);
            if (n > 0) { b[n] = 0; if (char* l = strstr(b, "\nproperty ")) sscanf(l + 10, "%63s", prop); }
        }
        property_name = prop;
    }
    if (harness.prepare) harness.prepare();
    static Node nodes[64];
    int ncpu = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
    volatile int* stop = static_cast<volatile int*>(shared(4096));
    for (int w = 0; w < W; ++w) {
        nodes[w].ctl = static_cast<Ctl*>(shared(sizeof(Ctl)));
        nodes[w].res = static_cast<Result*>(shared(sizeof(Result)));
    }
    for (int w = 0; w < W; ++w) {
        pid_t p = fork();
        if (p == 0) { if (W > 1 && W <= ncpu) pin(w % ncpu); else pin(getpid() % ncpu); zygote(nodes[w]); }
        nodes[w].zyg = p;
    }
    auto arg = [&](char const* n, char const* d) -> std::string { for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], n)) return i + 1 < argc ? argv[i + 1] : ""; return d; };
    auto flag = [&](char const* n) { for (int i = 2; i < argc; ++i) if (!strcmp(argv[i], n)) return true; return false; };
    auto bye = [&](int rc) { for (int w = 0; w < W; ++w) kill(nodes[w].zyg, SIGKILL); fflush(stdout); _exit(rc); };
    std::string m = mode;
    if (auto kf = arg("--known", ""); !kf.empty()) if (FILE* f = fopen(kf.c_str(), "r")) {
        char l[2048];
        while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; if (char* t = strchr(l, '\t')) { *t = 0; known_list.emplace_back(l, t + 1); } }
        fclose(f);
    }
    if (m == "one") {
        Job j; j.seed = strtoull(arg("--seed", "1").c_str(), nullptr, 10); j.sched_seed = j.seed; j.verbose = flag("--verbose");
        Out o = execute(nodes[0], j);
        printf("status %d %s: %s\nloghash %llx ilv %llx steps %llu plain %llu switches %llu threads %u simms %.3f decisions %llu nops %u phases %d\n", o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.loghash,
            (unsigned long long)o.ilv, (unsigned long long)o.steps, (unsigned long long)nodes[0].res->plain, (unsigned long long)nodes[0].res->switches, nodes[0].res->threads, double(nodes[0].res->simtime) / 1e6, (unsigned long long)nodes[0].res->ndec, nodes[0].res->nops, o.phases);
        printf("%s", trace_of(*nodes[0].res).c_str());
        bye(o.status == s_fail ? 1 : o.status == s_ok ? 0 : 2);
    }
    if (m == "replay") {
        if (argc < 3) bye(2);
        Replay r;
        if (!read_replay(argv[2], r)) { printf("cannot read %s\n", argv[2]); bye(2); }
        if (r.harness != harness.name) { printf("replay file is for harness %s, this is %s\n", r.harness.c_str(), harness.name); bye(2); }
        r.job.verbose = !flag("--quiet"); r.job.wall_ms = 120000;
        Out o = execute(nodes[0], r.job);
        printf("status %d %s: %s loghash %llx\n", o.status, o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.loghash);
        if (o.status == s_fail && o.cls == r.cls && (r.loghash == 0 || r.loghash == o.loghash)) bye(1);
        bye(o.status == s_ok ? 0 : o.status == s_fail ? 3 : 2);
    }
    if (m == "minimise") {
        std::string s;
        int rc = report(nodes[0], arg("--property", "?").c_str(), strtoull(arg("--seed", "1").c_str(), nullptr, 10), strtoull(arg("--seed", "1").c_str(), nullptr, 10), arg("--replay", "/tmp/replay"), atof(arg("--secs", "20").c_str()), s);
        printf("%s\n", s.c_str());
        bye(rc);
    }
    if (m == "selfcheck") {     // the same seed twice must give the same execution
        u64 base = strtoull(arg("--seed", "1").c_str(), nullptr, 10); u64 k = strtoull(arg("--runs", "50").c_str(), nullptr, 10);
        int bad = 0; u64 expl = 0;
        for (u64 i = 0; i < k; ++i) {
            Job j; j.seed = mixseed(base, i); j.sched_seed = j.seed;
            Out a = execute(nodes[0], j);
            Job e = j; e.explicit_mode = true; e.dec.assign(nodes[0].res->dec, nodes[0].res->dec + nodes[0].res->ndec);
            bool ovf = nodes[0].res->dec_overflow;
            Out b = execute(nodes[W - 1], j);
            if (a.status != b.status || a.loghash != b.loghash || a.ilv != b.ilv || a.steps != b.steps) { ++bad; printf("seed %llu differs: %d/%d %llx/%llx %llx/%llx %llu/%llu\n", (unsigned long long)j.seed, a.status, b.status, (unsigned long long)a.loghash, (unsigned long long)b.loghash, (unsigned long long)a.ilv, (unsigned long long)b.ilv, (unsigned long long)a.steps, (unsigned long long)b.steps); }
            if (!ovf) {
                Out c = execute(nodes[0], e);
                if (a.status != c.status || a.loghash != c.loghash || a.ilv != c.ilv || a.steps != c.steps) { ++bad; printf("seed %llu: explicit trace differs: %d/%d %llx/%llx steps %llu/%llu\n", (unsigned long long)j.seed, a.status, c.status, (unsigned long long)a.loghash, (unsigned long long)c.loghash, (unsigned long long)a.steps, (unsigned long long)c.steps); }
                else ++expl;
            }
        }
        printf("selfcheck: %llu seeds, %d differences, %llu explicit traces reproduced\n", (unsigned long long)k, bad, (unsigned long long)expl);
        bye(bad ? 1 : 0);
    }
    if (m != "run") { printf("usage: run|one|replay|minimise|selfcheck\n"); bye(2); }
    u64 base = strtoull(arg("--seed", "1").c_str(), nullptr, 10);
    double secs = atof(arg("--secs", "10").c_str());
    u64 maxruns = strtoull(arg("--runs", "1000000000000").c_str(), nullptr, 10);
    int maxfail = atoi(arg("--maxfail", "3").c_str());
    std::string property = arg("--property", harness.name), out = arg("--out", ""), rdir = arg("--replays", "/tmp");
    double t0 = wall();
    std::vector<pid_t> ws; std::vector<std::string> files;
    for (int w = 0; w < W; ++w) {
        files.push_back("/tmp/vsim.w." + std::to_string(getpid()) + "." + std::to_string(w));
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); if (W > 1 && W <= ncpu) pin(w); worker(nodes[w], w, W, base, t0 + secs, maxruns, files.back().c_str(), stop, maxfail); }
        ws.push_back(p);
    }
    for (auto p : ws) { int st; waitpid(p, &st, 0); }
    double t1 = wall();
    std::map<std::string, u64> N; struct FF { u64 a{}, b{}, c{}; }; std::map<std::string, FF> FM; std::map<std::string, u64> P, K;
    std::unordered_set<u64> I, L, SS; std::vector<std::string> samples, errs; std::vector<std::pair<u64, std::string>> V;
    for (auto& fn : files) {
        FILE* f = fopen(fn.c_str(), "r");
        if (!f) { errs.push_back("a worker ended without a report"); continue; }
        static char line[8192];
        while (fgets(line, sizeof line, f)) {
            line[strcspn(line, "\n")] = 0;
            char k[64]; unsigned long long a, b, c;
            if (line[0] == 'n' && sscanf(line + 2, "%63s %llu", k, &a) == 2) N[k] += a;
            else if (line[0] == 'm' && sscanf(line + 2, "%63s %llu", k, &a) == 2) N[k] = std::max<u64>(N[k], a);
            else if (line[0] == 'f' && sscanf(line + 2, "%63s %llu %llu %llu", k, &a, &b, &c) == 4) { auto& x = FM[k]; x.a += a; x.b += b; x.c += c; }
            else if (line[0] == 'p') { char* sp = strrchr(line, ' '); if (sp) { *sp = 0; P[line + 2] += strtoull(sp + 1, nullptr, 10); } }
            else if (line[0] == 'k') { char* sp = strrchr(line, ' '); if (sp) { *sp = 0; K[line + 2] += strtoull(sp + 1, nullptr, 10); } }
            else if (line[0] == 's') samples.push_back(line + 2);
            else if (line[0] == 'e') errs.push_back(line + 2);
            else if (line[0] == 'v') { char* e; u64 sd = strtoull(line + 2, &e, 10); V.emplace_back(sd, e + 1); }
            else if (line[0] == 'I') I.insert(strtoull(line + 2, nullptr, 16));
            else if (line[0] == 'L') L.insert(strtoull(line + 2, nullptr, 16));
            else if (line[0] == 'S') SS.insert(strtoull(line + 2, nullptr, 16));
        }
        fclose(f);
        unlink(fn.c_str());
    }
    std::sort(V.begin(), V.end(), [](auto& a, auto& b) { return a.second < b.second; });
    int rc = 0;
    std::vector<std::string> viol; std::set<std::string> seen;
    for (auto& [sd, msg] : V) {
        std::string cls = msg.substr(0, msg.find(": "));
        if (seen.count(cls) || viol.size() >= 3) continue;
        seen.insert(cls);
        std::string path = rdir + "/" + property + "-" + std::to_string(sd) + ".replay", sum;
        int q = report(nodes[0], property.c_str(), sd, sd, path, viol.empty() ? 20 : 8, sum);
        if (q == 1) { rc = 1; printf("VIOLATED %s %s | %s\n", property.c_str(), path.c_str(), sum.c_str()); viol.push_back(path + " " + sum); }
        else { if (rc == 0) rc = 2; errs.push_back("violation of seed " + std::to_string(sd) + " " + msg + ": " + sum); }
    }
    if (N["errors"] && rc == 0) rc = 2;
    if (!N["runs"] && rc == 0) { rc = 2; errs.push_back("no run was executed"); }
    double dt = t1 - t0;
    std::ostringstream j;
    j << "{\"harness\":\"" << harness.name << "\",\"seed\":" << base << ",\"wall_s\":" << dt << ",\"workers\":" << W;
    for (auto& [k, v] : N) j << ",\"" << k << "\":" << v;
    j << ",\"distinct_interleavings\":" << I.size() << ",\"distinct_histories\":" << L.size() << ",\"distinct_states\":" << SS.size() << ",\"faults\":{";
    bool first = true;
    for (auto& [k, v] : FM) { j << (first ? "" : ",") << "\"" << k << "\":{\"injected\":" << v.a << ",\"opportunities\":" << v.b << ",\"runs\":" << v.c << "}"; first = false; }
    j << "},\"probes\":{"; first = true;
    for (auto& [k, v] : P) { j << (first ? "" : ",") << "\"" << esc(k) << "\":" << v; first = false; }
    j << "},\"known\":{"; first = true;
    for (auto& [k, v] : K) { j << (first ? "" : ",") << "\"" << esc(k) << "\":" << v; first = false; }
    j << "},\"samples\":["; first = true;
    for (auto& s : samples) { j << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
    j << "],\"error_messages\":["; first = true;
    for (auto& s : errs) { j << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
    j << "],\"violations\":["; first = true;
    for (auto& s : viol) { j << (first ? "" : ",") << "\"" << esc(s) << "\""; first = false; }
    j << "]}\n";
    if (!out.empty()) { if (FILE* f = fopen(out.c_str(), "w")) { fputs(j.str().c_str(), f); fclose(f); } }
    else printf("%s", j.str().c_str());
    for (auto& e : errs) printf("ERROR %s\n", e.c_str());
    printf("%s: %llu runs in %.1f s, %zu interleavings, rc %d\n", harness.name, (unsigned long long)N["runs"], dt, I.size(), rc);
    bye(rc);
}
