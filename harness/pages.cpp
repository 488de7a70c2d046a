// Page pool and paged memory resources, with the text and binary values that live in them.
#include "common.h"
#include <jogasaki/configuration.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/utils/checkpoint_holder.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/accessor/binary.h>
#include <jogasaki/executor/global.h>
#include <nlohmann/json.hpp>
#include <sstream>

namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static takatori::util::maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
}
using namespace vh;
using namespace jogasaki;
using namespace jogasaki::memory;

namespace {
page_pool* pool = nullptr;
std::map<std::uintptr_t, std::size_t> live;          // every live allocation and directly held page, by start
std::map<void*, std::size_t> birth;                  // where a page was born, for pages seen through the pool interface
u64 stamp_src = 1;

void occupy(void* p, std::size_t n, char const* who) {
    if (n == 0) return;
    auto a = reinterpret_cast<std::uintptr_t>(p);
    auto it = live.lower_bound(a);
    if (it != live.end() && it->first < a + n) sim::fail("overlap", "%s: %zu bytes overlap memory that is still in use", who, n);
    if (it != live.begin()) { --it; if (it->first + it->second > a) sim::fail("overlap", "%s: %zu bytes overlap memory that is still in use", who, n); }
    live.emplace(a, n);
}
void vacate(void* p, std::size_t n) { if (n) live.erase(reinterpret_cast<std::uintptr_t>(p)); }

void write_stamp(void* p, std::size_t n, u64 s) {
    auto* c = static_cast<unsigned char*>(p);
    for (std::size_t i = 0; i < n && i < 24; ++i) { c[i] = static_cast<unsigned char>(s + i * 7); c[n - 1 - i] = static_cast<unsigned char>(s + (n - 1 - i) * 7); }
}
bool check_stamp(void const* p, std::size_t n, u64 s) {
    auto* c = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n && i < 24; ++i) if (c[i] != static_cast<unsigned char>(s + i * 7) || c[n - 1 - i] != static_cast<unsigned char>(s + (n - 1 - i) * 7)) return false;
    return true;
}
std::string content(u64 s, std::size_t n) {
    std::string r(n, '\0');
    for (std::size_t i = 0; i < n; ++i) r[i] = static_cast<char>(s * 31 + i * (s % 13 + 1) + (i >> 5));
    return r;
}
enum rkind { r_fifo, r_lifo, r_mono };
char const* const rname[] = {"fifo", "lifo", "monotonic"};
struct A { void* p{}; std::size_t n{}, al{}; u64 stamp{}; bool is_text{}; std::string want; accessor::text t; };
struct Res {
    rkind k; std::unique_ptr<paged_memory_resource> r;
    std::deque<A> allocs; std::vector<A> shorts;        // short texts live in the value itself
    struct Cp { fifo_paged_memory_resource::checkpoint f; lifo_paged_memory_resource::checkpoint l; u64 at; };
    std::deque<Cp> cps; u64 popped = 0, pushed = 0, ended = 0;    // counts of allocations removed at the front / ever added
    explicit Res(rkind kk) : k(kk) {
        if (k == r_fifo) r = std::make_unique<fifo_paged_memory_resource>(pool);
        else if (k == r_lifo) r = std::make_unique<lifo_paged_memory_resource>(pool);
        else r = std::make_unique<monotonic_paged_memory_resource>(pool);
    }
    std::size_t pages() const {
        switch (k) {
            case r_fifo: return static_cast<fifo_paged_memory_resource*>(r.get())->count_pages();
            case r_lifo: return static_cast<lifo_paged_memory_resource*>(r.get())->count_pages();
            default: return static_cast<monotonic_paged_memory_resource*>(r.get())->count_pages();
        }
    }
    void check(A const& a) const {
        if (a.is_text) {
            auto t = a.t;
            std::string_view sv{t};
            if (sv != a.want) sim::fail("content", "%s: a %zu byte text changed while its memory was live", rname[k], a.want.size());
            if (t.size() != a.want.size() || t.empty() != a.want.empty()) sim::fail("content", "text size/empty");
        } else if (!check_stamp(a.p, a.n, a.stamp)) sim::fail("content", "%s: %zu bytes changed while they were allocated", rname[k], a.n);
    }
    void check_all() const { for (auto& a : allocs) check(a); for (auto& a : shorts) check(a); }
    void drop(A const& a) { check(a); vacate(a.p, a.n); }
    std::size_t need_pages() const {   // pages that certainly hold live allocations
        std::set<std::uintptr_t> s;
        for (auto& a : allocs) if (a.n) s.insert(reinterpret_cast<std::uintptr_t>(sim::map_of(a.p)));
        return s.size();
    }
    void put(A a) { { sim::NoPreempt q; occupy(a.p, a.n, rname[k]); } allocs.push_back(std::move(a)); ++pushed; }
    void invariant() const {
        if (pages() < need_pages()) sim::fail("count-pages", "%s reports %zu pages but holds live memory on %zu", rname[k], pages(), need_pages());
        if (pages() > need_pages() + ended) sim::fail("page-kept", "%s holds %zu pages but its live memory is on %zu (%llu pages were ended by hand)", rname[k], pages(), need_pages(), static_cast<unsigned long long>(ended));
        auto rem = r->page_remaining();
        if (rem != paged_memory_resource::unknown_size && rem > page_size) sim::fail("remaining", "page_remaining %zu", rem);
    }
};
void alloc_op(Res& x, sim::Rng& w) {
    static std::size_t const als[] = {1, 1, 2, 4, 8, 8, 16, 64, 4096};
    std::size_t n = 0, al = als[w.below(9)];
    switch (w.below(12)) {
        case 0: case 1: case 2: case 3: n = 1 + w.below(200); break;
        case 4: case 5: n = 1 + w.below(65536); break;
        case 6: case 7: n = page_size / 2 - w.below(3) + 1; break;
        case 8: n = page_size / 3 + w.below(100); break;
        case 9: n = page_size - (w.chance(0.5) ? 0 : w.below(70)); break;
        case 10: n = w.chance(0.5) ? page_size + 1 + w.below(10) : 64; break;
        default: n = x.r->page_remaining(al); if (n == 0 || n > page_size) n = 1; if (w.chance(0.3) && n > 1) --n; break;
    }
    auto before = x.pages();
    auto rem = x.r->page_remaining(al);
    auto f0 = sim::thread_faults(sim::f_mmap_fail);
    void* p = nullptr;
    try { p = x.r->allocate(n, al); } catch (std::bad_alloc const&) {}
    bool mm = sim::thread_faults(sim::f_mmap_fail) != f0;
    bool fits = before > 0 && rem >= n;
    if (!p) {
        if (n > page_size) { sim::probe("oversized request refused"); return; }
        if (fits) sim::fail("alloc", "%s: %zu bytes refused although %zu bytes remained in the page", rname[x.k], n, rem);
        if (!mm) sim::fail("alloc", "%s: allocation of %zu bytes failed although pages were available", rname[x.k], n);
        sim::probe("page allocation failed");
        if (x.pages() != before) sim::fail("count-pages", "a failed allocation changed the number of pages from %zu to %zu", before, x.pages());
        return;
    }
    if (n > page_size) sim::fail("alloc", "%zu bytes allocated from pages of %zu bytes", n, page_size);
    if (reinterpret_cast<std::uintptr_t>(p) % al) sim::fail("alignment", "%s: %zu bytes not aligned to %zu", rname[x.k], n, al);
    auto a = reinterpret_cast<std::uintptr_t>(p);
    auto* pg = sim::map_of(p);
    if (!pg) sim::fail("page-bounds", "%s: memory outside any mapped page", rname[x.k]);
    if (sim::map_of(reinterpret_cast<void*>(a + n - 1)) != pg) sim::fail("page-bounds", "%s: %zu bytes reach beyond their page", rname[x.k], n);
    if (fits && x.pages() != before) sim::fail("waste", "%s: a new page was taken for %zu bytes although %zu remained", rname[x.k], n, rem);
    if (fits && x.r->page_remaining(1) > rem - n) sim::fail("remaining", "%s: page_remaining %zu after taking %zu of %zu bytes", rname[x.k], x.r->page_remaining(1), n, rem);
    A r; r.p = p; r.n = n; r.al = al; r.stamp = Q(stamp_src++);
    x.put(r);
    write_stamp(p, n, r.stamp);
    x.check(r);
}
void text_op(Res& x, sim::Rng& w) {
    auto len = [&] { switch (w.below(5)) { case 0: return w.below(16); case 1: return 14 + w.below(4); case 2: return 16 + w.below(300); case 3: return w.below(3000); default: return 100 + w.below(30); } };
    u64 s = Q(stamp_src++);
    A r; r.is_text = true; r.al = 1;
    auto f0 = sim::thread_faults(sim::f_mmap_fail);
    try {
        switch (w.below(6)) {
            case 0: { r.want = content(s, len()); r.t = accessor::text(x.r.get(), r.want); break; }
            case 1: { r.want = content(s, len()); r.t = accessor::text(x.r.get(), r.want.data(), r.want.size()); break; }
            case 2: {   // copy of an external text
                auto src = content(s, len()); accessor::text e{std::string_view(src)};
                r.want = src; r.t = accessor::text(x.r.get(), e); 
                std::fill(src.begin(), src.end(), '#'); break;   // the copy must not refer to the source
            }
            case 3: {   // concatenation, sources may live in the same resource
                auto s1 = content(s, len()), s2 = content(s + 1, len());
                accessor::text a{std::string_view(s1)}, b{std::string_view(s2)};
                if (!x.allocs.empty() && x.allocs.back().is_text && w.chance(0.5)) { a = x.allocs.back().t; s1 = x.allocs.back().want; }
                r.want = s1 + s2; r.t = accessor::text(x.r.get(), a, b);
                std::fill(s2.begin(), s2.end(), '#'); break;
            }
            case 4: { auto src = content(s, len()); accessor::binary b{x.r.get(), src.data(), src.size()}; accessor::binary c{b}; r.want = src; std::string_view sv{c}; if (sv != src) sim::fail("content", "binary"); 
                static_assert(sizeof c == sizeof r.t); std::memcpy(static_cast<void*>(&r.t), &c, sizeof c); break; }
            default: { auto s1 = content(s, len()), s2 = content(s + 1, len()); accessor::binary a{std::string_view(s1)}, b{std::string_view(s2)}; accessor::binary c{x.r.get(), a, b}; r.want = s1 + s2;
                std::memcpy(static_cast<void*>(&r.t), &c, sizeof c); break; }
        }
    } catch (std::bad_alloc const&) {
        if (sim::thread_faults(sim::f_mmap_fail) == f0) sim::fail("alloc", "text of %zu bytes: allocation failed although pages were available", r.want.size());
        return;
    }
    std::string_view sv{r.t};
    if (sv != r.want) sim::fail("content", "%s: new text of %zu bytes has other content", rname[x.k], r.want.size());
    if (r.t.size() != r.want.size() || r.t.empty() != r.want.empty() || static_cast<bool>(r.t) == r.want.empty()) sim::fail("content", "text of %zu bytes reports size %zu", r.want.size(), r.t.size());
    // ordering agrees with the bytes
    for (auto const* l : {&x.shorts}) if (!l->empty()) {
        auto& o = l->back(); int c = compare(r.t, o.t), e = r.want.compare(o.want);
        if ((c < 0) != (e < 0) || (c > 0) != (e > 0) || (r.t == o.t) != (e == 0) || (r.t < o.t) != (e < 0) || (r.t != o.t) != (e != 0) || (r.t >= o.t) != (e >= 0)) sim::fail("order", "texts compare unlike their bytes");
    }
    if (r.t.is_short()) {
        if (x.shorts.size() < 8) x.shorts.push_back(r);
        return;
    }
    r.p = const_cast<char*>(sv.data()); r.n = r.want.size();
    if (!sim::map_of(r.p)) sim::fail("page-bounds", "%s: long text of %zu bytes outside its resource", rname[x.k], r.n);
    x.put(r);
    sim::probe("long text in paged memory");
}
void free_op(Res& x) {
    if (x.allocs.empty() || x.k == r_mono) return;
    if (x.k == r_fifo) {
        auto a = x.allocs.front(); x.allocs.pop_front(); ++x.popped;
        { sim::NoPreempt q; x.drop(a); }
        x.r->deallocate(a.p, a.n, a.al);
        while (!x.cps.empty() && x.cps.front().at < x.popped) x.cps.pop_front();
    } else {
        auto a = x.allocs.back(); x.allocs.pop_back(); --x.pushed;
        { sim::NoPreempt q; x.drop(a); }
        while (!x.cps.empty() && x.cps.back().at > x.pushed) x.cps.pop_back();
        x.r->deallocate(a.p, a.n, a.al);
    }
    sim::probe("deallocated in order");
}
void checkpoint_op(Res& x) {
    if (x.k == r_mono) return;
    Res::Cp c{}; c.at = x.pushed;
    if (x.k == r_fifo) c.f = static_cast<fifo_paged_memory_resource*>(x.r.get())->get_checkpoint();
    else c.l = static_cast<lifo_paged_memory_resource*>(x.r.get())->get_checkpoint();
    x.cps.push_back(c);
}
void rewind_op(Res& x, sim::Rng& w) {
    if (x.k == r_fifo) {
        if (x.cps.empty()) return;
        auto c = x.cps.front(); x.cps.pop_front();
        if (c.f.head_ == nullptr) return;
        // the page of the checkpoint must still be held: something at or behind it lives, or nothing before it was freed
        if (c.at <= x.popped) return;
        { sim::NoPreempt q; while (x.popped < c.at) { x.drop(x.allocs.front()); x.allocs.pop_front(); ++x.popped; } }
        static_cast<fifo_paged_memory_resource*>(x.r.get())->deallocate_before(c.f);
        while (!x.cps.empty() && x.cps.front().at <= x.popped) x.cps.pop_front();
        sim::probe("fifo rewound");
    } else if (x.k == r_lifo) {
        auto* l = static_cast<lifo_paged_memory_resource*>(x.r.get());
        if (w.chance(0.15)) {
            { sim::NoPreempt q; while (!x.allocs.empty()) { x.drop(x.allocs.back()); x.allocs.pop_back(); } }
            x.pushed = 0; x.cps.clear();
            l->deallocate_after(lifo_paged_memory_resource::initial_checkpoint);
            if (x.pages() != 0) sim::fail("count-pages", "%zu pages held after everything was released", x.pages());
            return;
        }
        if (x.cps.empty()) return;
        auto c = x.cps.back();
        { sim::NoPreempt q; while (x.pushed > c.at) { x.drop(x.allocs.back()); x.allocs.pop_back(); --x.pushed; } }
        l->deallocate_after(c.l);
        if (w.chance(0.5)) x.cps.pop_back();      // else: the same point is rewound to again later
        sim::probe("lifo rewound");
        x.check_all();
    }
}
void scope_op(Res& x, sim::Rng& w) {
    if (x.k != r_lifo) return;
    auto* l = static_cast<lifo_paged_memory_resource*>(x.r.get());
    auto at = x.pushed; auto keep = x.cps.size();
    {
        utils::checkpoint_holder h{l};
        for (u64 i = 0, n = w.below(4); i < n; ++i) {
            if (w.chance(0.6)) alloc_op(x, w); else text_op(x, w);
            if (w.chance(0.2)) { { sim::NoPreempt q; while (x.pushed > at) { x.drop(x.allocs.back()); x.allocs.pop_back(); --x.pushed; } } h.reset(); x.check_all(); }
        }
        sim::NoPreempt q;
        while (x.pushed > at) { x.drop(x.allocs.back()); x.allocs.pop_back(); --x.pushed; }
        while (x.cps.size() > keep) x.cps.pop_back();
    }
    x.check_all();
}
void destroy(std::unique_ptr<Res> x) {
    x->check_all();
    { sim::NoPreempt q; for (auto& a : x->allocs) vacate(a.p, a.n); }
    x->r.reset();
}
struct Held { page_pool::page_info i; u64 stamp; };
std::vector<std::size_t> free_counts(page_pool& p) {
    std::ostringstream o; p.unsafe_dump_info(o);
    std::vector<std::size_t> r;
    try {
        auto j = nlohmann::json::parse(o.str());
        for (auto& n : j.at("nodes")) {
            if (n.at("id").get<std::size_t>() != r.size()) sim::fail("dump", "node ids are not in order: %s", o.str().c_str());
            r.push_back(n.at("free_page_count").get<std::size_t>());
            if (n.at("free_page_bytes").get<std::size_t>() != r.back() * page_size) sim::fail("dump", "bytes and counts disagree: %s", o.str().c_str());
        }
    } catch (nlohmann::json::exception const& e) { sim::fail("dump", "pool information is not readable: %s", o.str().c_str()); }
    return r;
}
void took(page_pool::page_info i, bool brandnew) {   // model side of a successful acquire
    if (reinterpret_cast<std::uintptr_t>(i.address()) % page_pool::min_alignment) sim::fail("alignment", "page address");
    if (!sim::mapped(i.address())) sim::fail("page-bounds", "page is not mapped");
    occupy(i.address(), page_size, "acquire_page");
    auto it = birth.find(i.address());
    if (it != birth.end()) {
        if (brandnew) sim::fail("brandnew", "a recycled page was handed out as brand new");
        if (it->second != i.birth_place()) sim::fail("birth-place", "a page born on node %zu came back as born on node %zu", it->second, i.birth_place());
        sim::probe("page recycled");
    } else birth[i.address()] = i.birth_place();
}
void run() {
    auto& w = sim::wl(); auto& c = sim::cfg();
    static int const nodes_of[] = {0, 1, 1, 2, 4};
    int nodes = nodes_of[c.below(5)], cpus = std::max(1, nodes * 2);
    sim::set_nodes(std::max(nodes, 1), cpus);
    if (c.chance(0.5)) sim::fault_enable(sim::f_cpu_migrate, 0.5 + double(c.below(3)));
    sim::fault_enable(sim::f_hugepage_fail, c.chance(0.5) ? 1.0 : 0.2);
    if (c.chance(0.35)) sim::fault_enable(sim::f_mmap_fail, c.chance(0.5) ? 1.0 : 6.0);
    bool give_back = c.chance(0.15), race = c.chance(0.5);
    if (race) sim::check_races(true);
    {
        auto cf = std::make_shared<configuration>();
        cf->return_os_pages(give_back);
        global::config_pool(cf);
    }
    pool = new page_pool();
    int nt = 1 + static_cast<int>(w.below(4));
    struct Op { int kind; u64 a; };
    std::vector<std::vector<Op>> plan(static_cast<std::size_t>(nt));
    int op = 0;
    bool long_run = c.chance(0.3);
    for (auto& p : plan) for (u64 i = 0, n = 4 + w.below(long_run ? 60 : 20); i < n; ++i) {
        Op o{static_cast<int>(w.below(26)), w.next()};
        if (sim::op_enabled(op++)) p.push_back(o);
    }
    sim::plan_size(op);
    std::mutex hand_mx;
    std::deque<std::unique_ptr<Res>> handed;                 // resources travel between workers with their data
    std::vector<Held> pages;
    Threads th;
    for (auto& p : plan) th.go([&, mine = &p] {
        std::vector<std::unique_ptr<Res>> rs;
        sim::Rng r;
        for (auto& o : *mine) {
            r.seed(o.a);
            if (rs.empty() || (o.kind == 0 && rs.size() < 3)) rs.push_back(std::make_unique<Res>(static_cast<rkind>(r.below(3))));
            auto& x = *rs[r.below(rs.size())];
            switch (o.kind) {
                case 0: break;
                case 1: case 2: case 3: case 4: case 5: case 6: alloc_op(x, r); break;
                case 7: case 8: case 9: text_op(x, r); break;
                case 10: case 11: case 12: free_op(x); break;
                case 13: case 14: checkpoint_op(x); break;
                case 15: case 16: rewind_op(x, r); break;
                case 17: scope_op(x, r); break;
                case 18: {
                    auto n = x.pages();
                    try { x.r->end_current_page(); } catch (std::bad_alloc const&) { break; }
                    if (x.pages() > n) ++x.ended;
                    break;
                }
                case 19: x.check_all(); x.invariant(); break;
                case 20: { std::size_t i = r.below(rs.size()); auto v = std::move(rs[i]); rs.erase(rs.begin() + static_cast<long>(i)); destroy(std::move(v)); break; }
                case 21: {
                    std::size_t i = r.below(rs.size());
                    std::lock_guard lk{hand_mx};
                    handed.push_back(std::move(rs[i])); rs.erase(rs.begin() + static_cast<long>(i));
                    if (handed.size() > 1) { rs.push_back(std::move(handed.front())); handed.pop_front(); sim::probe("resource moved to another thread"); }
                    break;
                }
                case 22: case 23: {
                    bool nw = r.chance(0.25);
                    auto f0 = sim::thread_faults(sim::f_mmap_fail);
                    auto i = pool->acquire_page(nw);
                    bool mm = sim::thread_faults(sim::f_mmap_fail) != f0;
                    if (!i) { if (!mm) sim::fail("alloc", "acquire_page failed although memory was available"); break; }
                    if (i.birth_place() >= static_cast<std::size_t>(std::max(1, nodes))) sim::fail("birth-place", "node %zu of %d", i.birth_place(), nodes);
                    { sim::NoPreempt q; took(i, nw); }
                    Held h{i, Q(stamp_src++)};
                    write_stamp(i.address(), page_size, h.stamp);
                    std::lock_guard lk{hand_mx}; pages.push_back(h);
                    break;
                }
                default: {
                    Held h{};
                    { std::lock_guard lk{hand_mx}; if (pages.empty()) break; auto i = r.below(pages.size()); h = pages[i]; pages.erase(pages.begin() + static_cast<long>(i)); }
                    if (!check_stamp(h.i.address(), page_size, h.stamp)) sim::fail("content", "a page changed while it was held");
                    { sim::NoPreempt q; vacate(h.i.address(), page_size); if (give_back) birth.erase(h.i.address()); }
                    pool->release_page(h.i);
                    break;
                }
            }
            if (!rs.empty()) rs[0]->invariant();
        }
        for (auto& x : rs) destroy(std::move(x));
    });
    th.join();
    for (auto& x : handed) destroy(std::move(x));
    handed.clear();
    sim::faults_stop();
    // quiet: what the pool holds is what is not held elsewhere
    auto fc = free_counts(*pool);
    if (fc.size() != static_cast<std::size_t>(std::max(1, nodes))) sim::fail("dump", "%zu nodes reported, %d configured", fc.size(), nodes);
    std::size_t sum = 0; for (auto n : fc) sum += n;
    std::size_t mapped_pages = sim::map_stats().live_bytes / page_size;
    if (sum + pages.size() != mapped_pages) sim::fail("page-conservation", "%zu pages are mapped, %zu free and %zu held", mapped_pages, sum, pages.size());
    if (give_back && sum != 0) sim::fail("page-conservation", "%zu pages kept although pages go back to the system", sum);
    for (auto& h : pages) {
        if (!check_stamp(h.i.address(), page_size, h.stamp)) sim::fail("content", "a page changed while it was held");
        vacate(h.i.address(), page_size);
        pool->release_page(h.i);
        auto n = free_counts(*pool);
        if (!give_back && n[h.i.birth_place()] != fc[h.i.birth_place()] + 1) sim::fail("birth-place", "a released page did not return to node %zu", h.i.birth_place());
        fc = n;
    }
    pages.clear();
    // with nobody else around, free pages of the local node are reused before anything is mapped
    for (int i = 0; i < 6; ++i) {
        auto calls = sim::map_stats().calls;
        auto node = static_cast<std::size_t>(sim::node_of_thread());
        bool nw = w.chance(0.2), have = fc[node] > 0 && !nw;
        auto pg = pool->acquire_page(nw);
        if (!pg) sim::fail("alloc", "acquire_page failed although memory was available");
        if (have && sim::map_stats().calls != calls) sim::fail("recycle", "node %zu has %zu free pages but a new page was mapped", node, fc[node]);
        if (!have && sim::map_stats().calls == calls) sim::fail("brandnew", "no page was mapped");
        if (pg.birth_place() != node) sim::fail("birth-place", "page acquired on node %zu says node %zu", node, pg.birth_place());
        took(pg, nw);
        if (w.chance(0.5)) { vacate(pg.address(), page_size); if (give_back) birth.erase(pg.address()); pool->release_page(pg); } else pages.push_back({pg, 0});
        fc = free_counts(*pool);
    }
    for (auto& h : pages) pool->release_page(h.i);
    delete pool;
    if (auto n = sim::map_stats().live_bytes) sim::fail("leak", "%llu bytes still mapped after the pool was destroyed", static_cast<unsigned long long>(n));
    sim::finish();
}
}
sim::Harness const sim::harness{"pages", [] { (void)global::config_pool(); }, run};
