// Deterministic heap: every allocation of the process comes from a fixed address range, so addresses are a pure
// function of the allocation sequence. A shadow byte per 16 bytes says how many of them are addressable.
#include "internal.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim::in {
unsigned char* heap_shadow = nullptr;
bool memory_checks = true;

namespace {
struct Hdr { u64 size; u32 cls; u32 magic; };           // 16 bytes right before the user block
constexpr u32 magic_live = 0x51a11ceu, magic_free = 0xdeadf7eeu, magic_shift = 0xa11a11u;
static_assert(sizeof(Hdr) == 16);
struct Free { Free* next; };
constexpr int ncls = 160;
Free* head[ncls]; Free* tail[ncls]; u32 nfree[ncls];
char* bump = nullptr; char* limit = nullptr; u64 run_base = arena_base;
u64 live_bytes, live_blocks, total_allocs;
int lock_word = 0;

void lock() { while (__atomic_exchange_n(&lock_word, 1, __ATOMIC_ACQUIRE)) { __builtin_ia32_pause(); } }
void unlock() { __atomic_store_n(&lock_word, 0, __ATOMIC_RELEASE); }

// size classes: 16-byte steps to 1024, then quarter powers of two
int cls_of(std::size_t n) {
    if (n <= 1024) return static_cast<int>((n + 15) / 16);           // 0..64
    int lg = 63 - __builtin_clzll(n - 1);                           // 2^lg <= n-1
    std::size_t base = std::size_t{1} << lg;
    int q = static_cast<int>((n - 1 - base) / (base / 4));           // 0..3
    return 65 + (lg - 10) * 4 + q;
}
std::size_t size_of(int c) {
    if (c <= 64) return static_cast<std::size_t>(c == 0 ? 1 : c) * 16;
    int lg = (c - 65) / 4 + 10, q = (c - 65) % 4;
    std::size_t base = std::size_t{1} << lg;
    return base + (base / 4) * static_cast<std::size_t>(q + 1);
}
void shade(void* p, std::size_t n, bool on) {
    auto* s = heap_shadow + ((reinterpret_cast<u64>(p) - arena_base) >> 4);
    std::size_t full = n / 16, rest = n % 16;
    std::memset(s, on ? 16 : 0, full);
    if (rest) s[full] = on ? static_cast<unsigned char>(rest) : 0;
}
void init() {
    if (bump) return;
    void* a = mmap(reinterpret_cast<void*>(arena_base), arena_size, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(nullptr, arena_size / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a == MAP_FAILED || s == MAP_FAILED) { static char const m[] = "sim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
    heap_shadow = static_cast<unsigned char*>(s);
    bump = static_cast<char*>(a); limit = bump + arena_size;
}
void* take(std::size_t n) {
    lock();
    init();
    if (n > (std::size_t{1} << 40)) { unlock(); return nullptr; }
    int c = cls_of(n);
    std::size_t sz = size_of(c);
    char* blk = nullptr;
    // a freed block is reused only after a few others of its class were freed: use-after-free stays visible longer
    if (nfree[c] > 8) {
        blk = reinterpret_cast<char*>(head[c]); head[c] = head[c]->next; --nfree[c];
        blk -= 0;
    } else {
        if (bump + sz + 32 > limit) { unlock(); return nullptr; }
        blk = bump + 16; bump += sz + 16;
    }
    auto* h = reinterpret_cast<Hdr*>(blk - 16);
    h->size = n; h->cls = static_cast<u32>(c); h->magic = magic_live;
    live_bytes += n; ++live_blocks; ++total_allocs;
    shade(blk, n, true);
    unlock();
    on_malloc(blk, n);
    return blk;
}
Hdr* hdr(void* p) {
    auto* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - 16);
    if (h->magic == magic_shift) { return reinterpret_cast<Hdr*>(static_cast<char*>(p) - h->size - 16); }
    return h;
}
void give(void* p) {
    if (!p) return;
    u64 a = reinterpret_cast<u64>(p);
    if (a < arena_base || a >= arena_base + arena_size) return;     // from before we existed
    Hdr* h = hdr(p);
    if (h->magic != magic_live) {
        if (active) fail("memory", "%s of %p", h->magic == magic_free ? "double free" : "invalid free", p);
        return;
    }
    char* blk = reinterpret_cast<char*>(h) + 16;
    on_free(blk, h->size);
    lock();
    h->magic = magic_free;
    shade(blk, h->size, false);
    live_bytes -= h->size; --live_blocks;
    std::memset(blk, 0xFB, h->size < 64 ? h->size : 64);
    if (reinterpret_cast<u64>(blk) < run_base) { unlock(); return; }      // from before the run: not used again
    auto* f = reinterpret_cast<Free*>(blk);
    f->next = nullptr;
    int c = static_cast<int>(h->cls);
    if (nfree[c] == 0) { head[c] = tail[c] = f; } else { tail[c]->next = f; tail[c] = f; }
    ++nfree[c];
    unlock();
}
void* take_aligned(std::size_t al, std::size_t n) {
    if (al <= 16) return take(n);
    char* p = static_cast<char*>(take(n + al + 16));
    if (!p) return nullptr;
    u64 a = reinterpret_cast<u64>(p);
    u64 r = (a + al - 1) & ~(al - 1);
    if (r == a) { shade(p + n, 0, true); return p; }
    auto* h = reinterpret_cast<Hdr*>(r - 16);
    h->size = r - a; h->cls = 0; h->magic = magic_shift;
    std::memset(heap_shadow + ((r - 16 - arena_base) >> 4), 0, 1);
    // everything behind the requested bytes is not addressable
    auto* s = heap_shadow + ((r - arena_base) >> 4);
    std::size_t end = (n + 15) / 16, total = (al + 16 + n - (r - a)) / 16;
    if (n % 16) s[n / 16] = static_cast<unsigned char>(n % 16);
    if (total > end) std::memset(s + end, 0, total - end);
    return reinterpret_cast<void*>(r);
}
std::size_t usable(void* p) {
    auto* h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - 16);
    if (h->magic == magic_shift) {
        auto* o = reinterpret_cast<Hdr*>(static_cast<char*>(p) - h->size - 16);
        return o->size - h->size;
    }
    return h->size;
}
} // namespace
void sim_alloc_init() { lock(); init(); unlock(); }
// start of a run: what was allocated before (it depends on arguments and environment) has no influence on later addresses
void sim_alloc_run() {
    lock();
    run_base = arena_base + 0x8000000;
    if (reinterpret_cast<u64>(bump) > run_base) { static char const m[] = "sim: too much memory before the run\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
    bump = reinterpret_cast<char*>(run_base);
    for (int i = 0; i < ncls; ++i) { head[i] = tail[i] = nullptr; nfree[i] = 0; }
    unlock();
}
} // namespace sim::in

namespace sim {
AllocStats alloc_stats() { return {in::live_bytes, in::live_blocks, in::total_allocs}; }
}

using namespace sim::in;
extern "C" {
void* malloc(size_t n) { void* p = take(n); if (!p) errno = ENOMEM; return p; }
void free(void* p) { give(p); }
void* calloc(size_t a, size_t b) {
    size_t n = 0;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = take(n);
    if (p) std::memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return take(n);
    if (n == 0) { give(p); return nullptr; }
    size_t o = usable(p);
    void* q = take(n);
    if (!q) return nullptr;
    std::memcpy(q, p, o < n ? o : n);
    give(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b) { size_t n = 0; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return realloc(p, n); }
void* memalign(size_t al, size_t n) { return take_aligned(al, n); }
void* aligned_alloc(size_t al, size_t n) { return take_aligned(al, n); }
int posix_memalign(void** out, size_t al, size_t n) { void* p = take_aligned(al, n); if (!p) return ENOMEM; *out = p; return 0; }
void* valloc(size_t n) { return take_aligned(4096, n); }
void* pvalloc(size_t n) { return take_aligned(4096, (n + 4095) & ~size_t{4095}); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
void cfree(void* p) { give(p); }
}

static void* new_impl(std::size_t n, std::size_t al, bool nothrow) {
    if (active && alloc_fault_now()) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
    void* p = al > 16 ? take_aligned(al, n) : take(n);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc{}; }
    return p;
}
void* operator new(std::size_t n) { return new_impl(n, 0, false); }
void* operator new[](std::size_t n) { return new_impl(n, 0, false); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return new_impl(n, 0, true); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return new_impl(n, 0, true); }
void* operator new(std::size_t n, std::align_val_t a) { return new_impl(n, static_cast<std::size_t>(a), false); }
void* operator new[](std::size_t n, std::align_val_t a) { return new_impl(n, static_cast<std::size_t>(a), false); }
void* operator new(std::size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return new_impl(n, static_cast<std::size_t>(a), true); }
void* operator new[](std::size_t n, std::align_val_t a, std::nothrow_t const&) noexcept { return new_impl(n, static_cast<std::size_t>(a), true); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t, std::nothrow_t const&) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t, std::nothrow_t const&) noexcept { give(p); }

// oneTBB's allocator entry points: containers of the code under test live in the simulated heap as well
namespace tbb::detail::r1 {
__attribute__((visibility("default"))) void* cache_aligned_allocate(std::size_t n) { return new_impl(n, 64, false); }
__attribute__((visibility("default"))) void cache_aligned_deallocate(void* p) { give(p); }
__attribute__((visibility("default"))) void* allocate_memory(std::size_t n) { return new_impl(n, 0, false); }
__attribute__((visibility("default"))) void deallocate_memory(void* p) { give(p); }
__attribute__((visibility("default"))) std::size_t cache_line_size() { return 64; }
}
