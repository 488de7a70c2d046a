// Simulated transactional key value store behind the sharksfin API. Everything runs in memory under the simulator:
//  - committed data is multi-versioned; short transactions read the latest version and validate at commit, long and read-only ones read a snapshot;
//  - commits belong to an epoch, a thread advances epochs, makes them persistent and calls the durability callback;
//  - a crash keeps exactly a prefix of the log up to a persistent epoch;
//  - the store checks how the engine uses it (one operation at a time per handle, no operation after the end, handles returned, ...).
#include "../impl/sharksfin.h"
#include "sim.h"
#include <algorithm>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <set>
#include <thread>

namespace sharksfin {
namespace {
using u64 = std::uint64_t;
struct Op { int kind{}; std::string stg, key, val; u64 a{}, b{}; std::int64_t c{}; };   // 0 put 1 delete 2 storage 3 drop 4 options 5 new sequence 6 sequence value 7 drop sequence
struct Rec { u64 marker{}; std::string tx; std::vector<Op> ops; };
struct Version { u64 ts{}; bool present{}; std::string val; };
struct Stg { std::string name; u64 id{}; std::string payload; std::map<std::string, std::vector<Version>> m; bool dropped{}; };
struct Seq { u64 ver{}; std::int64_t val{}; };
using StgP = std::shared_ptr<Stg>;

struct Store {
    std::map<std::string, StgP> stgs; std::map<u64, Seq> seqs; u64 next_stg{1}, next_seq{1}, ts{1};
    u64 epoch{10}, persistent{9}, durable{9};
    std::vector<Rec> base_log, log;      // base_log: what was there at open
    std::map<u64, u64> epoch_ts;          // first ts of an epoch
    std::set<TxStub*> txs;
    std::vector<durability_callback_type> dur;
    std::map<std::string, std::pair<int, u64>> outcomes; std::map<std::string, u64> commit_at; std::set<std::string> readers;
    u64 next_tx{1}, begins{}, commits{}, aborts{}; int leaked{};
    std::deque<std::function<void()>> pending; u64 pending_calls{};
    bool open{}, stop{}, running{};
    std::mutex mx; std::condition_variable cv; std::vector<std::thread> threads;
    void* datastore{};
};
Store* S = nullptr;
std::string& my_last() { thread_local std::string s; return s; }
simkvs::Options opt;
std::function<void(char const*)> misuse_cb;
void misuse(char const* w) { if (misuse_cb) misuse_cb(w); else sim::fail("kvs-misuse", "%s", w); }

void apply(Op const& o, u64 ts) {
    auto find = [&]() -> StgP { auto i = S->stgs.find(o.stg); return i == S->stgs.end() ? nullptr : i->second; };
    switch (o.kind) {
        case 0: if (auto s = find()) s->m[o.key].push_back({ts, true, o.val}); break;
        case 1: if (auto s = find()) s->m[o.key].push_back({ts, false, {}}); break;
        case 2: { auto s = std::make_shared<Stg>(); s->name = o.stg; s->id = o.a; s->payload = o.val; S->stgs[o.stg] = s; S->next_stg = std::max(S->next_stg, o.b + 1); break; }
        case 3: if (auto s = find()) { s->dropped = true; S->stgs.erase(o.stg); } break;
        case 4: if (auto s = find()) { s->id = o.a; s->payload = o.val; } break;
        case 5: S->seqs[o.a] = Seq{0, 0}; S->next_seq = std::max(S->next_seq, o.a + 1); break;
        case 6: { auto i = S->seqs.find(o.a); if (i != S->seqs.end() && o.b >= i->second.ver) i->second = Seq{o.b, o.c}; break; }
        case 7: S->seqs.erase(o.a); break;
    }
}
u64 log_now(std::vector<Op> ops, std::string tx = {}) {
    u64 ts = ++S->ts;
    for (auto& o : ops) apply(o, ts);
    S->log.push_back({S->epoch, std::move(tx), std::move(ops)});
    return S->epoch;
}
Version const* latest(Stg& s, std::string const& k, u64 at = ~0ULL) {
    auto i = s.m.find(k); if (i == s.m.end()) return nullptr;
    Version const* r = nullptr; for (auto& v : i->second) if (v.ts <= at) r = &v;
    return r;
}
void put_s(std::string& o, std::string const& s) { u64 n = s.size(); o.append(reinterpret_cast<char*>(&n), 8); o += s; }
void put_u(std::string& o, u64 n) { o.append(reinterpret_cast<char*>(&n), 8); }
struct In { std::string const& s; std::size_t p{}; u64 u() { u64 n; std::memcpy(&n, s.data() + p, 8); p += 8; return n; } std::string str() { auto n = u(); auto r = s.substr(p, n); p += n; return r; } };
} // namespace

struct TxBodyStub { TxStub* tx{}; bool busy{}, acquired{}; std::unique_ptr<std::string> buf; int iterators{}; };
struct LW { int kind{}; std::string val; PutOperation op{}; };   // 0 put 1 delete
struct ScanRec { Stg* s{}; StgP keep; std::string b, e; EndPointKind bk{}, ek{}; bool rev{}; u64 ts{}; std::string reached; bool any{}, exhausted{}; };
struct TxStub {
    std::string id; TransactionOptions::TransactionType type{}; u64 begin_epoch{}, snap{}; bool waiting{};
    std::set<Stg*> wp; std::map<Stg*, StgP> touched; std::set<Stg*> used; std::map<Stg*, std::map<std::string, LW>> writes;
    std::map<std::pair<Stg*, std::string>, u64> reads; std::vector<std::shared_ptr<ScanRec>> scans; std::map<u64, Seq> seqs;
    std::set<TxBodyStub*> handles; std::shared_ptr<CallResult> recent; std::shared_ptr<TransactionInfo> info;
    int state{};  // 0 active 1 commit requested 2 committed 3 aborted
    u64 marker{}; int calls{}; bool callback_pending{};
};
struct StorageStub { StgP s; };
struct IteratorStub { TxBodyStub* h{}; std::shared_ptr<ScanRec> r; std::vector<std::string> keys; std::size_t pos{}; bool at{}; bool phantom{}; bool busy{}; std::string val; std::unique_ptr<std::string> kb, vb; bool limited{}; };
struct DatabaseStub { int x{}; };
static DatabaseStub the_db;

namespace {
struct Call {   // one operation of the engine on a transaction handle
    TxBodyStub* h; bool mine{};
    explicit Call(TxBodyStub* hh, bool it = false) : h(hh) {
        { sim::NoPreempt n; check(it); h->busy = true; ++h->tx->calls; mine = true; if (!it) h->buf.reset(); }
        sim::yield();
    }
    void check(bool) { if (h->busy) misuse("two operations at the same time on one transaction handle"); if (!S->txs.count(h->tx)) misuse("operation on a disposed transaction"); }
    ~Call() { if (mine) { sim::NoPreempt n; h->busy = false; --h->tx->calls; } }
};
bool after_begin(Stg&, std::string const& k, std::string const& b, EndPointKind bk) {
    switch (bk) {
        case EndPointKind::UNBOUND: return true;
        case EndPointKind::INCLUSIVE: case EndPointKind::PREFIXED_INCLUSIVE: return k >= b;
        case EndPointKind::EXCLUSIVE: return k > b;
        case EndPointKind::PREFIXED_EXCLUSIVE: return k > b && k.compare(0, b.size(), b) != 0;
    } return true;
}
bool before_end(std::string const& k, std::string const& e, EndPointKind ek) {
    switch (ek) {
        case EndPointKind::UNBOUND: return true;
        case EndPointKind::INCLUSIVE: return k <= e;
        case EndPointKind::EXCLUSIVE: case EndPointKind::PREFIXED_EXCLUSIVE: return k < e;
        case EndPointKind::PREFIXED_INCLUSIVE: return k <= e || k.compare(0, e.size(), e) == 0;
    } return true;
}
void drop_writes(TxStub* t) { t->writes.clear(); t->seqs.clear(); }
void set_recent(TxStub* t, ErrorCode c, std::string d, Stg* s = nullptr, std::string const* k = nullptr) { t->recent = std::make_shared<CallResult>(c, std::move(d), s ? std::make_shared<StorageKeyErrorLocator>(k ? std::optional<std::string>(*k) : std::nullopt, s->name) : std::shared_ptr<ErrorLocator>{}); }
void finish_abort(TxStub* t) { if (t->state == 3) return; t->state = 3; drop_writes(t); S->outcomes[t->id] = {2, 0}; ++S->aborts; }
StatusCode engine_abort(TxStub* t, ErrorCode c, StatusCode st, Stg* s = nullptr, std::string const* k = nullptr) { finish_abort(t); set_recent(t, c, "conflict", s, k); return st; }
bool usable(TxStub* t, StatusCode& rc) {
    if (t->state == 1) { misuse("operation on a transaction whose commit was requested"); }
    if (t->state != 0) { rc = StatusCode::ERR_INACTIVE_TRANSACTION; return false; }
    if (t->waiting) { if (S->epoch <= t->begin_epoch) { rc = StatusCode::PREMATURE; return false; } t->waiting = false; t->snap = S->epoch_ts.count(t->begin_epoch + 1) ? S->epoch_ts[t->begin_epoch + 1] : S->ts; }
    return true;
}
void touch(TxStub* t, StgP const& s, bool use = true) { if (use) t->used.insert(s.get()); if (s->dropped) misuse("access to a deleted storage"); t->touched.emplace(s.get(), s); }
u64 view_ts(TxStub* t) { return t->type == TransactionOptions::TransactionType::SHORT ? ~0ULL : t->snap; }
bool others_write(TxStub* t, Stg* s, std::string const& k) { for (auto* o : S->txs) if (o != t && o->state <= 1) { auto i = o->writes.find(s); if (i != o->writes.end() && i->second.count(k)) return true; } return false; }
bool occ_blocked_by_wp(TxStub* t, Stg* s) { if (t->type != TransactionOptions::TransactionType::SHORT) return false; for (auto* o : S->txs) if (o != t && o->state <= 1 && o->type == TransactionOptions::TransactionType::LONG && !(o->waiting && S->epoch <= o->begin_epoch) && o->wp.count(s)) return true; return false; }
void note_read(TxStub* t, Stg* s, std::string const& k, Version const* v) { if (t->type == TransactionOptions::TransactionType::READ_ONLY) return; t->reads.emplace(std::make_pair(s, k), v ? v->ts : 0); }
// present: the transaction sees this value
StatusCode read(TxStub* t, StgP const& s, std::string const& k, std::string& out, bool scanning = false) {
    auto w = t->writes.find(s.get());
    if (w != t->writes.end()) { auto i = w->second.find(k); if (i != w->second.end()) { if (i->second.kind == 1) return StatusCode::NOT_FOUND; out = i->second.val; return StatusCode::OK; } }
    auto* v = latest(*s, k, view_ts(t)); note_read(t, s.get(), k, v);
    if (!v || !v->present) {
        if (!scanning && t->type == TransactionOptions::TransactionType::SHORT && !v && others_write(t, s.get(), k) && opt.concurrent_op > 0 && sim::fault(sim::f_kvs_conflict, opt.concurrent_op)) { set_recent(t, ErrorCode::OK, "concurrent insert", s.get(), &k); return StatusCode::CONCURRENT_OPERATION; }
        return StatusCode::NOT_FOUND;
    }
    out = v->val; return StatusCode::OK;
}
bool injected(TxStub* t, StatusCode& rc) {
    if (opt.io_error > 0 && sim::fault(sim::f_kvs_io, opt.io_error)) { finish_abort(t); set_recent(t, ErrorCode::ERROR, "io error"); rc = StatusCode::ERR_IO_ERROR; return true; }
    return false;
}
// validation: everything read is still the newest
bool valid(TxStub* t, ErrorCode& ec, Stg*& ws, std::string& wk) {
    if (t->type == TransactionOptions::TransactionType::READ_ONLY) return true;
    bool occ = t->type == TransactionOptions::TransactionType::SHORT;
    if (!occ && t->writes.empty()) return true;
    for (auto& [p, ts] : t->reads) { auto* v = latest(*p.first, p.second); if ((v ? v->ts : 0) != ts) { ec = occ ? ErrorCode::CC_OCC_READ_ERROR : ErrorCode::CC_LTX_READ_ERROR; ws = p.first; wk = p.second; return false; } if (occ && occ_blocked_by_wp(t, p.first)) { ec = ErrorCode::CC_OCC_WP_VERIFY_ERROR; ws = p.first; wk = p.second; return false; } }
    for (auto& r : t->scans) for (auto& [k, vs] : r->s->m) {
        if (vs.back().ts <= r->ts) continue;
        if (!after_begin(*r->s, k, r->b, r->bk) || !before_end(k, r->e, r->ek)) continue;
        if (!r->exhausted) { if (!r->any) continue; if (r->rev ? k < r->reached : k > r->reached) continue; }
        ec = occ ? ErrorCode::CC_OCC_READ_ERROR : ErrorCode::CC_LTX_READ_ERROR; ws = r->s; wk = k; return false;
    }
    for (auto& [s, m] : t->writes) if (s->dropped) { misuse("commit of writes to a deleted storage"); }
    return true;
}
void queue_call(std::function<void()> f) { { std::unique_lock<std::mutex> l(S->mx); S->pending.push_back(std::move(f)); } S->cv.notify_all(); }

// persistence: epochs advance, become persistent, and are reported
void epoch_step() {
    { sim::NoPreempt n; ++S->epoch; S->epoch_ts[S->epoch] = S->ts; }
    sim::yield();
    if (sim::fault(sim::f_durable_stall, 0.1)) return;
    u64 d;
    { sim::NoPreempt n; S->persistent = S->epoch - 1; d = S->persistent; }
    if (sim::fault(sim::f_durable_delay, 0.2)) sim::sleep_ns(1000000 * (1 + sim::cfg().below(5)));
    sim::yield();
    std::vector<durability_callback_type> cbs;
    { sim::NoPreempt n; if (d <= S->durable) return; S->durable = d; cbs = S->dur; }
    for (auto& c : cbs) c(d);
}
void epoch_thread() {
    for (;;) {
        { std::unique_lock<std::mutex> l(S->mx); if (S->stop) return; S->cv.wait_for(l, std::chrono::microseconds(opt.epoch_us)); if (S->stop) return; }
        epoch_step();
    }
}
void callback_thread() {
    for (;;) {
        std::function<void()> f;
        { std::unique_lock<std::mutex> l(S->mx); while (S->pending.empty() && !S->stop) S->cv.wait(l); if (S->pending.empty()) return; std::size_t i = 0; if (S->pending.size() > 1) i = sim::cfg().below(S->pending.size()); f = std::move(S->pending[i]); S->pending.erase(S->pending.begin() + i); }
        if (sim::fault(sim::f_callback_delay, 0.2)) sim::sleep_ns(100000 * (1 + sim::cfg().below(60)));
        f();
    }
}
} // namespace

namespace simkvs {
Options& options() { return opt; }
void reset() { sim::NoPreempt n; S = new Store(); S->epoch_ts[S->epoch] = S->ts; opt = Options{}; misuse_cb = {}; }
static void replay_into(std::vector<Rec> const& l) { for (auto& r : l) { u64 ts = ++S->ts; for (auto& o : r.ops) apply(o, ts); if (!r.tx.empty()) S->commit_at[r.tx] = ts; } }
std::string durable_image(bool) {
    sim::NoPreempt n; std::string o; u64 lo = S->durable, hi = S->persistent; u64 e = lo + (hi > lo ? sim::cfg().below(hi - lo + 1) : 0);
    std::vector<Rec const*> rs; for (auto& r : S->base_log) rs.push_back(&r); for (auto& r : S->log) if (r.marker <= e) rs.push_back(&r);
    put_u(o, e); put_u(o, S->next_tx); put_u(o, rs.size());
    for (auto* r : rs) { put_u(o, r->marker); put_s(o, r->tx); put_u(o, r->ops.size()); for (auto& p : r->ops) { put_u(o, p.kind); put_s(o, p.stg); put_s(o, p.key); put_s(o, p.val); put_u(o, p.a); put_u(o, p.b); put_u(o, static_cast<u64>(p.c)); } }
    return o;
}
void restore(std::string const& image) {
    sim::NoPreempt n; In in{image}; u64 e = in.u(); S->next_tx = in.u() + 1000; u64 c = in.u();
    for (u64 i = 0; i < c; ++i) { Rec r; r.marker = in.u(); r.tx = in.str(); u64 k = in.u(); for (u64 j = 0; j < k; ++j) { Op p; p.kind = static_cast<int>(in.u()); p.stg = in.str(); p.key = in.str(); p.val = in.str(); p.a = in.u(); p.b = in.u(); p.c = static_cast<std::int64_t>(in.u()); r.ops.push_back(std::move(p)); } if (!r.tx.empty()) S->outcomes[r.tx] = {1, r.marker}; S->base_log.push_back(std::move(r)); }
    S->epoch = e + 2; S->persistent = S->durable = e + 1; replay_into(S->base_log); S->epoch_ts[S->epoch] = S->ts;
}
std::uint64_t epoch() { sim::NoPreempt n; return S->epoch; }
std::uint64_t durable_epoch() { sim::NoPreempt n; return S->durable; }
void advance_epoch() { sim::NoPreempt n; ++S->epoch; S->epoch_ts[S->epoch] = S->ts; }
void make_durable() { epoch_step(); }
static std::map<std::string, std::map<std::string, std::string>> dump(u64) { sim::NoPreempt n; std::map<std::string, std::map<std::string, std::string>> r; for (auto& [nm, s] : S->stgs) { auto& d = r[nm]; for (auto& [k, v] : s->m) if (v.back().present) d[k] = v.back().val; } return r; }
std::map<std::string, std::map<std::string, std::string>> committed() { return dump(~0ULL); }
std::map<std::string, std::map<std::string, std::string>> durable() {
    sim::NoPreempt n; Store* real = S; Store tmp; S = &tmp; replay_into(real->base_log); for (auto& r : real->log) if (r.marker <= real->durable) { u64 ts = ++S->ts; for (auto& o : r.ops) apply(o, ts); }
    auto d = dump(~0ULL); S = real; return d;
}
int open_transactions() { sim::NoPreempt n; return static_cast<int>(S->txs.size()); }
int leaked_handles() { sim::NoPreempt n; return S->leaked; }
void start_threads() { if (S->running) return; S->running = true; S->stop = false; if (opt.group_durability) S->threads.emplace_back(epoch_thread); S->threads.emplace_back(callback_thread); }
void stop_threads() { { std::unique_lock<std::mutex> l(S->mx); S->stop = true; } S->cv.notify_all(); for (auto& t : S->threads) t.join(); S->threads.clear(); S->running = false; }
std::uint64_t begins() { sim::NoPreempt n; return S->begins; }
std::uint64_t commits() { sim::NoPreempt n; return S->commits; }
std::uint64_t aborts() { sim::NoPreempt n; return S->aborts; }
void set_datastore(void* p) { S->datastore = p; }
int outcome(std::string const& id, std::uint64_t* m) { sim::NoPreempt n; auto i = S->outcomes.find(id); if (i == S->outcomes.end()) return 0; if (m) *m = i->second.second; return i->second.first; }
bool commit_wrote(std::string const& id) { sim::NoPreempt n; return !S->readers.count(id); }
std::uint64_t commit_ts(std::string const& id) { sim::NoPreempt n; auto i = S->commit_at.find(id); return i == S->commit_at.end() ? 0 : i->second; }
std::uint64_t last_ts() { sim::NoPreempt n; return S->ts; }
std::string last_begun() { sim::NoPreempt n; return my_last(); }
void on_misuse(std::function<void(char const*)> f) { misuse_cb = std::move(f); }
} // namespace simkvs

StatusCode implementation_id(Slice* o) { *o = Slice("sim"); return StatusCode::OK; }
StatusCode implementation_get_datastore(DatabaseHandle, std::any* o) { *o = S->datastore; return StatusCode::OK; }
StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle* o) {
    if (!S) simkvs::reset();
    { sim::NoPreempt n; if (S->open) misuse("database opened twice"); S->open = true; S->dur.clear(); }
    simkvs::start_threads(); *o = &the_db; return StatusCode::OK;
}
StatusCode database_close(DatabaseHandle) {
    { sim::NoPreempt n; if (!S->open) misuse("database closed twice"); for (auto* t : S->txs) if (t->state <= 1) { misuse("database closed with an open transaction"); break; } }
    simkvs::stop_threads();
    // a clean close makes everything durable
    { sim::NoPreempt n; ++S->epoch; S->persistent = S->durable = S->epoch - 1; S->epoch_ts[S->epoch] = S->ts; S->open = false; }
    std::vector<durability_callback_type> cbs; u64 d; { sim::NoPreempt n; cbs = S->dur; d = S->durable; } for (auto& c : cbs) c(d);
    { sim::NoPreempt n; S->dur.clear(); }
    return StatusCode::OK;
}
StatusCode database_dispose(DatabaseHandle) { return StatusCode::OK; }
// the callback is called once with the current marker when it is registered
StatusCode database_register_durability_callback(DatabaseHandle, durability_callback_type c) { u64 d; { sim::NoPreempt n; d = S->durable; } c(d); { sim::NoPreempt n; S->dur.push_back(std::move(c)); } return StatusCode::OK; }

StatusCode storage_create(DatabaseHandle, Slice k, StorageOptions const& o, StorageHandle* out) {
    sim::yield(); sim::NoPreempt n; auto name = k.to_string();
    if (S->stgs.count(name)) return StatusCode::ALREADY_EXISTS;
    u64 internal = S->next_stg;
    Op p; p.kind = 2; p.stg = name; p.val = o.payload(); p.b = internal; p.a = o.storage_id() == StorageOptions::undefined ? internal : o.storage_id();
    log_now({p}); *out = new StorageStub{S->stgs[name]}; return StatusCode::OK;
}
StatusCode storage_get(DatabaseHandle, Slice k, StorageHandle* out) { sim::yield(); sim::NoPreempt n; auto i = S->stgs.find(k.to_string()); if (i == S->stgs.end()) return StatusCode::NOT_FOUND; *out = new StorageStub{i->second}; return StatusCode::OK; }
StatusCode storage_delete(StorageHandle h) {
    sim::yield(); sim::NoPreempt n; if (h->s->dropped) return StatusCode::NOT_FOUND;
    for (auto* t : S->txs) if (t->state <= 1 && t->used.count(h->s.get())) misuse("a storage is deleted while a transaction that used it is open");
    Op p; p.kind = 3; p.stg = h->s->name; log_now({p}); return StatusCode::OK;
}
StatusCode storage_dispose(StorageHandle h) { sim::NoPreempt n; delete h; return StatusCode::OK; }
StatusCode storage_list(DatabaseHandle, std::vector<std::string>& o) { sim::yield(); sim::NoPreempt n; for (auto& [k, s] : S->stgs) o.push_back(k); return StatusCode::OK; }
StatusCode storage_get_options(StorageHandle h, StorageOptions& o) { sim::yield(); sim::NoPreempt n; o.storage_id(h->s->id); o.payload(h->s->payload); return StatusCode::OK; }
StatusCode storage_set_options(StorageHandle h, StorageOptions const& o) {
    sim::yield(); sim::NoPreempt n; if (h->s->dropped) return StatusCode::NOT_FOUND;
    Op p; p.kind = 4; p.stg = h->s->name; p.val = o.payload(); p.a = o.storage_id(); log_now({p}); return StatusCode::OK;
}

StatusCode transaction_begin(DatabaseHandle, TransactionOptions const& o, TransactionControlHandle* out) {
    sim::yield(); sim::NoPreempt n;
    if (!S->open) misuse("transaction begins on a closed database");
    if (opt.begin_fail > 0 && sim::fault(sim::f_kvs_error, opt.begin_fail)) return StatusCode::ERR_RESOURCE_LIMIT_REACHED;
    for (auto& w : o.write_preserves()) if (w.handle()->s->dropped) { sim::probe("kvs_begin_on_dropped"); return StatusCode::ERR_INVALID_ARGUMENT; }
    auto* t = new TxStub(); t->type = o.transaction_type(); t->id = "TID-" + std::to_string(S->next_tx++); t->info = std::make_shared<TransactionInfo>(t->id);
    t->begin_epoch = S->epoch; t->waiting = t->type != TransactionOptions::TransactionType::SHORT; t->snap = S->ts;
    for (auto& w : o.write_preserves()) { auto s = w.handle()->s; touch(t, s, false); t->wp.insert(s.get()); }
    t->recent = std::make_shared<CallResult>(ErrorCode::OK, "", std::shared_ptr<ErrorLocator>{});
    S->txs.insert(t); ++S->begins; *out = t; my_last() = t->id; return StatusCode::OK;
}
StatusCode transaction_borrow_owner(TransactionHandle, DatabaseHandle* o) { *o = &the_db; return StatusCode::OK; }
StatusCode transaction_borrow_handle(TransactionControlHandle t, TransactionHandle* o) { sim::NoPreempt n; if (!S->txs.count(t)) misuse("handle of a disposed transaction"); auto* b = new TxBodyStub(); b->tx = t; t->handles.insert(b); *o = b; return StatusCode::OK; }
StatusCode transaction_acquire_handle(TransactionControlHandle t, TransactionHandle* o) { sim::NoPreempt n; if (!S->txs.count(t)) misuse("handle of a disposed transaction"); auto* b = new TxBodyStub(); b->tx = t; b->acquired = true; t->handles.insert(b); *o = b; return StatusCode::OK; }
StatusCode transaction_release_handle(TransactionHandle h) {
    sim::NoPreempt n; if (!h) return StatusCode::ERR_INVALID_ARGUMENT; if (!S->txs.count(h->tx)) { misuse("transaction handle released after the transaction was disposed"); return StatusCode::ERR_INVALID_STATE; }
    if (h->busy) misuse("transaction handle released during an operation"); if (h->iterators) misuse("transaction handle released with an open iterator"); h->tx->handles.erase(h); delete h; return StatusCode::OK;
}
bool transaction_commit_with_callback(TransactionControlHandle t, commit_callback_type cb) {
    sim::yield();
    StatusCode st = StatusCode::OK; ErrorCode ec = ErrorCode::OK; u64 marker = 0; bool async = false;
    {
        sim::NoPreempt n;
        if (!S->txs.count(t)) misuse("commit of a disposed transaction");
        if (t->calls) misuse("commit while an operation is running on the transaction");
        if (t->state == 1 || t->state == 2) misuse("commit requested twice");
        StatusCode rc{};
        if (t->state != 0 || !usable(t, rc)) { st = t->state != 0 ? StatusCode::ERR_INACTIVE_TRANSACTION : rc; if (t->state != 0) set_recent(t, ErrorCode::ERROR, "inactive"); }
        else {
            Stg* ws = nullptr; std::string wk;
            if (!valid(t, ec, ws, wk)) { set_recent(t, ec, "serialization failure", ws, &wk); finish_abort(t); st = StatusCode::ERR_ABORTED_RETRYABLE; sim::probe("kvs_validation_failed"); }
            else if (opt.conflict > 0 && sim::fault(sim::f_kvs_conflict, opt.conflict)) { ec = ErrorCode::CC_OCC_READ_ERROR; set_recent(t, ec, "injected"); finish_abort(t); st = StatusCode::ERR_ABORTED_RETRYABLE; }
            else {
                t->state = 1;
                std::vector<Op> ops;
                for (auto& [s, m] : t->writes) for (auto& [k, w] : m) { Op p; p.kind = w.kind; p.stg = s->name; p.key = k; p.val = w.val; ops.push_back(std::move(p)); }
                for (auto& [i, q] : t->seqs) { Op p; p.kind = 6; p.a = i; p.b = q.ver; p.c = q.val; ops.push_back(std::move(p)); }
                if (!ops.empty()) marker = log_now(std::move(ops), t->id); else { marker = S->epoch; S->readers.insert(t->id); }
                t->marker = marker; S->commit_at[t->id] = S->ts; S->outcomes[t->id] = {1, marker}; ++S->commits;
            }
        }
        async = S->running && sim::cfg().chance(t->type == TransactionOptions::TransactionType::LONG ? std::max(opt.async_commit, 0.3) : opt.async_commit);
        t->callback_pending = true;
    }
    auto call = [t, st, ec, marker, cb = std::move(cb)] { { sim::NoPreempt n; t->callback_pending = false; if (st == StatusCode::OK) t->state = 2; } cb(st, ec, marker); };
    if (async) { sim::probe("kvs_commit_async"); queue_call(std::move(call)); return false; }
    sim::yield(); call(); return true;
}
StatusCode transaction_commit(TransactionControlHandle, bool) { misuse("transaction_commit is not used"); return StatusCode::ERR_UNSUPPORTED; }
StatusCode transaction_abort(TransactionControlHandle t, bool) {
    sim::yield(); sim::NoPreempt n;
    if (!S->txs.count(t)) misuse("abort of a disposed transaction");
    if (t->calls) misuse("abort while an operation is running on the transaction");
    if (t->state == 1 || t->state == 2) { misuse("abort of a transaction whose commit was requested"); return StatusCode::ERR_INVALID_STATE; }
    finish_abort(t); return StatusCode::OK;
}
StatusCode transaction_dispose(TransactionControlHandle t) {
    sim::NoPreempt n; if (!t) return StatusCode::OK;
    if (!S->txs.count(t)) misuse("transaction disposed twice");
    if (t->calls) misuse("transaction disposed while an operation is running on it");
    if (t->callback_pending) misuse("transaction disposed before its commit was answered");
    if (t->state == 0) { if (opt.dispose_aborts) finish_abort(t); else misuse("transaction disposed while active"); }
    for (auto* h : t->handles) { if (h->acquired) { ++S->leaked; misuse("transaction disposed before its handle was released"); } if (h->iterators) misuse("transaction disposed with an open iterator"); }
    for (auto* h : t->handles) delete h;
    S->txs.erase(t); delete t; return StatusCode::OK;
}
StatusCode transaction_check(TransactionControlHandle t, TransactionState& out) {
    sim::yield(); sim::NoPreempt n; if (!S->txs.count(t)) misuse("state of a disposed transaction");
    using K = TransactionState::StateKind; K k = K::STARTED;
    if (t->state == 0) k = t->waiting && S->epoch <= t->begin_epoch ? K::WAITING_START : K::STARTED; else if (t->state == 1) k = K::WAITING_CC_COMMIT; else if (t->state == 2) k = t->marker <= S->durable ? K::DURABLE : K::WAITING_DURABLE; else k = K::ABORTED;
    out = TransactionState(k); return StatusCode::OK;
}
StatusCode transaction_get_info(TransactionControlHandle t, std::shared_ptr<TransactionInfo>& o) { sim::NoPreempt n; o = t->info; return StatusCode::OK; }
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle t) { sim::NoPreempt n; if (!S->txs.count(t)) misuse("result of a disposed transaction"); return t->recent; }

StatusCode content_check_exist(TransactionHandle h, StorageHandle s, Slice k) { Slice v; return content_get(h, s, k, &v); }
StatusCode content_get(TransactionHandle h, StorageHandle s, Slice k, Slice* out) {
    Call c(h); sim::NoPreempt n; auto* t = h->tx; StatusCode rc{}; if (!usable(t, rc) || injected(t, rc)) return rc;
    touch(t, s->s); if (occ_blocked_by_wp(t, s->s.get())) { auto ks = k.to_string(); return engine_abort(t, ErrorCode::CC_OCC_WP_VERIFY_ERROR, StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE, s->s.get(), &ks); }
    std::string v; rc = read(t, s->s, k.to_string(), v); if (rc != StatusCode::OK) return rc;
    h->buf = std::make_unique<std::string>(std::move(v)); *out = Slice(h->buf->data(), h->buf->size()); return StatusCode::OK;
}
StatusCode content_put_with_blobs(TransactionHandle h, StorageHandle s, Slice k, Slice v, blob_id_type const*, std::size_t, PutOperation op) {
    auto ks = k.to_string(), vs = v.to_string();
    Call c(h); sim::NoPreempt n; auto* t = h->tx; StatusCode rc{}; if (!usable(t, rc) || injected(t, rc)) return rc;
    if (t->type == TransactionOptions::TransactionType::READ_ONLY) return StatusCode::ERR_ILLEGAL_OPERATION;
    auto& st = s->s; touch(t, st);
    if (ks.size() > 30000) return StatusCode::ERR_INVALID_KEY_LENGTH;
    if (t->type == TransactionOptions::TransactionType::LONG && !t->wp.count(st.get())) return engine_abort(t, ErrorCode::CC_LTX_WRITE_ERROR, StatusCode::ERR_WRITE_WITHOUT_WRITE_PRESERVE, st.get(), &ks);
    if (occ_blocked_by_wp(t, st.get())) return engine_abort(t, ErrorCode::CC_OCC_WP_VERIFY_ERROR, StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE, st.get(), &ks);
    if (op != PutOperation::CREATE_OR_UPDATE) {
        std::string cur; rc = read(t, st, ks, cur);
        if (op == PutOperation::CREATE && rc == StatusCode::OK) { set_recent(t, ErrorCode::KVS_KEY_ALREADY_EXISTS, "exists", st.get(), &ks); return StatusCode::ALREADY_EXISTS; }
        if (op == PutOperation::UPDATE && rc != StatusCode::OK) return rc == StatusCode::CONCURRENT_OPERATION ? rc : StatusCode::NOT_FOUND;
    }
    t->writes[st.get()][ks] = LW{0, vs, op}; return StatusCode::OK;
}
StatusCode content_put(TransactionHandle h, StorageHandle s, Slice k, Slice v, PutOperation op) { return content_put_with_blobs(h, s, k, v, nullptr, 0, op); }
StatusCode content_delete(TransactionHandle h, StorageHandle s, Slice k) {
    auto ks = k.to_string();
    Call c(h); sim::NoPreempt n; auto* t = h->tx; StatusCode rc{}; if (!usable(t, rc) || injected(t, rc)) return rc;
    if (t->type == TransactionOptions::TransactionType::READ_ONLY) return StatusCode::ERR_ILLEGAL_OPERATION;
    auto& st = s->s; touch(t, st);
    if (t->type == TransactionOptions::TransactionType::LONG && !t->wp.count(st.get())) return engine_abort(t, ErrorCode::CC_LTX_WRITE_ERROR, StatusCode::ERR_WRITE_WITHOUT_WRITE_PRESERVE, st.get(), &ks);
    if (occ_blocked_by_wp(t, st.get())) return engine_abort(t, ErrorCode::CC_OCC_WP_VERIFY_ERROR, StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE, st.get(), &ks);
    std::string cur; rc = read(t, st, ks, cur); if (rc != StatusCode::OK) return rc;
    t->writes[st.get()][ks] = LW{1, {}, {}}; return StatusCode::OK;
}
StatusCode content_scan(TransactionHandle h, StorageHandle s, Slice b, EndPointKind bk, Slice e, EndPointKind ek, IteratorHandle* out, std::size_t limit, bool rev) {
    auto bs = b.to_string(), es = e.to_string();
    Call c(h); sim::NoPreempt n; auto* t = h->tx; StatusCode rc{}; if (!usable(t, rc) || injected(t, rc)) return rc;
    auto& st = s->s; touch(t, st);
    if (occ_blocked_by_wp(t, st.get())) return engine_abort(t, ErrorCode::CC_OCC_WP_VERIFY_ERROR, StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE, st.get(), &bs);
    auto* it = new IteratorStub(); it->h = h; it->r = std::make_shared<ScanRec>(); auto& r = *it->r; r.s = st.get(); r.keep = st; r.b = bs; r.e = es; r.bk = bk; r.ek = ek; r.rev = rev; r.ts = t->type == TransactionOptions::TransactionType::SHORT ? S->ts : t->snap;
    std::set<std::string> ks; for (auto& [k, v] : st->m) ks.insert(k); if (auto w = t->writes.find(st.get()); w != t->writes.end()) for (auto& [k, v] : w->second) ks.insert(k);
    if (t->type == TransactionOptions::TransactionType::SHORT && opt.concurrent_op > 0 && !limit) for (auto* o : S->txs) if (o != t && o->state <= 1) if (auto w = o->writes.find(st.get()); w != o->writes.end()) for (auto& [k, v] : w->second) ks.insert(k);
    for (auto& k : ks) if (after_begin(*st, k, bs, bk) && before_end(k, es, ek)) it->keys.push_back(k);
    if (rev) std::reverse(it->keys.begin(), it->keys.end());
    if (limit) { // keep the first keys that are visible now
        std::vector<std::string> kk; for (auto& k : it->keys) { auto* v = latest(*st, k, view_ts(t)); bool vis = v && v->present; if (auto w = t->writes.find(st.get()); w != t->writes.end()) if (auto q = w->second.find(k); q != w->second.end()) vis = q->second.kind == 0; kk.push_back(k); if (vis && --limit == 0) { it->limited = true; break; } }
        it->keys = std::move(kk);
    }
    if (t->type != TransactionOptions::TransactionType::READ_ONLY) t->scans.push_back(it->r);
    ++h->iterators; *out = it; return StatusCode::OK;
}
StatusCode iterator_next(IteratorHandle it) {
    Call c(it->h, true); sim::NoPreempt n; auto* t = it->h->tx; StatusCode rc{}; if (!usable(t, rc) || injected(t, rc)) return rc;
    it->kb.reset(); it->vb.reset(); it->at = it->phantom = false;
    auto& st = it->r->keep; touch(t, st);
    while (it->pos < it->keys.size()) {
        auto& k = it->keys[it->pos++]; it->r->reached = k; it->r->any = true;
        std::string v; rc = read(t, st, k, v, true);
        if (rc == StatusCode::NOT_FOUND) {
            // an entry that another transaction is inserting: the iterator stops there, reading it is refused
            if (t->type != TransactionOptions::TransactionType::SHORT || opt.concurrent_op <= 0 || latest(*st, k) || !others_write(t, st.get(), k) || !sim::fault(sim::f_kvs_conflict, opt.concurrent_op)) continue;
            sim::probe("kvs_scan_met_insert"); it->kb = std::make_unique<std::string>(k); it->at = it->phantom = true; return StatusCode::OK;
        }
        it->kb = std::make_unique<std::string>(k); it->vb = std::make_unique<std::string>(std::move(v)); it->at = true; return StatusCode::OK;
    }
    if (!it->limited) it->r->exhausted = true; return StatusCode::NOT_FOUND;
}
// an entry met while it was being inserted: committed, still uncommitted or gone by now
static StatusCode settle(IteratorHandle it) {
    if (!it->phantom) return StatusCode::OK;
    auto* t = it->h->tx; std::string v; auto rc = read(t, it->r->keep, *it->kb, v, true);
    if (rc == StatusCode::OK) { it->vb = std::make_unique<std::string>(std::move(v)); it->phantom = false; return rc; }
    if (others_write(t, it->r->s, *it->kb)) { set_recent(t, ErrorCode::OK, "concurrent insert", it->r->s, it->kb.get()); return StatusCode::CONCURRENT_OPERATION; }
    return StatusCode::NOT_FOUND;
}
StatusCode iterator_get_key(IteratorHandle it, Slice* o) { Call c(it->h, true); sim::NoPreempt n; StatusCode rc{}; if (!usable(it->h->tx, rc)) return rc; if (!it->at) { misuse("key of an iterator that is not on an entry"); return StatusCode::ERR_INVALID_STATE; } if (rc = settle(it); rc != StatusCode::OK) return rc; *o = Slice(it->kb->data(), it->kb->size()); return StatusCode::OK; }
StatusCode iterator_get_value(IteratorHandle it, Slice* o) { Call c(it->h, true); sim::NoPreempt n; StatusCode rc{}; if (!usable(it->h->tx, rc)) return rc; if (!it->at) { misuse("value of an iterator that is not on an entry"); return StatusCode::ERR_INVALID_STATE; } if (rc = settle(it); rc != StatusCode::OK) return rc; *o = Slice(it->vb->data(), it->vb->size()); return StatusCode::OK; }
StatusCode iterator_dispose(IteratorHandle it) { sim::NoPreempt n; --it->h->iterators; delete it; return StatusCode::OK; }

StatusCode sequence_create(DatabaseHandle, SequenceId* o) { sim::yield(); sim::NoPreempt n; Op p; p.kind = 5; p.a = S->next_seq; *o = p.a; log_now({p}); return StatusCode::OK; }
StatusCode sequence_put(TransactionHandle h, SequenceId i, SequenceVersion v, SequenceValue x) {
    Call c(h); sim::NoPreempt n; auto* t = h->tx; StatusCode rc{}; if (!usable(t, rc)) return rc; if (!S->seqs.count(i)) return StatusCode::NOT_FOUND;
    auto q = t->seqs.find(i); if (q == t->seqs.end() || q->second.ver <= v) t->seqs[i] = Seq{v, x}; return StatusCode::OK;
}
StatusCode sequence_get(DatabaseHandle, SequenceId i, SequenceVersion* v, SequenceValue* x) { sim::yield(); sim::NoPreempt n; auto q = S->seqs.find(i); if (q == S->seqs.end()) return StatusCode::NOT_FOUND; *v = q->second.ver; *x = q->second.val; return StatusCode::OK; }
StatusCode sequence_delete(DatabaseHandle, SequenceId i) { sim::yield(); sim::NoPreempt n; if (!S->seqs.count(i)) return StatusCode::NOT_FOUND; Op p; p.kind = 7; p.a = i; log_now({p}); return StatusCode::OK; }
} // namespace sharksfin
