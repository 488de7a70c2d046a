// The key-value service and the SQL service of one server, started as the server starts them, on the same tables:
// one answer per request, the same rows on both sides, serial equivalence of everything committed, handles that name one transaction.
#include "engine.h"
#include <jogasaki/api/kvsservice/resource.h>
#include <jogasaki/api/kvsservice/service.h>
#include <jogasaki/api/resource/bridge.h>
#include <jogasaki/api/service/bridge.h>
#include <tateyama/framework/environment.h>
#include <tateyama/framework/transactional_kvs_resource.h>
#include <tateyama/session/resource.h>
#include <tateyama/diagnostic/resource/diagnostic_resource.h>
#include <tateyama/proto/kvs/request.pb.h>
#include <tateyama/proto/kvs/response.pb.h>
#include <tateyama/proto/kvs/data.pb.h>
using namespace eng;
namespace {
namespace kp = tateyama::proto::kvs;
using KReq = kp::request::Request; using KRes = kp::response::Response; using PV = kp::data::Value; using PR = kp::data::Record;
namespace ks { constexpr int ok = 0, aborted = 107, retry = 108, inactive = 115, invalid = 103; }
constexpr int n_tables = 2;

// ---- values ----
enum K { i4, i8, r4, r8, dec, vc, ch, date, tod, tp, boo, k_types };
struct Col { int k{}; int n{}, sc{}; bool notnull{}, key{}; std::string name, sql; };
struct Table { std::vector<Col> c; std::vector<std::size_t> keys; bool kvs_only{}; };   // booleans cannot be SQL parameters
Table T[n_tables];
std::string dec_text(bool neg, unsigned __int128 c, int e) {
    if (c == 0) return "0"; while (c % 10 == 0) { c /= 10; ++e; }
    std::string s; while (c) { s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(c % 10))); c /= 10; }
    return (neg ? "-" : "") + s + "e" + std::to_string(e);
}
std::string dec_text(std::string const& be, int e) {    // two's complement, big endian
    if (be.empty()) return "0"; bool neg = (be[0] & 0x80) != 0; unsigned __int128 c = neg ? ~static_cast<unsigned __int128>(0) : 0;
    for (unsigned char x : be) c = (c << 8U) | x;
    return dec_text(neg, neg ? ~c + 1 : c, e);
}
std::string be_of(long long v) { std::string s(8, 0); for (int i = 7; i >= 0; --i, v >>= 8) s[i] = static_cast<char>(v & 0xff); while (s.size() > 1 && ((s[0] == 0 && !(s[1] & 0x80)) || (s[0] == -1 && (s[1] & 0x80)))) s.erase(0, 1); return s; }
Val text(std::string s) { Val v; v.k = 4; v.s = std::move(s); return v; }
// a value as clients send it: what (i, x) means depends on the column
struct V { bool null{}; long long i{}; int x{}; std::string s; double d{}; };
V gen(Col const& c, sim::Rng& r, bool key, u64 dom) {
    V v; if (!key && !c.notnull && r.chance(0.2)) { v.null = true; return v; }
    auto n = static_cast<long long>(r.below(dom)) - (r.chance(0.3) ? static_cast<long long>(dom) / 2 : 0);
    switch (c.k) {
        case i4: v.i = r.chance(0.05) ? (r.chance(0.5) ? INT32_MIN : INT32_MAX) : n; break;
        case i8: v.i = r.chance(0.05) ? (r.chance(0.5) ? INT64_MIN : INT64_MAX) : n; break;
        case r4: v.d = static_cast<float>(n) / 4; break;
        case r8: v.d = static_cast<double>(n) / 8 + (r.chance(0.1) ? 1e300 : 0); break;
        case dec: v.i = n; v.x = -static_cast<int>(r.below(static_cast<u64>(c.sc) + 1)); { long long lim = 1; for (int q = 0; q < c.n - c.sc - v.x; ++q) lim *= 10; v.i %= lim; } if (r.chance(0.1)) { v.i = 9; for (int q = 1; q < c.n; ++q) v.i = v.i * 10 + 9; v.x = -c.sc; if (r.chance(0.5)) v.i = -v.i; } break;
        case vc: case ch: { auto l = r.chance(0.15) ? static_cast<u64>(c.n) : r.below(3); for (u64 q = 0; q < l; ++q) v.s += static_cast<char>('a' + r.below(key ? 3 : 26)); break; }
        case date: v.i = n + 18000; break;
        case tod: v.i = (n + static_cast<long long>(dom)) * 3'600'000'000'001LL % 86'400'000'000'000LL; break;
        case tp: v.i = n * 86411 + 1'600'000'000; v.x = static_cast<int>(r.below(3)) * 333'333'333; if (r.chance(0.1)) v.i = -v.i; break;
        case boo: v.i = n & 1; break;
    }
    return v;
}
Val canon(Col const& c, V const& v) {
    if (v.null) return Val::null();
    switch (c.k) {
        case i4: case i8: case boo: return Val::of(v.i);
        case r4: case r8: { Val o; o.k = 2; o.d = v.d; return o; }
        case dec: return text(dec_text(v.i < 0, v.i < 0 ? static_cast<unsigned __int128>(-static_cast<__int128>(v.i)) : static_cast<unsigned __int128>(v.i), v.x));
        case vc: return Val::str(v.s);
        case ch: { auto s = v.s; s.resize(std::max<std::size_t>(s.size(), static_cast<std::size_t>(c.n)), ' '); return Val::str(s); }
        case date: return text("d" + std::to_string(v.i));
        case tod: return text("t" + std::to_string(v.i));
        default: return text("p" + std::to_string(v.i) + "." + std::to_string(v.x));
    }
}
void to_kvs(Col const& c, V const& v, PV* p) {
    if (v.null) return;
    switch (c.k) {
        case i4: p->set_int4_value(static_cast<int>(v.i)); break; case i8: p->set_int8_value(v.i); break;
        case r4: p->set_float4_value(static_cast<float>(v.d)); break; case r8: p->set_float8_value(v.d); break;
        case dec: p->mutable_decimal_value()->set_unscaled_value(be_of(v.i)); p->mutable_decimal_value()->set_exponent(v.x); break;
        case vc: case ch: p->set_character_value(v.s); break;
        case date: p->set_date_value(v.i); break; case tod: p->set_time_of_day_value(static_cast<u64>(v.i)); break;
        case tp: p->mutable_time_point_value()->set_offset_seconds(v.i); p->mutable_time_point_value()->set_nano_adjustment(static_cast<unsigned>(v.x)); break;
        case boo: p->set_boolean_value(v.i != 0); break;
    }
}
Val from_kvs(Col const& c, PV const& p, std::string& why) {
    V v;
    auto want = [&](PV::ValueCase k) { if (p.value_case() == k) return true; why = "column " + c.name + " has a value of kind " + std::to_string(p.value_case()); return false; };
    if (p.value_case() == PV::VALUE_NOT_SET) return Val::null();
    switch (c.k) {
        case i4: if (want(PV::kInt4Value)) v.i = p.int4_value(); break; case i8: if (want(PV::kInt8Value)) v.i = p.int8_value(); break;
        case r4: if (want(PV::kFloat4Value)) v.d = p.float4_value(); break; case r8: if (want(PV::kFloat8Value)) v.d = p.float8_value(); break;
        case dec: if (want(PV::kDecimalValue)) return text(dec_text(p.decimal_value().unscaled_value(), p.decimal_value().exponent())); break;
        case vc: case ch: if (want(PV::kCharacterValue)) v.s = p.character_value(); break;
        case date: if (want(PV::kDateValue)) v.i = p.date_value(); break; case tod: if (want(PV::kTimeOfDayValue)) v.i = static_cast<long long>(p.time_of_day_value()); break;
        case tp: if (want(PV::kTimePointValue)) { v.i = p.time_point_value().offset_seconds(); v.x = static_cast<int>(p.time_point_value().nano_adjustment()); } break;
        case boo: if (want(PV::kBooleanValue)) v.i = p.boolean_value(); break;
    }
    return canon(c, v);
}
template <class P> void to_sql(Col const& c, V const& v, P* p) {
    if (v.null) return;
    switch (c.k) {
        case i4: p->set_int4_value(static_cast<int>(v.i)); break; case i8: p->set_int8_value(v.i); break;
        case r4: p->set_float4_value(static_cast<float>(v.d)); break; case r8: p->set_float8_value(v.d); break;
        case dec: p->mutable_decimal_value()->set_unscaled_value(be_of(v.i)); p->mutable_decimal_value()->set_exponent(v.x); break;
        case vc: case ch: p->set_character_value(v.s); break;
        case date: p->set_date_value(v.i); break; case tod: p->set_time_of_day_value(static_cast<u64>(v.i)); break;
        case tp: p->mutable_time_point_value()->set_offset_seconds(v.i); p->mutable_time_point_value()->set_nano_adjustment(static_cast<unsigned>(v.x)); break;
        case boo: p->set_boolean_value(v.i != 0); break;
    }
}
pr::common::AtomType atom(Col const& c) {
    using namespace pr::common;
    switch (c.k) { case i4: return INT4; case i8: return INT8; case r4: return FLOAT4; case r8: return FLOAT8; case dec: return DECIMAL; case vc: case ch: return CHARACTER; case date: return DATE; case tod: return TIME_OF_DAY; case tp: return TIME_POINT; default: return BOOLEAN; }
}
Val from_sql(Col const& c, Val v) {   // decimals come as sign:high:low e exponent
    if (c.k == dec && v.k == 1) return text(dec_text(v.i < 0, v.i < 0 ? static_cast<unsigned __int128>(-static_cast<__int128>(v.i)) : static_cast<unsigned __int128>(v.i), 0));
    if (c.k != dec || v.k != 4) return v;
    int sg = 0, e = 0; unsigned long long h = 0, l = 0; sscanf(v.s.c_str(), "%d:%llu:%llue%d", &sg, &h, &l, &e);
    return text(dec_text(sg < 0, (static_cast<unsigned __int128>(h) << 64U) | l, e));
}

// ---- operations and model ----
enum { put, put_absent, put_present, get, rem, rem_now, s_ins, s_replace, s_ignore, s_del, s_sel, s_all, s_upd };
bool is_write(int k) { return k != get && k != s_sel && k != s_all; }
struct Op { int kind{}, table{}; std::vector<V> row; Row key, full; std::size_t col{}; bool sent{}, done{}, ok{}, fuzzy{}; int code{}; long long count{}; std::vector<Row> rows; };
using State = std::map<Row, Row>;
std::string name(Op const& o) { static char const* n[] = {"PUT", "PUT IF_ABSENT", "PUT IF_PRESENT", "GET", "REMOVE", "REMOVE INSTANT", "INSERT", "INSERT OR REPLACE", "INSERT OR IGNORE", "DELETE", "SELECT", "SELECT all", "UPDATE"}; return std::string(n[o.kind]) + " t" + std::to_string(o.table) + " " + show(o.kind == get || o.kind == rem || o.kind == rem_now || o.kind == s_sel || o.kind == s_del ? o.key : o.full); }
std::string step(State& st, Op const& o, bool check) {
    auto i = st.find(o.key); bool there = i != st.end(); long long n = 0; std::vector<Row> rows; bool dup = false;
    switch (o.kind) {
        case put: case s_replace: st[o.key] = o.full; n = 1; break;
        case put_absent: case s_ignore: if (!there) { st[o.key] = o.full; n = 1; } break;
        case put_present: if (there) { i->second = o.full; n = 1; } break;
        case s_ins: if (there) dup = true; else { st[o.key] = o.full; n = 1; } break;
        case rem: case s_del: if (there) { st.erase(i); n = 1; } break;
        case rem_now: if (there) st.erase(i); n = o.count; break;
        case s_upd: if (there) { i->second[o.col] = o.full[o.col]; n = 1; } break;
        case get: case s_sel: if (there) rows.push_back(i->second); break;
        case s_all: for (auto& [k, r] : st) rows.push_back(r); break;
    }
    if (!check) return "";
    if (dup) return "should have been refused: the key exists";
    if (is_write(o.kind)) return n == o.count ? "" : "answered " + std::to_string(o.count) + ", should be " + std::to_string(n);
    auto got = o.rows; std::sort(got.begin(), got.end()); std::sort(rows.begin(), rows.end());
    if (got == rows) return "";
    auto sh = [](std::vector<Row> const& v) { std::string s; for (auto& r : v) { s += eng::show(r); if (s.size() > 300) break; } return s.empty() ? std::string("(nothing)") : s; };
    return "returned " + sh(got) + " instead of " + sh(rows);
}
struct Rec { std::string id; bool kvs{}; int type{1}; std::vector<Op> op; bool commit_sent{}, acked{}, failed{}; };
std::vector<std::shared_ptr<Rec>> recs;
struct Conf { int clients, txs; u64 dom; bool faults, strict; double racing; } C;

// ---- the server ----
struct KResp : ts::response {
    std::string what, bytes; int n{}; bool done{}; KRes r;
    void session_id(std::size_t) override {}
    tateyama::status body(std::string_view b) override { sim::yield(); sim::NoPreempt g; if (done) sim::fail("second-reply", "request '%s': a second response", what.c_str()); done = true; ++n; bytes = std::string(b); if (!r.ParseFromString(bytes)) r.Clear(); return tateyama::status::ok; }
    tateyama::status body_head(std::string_view) override { return tateyama::status::ok; }
    void error(tateyama::proto::diagnostics::Record const&) override { sim::NoPreempt g; if (done) sim::fail("second-reply", "request '%s': an error after its response", what.c_str()); done = true; ++n; }
    tateyama::status acquire_channel(std::string_view, std::shared_ptr<ts::data_channel>&, std::size_t) override { return tateyama::status::unknown; }
    tateyama::status release_channel(ts::data_channel&) override { return tateyama::status::unknown; }
    bool check_cancel() const override { return false; }
    tateyama::status add_blob(std::unique_ptr<ts::blob_info>) override { return tateyama::status::unknown; }
};
namespace fw = tateyama::framework;
struct Server {
    fw::environment env; sharksfin::DatabaseHandle h{};
    std::shared_ptr<jogasaki::api::resource::bridge> rsc; std::shared_ptr<jogasaki::api::service::bridge> sql; std::shared_ptr<jogasaki::api::kvsservice::resource> krsc; std::shared_ptr<jogasaki::api::kvsservice::service> ksvc;
    std::vector<std::shared_ptr<KResp>> all;
    bool start(Engine& e) {
        auto& r = sim::cfg();
        {
            sim::NoPreempt np; env.c = std::make_shared<tateyama::api::configuration::whole>();
            auto& v = env.c->s["sql"].v; auto b = [&](char const* n, double p) { v[n] = r.chance(p) ? "true" : "false"; }; auto num = [&](char const* n, u64 x) { v[n] = std::to_string(x); };
            num("thread_pool_size", 1 + r.below(4)); num("default_partitions", 1 + r.below(3)); num("scan_block_size", 1 + r.below(5)); num("scan_default_parallel", 1 + r.below(3)); num("lightweight_job_level", r.chance(0.5) ? 0 : 100);
            b("dev_inplace_teardown", 0.5); b("dev_inplace_dag_schedule", 0.5); b("enable_hybrid_scheduler", 0.7); b("stealing_enabled", 0.7); b("dev_direct_commit_callback", 0.3); b("dev_enable_session_store", 0.5); b("dev_enable_maintenance_thread", 0.3);
            v["dev_support_boolean"] = "true"; v["commit_response"] = r.chance(0.8) ? "STORED" : "ACCEPTED";
        }
        if (sharksfin::database_open({}, nullptr, &h) != sharksfin::StatusCode::OK) sim::fail("open", "store does not open");
        auto kvs = std::make_shared<fw::transactional_kvs_resource>(); kvs->p = h;
        rsc = std::make_shared<jogasaki::api::resource::bridge>(); krsc = std::make_shared<jogasaki::api::kvsservice::resource>(); sql = std::make_shared<jogasaki::api::service::bridge>(); ksvc = std::make_shared<jogasaki::api::kvsservice::service>();
        env.r.add(kvs); env.r.add(std::make_shared<tateyama::session::session_resource>()); env.r.add(std::make_shared<tateyama::diagnostic::resource::diagnostic_resource>()); env.r.add(rsc); env.r.add(krsc); env.s.add(sql); env.s.add(ksvc);
        for (auto& x : env.r.v) if (!x->setup(env)) return false; for (auto& x : env.s.v) if (!x->setup(env)) return false;
        for (auto& x : env.r.v) if (!x->start(env)) return false; for (auto& x : env.s.v) if (!x->start(env)) return false;
        e.front = [this](std::shared_ptr<ts::request> q, std::shared_ptr<ts::response> p) { (*sql)(std::move(q), std::move(p)); };
        return true;
    }
    void stop(Engine& e) {
        bool ok = true;
        for (auto i = env.s.v.rbegin(); i != env.s.v.rend(); ++i) ok &= (*i)->shutdown(env);
        for (auto i = env.r.v.rbegin(); i != env.r.v.rend(); ++i) ok &= (*i)->shutdown(env);
        if (!ok) sim::fail("stop", "a component did not shut down");
        if (kv::open_transactions()) sim::fail("open-at-stop", "%d transactions are not given back to the store when it closes", kv::open_transactions());
        sharksfin::database_close(h);
        e.front = {}; env.s.v.clear(); ksvc.reset(); sql.reset(); while (!env.r.v.empty()) env.r.v.pop_back();
        krsc.reset(); rsc.reset();
    }
    std::shared_ptr<KResp> kvs(std::size_t session, KReq const& q, std::string what, std::string const* raw = nullptr) {
        auto m = std::make_shared<Req>(); auto p = std::make_shared<KResp>();
        { sim::NoPreempt g; m->s = std::make_shared<Session>(session); if (raw) m->bytes = *raw; else q.SerializeToString(&m->bytes); p->what = what; all.push_back(p); sim::ev("kvs %s", what.c_str()); }
        try { (*ksvc)(m, p); } catch (std::exception const& x) { sim::fail("exception-escapes", "request '%s': %s", what.c_str(), x.what()); }
        sim::NoPreempt g;
        if (p->n != 1) sim::fail("reply-count", "request '%s' got %d answers", what.c_str(), p->n);
        return p;
    }
};
// the answer in terms of (code, count, rows)
struct Ans { std::shared_ptr<KResp> p; int code{-1}; std::string detail; long long count{}; PR const* rec{}; int recs{}; bool none{}; };
Ans answer(KResp& p) {
    Ans a; auto& r = p.r;
    auto e = [&](kp::response::Error const& x) { a.code = x.code(); a.detail = x.detail(); if (!a.code) a.code = -5; };
    switch (r.command_case()) {
        case KRes::kBegin: if (r.begin().has_error()) e(r.begin().error()); else if (r.begin().has_success()) a.code = 0; break;
        case KRes::kCommit: if (r.commit().has_error()) e(r.commit().error()); else if (r.commit().has_success()) a.code = 0; break;
        case KRes::kRollback: if (r.rollback().has_error()) e(r.rollback().error()); else if (r.rollback().has_success()) a.code = 0; break;
        case KRes::kPut: if (r.put().has_error()) e(r.put().error()); else if (r.put().has_success()) { a.code = 0; a.count = r.put().success().written(); } break;
        case KRes::kRemove: if (r.remove().has_error()) e(r.remove().error()); else if (r.remove().has_success()) { a.code = 0; a.count = r.remove().success().removed(); } break;
        case KRes::kGet: if (r.get().has_error()) e(r.get().error()); else if (r.get().has_success()) { a.code = 0; a.recs = r.get().success().records_size(); if (a.recs) a.rec = &r.get().success().records(0); } break;
        case KRes::kGetErrorInfo: if (r.get_error_info().has_error()) e(r.get_error_info().error()); else a.code = 0; break;
        case KRes::kDisposeTransaction: if (r.dispose_transaction().has_error()) e(r.dispose_transaction().error()); else if (r.dispose_transaction().has_success()) a.code = 0; break;
        default: a.none = true; break;
    }
    return a;
}
Op random_op(bool kvs, std::set<std::pair<int, Row>>* distinct) {
    auto& r = sim::wl(); Op o; o.table = static_cast<int>(r.below(n_tables)); if (!kvs && T[o.table].kvs_only) o.table = 0; auto& t = T[o.table];
    if (kvs) { static int const w[] = {put, put, put_absent, put_present, get, get, get, rem, rem_now}; o.kind = w[r.below(9)]; }
    else { static int const w[] = {s_ins, s_ins, s_replace, s_ignore, s_del, s_sel, s_sel, s_all, s_upd}; o.kind = w[r.below(9)]; }
    for (int tries = 0;; ++tries) {
        o.row.clear(); o.key.clear(); o.full.clear();
        for (auto& c : t.c) { o.row.push_back(gen(c, r, c.key, c.key ? C.dom : 30)); o.full.push_back(canon(c, o.row.back())); }
        for (auto k : t.keys) o.key.push_back(o.full[k]);
        if (!distinct || distinct->insert({o.table, o.key}).second) break;
        if (tries > 50) { o.table = -1; return o; }
    }
    std::vector<std::size_t> nk; for (std::size_t i = 0; i < t.c.size(); ++i) if (!t.c[i].key) nk.push_back(i);
    if (o.kind == s_upd) { if (nk.empty()) o.kind = s_sel; else o.col = nk[r.below(nk.size())]; }
    o.fuzzy = distinct != nullptr; if (distinct && o.kind == s_all) o.kind = s_sel;
    return o;
}
void set_record(Op const& o, PR* p, bool keys_only) {
    auto& t = T[o.table]; std::vector<std::size_t> ix; for (std::size_t i = 0; i < t.c.size(); ++i) if (!keys_only || t.c[i].key) ix.push_back(i);
    if (sim::wl().chance(0.3)) std::reverse(ix.begin(), ix.end());
    for (auto i : ix) { p->add_names(t.c[i].name); to_kvs(t.c[i], o.row[i], p->add_values()); }
}
KReq request(u64 h, Op const& o) {
    sim::NoPreempt g; KReq q; auto tn = "t" + std::to_string(o.table); auto& r = sim::wl();
    if (o.kind == get) { auto* x = q.mutable_get(); x->mutable_transaction_handle()->set_system_id(h); x->mutable_index()->set_table_name(tn); set_record(o, x->add_keys(), true); }
    else if (o.kind == rem || o.kind == rem_now) { auto* x = q.mutable_remove(); x->mutable_transaction_handle()->set_system_id(h); x->mutable_index()->set_table_name(tn); set_record(o, x->add_keys(), true); x->set_type(o.kind == rem_now ? kp::request::Remove::INSTANT : r.chance(0.5) ? kp::request::Remove::COUNTING : kp::request::Remove::REMOVE_TYPE_UNSPECIFIED); }
    else { auto* x = q.mutable_put(); x->mutable_transaction_handle()->set_system_id(h); x->mutable_index()->set_table_name(tn); set_record(o, x->add_records(), false); x->set_type(o.kind == put_absent ? kp::request::Put::IF_ABSENT : o.kind == put_present ? kp::request::Put::IF_PRESENT : r.chance(0.5) ? kp::request::Put::OVERWRITE : kp::request::Put::PUT_TYPE_UNSPECIFIED); }
    return q;
}
void probe_code(char const* w, int c) { char nm[64]; snprintf(nm, sizeof nm, "%s_%d", w, c); sim::probe(strdup(nm)); }

struct KClient {
    Server& s; std::size_t no; std::vector<u64> stale;
    Ans call(KReq const& q, std::string what) { auto p = s.kvs(no, q, std::move(what)); sim::NoPreempt g; auto a = answer(*p); a.p = p; if (a.code) sim::ev("answer %d %s", a.code, a.detail.c_str()); return a; }
    static KReq h_req(int what, u64 h, bool autod = false) { sim::NoPreempt g; KReq q; switch (what) { case 0: q.mutable_commit()->mutable_transaction_handle()->set_system_id(h); if (autod) q.mutable_commit()->set_auto_dispose(true); break; case 1: q.mutable_rollback()->mutable_transaction_handle()->set_system_id(h); break; case 2: q.mutable_dispose_transaction()->mutable_transaction_handle()->set_system_id(h); break; default: q.mutable_get_error_info()->mutable_transaction_handle()->set_system_id(h); } return q; }
    // runs one operation; the record keeps the answer
    void run(u64 h, std::shared_ptr<Rec> const& rec, std::size_t i) {
        KReq q; std::string nm; { sim::NoPreempt g; auto& o = rec->op[i]; o.sent = true; q = request(h, o); nm = name(o) + " in " + rec->id; }
        auto p = s.kvs(no, q, nm);
        sim::NoPreempt g; auto& o = rec->op[i]; auto a = answer(*p); o.done = true; o.ok = a.code == 0; o.code = a.code; o.count = a.count;
        if (a.none) sim::fail("wrong-answer", "request '%s' was answered with something else (%zu bytes)", nm.c_str(), p->bytes.size());
        if (!o.ok) { probe_code("kvs_err", a.code); sim::ev("answer %d %s", a.code, a.detail.c_str()); if (C.strict) sim::fail("refused", "'%s' failed without a reason: %d %s", nm.c_str(), a.code, a.detail.c_str()); return; }
        sim::probe(o.kind == get ? a.recs ? "kvs_got" : "kvs_got_nothing" : o.kind <= put_present ? "kvs_put" : "kvs_removed");
        if (a.recs > 1) sim::fail("wrong-answer", "'%s' returned %d records", nm.c_str(), a.recs);
        if (a.rec) {
            auto& t = T[o.table]; Row r(t.c.size()); std::vector<bool> seen(t.c.size());
            if (a.rec->names_size() != a.rec->values_size() || static_cast<std::size_t>(a.rec->names_size()) != t.c.size()) sim::fail("wrong-answer", "'%s' returned %d names and %d values, the table has %zu columns", nm.c_str(), a.rec->names_size(), a.rec->values_size(), t.c.size());
            for (int k = 0; k < a.rec->names_size(); ++k) { std::string why; std::size_t c = 0; while (c < t.c.size() && t.c[c].name != a.rec->names(k)) ++c; if (c == t.c.size() || seen[c]) sim::fail("wrong-answer", "'%s' returned column '%s'", nm.c_str(), a.rec->names(k).c_str()); seen[c] = true; r[c] = from_kvs(t.c[c], a.rec->values(k), why); if (!why.empty()) sim::fail("wrong-answer", "'%s': %s", nm.c_str(), why.c_str()); }
            o.rows = {r};
        }
    }
    u64 begin(std::shared_ptr<Rec>& rec) {
        KReq q; { sim::NoPreempt g; q.mutable_begin(); if (sim::wl().chance(0.5)) q.mutable_begin()->mutable_transaction_option()->set_type(kp::transaction::SHORT); }
        auto a = call(q, "begin");
        if (a.code) { if (!C.faults) sim::fail("begin", "begin failed: %d %s", a.code, a.detail.c_str()); sim::probe("kvs_begin_failed"); return 0; }
        sim::NoPreempt g; rec = std::make_shared<Rec>(); rec->kvs = true; rec->id = kv::last_begun(); rec->op.reserve(32); recs.push_back(rec); auto h = a.p->r.begin().success().transaction_handle().system_id();
        sim::ev("kvs begin %s", rec->id.c_str()); return h;
    }
    int commit(u64 h, std::shared_ptr<Rec> const& rec, bool autod) {
        Q((rec->commit_sent = true)); auto q = h_req(0, h, autod); auto p = s.kvs(no, q, "commit " + rec->id);
        sim::NoPreempt g; auto a = answer(*p); if (a.none) sim::fail("wrong-answer", "commit was answered with something else");
        int oc = kv::outcome(rec->id, nullptr);
        if (a.code == 0) { rec->acked = true; if (oc != 1) sim::fail("false-commit", "commit of %s was acknowledged, its outcome is %d", rec->id.c_str(), oc); sim::probe("kvs_committed"); }
        else { probe_code("kvs_commit_err", a.code); rec->failed = true; if (C.strict) sim::fail("commit-refused", "commit of %s failed without a reason: %d %s", rec->id.c_str(), a.code, a.detail.c_str()); }
        return a.code;
    }
    void expect_refused(KReq const& q, char const* what) { auto a = call(q, what); if (a.code == 0) sim::fail("accepted", "a request with %s was accepted", what); if (a.code == -1 && !a.none) sim::fail("wrong-answer", "a request with %s got an empty answer", what); probe_code("kvs_refused", a.code); }
    // requests that must be refused and change nothing
    void malformed(u64 h) {
        auto& r = sim::wl(); KReq q; char const* what = "";
        {
            sim::NoPreempt g; Op o = random_op(true, nullptr); o.kind = r.chance(0.5) ? put : r.chance(0.5) ? get : rem; q = request(h, o); auto& t = T[o.table];
            auto* rec = o.kind == put ? q.mutable_put()->mutable_records(0) : o.kind == get ? q.mutable_get()->mutable_keys(0) : q.mutable_remove()->mutable_keys(0);
            auto set_table = [&](std::string n) { if (o.kind == put) q.mutable_put()->mutable_index()->set_table_name(n); else if (o.kind == get) q.mutable_get()->mutable_index()->set_table_name(n); else q.mutable_remove()->mutable_index()->set_table_name(n); };
            switch (r.below(14)) {
                case 0: what = "an unknown table"; set_table("nothere"); break;
                case 1: what = "no table"; set_table(""); break;
                case 2: what = "an unknown column"; rec->add_names("zz"); rec->add_values()->set_int4_value(1); break;
                case 3: what = "a duplicate column"; rec->add_names(rec->names(0)); *rec->add_values() = PV(rec->values(0)); break;
                case 4: what = "a missing column"; rec->mutable_names()->RemoveLast(); rec->mutable_values()->RemoveLast(); break;
                case 5: what = "more names than values"; rec->add_names("c0"); break;
                case 6: what = "a value of another type"; { auto i = r.below(static_cast<u64>(rec->names_size())); auto* v = rec->mutable_values(static_cast<int>(i)); auto k = v->value_case(); if (k == PV::kOctetValue) v->set_int4_value(1); else v->set_octet_value("x"); } break;
                case 7: what = "a null key"; for (int i = 0; i < rec->names_size(); ++i) for (auto k : t.keys) if (t.c[k].name == rec->names(i)) rec->mutable_values(i)->clear_value(); break;
                case 8: what = "two records"; if (o.kind == put) *q.mutable_put()->add_records() = PR(*rec); else if (o.kind == get) *q.mutable_get()->add_keys() = PR(*rec); else *q.mutable_remove()->add_keys() = PR(*rec); break;
                case 9: what = "no record"; if (o.kind == put) q.mutable_put()->clear_records(); else if (o.kind == get) q.mutable_get()->clear_keys(); else q.mutable_remove()->clear_keys(); break;
                case 10: { what = "an unknown transaction"; u64 bad = r.chance(0.5) ? 0 : r.next() | 1ULL << 63U; if (o.kind == put) q.mutable_put()->mutable_transaction_handle()->set_system_id(bad); else if (o.kind == get) q.mutable_get()->mutable_transaction_handle()->set_system_id(bad); else q.mutable_remove()->mutable_transaction_handle()->set_system_id(bad); break; }
                case 11: what = "an unknown operation type"; q = request(h, o); if (o.kind == get) { q.Clear(); q.mutable_commit()->mutable_transaction_handle()->set_system_id(h); q.mutable_commit()->set_notification_type(static_cast<kp::request::CommitStatus>(77)); } else if (o.kind == put) q.mutable_put()->set_type(static_cast<kp::request::Put::Type>(77)); else q.mutable_remove()->set_type(static_cast<kp::request::Remove::Type>(77)); break;
                case 12: { what = "an unsupported option"; q.Clear(); auto* b = q.mutable_begin()->mutable_transaction_option(); switch (r.below(7)) { case 0: b->set_type(kp::transaction::LONG); break; case 1: b->set_type(kp::transaction::READ_ONLY); break; case 2: b->set_label("x"); break; case 3: b->set_priority(kp::transaction::WAIT); break; case 4: b->set_modifies_definitions(true); break; case 5: b->set_type(static_cast<kp::transaction::Type>(77)); break; default: b->set_priority(static_cast<kp::transaction::Priority>(77)); } break; }
                default: {
                    // a value that does not fit
                    std::vector<std::pair<int, std::size_t>> fit; for (int i = 0; i < rec->names_size(); ++i) for (std::size_t c = 0; c < t.c.size(); ++c) if (t.c[c].name == rec->names(i) && (t.c[c].k == vc || t.c[c].k == ch || t.c[c].k == dec)) fit.emplace_back(i, c);
                    if (fit.empty() || o.kind != put) { what = "an unknown table"; set_table("nothere"); break; }
                    auto [i, c] = fit[r.below(fit.size())]; auto* v = rec->mutable_values(i);
                    if (t.c[c].k == dec) { long long x = 1; for (int k = 0; k < t.c[c].n; ++k) x *= 10; auto* d = v->mutable_decimal_value(); d->set_exponent(-t.c[c].sc);
                        switch (r.below(5)) {
                            case 0: what = "a decimal with too many fraction digits"; d->set_unscaled_value(be_of(r.chance(0.5) ? 7 : -7)); d->set_exponent(-t.c[c].sc - 1); break;
                            case 1: what = "a decimal of too many octets"; d->set_unscaled_value(std::string(1, r.chance(0.5) ? '\x01' : '\xfe') + std::string(16 + r.below(4), '\0') + "\1"); break;
                            case 2: what = "a decimal with a huge exponent"; d->set_unscaled_value(be_of(3)); d->set_exponent(static_cast<int>(40 + r.below(100))); break;
                            default: what = "a decimal out of range"; d->set_unscaled_value(be_of(r.chance(0.5) ? x : -x));
                        } }
                    else if (r.chance(0.3)) { what = "a string with a NUL character"; v->set_character_value(std::string("x\0", 2)); }
                    else { what = "a string that is too long"; v->set_character_value(std::string(static_cast<std::size_t>(t.c[c].n) + 1 + r.below(3), 'y')); }
                }
            }
        }
        expect_refused(q, what);
    }
    void transaction() {
        auto& r = sim::wl(); bool racy, autod, bad; int n, ending, race; u64 delay; std::vector<Op> ops;
        { sim::NoPreempt g; racy = r.chance(C.racing); n = static_cast<int>(1 + r.below(5)); ending = static_cast<int>(r.below(20)); race = static_cast<int>(r.below(6)); autod = r.chance(0.3); delay = r.below(40000); bad = r.chance(0.3);
            std::set<std::pair<int, Row>> d; for (int i = 0; i < n; ++i) { ops.push_back(random_op(true, racy ? &d : nullptr)); if (ops.back().table < 0) ops.pop_back(); } n = static_cast<int>(ops.size()); }
        if (r.chance(0.15)) { // nothing to do with a transaction
            KReq q; std::string raw; auto k = r.below(4); { sim::NoPreempt g; if (k == 1) q.mutable_scan(); else if (k == 2) q.mutable_batch(); else if (k == 3) raw = "\xff\xff\xff garbage"; }
            s.kvs(no, q, "stray request", k == 3 ? &raw : nullptr); sim::probe("kvs_stray");
        }
        if (!stale.empty() && r.chance(0.5)) { auto h = stale[r.below(stale.size())]; auto k = static_cast<int>(r.below(4)); auto q = h_req(k, h); if (k == 0 || r.chance(0.5)) { Op o; { sim::NoPreempt g; o = random_op(true, nullptr); q = request(h, o); } } expect_refused(q, "a handle that was given back"); sim::probe("kvs_stale_handle"); }
        std::shared_ptr<Rec> rec; auto h = begin(rec); if (!h) return;
        { sim::NoPreempt g; for (auto& o : ops) rec->op.push_back(o); }
        if (racy) {
            sim::probe("kvs_racing"); std::atomic<int> at{0}; vh::Threads th;
            auto worker = [&] { for (;;) { int i = at.fetch_add(1); if (i >= n) return; run(h, rec, static_cast<std::size_t>(i)); } };
            th.go(worker); if (r.chance(0.5)) th.go(worker);
            bool disposed = false;
            auto end = [&](int what) { auto q = h_req(what, h); call(q, what == 1 ? "rollback" : what == 2 ? "dispose" : "errinfo"); };
            switch (race) {
                case 0: worker(); commit(h, rec, autod); disposed = autod && Q(rec->acked); break;
                case 1: sim::sleep_ns(delay); commit(h, rec, autod); disposed = autod && Q(rec->acked); break;
                case 2: sim::sleep_ns(delay); end(1); break;
                case 3: sim::sleep_ns(delay); end(2); disposed = true; break;
                case 4: sim::sleep_ns(delay); th.go([&] { end(1); }); commit(h, rec, false); end(3); break;
                case 5: sim::sleep_ns(delay); th.go([&] { end(2); }); commit(h, rec, autod); disposed = true; break;
            }
            th.join();
            if (!disposed) end(2);
            Q((stale.push_back(h), 0)); return;
        }
        bool failed = false;
        for (std::size_t i = 0; i < ops.size(); ++i) {
            if (bad && r.chance(0.5)) malformed(h);
            run(h, rec, i); int c = Q(rec->op[i].code); if (c == ks::aborted || c == ks::retry || c == ks::inactive) { failed = true; break; }
        }
        bool disposed = false;
        if (ending < 3 && !(failed && ending == 2)) { if (ending == 1) { auto a = call(h_req(1, h), "rollback"); if (a.code) sim::fail("rollback", "rollback failed: %d", a.code); if (r.chance(0.3)) expect_refused(h_req(0, h), "a handle of an ended transaction"); } }
        else if (ending == 3 && sim::phase() == 0) { sim::probe("kvs_left_open"); return; }     // the client never comes back: the server gives it back when it stops
        else { disposed = commit(h, rec, autod) == 0 && autod; if (!disposed && r.chance(0.3)) { Op o; KReq q; { sim::NoPreempt g; o = random_op(true, nullptr); q = request(h, o); } expect_refused(q, "a handle of an ended transaction"); } }
        if (!disposed) { auto a = call(h_req(2, h), "dispose"); if (a.code) sim::fail("dispose", "dispose failed: %d", a.code); }
        Q((stale.push_back(h), 0));
    }
};
struct SClient {
    Client c; std::map<std::pair<int, int>, u64> prep;
    SClient(Engine& e, std::size_t no) : c(e, no) {}
    Request request(Tx const& t, Op const& o) {
        auto& tb = T[o.table]; auto n = "t" + std::to_string(o.table); std::string w; for (auto k : tb.keys) w += (w.empty() ? " WHERE " : " AND ") + tb.c[k].name + " = :p" + std::to_string(k);
        auto id = std::make_pair(o.kind * 100 + static_cast<int>(o.col), o.table); u64 ph = 0;
        if (auto i = prep.find(id); i != prep.end()) ph = i->second;
        else {
            std::string q, vals, cols; for (std::size_t i = 0; i < tb.c.size(); ++i) { vals += (i ? ", :p" : ":p") + std::to_string(i); cols += (i ? ", " : "") + tb.c[i].name; }
            switch (o.kind) {
                case s_ins: q = "INSERT INTO " + n + " VALUES (" + vals + ")"; break; case s_replace: q = "INSERT OR REPLACE INTO " + n + " VALUES (" + vals + ")"; break; case s_ignore: q = "INSERT OR IGNORE INTO " + n + " VALUES (" + vals + ")"; break;
                case s_del: q = "DELETE FROM " + n + w; break; case s_sel: q = "SELECT " + cols + " FROM " + n + w; break; case s_all: q = "SELECT " + cols + " FROM " + n; break; default: q = "UPDATE " + n + " SET " + tb.c[o.col].name + " = :p" + std::to_string(o.col) + w;
            }
            Request r; { sim::NoPreempt g; auto* p = r.mutable_prepare(); p->set_sql(q); for (std::size_t i = 0; i < tb.c.size(); ++i) { auto* x = p->add_placeholders(); x->set_name("p" + std::to_string(i)); x->set_atom_type(atom(tb.c[i])); } }
            if (!c.call(r, "prepare " + q)) sim::fail("prepare", "'%s' failed: %d %s", q.c_str(), c.last.code, c.last.detail.c_str());
            ph = Q(c.resp->r.prepare().prepared_statement_handle().handle()); prep[id] = ph;
        }
        sim::NoPreempt g; Request r; bool wr = is_write(o.kind);
        auto f = [&](auto* x) { x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(ph); x->mutable_prepared_statement_handle()->set_has_result_records(!wr); for (std::size_t i = 0; i < tb.c.size(); ++i) { auto* p = x->add_parameters(); p->set_name("p" + std::to_string(i)); to_sql(tb.c[i], o.row[i], p); } };
        if (wr) f(r.mutable_execute_prepared_statement()); else f(r.mutable_execute_prepared_query());
        return r;
    }
    // a statement whose evaluation fails must leave nothing behind for the next one
    void poison() {
        Request q; { sim::NoPreempt g; auto* p = q.mutable_prepare(); p->set_sql("SELECT " + T[0].c[0].name + " FROM t0 WHERE :a / :b = :a"); for (auto n : {"a", "b"}) { auto* x = p->add_placeholders(); x->set_name(n); x->set_atom_type(pr::common::DECIMAL); } }
        if (!c.call(q, "prepare a division by zero")) sim::fail("prepare", "the division failed to prepare: %d %s", c.last.code, c.last.detail.c_str());
        auto ph = Q(c.resp->r.prepare().prepared_statement_handle().handle()); auto t = c.begin(); if (!t) return;
        Request r; { sim::NoPreempt g; auto* x = r.mutable_execute_prepared_query(); x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(ph); x->mutable_prepared_statement_handle()->set_has_result_records(true); for (auto n : {"a", "b"}) { auto* p = x->add_parameters(); p->set_name(n); p->mutable_decimal_value()->set_unscaled_value(std::string(1, n[0] == 'a' && sim::wl().chance(0.5) ? '\3' : '\0')); p->mutable_decimal_value()->set_exponent(0); } }
        if (!c.call(r, "division by zero")) sim::probe("sql_arithmetic_error");
        c.rollback(t); c.dispose(t);
    }
    bool run(Tx const& t, std::shared_ptr<Rec> const& rec, std::size_t i) {
        auto q = request(t, rec->op[i]); std::string nm = name(rec->op[i]); Q((rec->op[i].sent = true));
        bool ok = c.call(q, nm + " in " + rec->id); sim::NoPreempt g; auto& o = rec->op[i]; o.done = true; o.ok = ok; o.code = c.last.code;
        if (!ok) { probe_code("sql_err", o.code); return false; }
        if (is_write(o.kind)) o.count = c.count(); else for (auto& r : c.resp->rows()) { if (r.size() != T[o.table].c.size()) sim::fail("wrong-answer", "'%s' returned %zu columns", nm.c_str(), r.size()); Row x; for (std::size_t k = 0; k < r.size(); ++k) x.push_back(from_sql(T[o.table].c[k], r[k])); o.rows.push_back(x); }
        return true;
    }
    void transaction() {
        if (sim::wl().chance(0.15)) poison();
        auto& r = sim::wl(); Opt o; int n; bool rb; std::vector<Op> ops; { sim::NoPreempt g; if (r.chance(0.15)) { o.type = 3; } else if (r.chance(0.1)) { o.type = 2; o.wp = {"t0", "t1"}; } n = static_cast<int>(1 + r.below(4)); rb = r.chance(0.15); for (int i = 0; i < n; ++i) { ops.push_back(random_op(false, nullptr)); auto& p = ops.back(); if (o.type == 3 && is_write(p.kind)) p.kind = r.chance(0.5) ? s_sel : s_all; } }
        auto t = c.begin(o); if (!t) { if (!C.faults) sim::fail("begin", "begin failed: %d %s", c.last.code, c.last.detail.c_str()); return; }
        auto rec = std::make_shared<Rec>(); { sim::NoPreempt g; rec->id = t.id; rec->type = o.type; rec->op = ops; recs.push_back(rec); }
        bool failed = false; for (std::size_t i = 0; i < ops.size() && !failed; ++i) { failed = !run(t, rec, i); if (failed && C.strict && rec->op[i].code != 4) sim::fail("refused", "'%s' failed without a reason: %d %s", name(rec->op[i]).c_str(), c.last.code, c.last.detail.c_str()); }
        if (failed || rb) c.rollback(t);
        else { Q((rec->commit_sent = true)); bool ok = c.commit(t); sim::NoPreempt g; rec->acked = ok; rec->failed = !ok; if (ok) sim::probe("sql_committed"); else { probe_code("sql_commit_err", c.last.code); if (C.strict) sim::fail("commit-refused", "commit of %s failed without a reason: %d %s", t.id.c_str(), c.last.code, c.last.detail.c_str()); } }
        c.dispose(t);
    }
};
void replay(State* st) {
    std::vector<std::pair<u64, std::shared_ptr<Rec>>> v; for (auto& r : recs) if (kv::outcome(r->id, nullptr) == 1) v.emplace_back(kv::commit_ts(r->id), r);
    auto wr = [](Rec const& r) { for (auto& o : r.op) if (o.done && o.ok && is_write(o.kind) && o.count) return 1; return 0; };
    std::stable_sort(v.begin(), v.end(), [&](auto& a, auto& b) { if (a.first != b.first) return a.first < b.first; return kv::commit_wrote(a.second->id) > kv::commit_wrote(b.second->id); });   // a reader that shares the position saw the writer
    std::vector<std::array<State, n_tables>> hist; hist.push_back({st[0], st[1]});
    for (auto& [ts, r] : v) {
        if (!r->commit_sent) sim::fail("phantom-commit", "%s committed though no commit was requested", r->id.c_str());
        bool snap = r->type == 3 || (r->type == 2 && !wr(*r));
        for (auto& o : r->op) {
            if (!o.done) { if (o.sent) sim::fail("commit-before-reply", "%s committed although '%s' was not answered", r->id.c_str(), name(o).c_str()); continue; }
            if (!o.ok) { if ((!r->kvs || o.code == ks::retry || o.code == ks::aborted)) sim::fail("commit-after-error", "%s committed although '%s' failed with %d", r->id.c_str(), name(o).c_str(), o.code); continue; }
            if (snap) continue;
            auto e = step(st[o.table], o, true); if (!e.empty()) sim::fail("wrong-result", "%s (position %llu): '%s' %s", r->id.c_str(), static_cast<unsigned long long>(ts), name(o).c_str(), e.c_str());
        }
        hist.push_back({st[0], st[1]});
    }
    for (auto& r : recs) {
        if (r->type == 1 || std::any_of(r->op.begin(), r->op.end(), [](Op const& o) { return o.done && o.ok && is_write(o.kind); }) || std::none_of(r->op.begin(), r->op.end(), [](Op const& o) { return o.done && o.ok; })) continue;
        bool any = false; std::string e; for (auto& h : hist) { bool all = true; for (auto& o : r->op) if (o.done && o.ok) { auto s = h[o.table]; e = step(s, o, true); if (!e.empty()) { all = false; break; } } if (all) { any = true; break; } }
        if (!any) sim::fail("torn-snapshot", "no committed state explains the results of snapshot transaction %s (last difference: %s)", r->id.c_str(), e.c_str()); sim::probe("snapshot_checked");
    }
}
void run() {
    recs.clear(); rules = {}; auto& g = sim::cfg();
    C.clients = static_cast<int>(1 + g.below(3)); C.txs = static_cast<int>(2 + g.below(5)); C.dom = 2 + g.below(6); C.faults = g.chance(0.4); C.racing = g.chance(0.5) ? 0 : 0.5;
    C.strict = g.chance(0.25); if (C.strict) { C.clients = 1; C.txs *= 2; C.racing = 0; C.faults = false; }
    kv::reset(); auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(200 + g.below(5000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.3) ? 0 : g.chance(0.5) ? 0.5 : 1; o.dispose_aborts = true;
    if (C.faults) { o.conflict = g.chance(0.5) ? 0.1 : 0; o.io_error = g.chance(0.3) ? 0.02 : 0; o.begin_fail = g.chance(0.3) ? 0.05 : 0; for (auto k : {sim::f_kvs_conflict, sim::f_kvs_io, sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k); }
    o.concurrent_op = !C.strict && g.chance(0.4) ? 0.3 : 0; if (o.concurrent_op > 0) sim::fault_enable(sim::f_kvs_conflict);
    for (auto k : {sim::f_durable_delay, sim::f_durable_stall, sim::f_callback_delay}) if (g.chance(0.5)) sim::fault_enable(k);
    if (g.chance(0.15)) sim::fault_enable(sim::f_stall); sim::set_stall_max(5'000'000);
    sim::set_step_limit(20000000, true);
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt g; return static_cast<std::size_t>(sim::wl().below(n)); };
    std::vector<std::string> ddl;
    {
        sim::NoPreempt np; auto& r = sim::cfg();
        for (int i = 0; i < n_tables; ++i) {
            auto& t = T[i]; t = {}; t.kvs_only = i == 1 && r.chance(0.3); auto nk = 1 + r.below(2), n = nk + r.below(5); std::string cols, pk;
            for (u64 c = 0; c < n; ++c) {
                Col x; x.k = static_cast<int>(r.below(t.kvs_only && c >= nk ? k_types : boo)); x.name = "c" + std::to_string(c); x.notnull = r.chance(0.3);
                switch (x.k) { case i4: x.sql = "INT"; break; case i8: x.sql = "BIGINT"; break; case r4: x.sql = "REAL"; break; case r8: x.sql = "DOUBLE"; break; case dec: x.n = static_cast<int>(r.chance(0.3) ? 12 + r.below(7) : 2 + r.below(8)); x.sc = static_cast<int>(r.below(std::min<u64>(4, static_cast<u64>(x.n)))); x.sql = "DECIMAL(" + std::to_string(x.n) + ", " + std::to_string(x.sc) + ")"; break; case vc: x.n = static_cast<int>(3 + r.below(20)); x.sql = "VARCHAR(" + std::to_string(x.n) + ")"; break; case ch: x.n = static_cast<int>(3 + r.below(6)); x.sql = "CHAR(" + std::to_string(x.n) + ")"; break; case date: x.sql = "DATE"; break; case tod: x.sql = "TIME"; break; case tp: x.sql = "TIMESTAMP"; break; case boo: x.sql = "BOOLEAN"; break; }
                t.c.push_back(x);
            }
            std::vector<std::size_t> ix; for (std::size_t c = 0; c < t.c.size(); ++c) ix.push_back(c); for (u64 k = 0; k < nk; ++k) { auto p = k + r.below((t.kvs_only ? nk : ix.size()) - k); std::swap(ix[k], ix[p]); t.keys.push_back(ix[k]); t.c[ix[k]].key = true; }
            for (auto& c : t.c) cols += (cols.empty() ? "" : ", ") + c.name + " " + c.sql + (c.key || c.notnull ? " NOT NULL" : ""); for (auto k : t.keys) pk += (pk.empty() ? "" : ", ") + t.c[k].name;
            ddl.push_back("CREATE TABLE t" + std::to_string(i) + " (" + cols + ", PRIMARY KEY (" + pk + "))");
        }
    }
    auto of = o; o.io_error = o.conflict = o.begin_fail = 0;
    Engine e; Server s; if (!s.start(e)) sim::fail("start", "the server did not start");
    { Client c(e, 99); for (auto& q : ddl) if (!c.ddl(q)) sim::fail("ddl", "'%s' failed: %d %s", q.c_str(), c.last.code, c.last.detail.c_str()); }
    o = of;
    int mode = static_cast<int>(sim::wl().below(3));
    vh::Threads th;
    for (int i = 0; i < C.clients; ++i) {
        bool mixed = C.clients == 1; bool kvs = mode == 2 ? i % 2 == 0 : i != C.clients - 1 || mode == 0;
        th.go([&, i, mixed, kvs] { KClient k{s, static_cast<std::size_t>(i + 1), {}}; SClient q(e, static_cast<std::size_t>(i + 20)); for (int n = 0; n < C.txs; ++n) if (mixed ? sim::wl().chance(0.6) : kvs) k.transaction(); else q.transaction(); sim::NoPreempt np; q.c.s->store.dispose(); });
    }
    if (!C.strict && sim::wl().chance(0.4)) th.go([&] { Client c(e, 60); for (int i = 0; i < 3; ++i) { if (!c.ddl("CREATE TABLE x" + std::to_string(i) + " (k INT PRIMARY KEY)")) continue; if (sim::wl().chance(0.5)) c.ddl("DROP TABLE x" + std::to_string(i)); } });
    th.join();
    sim::faults_stop();
    for (auto& p : e.all) Engine::wait(p);
    o.io_error = o.conflict = o.begin_fail = o.concurrent_op = 0;
    State st[n_tables];
    { sim::NoPreempt np; for (auto& r : recs) { int oc = kv::outcome(r->id, nullptr); if (oc == 1 && r->failed && !r->acked && !C.racing) sim::fail("commit-reported-failed", "%s committed but its commit was answered with an error", r->id.c_str()); } replay(st); }
    // both sides see the final state
    {
        auto rec = std::make_shared<Rec>(); rec->id = "final"; SClient q(e, 77); auto t = q.c.begin(); if (!t) sim::fail("begin", "begin failed at the end");
        for (int i = 0; i < n_tables; ++i) { if (T[i].kvs_only) continue; Op a; a.kind = s_all; a.table = i; a.row.resize(T[i].c.size()); for (auto& v : a.row) v.null = true; rec->op.push_back(a); if (!q.run(t, rec, rec->op.size() - 1)) sim::fail("final-read", "SELECT failed at the end: %d", q.c.last.code); auto w = step(st[i], rec->op.back(), true); if (!w.empty()) sim::fail("wrong-state", "at the end, SELECT from t%d %s", i, w.c_str()); }
        q.c.commit(t); q.c.dispose(t); Q((q.c.s->store.dispose(), 0));
    }
    {
        KClient k{s, 78, {}}; std::shared_ptr<Rec> rec; auto h = k.begin(rec); if (!h) sim::fail("begin", "begin failed at the end");
        { sim::NoPreempt np; std::set<std::pair<int, Row>> seen; for (auto& r : recs) for (auto& o : r->op) if (!o.key.empty() && seen.insert({o.table, o.key}).second) { Op x = o; x.kind = get; x.done = x.ok = x.sent = false; x.count = 0; x.rows.clear(); rec->op.push_back(x); } }
        for (std::size_t i = 0; i < rec->op.size(); ++i) { k.run(h, rec, i); sim::NoPreempt np; auto& o = rec->op[i]; if (!o.ok) { sim::fail("final-read", "'%s' failed at the end: %d", name(o).c_str(), o.code); } auto w = step(st[o.table], o, true); if (!w.empty()) sim::fail("wrong-state", "at the end, '%s' %s", name(o).c_str(), w.c_str()); }
        if (k.commit(h, rec, true)) sim::fail("commit-refused", "the final commit failed");
    }
    sim::probe("finished");
    s.stop(e);
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbkvs", nullptr, run}; }
