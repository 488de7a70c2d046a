// Runs the whole SQL engine (api::impl::database + service) on simulated clients, scheduler threads and store.
#pragma once
#include "common.h"
#include <jogasaki/api/database.h>
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/impl/service.h>
#include <jogasaki/configuration.h>
#include <jogasaki/constants.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/serializer/value_input.h>
#include <jogasaki/proto/sql/common.pb.h>
#include <jogasaki/proto/sql/request.pb.h>
#include <jogasaki/proto/sql/response.pb.h>
#include <sharksfin/api.h>
#include <tateyama/task_scheduler/scheduler.h>
#include <variant>

namespace eng {
using sim::u64;
namespace ts = tateyama::api::server;
namespace pr = jogasaki::proto::sql;
using Request = pr::request::Request;
using Response = pr::response::Response;
using Tid = std::pair<u64, u64>;   // handle as the client sees it
namespace kv = sharksfin::simkvs;

// one value of a result row
struct Val {
    int k{0};               // 0 null 1 int 2 double 3 string 4 decimal/temporal (text) 5 lob
    long long i{}; double d{}; std::string s;
    static Val null() { return {}; }
    static Val of(long long x) { Val v; v.k = 1; v.i = x; return v; }
    static Val str(std::string x) { Val v; v.k = 3; v.s = std::move(x); return v; }
    std::string show() const { switch (k) { case 0: return "NULL"; case 1: return std::to_string(i); case 2: return std::to_string(d); case 3: return "'" + s + "'"; default: return s; } }
    bool operator==(Val const& o) const { return k == o.k && i == o.i && d == o.d && s == o.s; }
    bool operator!=(Val const& o) const { return !(*this == o); }
    bool operator<(Val const& o) const { return std::tie(k, i, d, s) < std::tie(o.k, o.i, o.d, o.s); }
};
using Row = std::vector<Val>;
inline std::string show(Row const& r) { std::string s = "("; for (auto& v : r) s += (s.size() > 1 ? "," : "") + v.show(); return s + ")"; }

// decodes the bytes of committed chunks of one writer; false: malformed
inline bool decode(std::string const& b, std::vector<Row>& out, std::string& why) {
    namespace se = jogasaki::serializer;
    takatori::util::const_buffer_view v{b.data(), b.size()};
    auto p = v.begin(), e = v.end();
    try {
        while (p != e) {
            if (se::peek_type(p, e) == se::entry_type::end_of_contents) { se::read_end_of_contents(p, e); if (p != e) { why = "data after the end mark"; return false; } return true; }
            auto n = se::read_row_begin(p, e); Row r;
            for (std::size_t i = 0; i < n; ++i) {
                Val x;
                switch (se::peek_type(p, e)) {
                    case se::entry_type::null: se::read_null(p, e); break;
                    case se::entry_type::int_: x.k = 1; x.i = se::read_int(p, e); break;
                    case se::entry_type::float4: x.k = 2; x.d = se::read_float4(p, e); break;
                    case se::entry_type::float8: x.k = 2; x.d = se::read_float8(p, e); break;
                    case se::entry_type::character: x.k = 3; x.s = std::string(se::read_character(p, e)); break;
                    case se::entry_type::octet: x.k = 3; x.s = std::string(se::read_octet(p, e)); break;
                    case se::entry_type::decimal: { auto t = se::read_decimal(p, e); x.k = 4; x.s = std::to_string(t.sign()) + ":" + std::to_string(t.coefficient_high()) + ":" + std::to_string(t.coefficient_low()) + "e" + std::to_string(t.exponent()); break; }
                    case se::entry_type::date: x.k = 4; x.s = "d" + std::to_string(se::read_date(p, e).days_since_epoch()); break;
                    case se::entry_type::time_of_day: x.k = 4; x.s = "t" + std::to_string(se::read_time_of_day(p, e).time_since_epoch().count()); break;
                    case se::entry_type::time_point: { auto t = se::read_time_point(p, e); x.k = 4; x.s = "p" + std::to_string(t.seconds_since_epoch().count()) + "." + std::to_string(t.subsecond().count()); break; }
                    case se::entry_type::blob: { auto [a, c, d] = se::read_blob(p, e); x.k = 5; x.i = static_cast<long long>(c); x.s = "blob" + std::to_string(a); break; }
                    case se::entry_type::clob: { auto [a, c, d] = se::read_clob(p, e); x.k = 5; x.i = static_cast<long long>(c); x.s = "clob" + std::to_string(a); break; }
                    default: why = "unexpected entry type"; return false;
                }
                r.push_back(std::move(x));
            }
            out.push_back(std::move(r));
        }
    } catch (std::exception const& ex) { why = std::string("undecodable: ") + ex.what(); return false; }
    return true;
}

struct Resp;
struct Chan;
// a writer of a result channel: committed bytes are what the client can read
struct Writer : ts::writer {
    Chan* c{}; int id{}; std::string pending, bytes; bool released{}; int busy{}; std::vector<std::size_t> cuts;
    tateyama::status write(char const* d, std::size_t n) override;
    tateyama::status commit() override;
    ~Writer() override;
};
struct Chan : ts::data_channel {
    std::weak_ptr<Resp> res; std::string name; std::size_t max{}; bool released{};
    std::vector<std::shared_ptr<Writer>> ws; std::size_t active{}, peak{};
    std::size_t buffer_limit{~std::size_t(0)};
    tateyama::status acquire(std::shared_ptr<ts::writer>& w) override;
    tateyama::status release(ts::writer& w) override;
};
struct Rules { bool channel_faults{}; };
inline Rules rules;
inline int completed_twice{};

struct Resp : ts::response, std::enable_shared_from_this<Resp> {
    std::string what; u64 call{}, head_at{}, done_at{}; u64 done_time{};
    int bodies{}, heads{}, errors{}; bool done{}; mutable bool cancel{}; mutable int cancel_polls{};
    std::string body_bytes, head_bytes; Response r, head; tateyama::proto::diagnostics::Record diag;
    std::vector<std::shared_ptr<Chan>> chans; std::vector<std::unique_ptr<ts::blob_info>> blobs;
    std::function<void(Resp&)> on_done;
    int calls_after{};

    void session_id(std::size_t) override {}
    void check_open(char const* call) {
        if (done) sim::fail("reply-after-end", "request '%s': %s after its final response", what.c_str(), call);
    }
    void finish_() {
        for (auto& c : chans) {
            if (!c->released && !errors) sim::fail("channel-open-at-end", "request '%s': final response while its data channel '%s' is still acquired", what.c_str(), c->name.c_str());
            for (auto& w : c->ws) if (!w->released && !c->released) sim::fail("writer-open-at-end", "request '%s': final response while writer %d is still acquired", what.c_str(), w->id);
        }
        done = true; done_at = sim::seq(); done_time = sim::now();
        if (on_done) on_done(*this);
    }
    tateyama::status body(std::string_view b) override {
        sim::yield(); sim::NoPreempt g;
        if (done) sim::fail("second-reply", "request '%s': a second final response", what.c_str());
        ++bodies; body_bytes = std::string(b);
        if (!r.ParseFromString(body_bytes)) sim::fail("bad-reply", "request '%s': unparsable response", what.c_str());
        sim::ev("reply %s case %d", what.c_str(), static_cast<int>(r.response_case()));
        finish_();
        return tateyama::status::ok;
    }
    tateyama::status body_head(std::string_view h) override {
        sim::yield(); sim::NoPreempt g;
        check_open("body head");
        if (heads) sim::fail("second-head", "request '%s': a second body head", what.c_str());
        ++heads; head_bytes = std::string(h); head_at = sim::seq();
        if (!head.ParseFromString(head_bytes)) sim::fail("bad-reply", "request '%s': unparsable body head", what.c_str());
        return tateyama::status::ok;
    }
    void error(tateyama::proto::diagnostics::Record const& rec) override {
        sim::yield(); sim::NoPreempt g;
        if (done) sim::fail("second-reply", "request '%s': an error after its final response", what.c_str());
        ++errors; diag = rec;
        sim::ev("diag %s %d", what.c_str(), static_cast<int>(rec.code()));
        finish_();
    }
    tateyama::status acquire_channel(std::string_view name, std::shared_ptr<ts::data_channel>& ch, std::size_t n) override {
        sim::yield(); sim::NoPreempt g;
        check_open("channel acquired");
        if (rules.channel_faults && sim::fault(sim::f_channel, 0.1)) return tateyama::status::unknown;
        auto c = std::make_shared<Chan>(); c->res = weak_from_this(); c->name = std::string(name); c->max = n;
        chans.push_back(c); ch = c;
        return tateyama::status::ok;
    }
    tateyama::status release_channel(ts::data_channel& ch) override {
        sim::yield(); sim::NoPreempt g;
        check_open("channel released");
        for (auto& c : chans) if (c.get() == &ch) {
            if (c->released) sim::fail("channel-released-twice", "request '%s': channel released twice", what.c_str());
            for (auto& w : c->ws) if (!w->released) sim::fail("writer-open-at-release", "request '%s': channel released while writer %d is acquired", what.c_str(), w->id);
            c->released = true;
            return tateyama::status::ok;
        }
        sim::fail("channel-unknown", "request '%s': released a channel that is not its own", what.c_str());
    }
    bool check_cancel() const override { sim::yield(); sim::NoPreempt g; ++cancel_polls; return cancel; }
    tateyama::status add_blob(std::unique_ptr<ts::blob_info> b) override { sim::yield(); sim::NoPreempt g; check_open("blob added"); blobs.push_back(std::move(b)); return tateyama::status::ok; }

    // all rows of the result, in writer order; violates when the bytes cannot be decoded
    std::vector<Row> rows() {
        sim::NoPreempt g; std::vector<Row> out;
        for (auto& c : chans) for (auto& w : c->ws) {
            std::string why; auto n = w->bytes.size();
            if (!decode(w->bytes, out, why)) sim::fail("bad-result", "request '%s': result of writer %d (%zu bytes): %s", what.c_str(), w->id, n, why.c_str());
        }
        return out;
    }
};
inline tateyama::status Writer::write(char const* d, std::size_t n) {
    { sim::NoPreempt g; if (busy++) sim::fail("writer-shared", "two threads use one result writer"); }
    sim::yield(); sim::NoPreempt g; --busy;
    auto r = c->res.lock();
    if (r) r->check_open("record written");
    if (released) sim::fail("writer-after-release", "write on a released writer");
    if (c->released) sim::fail("writer-after-release", "write on a writer of a released channel");
    if (rules.channel_faults && sim::fault(sim::f_channel, 0.02)) return tateyama::status::unknown;
    pending.append(d, n);
    return tateyama::status::ok;
}
inline tateyama::status Writer::commit() {
    { sim::NoPreempt g; if (busy++) sim::fail("writer-shared", "two threads use one result writer"); }
    sim::yield(); sim::NoPreempt g; --busy;
    auto r = c->res.lock();
    if (r) r->check_open("records committed");
    if (released) sim::fail("writer-after-release", "commit on a released writer");
    bytes += pending; pending.clear(); cuts.push_back(bytes.size());
    return tateyama::status::ok;
}
inline Writer::~Writer() = default;
inline tateyama::status Chan::acquire(std::shared_ptr<ts::writer>& w) {
    sim::yield(); sim::NoPreempt g;
    if (auto r = res.lock()) r->check_open("writer acquired");
    if (released) sim::fail("channel-after-release", "writer acquired from a released channel");
    if (active >= max) return tateyama::status::unknown;
    if (rules.channel_faults && sim::fault(sim::f_channel, 0.05)) return tateyama::status::unknown;
    auto x = std::make_shared<Writer>(); x->c = this; x->id = static_cast<int>(ws.size()); ws.push_back(x); w = x;
    ++active; peak = std::max(peak, active);
    return tateyama::status::ok;
}
inline tateyama::status Chan::release(ts::writer& w) {
    sim::yield(); sim::NoPreempt g;
    auto& x = static_cast<Writer&>(w);
    if (x.c != this) sim::fail("writer-foreign", "writer released to another channel");
    if (x.released) sim::fail("writer-released-twice", "writer released twice");
    x.released = true; --active;
    return tateyama::status::ok;
}

struct SessionInfo : ts::session_info {
    id_type n{}; std::string user{"admin"}; enum ts::user_type type{ts::user_type::administrator};
    time_type start_at() const noexcept override { return {}; }
    id_type id() const override { return n; }
    std::string_view label() const override { return "label"; }
    std::string_view application_name() const override { return "app"; }
    std::string_view connection_type_name() const override { return "sim"; }
    std::string_view connection_information() const override { return "sim"; }
    std::optional<std::string_view> username() const override { return user; }
    enum ts::user_type user_type() const override { return type; }
};
struct DbInfo : ts::database_info {
    time_type start_at() const noexcept override { return {}; }
    process_id_type process_id() const override { return 1; }
    std::string_view name() const override { return "sim"; }
    std::string_view instance_id() const override { return "i"; }
};
struct Session {
    SessionInfo info; ts::session_store store; ts::session_variable_set vars; DbInfo db; std::size_t next{1};
    explicit Session(std::size_t id) { info.n = id; }
};
struct Req : ts::request {
    std::shared_ptr<Session> s; std::string bytes; std::size_t local{}; std::map<std::string, std::shared_ptr<ts::blob_info>, std::less<>> blobs;
    std::size_t session_id() const override { return s->info.n; }
    std::size_t service_id() const override { return 3; }
    std::size_t local_id() const override { return local; }
    std::string_view payload() const override { return bytes; }
    ts::database_info const& database_info() const noexcept override { return s->db; }
    ts::session_info const& session_info() const noexcept override { return s->info; }
    ts::session_store& session_store() noexcept override { return s->store; }
    ts::session_variable_set& session_variable_set() noexcept override { return s->vars; }
    bool has_blob(std::string_view n) const noexcept override { return blobs.count(n) != 0; }
    ts::blob_info const& get_blob(std::string_view n) const override { auto i = blobs.find(n); if (i == blobs.end()) throw std::runtime_error("no such blob"); return *i->second; }
};
struct Tx { u64 h{}; std::string id; bool ok() const { return h != 0; } explicit operator bool() const { return ok(); } };
struct Err { bool ok{true}; int code{0}; std::string detail; };   // code: error.proto code; -1 diagnostics; -2 no answer
struct Opt { int type{1}; std::vector<std::string> wp, rai, rae; bool ddl{}; int scan_parallel{-1}; std::string label; };

struct Engine;
inline Engine* cur{};
struct Engine {
    std::shared_ptr<jogasaki::configuration> cfg = std::make_shared<jogasaki::configuration>();
    std::shared_ptr<jogasaki::api::impl::database> db;
    std::unique_ptr<jogasaki::api::impl::service> svc;
    std::vector<std::shared_ptr<Resp>> all;   // every request that was sent
    std::function<void(std::shared_ptr<ts::request>, std::shared_ptr<ts::response>)> front;   // set: requests go there instead of to svc
    void pass(std::shared_ptr<ts::request> q, std::shared_ptr<ts::response> p) { if (front) front(std::move(q), std::move(p)); else (*svc)(std::move(q), std::move(p)); }
    Engine() { cur = this; }
    jogasaki::status start() {
        db = std::dynamic_pointer_cast<jogasaki::api::impl::database>(jogasaki::api::create_database(cfg));
        auto rc = db->start();
        if (rc == jogasaki::status::ok) svc = std::make_unique<jogasaki::api::impl::service>(std::make_shared<ts_cfg>(), db.get());
        return rc;
    }
    using ts_cfg = tateyama::api::configuration::whole;
    jogasaki::status stop() { auto rc = db->stop(); return rc; }

    std::shared_ptr<Resp> send(std::shared_ptr<Session> const& s, Request& r, std::string what, std::map<std::string, std::shared_ptr<ts::blob_info>, std::less<>> blobs = {}) {
        auto q = std::make_shared<Req>(); auto p = std::make_shared<Resp>();
        { sim::NoPreempt g; q->s = s; q->local = s->next++; q->blobs = std::move(blobs); r.set_service_message_version_major(2); r.set_service_message_version_minor(0); r.SerializeToString(&q->bytes); p->what = std::move(what); p->call = sim::seq(); all.push_back(p); sim::ev("send %s", p->what.c_str()); }
        pass(q, p);
        return p;
    }
    std::shared_ptr<Resp> send_with(std::shared_ptr<Session> const& s, Request& r, std::string what, std::function<void(Resp&)> f) {
        auto q = std::make_shared<Req>(); auto p = std::make_shared<Resp>();
        { sim::NoPreempt g; q->s = s; q->local = s->next++; r.set_service_message_version_major(2); r.set_service_message_version_minor(0); r.SerializeToString(&q->bytes); p->what = std::move(what); p->on_done = std::move(f); p->call = sim::seq(); all.push_back(p); sim::ev("send %s", p->what.c_str()); }
        pass(q, p);
        return p;
    }
    static void wait(std::shared_ptr<Resp> const& p) { sim::wait_until([p] { return p->done; }, p->what.c_str()); }
    static Err error_of(Resp& p) {
        sim::NoPreempt g;
        Err e;
        auto put = [&](pr::response::Error const& x) { e.ok = false; e.code = static_cast<int>(x.code()); e.detail = x.detail(); };
        if (!p.done) return {false, -2, "no answer"};
        if (p.errors) return {false, -1, p.diag.message()};
        auto& r = p.r;
        switch (r.response_case()) {
            case Response::kResultOnly: if (r.result_only().has_error()) put(r.result_only().error()); break;
            case Response::kBegin: if (r.begin().has_error()) put(r.begin().error()); break;
            case Response::kPrepare: if (r.prepare().has_error()) put(r.prepare().error()); break;
            case Response::kExplain: if (r.explain().has_error()) put(r.explain().error()); break;
            case Response::kDescribeTable: if (r.describe_table().has_error()) put(r.describe_table().error()); break;
            case Response::kListTables: if (r.list_tables().has_error()) put(r.list_tables().error()); break;
            case Response::kGetErrorInfo: if (r.get_error_info().has_error()) put(r.get_error_info().error()); break;
            case Response::kExecuteResult: if (r.execute_result().has_error()) put(r.execute_result().error()); break;
            case Response::kExtractStatementInfo: if (r.extract_statement_info().has_error()) put(r.extract_statement_info().error()); break;
            case Response::kGetLargeObjectData: if (r.get_large_object_data().has_error()) put(r.get_large_object_data().error()); break;
            case Response::kGetTransactionStatus: if (r.get_transaction_status().has_error()) put(r.get_transaction_status().error()); break;
            case Response::kDisposeTransaction: if (r.dispose_transaction().has_error()) put(r.dispose_transaction().error()); break;
            case Response::RESPONSE_NOT_SET: e.ok = false; e.code = -3; e.detail = "empty response"; break;
            default: break;
        }
        return e;
    }
};

struct Client {
    Engine& e; std::shared_ptr<Session> s; Err last; std::shared_ptr<Resp> resp;
    Client(Engine& e, std::size_t id) : e(e), s(std::make_shared<Session>(id)) {}
    void tx_(pr::common::Transaction* m, Tx const& t) { m->set_handle(t.h); }
    bool call(Request& r, std::string what) { resp = e.send(s, r, std::move(what)); Engine::wait(resp); last = Engine::error_of(*resp); if (!last.ok) sim::ev("error %d %s", last.code, last.detail.c_str()); return last.ok; }
    std::shared_ptr<Resp> async(Request& r, std::string what) { return e.send(s, r, std::move(what)); }
    static Request begin_req(Opt const& o) {
        sim::NoPreempt g; Request r; auto* x = r.mutable_begin()->mutable_option();
        x->set_type(static_cast<pr::request::TransactionType>(o.type));
        for (auto& w : o.wp) x->add_write_preserves()->set_table_name(w);
        for (auto& w : o.rai) x->add_inclusive_read_areas()->set_table_name(w);
        for (auto& w : o.rae) x->add_exclusive_read_areas()->set_table_name(w);
        if (o.ddl) x->set_modifies_definitions(true);
        if (o.scan_parallel >= 0) x->set_scan_parallel(o.scan_parallel);
        x->set_label(o.label);
        return r;
    }
    Tx begin(Opt const& o = {}) { auto r = begin_req(o); Tx t; if (call(r, "begin")) { sim::NoPreempt g; t.h = resp->r.begin().success().transaction_handle().handle(); t.id = resp->r.begin().success().transaction_id().id(); } return t; }
    static Request stmt_req(Tx const& t, std::string const& sql) { sim::NoPreempt g; Request r; auto* x = r.mutable_execute_statement(); x->mutable_transaction_handle()->set_handle(t.h); x->set_sql(sql); return r; }
    static Request query_req(Tx const& t, std::string const& sql) { sim::NoPreempt g; Request r; auto* x = r.mutable_execute_query(); x->mutable_transaction_handle()->set_handle(t.h); x->set_sql(sql); return r; }
    bool exec(Tx const& t, std::string const& sql) { auto r = stmt_req(t, sql); return call(r, sql); }
    long long count() { sim::NoPreempt g; long long n = 0; for (auto& c : resp->r.execute_result().success().counters()) n += c.value(); return n; }
    bool query(Tx const& t, std::string const& sql, std::vector<Row>& rows) { auto r = query_req(t, sql); if (!call(r, sql)) return false; rows = resp->rows(); return true; }
    static Request commit_req(Tx const& t, int notify = 0, bool auto_dispose = false) { sim::NoPreempt g; Request r; auto* x = r.mutable_commit(); x->mutable_transaction_handle()->set_handle(t.h); if (notify) x->set_notification_type(static_cast<pr::request::CommitStatus>(notify)); if (auto_dispose) x->set_auto_dispose(true); return r; }
    bool commit(Tx const& t, int notify = 0, bool auto_dispose = false) { auto r = commit_req(t, notify, auto_dispose); return call(r, "commit " + t.id); }
    static Request rollback_req(Tx const& t) { sim::NoPreempt g; Request r; r.mutable_rollback()->mutable_transaction_handle()->set_handle(t.h); return r; }
    bool rollback(Tx const& t) { auto r = rollback_req(t); return call(r, "rollback"); }
    static Request dispose_req(Tx const& t) { sim::NoPreempt g; Request r; r.mutable_dispose_transaction()->mutable_transaction_handle()->set_handle(t.h); return r; }
    bool dispose(Tx const& t) { auto r = dispose_req(t); return call(r, "dispose"); }
    static Request status_req(Tx const& t) { sim::NoPreempt g; Request r; r.mutable_get_transaction_status()->mutable_transaction_handle()->set_handle(t.h); return r; }
    static Request errinfo_req(Tx const& t) { sim::NoPreempt g; Request r; r.mutable_get_error_info()->mutable_transaction_handle()->set_handle(t.h); return r; }
    // one statement in its own transaction
    bool ddl(std::string const& sql) { auto t = begin(); if (!t) return false; bool ok = exec(t, sql); auto el = last; if (ok) ok = commit(t, 30), el = last; else rollback(t); dispose(t); last = el; return ok; }
};
} // namespace eng
