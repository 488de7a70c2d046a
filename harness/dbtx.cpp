// Concurrent transactions on the whole engine: outcomes, durability of acknowledgements, crash recovery, exactly one reply per request,
// and equivalence of all committed statement results with a serial execution on the reference model.
#include "tmodel.h"
using namespace tmod;
namespace {
constexpr int n_tables = 2;
std::vector<std::shared_ptr<TxRec>> recs;
State base[n_tables];          // state recovered at the start of this life
bool idx[n_tables];
struct Conf { int clients, txs, keys; double racing; bool strict, faults, cancel, chan, session_store; int start_threads; };
Conf C;
std::map<u64, u64> ts_of_state;

void configure(jogasaki::configuration& c) {
    auto& r = sim::cfg();
    c.thread_pool_size(1 + r.below(4)); c.default_partitions(1 + r.below(4));
    c.scan_block_size(std::vector<std::size_t>{1, 2, 5, 100}[r.below(4)]); c.scan_yield_interval(r.below(2));
    c.inplace_teardown(r.chance(0.5)); c.inplace_dag_schedule(r.chance(0.5)); c.enable_hybrid_scheduler(r.chance(0.7));
    c.lightweight_job_level(r.chance(0.5) ? 0 : 100); c.stealing_enabled(r.chance(0.7)); c.direct_commit_callback(r.chance(0.3));
    c.scan_default_parallel(1 + r.below(4)); c.profile_commits(r.chance(0.3)); c.enable_session_store(C.session_store);
    c.use_preferred_worker_for_current_thread(r.chance(0.3)); c.try_insert_on_upserting_secondary(r.chance(0.5));
    c.default_commit_response(r.chance(0.8) ? jogasaki::commit_response_kind::stored : jogasaki::commit_response_kind::accepted);
    c.max_result_set_writers(r.chance(0.5) ? 64 : 1 + r.below(3)); c.return_os_pages(r.chance(0.3));
    c.key_distribution(r.chance(0.5) ? jogasaki::key_distribution_kind::uniform : jogasaki::key_distribution_kind::simple);
    if (r.chance(0.3)) c.enable_maintenance_thread(true);
    if (C.cancel) { auto k = std::make_shared<jogasaki::request_cancel_config>(); for (auto e : {jogasaki::request_cancel_kind::write, jogasaki::request_cancel_kind::scan, jogasaki::request_cancel_kind::find, jogasaki::request_cancel_kind::group, jogasaki::request_cancel_kind::transaction_begin_wait, jogasaki::request_cancel_kind::transaction_precommit}) if (r.chance(0.7)) k->enable(e); c.req_cancel_config(k); }
}
Stmt random_stmt(int type, std::set<long long>* distinct) {
    auto& r = sim::wl(); Stmt m; m.table = static_cast<int>(r.below(n_tables));
    m.kind = type == 3 ? static_cast<int>(sel_key + r.below(k_count - sel_key)) : r.chance(0.55) ? static_cast<int>(r.below(sel_key)) : static_cast<int>(sel_key + r.below(k_count - sel_key));
    if (m.kind == sel_idx && !idx[m.table]) m.kind = sel_all;
    auto key = [&] { return static_cast<long long>(r.below(C.keys)) * (r.chance(0.02) ? -1 : 1); };
    m.a = key(); m.b = key(); if (m.kind != upd_pk && m.a > m.b) std::swap(m.a, m.b);
    m.d = static_cast<long long>(r.below(12)) - 2; m.vn = r.chance(0.1); m.sn = r.chance(0.1);
    if (m.kind == sel_idx) { m.a -= 2; }
    if (!m.sn) { auto n = r.chance(0.1) ? r.below(200) : r.below(20); for (u64 i = 0; i < n; ++i) m.s += static_cast<char>('a' + r.below(26)); }
    m.prepared = r.chance(0.3);
    if (distinct && m.write()) {
        if (m.kind == upd_range || m.kind == del_range || m.kind == upd_pk) m.kind = m.kind == del_range ? del_key : upd_key;
        while (distinct->count(m.table * 1000 + m.a)) ++m.a;
        distinct->insert(m.table * 1000 + m.a);
    }
    return m;
}
struct Handles { std::map<std::pair<int, int>, u64> p; };
struct Cl {
    Client c; Handles h; int no;
    Cl(Engine& e, int no) : c(e, static_cast<std::size_t>(no + 1)), no(no) {}
    u64 prepare(Stmt const& m) {
        auto i = h.p.find({m.kind, m.table}); if (i != h.p.end()) return i->second;
        Request r;
        {
            sim::NoPreempt g; auto* p = r.mutable_prepare(); Stmt t = m; auto n = std::to_string(m.table);
            std::string vals = "(:a, :d, :s)", rng = " WHERE k >= :a AND k <= :b", tb = "t" + n, q;
            switch (m.kind) {
                case ins: q = "INSERT INTO " + tb + " VALUES " + vals; break;
                case ins_replace: q = "INSERT OR REPLACE INTO " + tb + " VALUES " + vals; break;
                case ins_ignore: q = "INSERT OR IGNORE INTO " + tb + " VALUES " + vals; break;
                case upd_key: q = "UPDATE " + tb + " SET v = :d, s = :s WHERE k = :a"; break;
                case upd_range: q = "UPDATE " + tb + " SET v = v + :d" + rng; break;
                case upd_pk: q = "UPDATE " + tb + " SET k = :b WHERE k = :a"; break;
                case del_key: q = "DELETE FROM " + tb + " WHERE k = :a"; break;
                case del_range: q = "DELETE FROM " + tb + rng; break;
                case sel_key: q = "SELECT k, v, s FROM " + tb + " WHERE k = :a"; break;
                case sel_range: q = "SELECT k, v, s FROM " + tb + rng; break;
                case sel_idx: q = "SELECT k, v, s FROM " + tb + "@i" + n + " WHERE v >= :a AND v <= :b"; break;
                default: q = sql(t);
            }
            p->set_sql(q);
            auto ph = [&](char const* nm, jogasaki::proto::sql::common::AtomType ty) { auto* x = p->add_placeholders(); x->set_name(nm); x->set_atom_type(ty); };
            ph("a", m.kind == sel_idx ? jogasaki::proto::sql::common::INT8 : jogasaki::proto::sql::common::INT4); ph("b", m.kind == sel_idx ? jogasaki::proto::sql::common::INT8 : jogasaki::proto::sql::common::INT4);
            ph("d", jogasaki::proto::sql::common::INT8); ph("s", jogasaki::proto::sql::common::CHARACTER);
        }
        u64 v = 0;
        if (c.call(r, "prepare")) v = Q(c.resp->r.prepare().prepared_statement_handle().handle());
        else sim::fail("prepare", "prepare of kind %d failed: %d %s", m.kind, c.last.code, c.last.detail.c_str());
        h.p[{m.kind, m.table}] = v;
        return v;
    }
    Request request(Tx const& t, Stmt const& m) {
        if (!m.prepared) return m.write() ? Client::stmt_req(t, sql(m)) : Client::query_req(t, sql(m));
        auto ph = prepare(m);
        sim::NoPreempt g; Request r;
        auto params = [&](auto* x) {
            x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(ph); x->mutable_prepared_statement_handle()->set_has_result_records(!m.write());
            auto i4 = [&](char const* n, long long v) { auto* p = x->add_parameters(); p->set_name(n); if (m.kind == sel_idx) p->set_int8_value(v); else p->set_int4_value(static_cast<int>(v)); };
            i4("a", m.a); i4("b", m.b); { auto* p = x->add_parameters(); p->set_name("d"); if (!(m.vn && m.kind <= ins_ignore)) p->set_int8_value(m.d); } { auto* p = x->add_parameters(); p->set_name("s"); if (!m.sn) p->set_character_value(m.s); }
        };
        if (m.write()) params(r.mutable_execute_prepared_statement()); else params(r.mutable_execute_prepared_query());
        return r;
    }
    void result(std::shared_ptr<Resp> const& p, std::shared_ptr<TxRec> const& rec, std::size_t i) {
        sim::NoPreempt g; auto& m = rec->st[i]; auto e = Engine::error_of(*p);
        m.done = true; m.ok = e.ok; m.code = e.code;
        if (!e.ok) { static char nm[64]; snprintf(nm, sizeof nm, "err_%d", e.code); sim::probe(strdup(nm)); sim::ev("stmt error %d %s", e.code, e.detail.c_str()); return; }
        if (m.write()) { if (p->r.response_case() != Response::kExecuteResult) sim::fail("wrong-reply", "statement '%s' answered with case %d", p->what.c_str(), p->r.response_case()); for (auto& c : p->r.execute_result().success().counters()) m.count += c.value(); }
        else { if (p->r.response_case() != Response::kResultOnly) sim::fail("wrong-reply", "query '%s' answered with case %d", p->what.c_str(), p->r.response_case()); if (!p->heads) sim::fail("no-head", "query '%s' succeeded without a body head", p->what.c_str()); m.rows = p->rows(); }
    }
    std::shared_ptr<Resp> send_commit(Tx const& t, std::shared_ptr<TxRec> const& rec, int kind, bool dispose) {
        auto r = Client::commit_req(t, kind, dispose);
        auto wants_stored = kind >= 30 || (kind == 0 && c.e.cfg->default_commit_response() == jogasaki::commit_response_kind::stored);
        Q((rec->commit_sent = true, ++rec->commit_seq));
        auto p = std::make_shared<Resp>();
        return c.e.send_with(c.s, r, "commit " + t.id, [rec, wants_stored](Resp& x) {
            auto e = Engine::error_of(x);
            if (!e.ok) { rec->commit_failed = true; sim::ev("commit error %s %d %s", rec->id.c_str(), e.code, e.detail.c_str()); return; }
            u64 mk = 0; int o = kv::outcome(rec->id, &mk);
            if (o != 1) sim::fail("ack-without-commit", "commit of %s acknowledged but the store says %d", rec->id.c_str(), o);
            if (rec->acked) sim::fail("two-commits", "two commit requests of %s succeeded", rec->id.c_str());
            rec->acked = true;
            if (wants_stored) { if (mk > kv::durable_epoch()) sim::fail("ack-before-durable", "commit of %s acknowledged as stored at epoch %llu, durable is %llu", rec->id.c_str(), (unsigned long long)mk, (unsigned long long)kv::durable_epoch()); rec->stored = true; }
        });
    }
    void transaction() {
        auto& r = sim::wl(); sim::NoPreempt* np = new sim::NoPreempt;
        Opt o; o.type = r.chance(0.75) ? 1 : r.chance(0.6) ? 2 : 3;
        if (o.type == 2) { if (r.chance(0.9)) o.wp.push_back("t0"); if (r.chance(0.9)) o.wp.push_back("t1"); }
        if (o.type == 3 && r.chance(0.6)) o.scan_parallel = static_cast<int>(r.below(5));
        bool racy = r.chance(C.racing); int n = static_cast<int>(1 + r.below(4)); bool group = !racy && r.chance(0.2);
        int ending = static_cast<int>(r.below(20)); int notify = std::vector<int>{0, 0, 0, 10, 20, 30, 40}[r.below(7)]; bool autod = r.chance(0.2);
        std::set<long long> distinct; std::vector<Stmt> st; for (int i = 0; i < n; ++i) { st.push_back(random_stmt(o.type, group || racy ? &distinct : nullptr)); st.back().fuzzy = group || racy; }
        int race = static_cast<int>(r.below(7)); u64 delay = r.below(200000);
        bool cancel = C.cancel && r.chance(0.3); u64 cdelay = r.below(300000);
        delete np;
        auto t = c.begin(o);
        if (!t) { if (!C.faults && !C.cancel && !C.chan) sim::fail("begin", "begin failed: %d %s", c.last.code, c.last.detail.c_str()); sim::probe("begin_failed"); return; }
        auto rec = std::make_shared<TxRec>();
        { sim::NoPreempt g; rec->id = t.id; rec->type = o.type; rec->client = no; rec->racy = racy; rec->begin_ts = kv::last_ts(); recs.push_back(rec); rec->st.reserve(16); }
        std::vector<std::pair<std::shared_ptr<Resp>, std::size_t>> open;
        bool failed = false;
        for (auto& m : st) {
            auto q = request(t, m); std::size_t i;
            { sim::NoPreempt g; i = rec->st.size(); m.sent = true; rec->st.push_back(m); }
            auto p = c.e.send(c.s, q, sql(m));
            if (cancel) { sim::sleep_ns(cdelay); Q((p->cancel = true)); }
            if (group || racy) { open.emplace_back(p, i); continue; }
            Engine::wait(p); result(p, rec, i);
            if (!Q(rec->st[i].ok)) { failed = true; break; }
        }
        if (group) for (auto& [p, i] : open) { Engine::wait(p); result(p, rec, i); if (!Q(rec->st[i].ok)) failed = true; }
        if (racy) {
            sim::probe("racing_transaction");
            sim::sleep_ns(delay);
            std::vector<std::shared_ptr<Resp>> ps;
            auto rb = [&] { auto q = Client::rollback_req(t); ps.push_back(c.e.send(c.s, q, "rollback " + t.id)); };
            auto di = [&] { auto q = Client::dispose_req(t); ps.push_back(c.e.send(c.s, q, "dispose " + t.id)); };
            auto ei = [&] { auto q = Client::errinfo_req(t); ps.push_back(c.e.send(c.s, q, "errinfo " + t.id)); auto q2 = Client::status_req(t); ps.push_back(c.e.send(c.s, q2, "status " + t.id)); };
            switch (race) {
                case 0: ps.push_back(send_commit(t, rec, notify, autod)); break;
                case 1: rb(); break;
                case 2: di(); break;
                case 3: ps.push_back(send_commit(t, rec, notify, autod)); rb(); ei(); break;
                case 4: ps.push_back(send_commit(t, rec, notify, false)); ps.push_back(send_commit(t, rec, notify, autod)); break;
                case 5: { std::thread th([&] { rb(); }); auto p = send_commit(t, rec, notify, false); th.join(); ps.push_back(p); di(); break; }
                case 6: ei(); for (auto& [p, i] : open) Engine::wait(p); ps.push_back(send_commit(t, rec, notify, autod)); di(); break;
            }
            for (auto& [p, i] : open) { Engine::wait(p); result(p, rec, i); }
            for (auto& p : ps) Engine::wait(p);
            c.dispose(t);
            return;
        }
        if (failed || ending < 3) { if (ending != 1) { bool ok = c.rollback(t); Q((rec->rolled_back = true)); if (!ok && !failed) sim::fail("rollback", "rollback of an active transaction failed: %d %s", c.last.code, c.last.detail.c_str()); } }
        else {
            auto p = send_commit(t, rec, notify, autod); Engine::wait(p); auto e = Engine::error_of(*p);
            if (!e.ok) { char nm[64]; snprintf(nm, sizeof nm, "commit_err_%d", e.code); sim::probe(strdup(nm)); }
            if (C.strict && !e.ok) sim::fail("commit-refused", "commit of %s failed without a reason: %d %s", t.id.c_str(), e.code, e.detail.c_str());
            if (e.ok && autod) { if (ending & 1) c.dispose(t); return; }
        }
        c.dispose(t);
        if (!c.last.ok && !C.faults) sim::fail("dispose", "dispose failed: %d %s", c.last.code, c.last.detail.c_str());
    }
};
std::vector<std::pair<u64, std::shared_ptr<TxRec>>> committed_order() {
    std::vector<std::pair<u64, std::shared_ptr<TxRec>>> v;
    for (auto& r : recs) if (kv::outcome(r->id, nullptr) == 1) v.emplace_back(r->cts ? r->cts : kv::commit_ts(r->id), r);
    auto ro = [](TxRec const& r) { for (auto& m : r.st) if (m.write() && m.count) return 1; return 0; };   // writers first: a reader that shares the position saw them
    std::stable_sort(v.begin(), v.end(), [&](auto& a, auto& b) { if (a.first != b.first) return a.first < b.first; return ro(*a.second) > ro(*b.second); });
    return v;
}
// serial execution of the committed transactions; unknown: the effect of a statement is not known (answer lost in a crash)
bool replay(State* st, bool results, bool& unknown) {
    std::vector<std::array<State, n_tables>> hist; hist.push_back({st[0], st[1]});
    for (auto& [ts, r] : committed_order()) {
        bool snapshot = r->type == 3 || (r->type == 2 && std::none_of(r->st.begin(), r->st.end(), [](Stmt const& m) { return m.write() && m.ok && (m.count || !m.done); }));
        for (auto& m : r->st) {
            if (!m.sent || (m.done && !m.ok)) continue;
            if (!m.done) { if (m.write()) { if (m.fuzzy) unknown = true; else sim::fail("commit-before-reply", "%s committed although '%s' was not answered", r->id.c_str(), sql(m).c_str()); } continue; }
            if (snapshot) continue;
            if (!m.write() && m.fuzzy) continue;
            if (!results && !m.write()) continue;
            if (results) { auto e = check(st[m.table], m); if (!e.empty() && !unknown) sim::fail("wrong-result", "%s (position %llu): '%s' %s", r->id.c_str(), (unsigned long long)ts, sql(m).c_str(), e.c_str()); }
            else step(st[m.table], m);
        }
        hist.push_back({st[0], st[1]});
    }
    if (results && !unknown) for (auto& r : recs) {     // snapshot readers: some prefix explains all results
        if (r->type == 1 || std::none_of(r->st.begin(), r->st.end(), [](Stmt const& m) { return !m.write() && m.done && m.ok; })) continue;
        if (std::any_of(r->st.begin(), r->st.end(), [](Stmt const& m) { return m.write() && m.done && m.ok; })) continue;
        bool any = false; std::string e;
        for (auto& h : hist) { bool all = true; for (auto& m : r->st) { if (m.write() || !m.done || !m.ok) continue; auto s = h[m.table]; e = check(s, m); if (!e.empty()) { e = "'" + sql(m) + "' " + e; all = false; break; } } if (all) { any = true; break; } }
        if (!any) sim::fail("torn-snapshot", "no committed state explains the results of snapshot transaction %s (last difference: %s)", r->id.c_str(), e.c_str());
        sim::probe("snapshot_checked");
    }
    return !unknown;
}
void final_state(Engine& e, State* st, char const* when) {
    Client c(e, 77); auto cf = rules.channel_faults; rules.channel_faults = false;
    auto t = c.begin(); if (!t) sim::fail("begin", "begin failed %s: %d %s", when, c.last.code, c.last.detail.c_str());
    for (int i = 0; i < n_tables; ++i) {
        Stmt m; m.kind = sel_all; m.table = i;
        if (!c.query(t, sql(m), m.rows)) sim::fail("final-read", "reading t%d %s failed: %d %s", i, when, c.last.code, c.last.detail.c_str());
        auto s = st[i]; auto w = check(s, m); if (!w.empty()) sim::fail("wrong-state", "%s, t%d %s", when, i, w.c_str());
        if (idx[i]) {
            m.kind = sel_idx; m.rows.clear(); m.a = -1000000000; m.b = 1000000000;
            if (!c.query(t, sql(m), m.rows)) sim::fail("final-read", "reading t%d by its index %s failed: %d %s", i, when, c.last.code, c.last.detail.c_str());
            s = st[i]; w = check(s, m); if (!w.empty()) sim::fail("index-differs", "%s, index of t%d %s", when, i, w.c_str());
        }
    }
    c.commit(t); c.dispose(t); rules.channel_faults = cf;
}
void run() {
    recs.clear(); for (auto& b : base) b.clear(); rules = {};
    auto& g = sim::cfg();
    C.clients = static_cast<int>(1 + g.below(3)); C.txs = static_cast<int>(2 + g.below(5)); C.keys = static_cast<int>(3 + g.below(12)); C.racing = g.chance(0.5) ? 0 : 0.4;
    C.faults = g.chance(0.4); C.cancel = g.chance(0.12); C.chan = g.chance(0.12); C.session_store = g.chance(0.6);
    bool p1 = !strcmp(sim::property(), "C01"), p2 = !strcmp(sim::property(), "C02");
    if (p1) { C.racing = g.chance(0.7) ? 0 : 0.3; C.chan = C.chan && g.chance(0.3); }
    if (p2) { C.racing = g.chance(0.3) ? 0 : 0.6; C.cancel = g.chance(0.2); }
    bool single = g.chance(p2 ? 0.1 : 0.25); if (single) { C.clients = 1; C.txs *= 2; C.racing = 0; C.faults = C.cancel = C.chan = false; }
    C.strict = single;
    for (auto& b : idx) b = g.chance(0.6);
    kv::reset();
    auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(200 + g.below(5000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.3) ? 0 : g.chance(0.5) ? 0.5 : 1;
    if (C.faults) { o.conflict = g.chance(0.5) ? 0.1 : 0; o.io_error = g.chance(0.3) ? 0.01 : 0; o.begin_fail = g.chance(0.3) ? 0.05 : 0; }
    o.concurrent_op = g.chance(0.4) ? 0.3 : 0;
    if (C.faults) for (auto k : {sim::f_kvs_conflict, sim::f_kvs_io, sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k);
    if (o.concurrent_op > 0) sim::fault_enable(sim::f_kvs_conflict);
    for (auto k : {sim::f_durable_delay, sim::f_durable_stall, sim::f_callback_delay}) if (g.chance(0.5)) sim::fault_enable(k);
    if (g.chance(0.15)) sim::fault_enable(sim::f_stall);
    sim::set_stall_max(5'000'000);
    if (g.chance(0.3)) sim::fault_enable(sim::f_spurious_wakeup);
    if (C.chan) { rules.channel_faults = true; sim::fault_enable(sim::f_channel); }
    bool may_crash = !single && g.chance(p1 ? 0.7 : p2 ? 0.1 : 0.4);
    if (may_crash) sim::fault_enable(sim::f_crash);
    sim::set_step_limit(20000000, true);
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt g; return static_cast<std::size_t>(sim::wl().below(n)); };
    bool recovered = sim::phase() > 0;
    std::string img; u64 dur = 0;
    if (recovered) {
        In in{sim::durable()}; img = in.s(); dur = in.u();
        for (auto& b : idx) b = in.u();
        for (auto& b : base) { auto n = in.u(); while (n--) { auto k = static_cast<long long>(in.u()); R r; r.vn = in.u(); r.v = static_cast<long long>(in.u()); r.sn = in.u(); r.s = in.s(); b[k] = r; } }
        auto n = in.u(); while (n--) recs.push_back(std::make_shared<TxRec>(load(in)));
        kv::restore(img);
    }
    (void)dur;
    auto of0 = o; o.io_error = o.conflict = o.begin_fail = 0;      // failing starts: another harness
    Engine e; configure(*e.cfg);
    if (auto rc = e.start(); rc != jogasaki::status::ok) sim::fail("start", "start failed with status %d in life %d", static_cast<int>(rc), sim::phase());
    o = of0;
    if (!recovered) {
        Client c(e, 99);
        auto ddl = [&](std::string s) { if (!c.ddl(s)) sim::fail("ddl", "'%s' failed: %d %s", s.c_str(), c.last.code, c.last.detail.c_str()); };
        auto of = o; o.io_error = o.conflict = o.begin_fail = 0;
        for (int i = 0; i < n_tables; ++i) { auto n = std::to_string(i); ddl("CREATE TABLE t" + n + " (k INT PRIMARY KEY, v BIGINT, s VARCHAR(*))"); if (idx[i]) ddl("CREATE INDEX i" + n + " ON t" + n + " (v)"); }
        o = of;
    } else {
        sim::probe("recovered");
        for (auto& r : recs) {
            bool there = kv::outcome(r->id, nullptr) == 1;
            bool wrote = std::any_of(r->st.begin(), r->st.end(), [](Stmt const& m) { return m.write() && m.done && m.ok; });
            (void)wrote;
            if (there && !r->commit_sent) sim::fail("phantom-commit", "%s was recovered though its commit was never requested", r->id.c_str());
        }
        State st[n_tables] = {base[0], base[1]}; bool unknown = false;
        // the store keeps a prefix of its log: what was acknowledged as stored must be in it
        for (auto& r : recs) if (r->stored && std::any_of(r->st.begin(), r->st.end(), [](Stmt const& m) { return m.write() && m.done && m.ok && m.count; }) && kv::outcome(r->id, nullptr) != 1) sim::fail("lost-commit", "%s was acknowledged as stored and is lost after the crash", r->id.c_str());
        replay(st, false, unknown);
        auto of = o; o.io_error = o.conflict = o.begin_fail = 0;
        if (!unknown) final_state(e, st, "after recovery");
        else { // take what is there as the new base
            auto cf = rules.channel_faults; rules.channel_faults = false; Client c(e, 78); auto t = c.begin(); for (int i = 0; i < n_tables; ++i) { Stmt m; m.kind = sel_all; m.table = i; c.query(t, sql(m), m.rows); st[i].clear(); for (auto& w : m.rows) st[i][w[0].i] = R{w[1].k == 0, w[1].i, w[2].k == 0, w[2].s}; } c.commit(t); c.dispose(t); rules.channel_faults = cf;
        }
        o = of;
        { sim::NoPreempt np; recs.clear(); base[0] = st[0]; base[1] = st[1]; }
    }
    std::atomic<int> left{0};
    vh::Threads th; static int alive; alive = C.clients;
    for (int i = 0; i < C.clients; ++i) th.go([&e, i] { { Cl cl(e, i + 10 * sim::phase()); for (int k = 0; k < C.txs; ++k) cl.transaction();
            sim::NoPreempt g; cl.c.s->store.dispose(); } Q(--alive); });
    if (sim::phase() < 2 && sim::fault(sim::f_crash, 0.9)) {
        sim::sleep_ns(sim::wl().below(g.chance(0.5) ? 8000000 : 60000000));
        if (Q(alive) > 0) {
            Out out; { sim::NoPreempt np; out.s(kv::durable_image(false)); out.u(kv::durable_epoch()); for (auto b : idx) out.u(b);
                for (auto& b : base) { out.u(b.size()); for (auto& [k, r] : b) { out.u(static_cast<u64>(k)); out.u(r.vn); out.u(static_cast<u64>(r.v)); out.u(r.sn); out.s(r.s); } }
                out.u(recs.size()); for (auto& r : recs) save(out, *r); }
            sim::crash(out.b);
        }
    }
    th.join();
    sim::faults_stop();
    for (auto& p : e.all) Engine::wait(p);
    // every transaction was disposed: the store must get them all back
    sim::wait_until([] { return kv::open_transactions() == 0; }, "transactions to be given back");
    if (kv::leaked_handles()) sim::fail("kvs-handle-leak", "%d transaction handles were not released", kv::leaked_handles());
    {
        sim::NoPreempt np;
        for (auto& r : recs) {
            int oc = kv::outcome(r->id, nullptr);
            if (oc == 1 && !r->commit_sent) sim::fail("phantom-commit", "%s committed though no commit was requested", r->id.c_str());
            if (oc == 1 && r->commit_failed && !r->acked && r->commit_seq == 1) sim::fail("commit-reported-failed", "%s committed but its commit was answered with an error", r->id.c_str());
            if (oc == 1) for (auto& m : r->st) if (m.done && !m.ok && !m.fuzzy) sim::fail("commit-after-error", "%s committed although '%s' failed with %d", r->id.c_str(), sql(m).c_str(), m.code);
            if (oc == 1 && !r->racy) sim::probe("committed"); if (oc == 1 && r->racy) sim::probe("committed_racing");
        }
        State st[n_tables] = {base[0], base[1]}; bool unknown = false;
        replay(st, true, unknown);
        base[0] = st[0]; base[1] = st[1];
        // one client without faults: errors need a reason too
        if (C.strict) {
            State s2[n_tables];
            (void)s2;
        }
    }
    final_state(e, base, "at the end");
    if (auto rc = e.stop(); rc != jogasaki::status::ok) sim::fail("stop", "stop failed with status %d", static_cast<int>(rc));
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbtx", nullptr, run}; }
