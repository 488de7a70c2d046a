// Requests of every kind, well formed and not, on valid, stale, foreign and made-up handles, from concurrent sessions that end at any time:
// exactly one final response each, the outcome the state of its handles calls for, and nothing left behind when the sessions are gone.
#include "lob.h"
using namespace eng;
namespace {
enum Code { any_error = -100, none = 0 };
constexpr int sql_execution = 2, tx_not_found = 33, stmt_not_found = 34, inconsistent = 13, inactive = 19;
struct Conf { bool store, lenient, chan, cancel, autocommit_; int clients, steps; double odd; };
Conf C;
std::set<std::string> tables;
struct TxH { u64 h{}; int st{0}; bool vague{}; int type{1}; };    // 0 active 1 aborted or ended 2 disposed; vague: requests raced on it
struct StH { u64 h{}; bool query{}, gone{}, vague{}; int form{}; };
// handles of all clients, for foreign use
std::vector<std::pair<int, u64>> all_tx, all_st; int spawned{};

char const* const good_q[] = {"SELECT * FROM t0", "SELECT k, v FROM t1 WHERE k = 1", "SELECT COUNT(*), SUM(v) FROM t0", "SELECT a.k FROM t0 a JOIN t1 b ON a.k = b.k", "SELECT v FROM t0 ORDER BY v", "SELECT * FROM w0", "SELECT v, COUNT(*) FROM t1 GROUP BY v"};
char const* const good_s[] = {"INSERT OR REPLACE INTO t0 VALUES (1, 2, 'x')", "UPDATE t0 SET v = 5 WHERE k = 1", "DELETE FROM t1 WHERE k = 3", "INSERT OR IGNORE INTO t1 VALUES (3, 4, NULL)", "UPDATE w0 SET f = 1.5E0", "INSERT INTO t1 (k, v, s) SELECT k + 100000, v, s FROM t1 WHERE k < 0"};
char const* const bad_s[] = {"SELEC", "SELECT * FROM nosuch", "INSERT INTO t0 VALUES (1)", "SELECT nocol FROM t0", "INSERT INTO t0 VALUES ('a', 'b', 'c', 'd')", "\xe3\x81\x82 SELECT", "SELECT * FROM t0 WHERE", "DROP TABLE nosuch", "CREATE TABLE t0 (k INT PRIMARY KEY)", "SELECT nofunc(v) FROM t0", "UPDATE nosuch SET a = 1", "CREATE INDEX i0 ON nosuch (v)", "SELECT 1 + 'a' FROM t0", "DROP INDEX nosuch"};
struct Ph { char const* sql; bool query; };
Ph const prep[] = {{"SELECT k, v, s FROM t0 WHERE k = :a", true}, {"INSERT OR REPLACE INTO t0 VALUES (:a, :b, :s)", false}, {"UPDATE t1 SET v = :b WHERE k = :a", false}, {"SELECT * FROM t1", true}, {"INSERT OR REPLACE INTO w0 (k, d, f, c, b) VALUES (:a, :d, :f, :s, :o)", false}, {"DELETE FROM t1 WHERE k = :a AND v > :b", false}, {"INSERT OR REPLACE INTO w0 (k, dt, tm, ts) VALUES (:a, :dt, :tm, :ts)", false}};
std::string junk(std::size_t max) { auto& r = sim::wl(); std::string s; auto n = r.below(max + 1); for (u64 i = 0; i < n; ++i) s += static_cast<char>(r.below(256)); return s; }
std::string text(std::size_t max) { auto s = junk(max); for (auto& c : s) c = static_cast<char>(1 + (static_cast<unsigned char>(c) & 0x7e)); return s; }
template <class P> void add_params(P* x, double odd) {
    auto& r = sim::wl(); namespace pc = jogasaki::proto::sql::common;
    for (auto* n : {"a", "b", "s", "d", "f", "o", "dt", "tm", "ts", "zz"}) {
        if (r.chance(odd * 0.3) || !strcmp(n, "zz")) { if (!strcmp(n, "zz") && !r.chance(odd * 0.3)) continue; if (strcmp(n, "zz")) continue; }
        auto* p = x->add_parameters(); p->set_name(n);
        int k = r.chance(odd) ? static_cast<int>(r.below(16)) : !strcmp(n, "a") ? 1 : !strcmp(n, "b") ? 2 : !strcmp(n, "s") ? 5 : !strcmp(n, "d") ? 7 : !strcmp(n, "f") ? 4 : !strcmp(n, "o") ? 6 : !strcmp(n, "dt") ? 8 : !strcmp(n, "tm") ? 9 : 10;
        switch (k) {
            case 0: p->set_boolean_value(true); break;
            case 1: p->set_int4_value(static_cast<int>(r.below(8))); break;
            case 2: p->set_int8_value(r.chance(odd * 0.2) ? static_cast<long long>(r.next()) : static_cast<long long>(r.below(100))); break;
            case 3: p->set_float4_value(1.5F); break;
            case 4: p->set_float8_value(r.chance(odd * 0.2) ? 1e300 * 1e300 : 2.25); break;
            case 5: p->set_character_value(r.chance(odd * 0.3) ? std::string(r.below(70000), 'x') : "abc"); break;
            case 6: p->set_octet_value(junk(r.chance(odd) ? 12 : 10)); break;
            case 7: { auto* d = p->mutable_decimal_value(); d->set_unscaled_value(r.chance(odd) ? junk(20) : std::string("\x01\x20", 2)); d->set_exponent(r.chance(odd) ? static_cast<int>(r.below(80)) - 40 : -2);
                if (r.chance(odd * 0.3)) d->set_unscaled_value(std::string(1, '\xff') + std::string(16, '\0')); break; }
            case 8: p->set_date_value(r.chance(odd * 0.3) ? static_cast<long long>(r.next()) : 100); break;
            case 9: p->set_time_of_day_value(r.chance(odd * 0.3) ? r.next() : 1000); break;
            case 10: { auto* t = p->mutable_time_point_value(); t->set_offset_seconds(r.chance(odd * 0.3) ? static_cast<long long>(r.next()) : 5000); t->set_nano_adjustment(r.chance(odd * 0.3) ? static_cast<unsigned>(r.next()) : 7); break; }
            case 11: { auto* t = p->mutable_time_of_day_with_time_zone_value(); t->set_offset_nanoseconds(5); t->set_time_zone_offset(static_cast<int>(r.below(2000)) - 1000); break; }
            case 12: { auto* t = p->mutable_time_point_with_time_zone_value(); t->set_offset_seconds(5); t->set_time_zone_offset(static_cast<int>(r.below(2000)) - 1000); break; }
            case 13: p->mutable_blob()->set_channel_name("nochannel"); break;
            case 14: p->set_reference_column_position(r.below(5)); break;
            default: break;   // no value
        }
    }
}
struct Cl {
    Client c; int no; std::vector<TxH> tx; std::vector<StH> st; std::vector<std::shared_ptr<Resp>> open;
    Cl(Engine& e, int no) : c(e, static_cast<std::size_t>(no + 1)), no(no) {}
    struct Plan { Request r; std::string what; int expect{1}; int code{0}; int rcase{0}; int txi{-1}, sti{-1}; int act{}; bool query{}; std::string raw; bool use_raw{}; };
    // expect: 1 success, 0 error (with `code` if not any_error), 2 either
    // picks the transaction a request names; returns its index or -1, with the expectation for a bad handle
    template <class M> void name_tx(M* m, Plan& p, bool& bad) {
        auto& r = sim::wl(); bad = false;
        if (r.chance(C.odd)) {
            bad = true; p.expect = 0;
            switch (r.below(4)) {
                case 0: p.code = sql_execution; return;                                          // none
                case 1: m->mutable_transaction_handle()->set_handle(0); p.code = sql_execution; return;
                case 2: m->mutable_transaction_handle()->set_handle(r.next() | 1ULL << 40); p.code = tx_not_found; return;
                default:
                    if (C.store) { std::vector<u64> f; for (auto& [n, h] : all_tx) if (n != no) f.push_back(h); if (!f.empty()) { m->mutable_transaction_handle()->set_handle(f[r.below(f.size())]); p.code = tx_not_found; sim::probe("foreign_transaction"); return; } }
                    m->mutable_transaction_handle()->set_handle(987654321); p.code = tx_not_found; return;
            }
        }
        if (tx.empty()) { bad = true; p.expect = 0; p.code = tx_not_found; m->mutable_transaction_handle()->set_handle(999999999); return; }
        std::vector<std::size_t> live; for (std::size_t i = 0; i < tx.size(); ++i) if (tx[i].st < 2) live.push_back(i);
        std::size_t i = live.empty() || r.chance(0.15) ? r.below(tx.size()) : live[r.below(live.size())];
        m->mutable_transaction_handle()->set_handle(tx[i].h); p.txi = static_cast<int>(i);
        if (tx[i].vague) { p.expect = 2; return; }
        if (tx[i].st == 2) { bad = true; p.expect = 0; p.code = tx_not_found; }
    }
    template <class M> void name_st(M* m, Plan& p, bool& bad, bool has) {
        auto& r = sim::wl(); bad = false;
        if (r.chance(C.odd)) {
            bad = true; p.expect = 0;
            switch (r.below(4)) {
                case 0: p.code = sql_execution; return;
                case 1: m->mutable_prepared_statement_handle()->set_handle(0); p.code = sql_execution; return;
                case 2: m->mutable_prepared_statement_handle()->set_handle((r.next() & 0xffffff) | 1); p.code = stmt_not_found; return;
                default:
                    if (C.store) { std::vector<u64> f; for (auto& [n, h] : all_st) if (n != no) { bool own = false; for (auto& s : st) own |= s.h == h; if (!own) f.push_back(h); } if (!f.empty()) { m->mutable_prepared_statement_handle()->set_handle(f[r.below(f.size())]); p.code = stmt_not_found; sim::probe("foreign_statement"); return; } }
                    m->mutable_prepared_statement_handle()->set_handle(12345); p.code = stmt_not_found; return;
            }
        }
        if (st.empty()) { bad = true; p.expect = 0; p.code = stmt_not_found; m->mutable_prepared_statement_handle()->set_handle(54321); return; }
        auto i = r.below(st.size()); auto* h = m->mutable_prepared_statement_handle(); h->set_handle(st[i].h); h->set_has_result_records(has); p.sti = static_cast<int>(i);
        if (st[i].vague) p.expect = 2;
        if (st[i].gone) { bad = true; bool again = st[i].vague; for (auto& s : st) again |= !s.gone && s.h == st[i].h; if (again) p.expect = 2; else { p.expect = C.store ? 0 : 2; p.code = stmt_not_found; } }   // an address can be given out again
    }
    Plan plan() {
        auto& r = sim::wl(); Plan p; bool bad = false, bad2 = false; p.act = static_cast<int>(r.below(25));
        { int live = 0; for (auto& t : tx) live += t.st == 0; if (live == 0 && r.chance(0.6)) p.act = 0; if (st.empty() && r.chance(0.2)) p.act = 1; }
        switch (p.act) {
            case 0: case 24: {
                p.act = 0; p.what = "begin"; p.rcase = Response::kBegin; auto* b = p.r.mutable_begin();
                if (r.chance(0.05)) { p.expect = 2; break; }
                auto* o = b->mutable_option(); int t = r.chance(C.odd * 0.3) ? static_cast<int>(r.below(8)) : 1 + static_cast<int>(r.below(3)); o->set_type(static_cast<pr::request::TransactionType>(t)); p.sti = -2 - t;
                if (t == 2) { o->add_write_preserves()->set_table_name("t0"); o->add_write_preserves()->set_table_name("t1"); o->add_write_preserves()->set_table_name("w0"); }
                if (t < 1 || t > 3) p.expect = 2;
                if (r.chance(C.odd * 0.3)) { p.expect = t == 2 ? 0 : 2; p.code = any_error; o->add_write_preserves()->set_table_name(r.chance(0.5) ? "nosuch" : text(6)); }
                if (r.chance(C.odd * 0.3)) { p.expect = 2; o->add_inclusive_read_areas()->set_table_name(r.chance(0.5) ? "nosuch" : "t0"); }
                if (r.chance(C.odd * 0.3)) { p.expect = 2; o->add_exclusive_read_areas()->set_table_name(r.chance(0.5) ? "nosuch" : "t1"); }
                if (r.chance(0.2)) o->set_label(std::string(r.below(40), 'L'));
                if (r.chance(0.3)) o->set_scan_parallel(r.chance(C.odd) ? -1 - static_cast<int>(r.below(3)) : static_cast<int>(r.below(6)));
                break; }
            case 1: case 2: {
                p.act = 1; p.rcase = Response::kPrepare; auto* q = p.r.mutable_prepare();
                if (r.chance(C.odd)) { p.expect = 0; p.code = any_error; auto k = r.below(3); if (k == 0) { p.code = sql_execution; p.what = "prepare nothing"; break; } q->set_sql(k == 1 ? bad_s[r.below(std::size(bad_s))] : text(30)); if (k == 2) p.expect = 2; p.what = "prepare bad"; break; }
                int f = static_cast<int>(r.below(std::size(prep))); p.query = prep[f].query; p.sti = -10 - f; q->set_sql(prep[f].sql); p.what = std::string("prepare ") + prep[f].sql;
                namespace pc = jogasaki::proto::sql::common;
                auto ph = [&](char const* n, pc::AtomType t) { auto* x = q->add_placeholders(); x->set_name(n); x->set_atom_type(t); };
                ph("a", pc::INT4); ph("b", pc::INT8); ph("s", pc::CHARACTER); ph("d", pc::DECIMAL); ph("f", pc::FLOAT8); ph("o", pc::OCTET); ph("dt", pc::DATE); ph("tm", pc::TIME_OF_DAY); ph("ts", pc::TIME_POINT);
                if (r.chance(C.odd * 0.3)) { auto t = static_cast<pc::AtomType>(r.below(30)); ph("x", t); p.expect = 2; }
                break; }
            case 3: case 4: case 5: {
                bool q = p.act == 5; p.act = 3; p.query = q; int k = static_cast<int>(r.below(10)); std::string s; bool wrong = false;
                if (!r.chance(C.odd)) s = q ? good_q[r.below(std::size(good_q))] : good_s[r.below(std::size(good_s))];
                else if (k < 2) s = ""; else if (k < 7) s = bad_s[r.below(std::size(bad_s))]; else { s = q ? good_s[r.below(std::size(good_s))] : good_q[r.below(std::size(good_q))]; wrong = true; }
                auto fill = [&](auto* m) { name_tx(m, p, bad); m->set_sql(s); };
                if (q) { fill(p.r.mutable_execute_query()); p.rcase = Response::kResultOnly; } else { fill(p.r.mutable_execute_statement()); p.rcase = Response::kExecuteResult; }
                p.what = (q ? "query " : "statement ") + s;
                bool good = !s.empty() && !wrong && std::none_of(std::begin(bad_s), std::end(bad_s), [&](auto* b) { return s == b; });
                if (bad) { if (!good) p.code = p.code == sql_execution ? sql_execution : any_error; break; }
                if (p.expect == 2) break;
                if (wrong && !q) { p.expect = 2; break; }            // a query sent as a statement: its rows are dropped
                if (!good) { p.expect = 0; p.code = s.empty() ? sql_execution : wrong ? inconsistent : any_error; break; }
                if (tx[p.txi].st == 1) { p.expect = 0; p.code = inactive; break; }
                if (tx[p.txi].type == 3 && !q) { p.expect = 2; break; }
                if (C.lenient || C.clients > 1 || tx[p.txi].type == 2) p.expect = 2;
                break; }
            case 6: case 7: case 8: {
                bool q = r.chance(0.5); p.act = 6; p.query = q; bool hb = false;
                auto fill = [&](auto* m) { name_tx(m, p, bad); auto e = p.expect; auto cd = p.code; name_st(m, p, hb, q); if (bad) { p.expect = 0; p.code = cd == sql_execution || hb ? any_error : e == 0 ? any_error : cd; } else if (e == 2 && p.expect == 1) p.expect = 2; add_params(m, C.odd); if (C.odd > 0) p.code = any_error; };
                if (q) { fill(p.r.mutable_execute_prepared_query()); p.rcase = Response::kResultOnly; } else { fill(p.r.mutable_execute_prepared_statement()); p.rcase = Response::kExecuteResult; }
                p.what = q ? "prepared query" : "prepared statement";
                if (bad) { if (p.sti >= 0 && !C.store) p.expect = 0; break; }
                if (hb) break;
                if (p.expect == 2) break;
                auto& s = st[p.sti];
                if (C.odd > 0) { p.expect = 2; }                   // parameters can be unusable
                if (q && !s.query) { p.expect = 0; p.code = any_error; break; }
                if (tx[p.txi].st == 1) { p.expect = 0; p.code = any_error; break; }
                if (tx[p.txi].type == 3 && !s.query) { p.expect = 2; break; }
                if (!q && s.query) { p.expect = 2; break; }
                if (C.lenient || C.clients > 1 || tx[p.txi].type == 2) p.expect = 2;
                break; }
            case 9: case 10: {
                p.act = 9; p.what = "commit"; p.rcase = Response::kResultOnly; auto* m = p.r.mutable_commit(); name_tx(m, p, bad);
                if (r.chance(0.5)) m->set_notification_type(static_cast<pr::request::CommitStatus>(r.chance(C.odd) ? static_cast<int>(r.below(50)) : std::vector<int>{0, 10, 20, 30, 40}[r.below(5)]));
                if (r.chance(0.2)) { auto* o = m->mutable_option(); o->set_auto_dispose(r.chance(0.3)); o->set_notification_type(pr::request::STORED); } else if (r.chance(0.2)) m->set_auto_dispose(true);
                p.query = m->has_option() ? m->option().auto_dispose() : m->auto_dispose();
                if (bad || p.expect == 2) break;
                if (tx[p.txi].st == 1) { p.expect = 0; p.code = any_error; break; }
                if (C.lenient || C.clients > 1) p.expect = 2;
                break; }
            case 11: { p.act = 11; p.what = "rollback"; p.rcase = Response::kResultOnly; auto* m = p.r.mutable_rollback(); name_tx(m, p, bad); break; }
            case 12: { p.act = 12; p.what = "dispose transaction"; p.rcase = Response::kResultOnly; auto* m = p.r.mutable_dispose_transaction(); name_tx(m, p, bad); if (bad && p.code == tx_not_found) p.expect = 1; break; }
            case 13: { p.act = 13; p.what = "dispose statement"; p.rcase = Response::kResultOnly; auto* m = p.r.mutable_dispose_prepared_statement(); name_st(m, p, bad, false); if (bad && (p.code == stmt_not_found || p.expect == 2)) p.expect = 1; break; }
            case 14: { p.what = "explain"; p.rcase = Response::kExplain; auto* m = p.r.mutable_explain(); name_st(m, p, bad, false); add_params(m, C.odd); if (C.odd > 0) p.code = any_error; if (!bad && p.expect == 1 && C.odd > 0) p.expect = 2; break; }
            case 15: {
                p.what = "explain text"; p.rcase = Response::kExplain; auto* m = p.r.mutable_explain_by_text();
                if (r.chance(C.odd)) { p.expect = 0; p.code = any_error; if (r.chance(0.7)) { m->set_sql(bad_s[r.below(std::size(bad_s))]); if (m->sql().substr(0, 4) == "DROP" || m->sql().substr(0, 6) == "CREATE") p.expect = 2; } break; }
                m->set_sql(r.chance(0.5) ? good_q[r.below(std::size(good_q))] : good_s[r.below(std::size(good_s))]); p.what += std::string(" ") + m->sql(); break; }
            case 16: {
                p.what = "extract"; p.rcase = Response::kExtractStatementInfo; auto* m = p.r.mutable_extract_statement_info(); m->set_session_id(r.chance(0.8) ? c.s->info.n : r.below(10));
                p.expect = 2;
                if (r.chance(0.3)) { if (r.chance(0.3)) { p.expect = 0; p.code = sql_execution; } else m->set_payload(junk(40)); break; }
                Request in; bool b2 = false; Plan q; if (r.chance(0.5)) { in.mutable_execute_statement()->set_sql("SELECT 1"); name_tx(in.mutable_execute_statement(), q, b2); } else { name_tx(in.mutable_execute_prepared_query(), q, b2); name_st(in.mutable_execute_prepared_query(), q, b2, true); }
                std::string s; in.SerializeToString(&s); if (r.chance(C.odd)) s = s.substr(0, r.below(s.size() + 1)); if (s.empty()) { p.expect = 0; p.code = sql_execution; } m->set_payload(s); break; }
            case 17: { p.what = "describe"; p.rcase = Response::kDescribeTable; auto* m = p.r.mutable_describe_table(); if (r.chance(0.6)) m->set_name(r.chance(0.5) ? "t0" : "w0"); else { p.expect = 0; p.code = any_error; m->set_name(r.chance(0.5) ? "nosuch" : text(5)); } break; }
            case 18: { p.what = "list tables"; p.rcase = Response::kListTables; p.r.mutable_listtables(); break; }
            case 19: { p.what = "search path"; p.rcase = Response::kGetSearchPath; p.r.mutable_getsearchpath(); break; }
            case 20: { p.act = 20; p.what = "error info"; p.rcase = Response::kGetErrorInfo; name_tx(p.r.mutable_get_error_info(), p, bad); break; }
            case 21: { p.act = 21; p.what = "transaction status"; p.rcase = Response::kGetTransactionStatus; name_tx(p.r.mutable_get_transaction_status(), p, bad); break; }
            case 22: {
                p.act = 22; p.what = "lob"; p.rcase = Response::kGetLargeObjectData; auto* m = p.r.mutable_get_large_object_data(); p.expect = 0; p.code = any_error;
                if (r.chance(0.2)) { name_tx(m, p, bad); p.txi = -1; p.expect = 0; p.code = sql_execution; break; }        // no reference
                auto* x = m->mutable_reference(); x->set_object_id(r.below(5)); x->set_provider(static_cast<jogasaki::proto::sql::common::LargeObjectProvider>(r.below(4))); x->set_reference_tag(r.next());
                name_tx(m, p, bad); p.expect = 0; p.code = any_error; break; }
            default: {
                p.act = 23; p.expect = 3; auto k = r.below(6); p.what = "malformed"; p.code = any_error;
                if (k == 0) p.r.mutable_batch(); else if (k == 1) { p.raw = junk(60) + "\xff\xff"; p.use_raw = true; p.expect = 3; } else if (k == 2) { p.r.mutable_getsearchpath(); p.r.set_service_message_version_major(r.chance(0.5) ? 1 : 3); p.r.SerializeToString(&p.raw); p.use_raw = true; }
                else if (k == 3) { p.use_raw = true; }               // empty payload
                else if (k == 4) { p.what = "dump"; p.rcase = Response::kResultOnly; p.expect = 0; auto* m = p.r.mutable_execute_dump(); name_tx(m, p, bad); if (p.txi >= 0) p.txi = -1; m->mutable_prepared_statement_handle()->set_handle(7777); p.expect = 0; p.code = any_error; m->set_directory("/nonexistent/x"); }
                else { p.what = "load"; p.rcase = Response::kExecuteResult; p.expect = 0; p.code = any_error; auto* m = p.r.mutable_execute_load(); if (r.chance(0.5)) { name_tx(m, p, bad); p.txi = -1; } p.expect = 0; p.code = any_error; m->mutable_prepared_statement_handle()->set_handle(7777); m->add_file("/nonexistent/x"); }
                break; }
        }
        if (bad2) {}
        return p;
    }
    std::shared_ptr<Resp> send(Plan& p) {
        if (!p.use_raw) return c.e.send(c.s, p.r, p.what);
        auto q = std::make_shared<Req>(); auto w = std::make_shared<Resp>();
        { sim::NoPreempt g; q->s = c.s; q->local = c.s->next++; q->bytes = p.raw; w->what = p.what; w->call = sim::seq(); c.e.all.push_back(w); }
        (*c.e.svc)(q, w);
        return w;
    }
    void settle(Plan& p, std::shared_ptr<Resp> const& w, bool exact) {
        sim::NoPreempt g; auto e = Engine::error_of(*w); static char nm[64];
        if (p.expect == 3) { if (!w->errors && e.ok) sim::fail("malformed-accepted", "malformed request was answered with success (case %d)", static_cast<int>(w->r.response_case())); sim::probe("malformed"); return; }
        if (w->errors && p.expect == 1 && exact) sim::fail("diagnostics", "request '%s' was answered with diagnostics '%s'", p.what.c_str(), w->diag.message().c_str());
        if (p.rcase && !w->errors && w->r.response_case() != p.rcase && !(p.rcase == Response::kExecuteResult && w->r.response_case() == Response::kResultOnly && !e.ok)) sim::fail("wrong-reply", "request '%s' was answered with a response of case %d", p.what.c_str(), static_cast<int>(w->r.response_case()));
        snprintf(nm, sizeof nm, "act%d_%s", p.act, e.ok ? "ok" : "err"); sim::probe(strdup(nm));
        if (!e.ok && e.code == 0) sim::fail("error-without-code", "request '%s' failed without an error code: %s", p.what.c_str(), e.detail.c_str());
        if (e.ok && p.query && (p.act == 3 || p.act == 6)) { if (!w->heads) sim::fail("no-head", "query '%s' succeeded without a body head", p.what.c_str()); (void)w->rows(); }
        if (exact) {
            bool ltx = false; for (auto& t : tx) ltx |= t.type != 1;
            if (p.expect == 1 && !e.ok && e.code >= 200 && e.code < 300 && ltx) { exact = false; }   // the client's own transactions can conflict
            else if (p.expect == 1 && !e.ok && !(C.lenient && p.act != 11 && p.act != 12 && p.act != 13 && p.act != 20 && p.act != 21 && p.act < 17)) sim::fail("refused", "request '%s' (valid handles and arguments) failed with %d %s", p.what.c_str(), e.code, e.detail.c_str());
            if (p.expect == 0 && e.ok) sim::fail("accepted", "request '%s' succeeded, error %d expected", p.what.c_str(), p.code);
            if (p.expect == 0 && !e.ok && p.code != any_error && e.code != p.code && !(C.chan && e.code == 27)) sim::fail("wrong-error", "request '%s' failed with %d %s, %d expected", p.what.c_str(), e.code, e.detail.c_str(), p.code);
        }
        if (p.act == 0 && e.ok) { TxH t; t.h = w->r.begin().success().transaction_handle().handle(); t.type = -2 - p.sti; if (t.type < 1 || t.type > 3) t.type = 1; if (!t.h) sim::fail("null-handle", "begin gave a null handle"); for (auto& [n, h] : all_tx) if (h == t.h) sim::fail("handle-reused", "begin gave transaction handle %llu a second time", (unsigned long long)t.h); tx.push_back(t); all_tx.emplace_back(no, t.h); if (p.expect == 2) tx.back().vague = true; }
        if (p.act == 1 && e.ok) { StH s; s.h = w->r.prepare().prepared_statement_handle().handle(); s.query = p.query; s.form = -10 - p.sti; if (!s.h) sim::fail("null-handle", "prepare gave a null handle"); for (auto& x : st) if (exact && !x.gone && !x.vague && x.h == s.h) sim::fail("handle-reused", "prepare gave the handle of a statement that is still alive"); if (exact && w->r.prepare().prepared_statement_handle().has_result_records() != p.query && p.expect == 1) sim::fail("wrong-kind", "prepared '%s': has_result_records is %d", p.what.c_str(), !p.query); if (p.expect == 2) s.vague = true; st.push_back(s); all_st.emplace_back(no, s.h); }
        if (p.act == 18 && e.ok && exact) { std::set<std::string> got; for (auto& n : w->r.list_tables().success().table_path_names()) { std::string s; for (auto& i : n.identifiers()) s += (s.empty() ? "" : ".") + i.label(); got.insert(s); } if (got != tables) { std::string s; for (auto& t : got) s += " " + t; sim::fail("wrong-tables", "list tables gave%s", s.c_str()); } }
        if (p.act == 17 && e.ok && exact) { if (w->r.describe_table().success().columns_size() != (p.r.describe_table().name() == "t0" ? 3 : 9)) sim::fail("wrong-columns", "describe %s gave %d columns", p.r.describe_table().name().c_str(), w->r.describe_table().success().columns_size()); }
        if (p.txi < 0 && p.act != 13) return;
        if (p.act == 13) { if (p.sti >= 0) { if (e.ok) { for (auto& s : st) if (s.h == st[p.sti].h) { s.gone = true; if (!exact) s.vague = true; } } if (!exact) st[p.sti].vague = true; } return; }
        auto& t = tx[p.txi];
        if (!exact) { t.vague = true; }
        if (p.act == 12 && e.ok) t.st = 2;
        else if (t.st < 2) {
            if (p.act == 9) { t.st = 1; if (e.ok && p.query) t.st = 2; if (!e.ok && p.query) t.vague = true; }
            else if (p.act == 11) t.st = 1;
            else if (p.act == 22 && !e.ok) t.st = 1;
            else if ((p.act == 3 || p.act == 6) && !e.ok) { if (t.st == 0) t.vague = true; }
        }
        if (p.act == 21 && e.ok && exact && !t.vague) {
            auto s = w->r.get_transaction_status().success().status(); using S = pr::response::TransactionStatus;
            bool end = s == S::ABORTED || s == S::STORED || s == S::AVAILABLE || s == S::COMMITTING || s == S::ABORTING;
            if (t.st == 0 && s != S::RUNNING) sim::fail("wrong-status", "an active transaction has status %d", static_cast<int>(s));
            if (t.st == 1 && !end) sim::fail("wrong-status", "an ended transaction has status %d", static_cast<int>(s));
        }
    }
    void step() {
        auto& r = sim::wl(); sim::NoPreempt* np = new sim::NoPreempt;
        bool burst = r.chance(C.clients > 1 ? 0.3 : 0.2); auto n = burst ? 2 + r.below(5) : 1; std::vector<Plan> ps; for (u64 i = 0; i < n; ++i) ps.push_back(plan());
        bool threads = burst && r.chance(0.4) && spawned + static_cast<int>(ps.size()) < 90; if (threads) spawned += static_cast<int>(ps.size()); bool cancel = C.cancel && r.chance(0.3);
        delete np;
        if (!burst) { auto w = send(ps[0]); if (cancel) Q((w->cancel = true)); Engine::wait(w); settle(ps[0], w, !C.cancel); return; }
        sim::probe("burst");
        std::vector<std::shared_ptr<Resp>> ws(ps.size());
        if (threads) { vh::Threads th; for (std::size_t i = 0; i < ps.size(); ++i) th.go([&, i] { auto w = send(ps[i]); Q((ws[i] = w)); }); th.join(); }
        else for (std::size_t i = 0; i < ps.size(); ++i) { auto w = send(ps[i]); Q((ws[i] = w)); }
        if (cancel) for (auto& w : ws) Q((w->cancel = true));
        for (auto& w : ws) Engine::wait(w);
        for (std::size_t i = 0; i < ps.size(); ++i) settle(ps[i], ws[i], false);
        // what the burst left of its transactions: not known
        sim::NoPreempt g; for (auto& p : ps) { if (p.txi >= 0) tx[p.txi].vague = true; if (p.sti >= 0 && p.act == 13) st[p.sti].vague = true; }
    }
    // ends the session; every handle becomes invalid
    void end() {
        sim::probe("session_end");
        if (C.store) { c.s->store.dispose(); }
        else {
            for (std::size_t i = 0; i < tx.size(); ++i) if (Q(tx[i].st < 2 || tx[i].vague)) { Tx t; t.h = tx[i].h; c.dispose(t); }
            for (std::size_t i = 0; i < st.size(); ++i) if (Q(!st[i].gone || st[i].vague)) { Request q; Q((q.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(st[i].h), 0)); c.call(q, "dispose statement"); }
        }
        if (!C.store || tx.empty()) return;
        Tx t; t.h = tx[0].h; auto q = Client::status_req(t); c.call(q, "status after the session ended");
        if (c.last.ok) sim::fail("handle-outlives-session", "a transaction handle still works after its session ended");
    }
};
void run() {
    tables.clear(); all_tx.clear(); all_st.clear(); spawned = 0; rules = {}; auto& g = sim::cfg();
    bool p16 = !strcmp(sim::property(), "C16");
    C.store = g.chance(p16 ? 0.8 : 0.6); C.chan = g.chance(p16 ? 0 : 0.15); C.cancel = g.chance(p16 ? 0 : 0.15); C.clients = static_cast<int>(1 + g.below(3)); C.steps = static_cast<int>(10 + g.below(30)); C.odd = g.chance(0.2) ? 0 : 0.1 * static_cast<double>(1 + g.below(4));
    bool faults = g.chance(p16 ? 0.15 : 0.25); C.lenient = C.chan || C.cancel || faults;
    static Blobs blobs; blobs = Blobs{}; kv::reset(); kv::set_datastore(static_cast<limestone::api::datastore*>(&blobs)); auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(200 + g.below(3000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.5) ? 0.5 : 0;
    for (auto k : {sim::f_durable_delay, sim::f_callback_delay}) if (g.chance(0.5)) sim::fault_enable(k);
    if (g.chance(0.15)) sim::fault_enable(sim::f_stall);
    sim::set_stall_max(5'000'000);
    if (g.chance(0.3)) sim::fault_enable(sim::f_spurious_wakeup);
    sim::set_step_limit(20000000, true);
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt q; return static_cast<std::size_t>(sim::wl().below(n)); };
    Engine e; auto& c = *e.cfg;
    c.thread_pool_size(1 + g.below(4)); c.default_partitions(1 + g.below(4)); c.inplace_teardown(g.chance(0.5)); c.inplace_dag_schedule(g.chance(0.5)); c.enable_hybrid_scheduler(g.chance(0.7)); c.lightweight_job_level(g.chance(0.5) ? 0 : 100);
    c.enable_session_store(C.store); c.direct_commit_callback(g.chance(0.3)); c.profile_commits(g.chance(0.4)); c.max_result_set_writers(g.chance(0.5) ? 64 : 1 + g.below(3)); c.scan_default_parallel(1 + g.below(4)); c.stealing_enabled(g.chance(0.7));
    c.key_distribution(g.chance(0.5) ? jogasaki::key_distribution_kind::uniform : jogasaki::key_distribution_kind::simple); c.plan_recording(g.chance(0.5));
    if (C.cancel) { auto k = std::make_shared<jogasaki::request_cancel_config>(); for (auto x : {jogasaki::request_cancel_kind::write, jogasaki::request_cancel_kind::scan, jogasaki::request_cancel_kind::find, jogasaki::request_cancel_kind::group, jogasaki::request_cancel_kind::transaction_begin_wait, jogasaki::request_cancel_kind::transaction_precommit}) if (g.chance(0.7)) k->enable(x); c.req_cancel_config(k); }
    if (auto rc = e.start(); rc != jogasaki::status::ok) sim::fail("start", "start failed with status %d", static_cast<int>(rc));
    {
        Client k(e, 99); auto ddl = [&](std::string s) { if (!k.ddl(s)) sim::fail("ddl", "'%s' failed: %d %s", s.c_str(), k.last.code, k.last.detail.c_str()); };
        for (auto* n : {"t0", "t1"}) { ddl(std::string("CREATE TABLE ") + n + " (k INT PRIMARY KEY, v BIGINT, s VARCHAR(*))"); tables.insert(n); }
        ddl("CREATE TABLE w0 (k INT PRIMARY KEY, d DECIMAL(20,2), f DOUBLE, c CHAR(5), b VARBINARY(10), dt DATE, tm TIME, ts TIMESTAMP, r REAL)"); tables.insert("w0");
        ddl("CREATE INDEX i0 ON t0 (v)");
        if (C.store) k.s->store.dispose();
    }
    if (faults) { o.conflict = g.chance(0.5) ? 0.1 : 0; o.io_error = g.chance(0.4) ? 0.02 : 0; o.begin_fail = g.chance(0.4) ? 0.05 : 0; for (auto k : {sim::f_kvs_conflict, sim::f_kvs_io, sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k); }
    o.concurrent_op = g.chance(0.3) ? 0.2 : 0; if (o.concurrent_op > 0) { sim::fault_enable(sim::f_kvs_conflict); C.lenient = true; }
    if (C.chan) { rules.channel_faults = true; sim::fault_enable(sim::f_channel); }
    vh::Threads th;
    for (int i = 0; i < C.clients; ++i) th.go([&e, i] { int id = i; for (int life = 0; life < 2; ++life) { Cl cl(e, id); for (int k = 0; k < C.steps / 2; ++k) cl.step(); cl.end(); id += 10; } });
    th.join();
    sim::faults_stop();
    for (auto& p : e.all) Engine::wait(p);
    sim::wait_until([] { return kv::open_transactions() == 0; }, "transactions of ended sessions to be given back");
    if (kv::leaked_handles()) sim::fail("kvs-handle-leak", "%d transaction handles were not released", kv::leaked_handles());
    if (auto n = e.db->transaction_count()) sim::fail("transactions-left", "%zu transactions are still held after all sessions ended", n);
    if (auto rc = e.stop(); rc != jogasaki::status::ok) sim::fail("stop", "stop failed with status %d", static_cast<int>(rc));
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbreq", nullptr, run}; }
