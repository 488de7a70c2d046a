// Reference model of one table t(k INT PRIMARY KEY, v BIGINT, s VARCHAR(*)) and the statements the clients run on it.
#pragma once
#include "engine.h"
namespace tmod {
using namespace eng;
struct R { bool vn{}; long long v{}; bool sn{}; std::string s; bool operator==(R const& o) const { return vn == o.vn && v == o.v && sn == o.sn && s == o.s; } };
using State = std::map<long long, R>;
enum Kind { ins, ins_replace, ins_ignore, upd_key, upd_range, upd_pk, del_key, del_range, sel_key, sel_range, sel_all, sel_agg, sel_idx, sel_order, sel_group, k_count };
struct Stmt {
    int kind{}; int table{}; long long a{}, b{}, d{}; bool vn{}; std::string s; bool sn{}; bool prepared{};
    // result
    bool sent{}, done{}, ok{}; int code{}; long long count{}; std::vector<Row> rows; bool fuzzy{};   // fuzzy: other statements of the transaction ran at the same time
    bool write() const { return kind <= del_range; }
};
inline std::string lit(std::string const& s) { std::string r = "'"; for (char c : s) { r += c; if (c == '\'') r += c; } return r + "'"; }
inline std::string sql(Stmt const& m) {
    auto n = [](long long x) { return std::to_string(x); };
    std::string t = "t" + n(m.table), vals = "(" + n(m.a) + ", " + (m.vn ? "NULL" : n(m.d)) + ", " + (m.sn ? "NULL" : lit(m.s)) + ")";
    std::string rng = " WHERE k >= " + n(m.a) + " AND k <= " + n(m.b);
    switch (m.kind) {
        case ins: return "INSERT INTO " + t + " VALUES " + vals;
        case ins_replace: return "INSERT OR REPLACE INTO " + t + " VALUES " + vals;
        case ins_ignore: return "INSERT OR IGNORE INTO " + t + " VALUES " + vals;
        case upd_key: return "UPDATE " + t + " SET v = " + n(m.d) + ", s = " + (m.sn ? "NULL" : lit(m.s)) + " WHERE k = " + n(m.a);
        case upd_range: return "UPDATE " + t + " SET v = v + " + n(m.d) + rng;
        case upd_pk: return "UPDATE " + t + " SET k = " + n(m.b) + " WHERE k = " + n(m.a);
        case del_key: return "DELETE FROM " + t + " WHERE k = " + n(m.a);
        case del_range: return "DELETE FROM " + t + rng;
        case sel_key: return "SELECT k, v, s FROM " + t + " WHERE k = " + n(m.a);
        case sel_range: return "SELECT k, v, s FROM " + t + rng;
        case sel_all: return "SELECT k, v, s FROM " + t;
        case sel_agg: return "SELECT count(*), sum(v), min(k), max(k) FROM " + t;
        case sel_idx: return "SELECT k, v, s FROM " + t + "@i" + n(m.table) + " WHERE v >= " + n(m.a) + " AND v <= " + n(m.b);
        case sel_order: return "SELECT k, v FROM " + t + " ORDER BY v DESC, k";
        case sel_group: return "SELECT v, count(*) FROM " + t + " GROUP BY v";
    }
    return "";
}
inline Row row(long long k, R const& r) { return {Val::of(k), r.vn ? Val::null() : Val::of(r.v), r.sn ? Val::null() : Val::str(r.s)}; }
// expected result of a statement on st; changes st. dup: a unique constraint is violated
struct Exp { bool dup{}; long long count{}; std::vector<Row> rows; bool ordered{}; };
inline Exp step(State& st, Stmt const& m) {
    Exp e; R r{m.vn, m.vn ? 0 : m.d, m.sn, m.sn ? "" : m.s};
    auto inr = [&](long long k) { return k >= m.a && k <= m.b; };
    switch (m.kind) {
        case ins: if (st.count(m.a)) { e.dup = true; break; } st[m.a] = r; e.count = 1; break;
        case ins_replace: st[m.a] = r; e.count = 1; break;
        case ins_ignore: if (!st.count(m.a)) { st[m.a] = r; e.count = 1; } break;
        case upd_key: if (auto i = st.find(m.a); i != st.end()) { i->second.vn = false; i->second.v = m.d; i->second.sn = m.sn; i->second.s = m.sn ? "" : m.s; e.count = 1; } break;
        case upd_range: for (auto& [k, x] : st) if (inr(k)) { if (!x.vn) x.v += m.d; ++e.count; } break;
        case upd_pk: if (auto i = st.find(m.a); i != st.end()) { e.count = 1; if (m.a == m.b) break; if (st.count(m.b)) { e.dup = true; break; } R x = i->second; st.erase(i); st[m.b] = x; } break;
        case del_key: e.count = static_cast<long long>(st.erase(m.a)); break;
        case del_range: for (auto i = st.begin(); i != st.end();) if (inr(i->first)) { i = st.erase(i); ++e.count; } else ++i; break;
        case sel_key: if (auto i = st.find(m.a); i != st.end()) e.rows.push_back(row(i->first, i->second)); break;
        case sel_range: for (auto& [k, x] : st) if (inr(k)) e.rows.push_back(row(k, x)); break;
        case sel_all: for (auto& [k, x] : st) e.rows.push_back(row(k, x)); break;
        case sel_agg: { long long s = 0, c = 0; bool any = false; for (auto& [k, x] : st) { ++c; if (!x.vn) { s += x.v; any = true; } }
            e.rows.push_back({Val::of(c), any ? Val::of(s) : Val::null(), st.empty() ? Val::null() : Val::of(st.begin()->first), st.empty() ? Val::null() : Val::of(st.rbegin()->first)}); break; }
        case sel_idx: for (auto& [k, x] : st) if (!x.vn && x.v >= m.a && x.v <= m.b) e.rows.push_back(row(k, x)); break;
        case sel_order: { std::vector<std::tuple<int, long long, long long>> v; for (auto& [k, x] : st) v.emplace_back(x.vn ? 1 : 0, x.vn ? 0 : -x.v, k); std::sort(v.begin(), v.end());
            for (auto& [n, x, k] : v) e.rows.push_back({Val::of(k), n ? Val::null() : Val::of(-x)}); e.ordered = true; break; }
        case sel_group: { std::map<std::pair<int, long long>, long long> g; for (auto& [k, x] : st) ++g[{x.vn, x.vn ? 0 : x.v}]; for (auto& [v, n] : g) e.rows.push_back({v.first ? Val::null() : Val::of(v.second), Val::of(n)}); break; }
    }
    return e;
}
inline bool same_rows(std::vector<Row> got, std::vector<Row> want, bool ordered) { if (!ordered) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); } return got == want; }
inline std::string show(std::vector<Row> const& v) { std::string s; for (auto& r : v) { s += eng::show(r); if (s.size() > 300) { s += "..."; break; } } return s.empty() ? "(no rows)" : s; }
// empty: the result m carries is what the state gives
inline std::string check(State& st, Stmt const& m) {
    auto e = step(st, m);
    if (e.dup) return "should have violated the primary key";
    if (m.write()) { if (m.count != e.count) return "reported " + std::to_string(m.count) + " rows, should be " + std::to_string(e.count); return ""; }
    if (!same_rows(m.rows, e.rows, e.ordered)) return "returned " + show(m.rows) + " instead of " + show(e.rows);
    return "";
}
struct TxRec {
    std::string id; int type{1}; int client{}; std::vector<Stmt> st; bool commit_sent{}, acked{}, stored{}, commit_failed{}, rolled_back{}, disposed{}; u64 begin_ts{}; u64 ack_seq{}; u64 commit_seq{}; bool racy{}; u64 cts{};
};
// transfer over a crash
struct Out { std::string b; void u(u64 v) { b.append(reinterpret_cast<char*>(&v), 8); } void s(std::string const& x) { u(x.size()); b += x; } };
struct In { std::string const& b; std::size_t p{}; u64 u() { u64 v; std::memcpy(&v, b.data() + p, 8); p += 8; return v; } std::string s() { auto n = u(); auto r = b.substr(p, n); p += n; return r; } };
inline void save(Out& o, TxRec const& t) {
    o.s(t.id); o.u(t.type); o.u(eng::kv::commit_ts(t.id)); o.u(t.stored); o.u(t.acked); o.u(t.commit_sent); o.u(t.rolled_back); o.u(t.st.size());
    for (auto& m : t.st) { o.u(m.kind); o.u(m.table); o.u(m.a); o.u(m.b); o.u(m.d); o.u(m.vn); o.s(m.s); o.u(m.sn); o.u(m.sent); o.u(m.done); o.u(m.ok); o.u(m.fuzzy); o.u(static_cast<u64>(m.count)); }
}
inline TxRec load(In& i) {
    TxRec t; t.id = i.s(); t.type = static_cast<int>(i.u()); t.cts = i.u(); t.stored = i.u(); t.acked = i.u(); t.commit_sent = i.u(); t.rolled_back = i.u(); auto n = i.u();
    while (n--) { Stmt m; m.kind = static_cast<int>(i.u()); m.table = static_cast<int>(i.u()); m.a = static_cast<long long>(i.u()); m.b = static_cast<long long>(i.u()); m.d = static_cast<long long>(i.u()); m.vn = i.u(); m.s = i.s(); m.sn = i.u(); m.sent = i.u(); m.done = i.u(); m.ok = i.u(); m.fuzzy = i.u(); m.count = static_cast<long long>(i.u()); t.st.push_back(m); }
    return t;
}
} // namespace tmod
