// Schema changes next to running transactions on the whole engine, with crashes and restarts: table locks, what statements see of which
// generation of a table, deferred deletion of storages, generated identity values, and the catalog that comes back after a crash.
#include "engine.h"
#include <jogasaki/executor/global.h>
#include <jogasaki/storage/maintenance_storage.h>
using namespace eng;
namespace {
constexpr u64 inf = ~u64(0);
enum Kind { ins, sel, selidx, del, create, drop, trunc, trunc_restart, mkidx, rmidx, list, describe };
char const* const kname[] = {"insert", "select", "select by index", "delete", "create table", "drop table", "truncate", "truncate restart", "create index", "drop index", "list tables", "describe"};
struct Ident { long long start{1}, inc{1}, lo{1}, hi{inf >> 1}; bool cycle{true}; bool plain{true};
    std::string sql() const { std::string s = "GENERATED BY DEFAULT AS IDENTITY"; if (plain) return s; auto n = [](long long v) { return std::to_string(v); }; return s + " (START " + n(start) + " INCREMENT " + n(inc) + " MINVALUE " + n(lo) + " MAXVALUE " + n(hi) + (cycle ? " CYCLE)" : ")"); }
    bool operator==(Ident const& o) const { return start == o.start && inc == o.inc && lo == o.lo && hi == o.hi && cycle == o.cycle; } };
// a table layout: 0 k primary key; 1 identity column, v primary key; 2 no primary key; 3 identity primary key
struct Shape { int s{}; Ident id; bool seq() const { return s != 0; } bool ident() const { return s == 1 || s == 3; } };
struct Op {   // one statement as the client saw it
    int kind{}, name{}, tx{-1}, life{}; Shape sh; long long v{}, key{}; u64 plan{}, call{}, ret{inf}; bool answered{}, ok{}; int code{}; std::string detail; std::vector<std::pair<long long, long long>> rows; bool group{}, prepared{}; bool ddl() const { return kind >= create && kind <= rmidx; }
    std::vector<std::string> names;
};
struct TxR { int life{}, client{}, type{1}; u64 bcall{}, bret{}, ecall{inf}, eret{inf}; bool commit{}, acked{}, stored{}, failed{}, refused{}; std::string id; };
struct Gen {   // one generation of a table: from a create, truncate or recovery to the next drop or truncate
    int name{}; Shape sh; u64 cb{}, ce{}, eb{inf}, ee{inf}; int by{-1}, end{-1}; int root{-1}; bool unsure{};   // unsure: the contents from an earlier life are not known exactly
    std::set<long long> base; bool restart{true}; bool broken{};   // base: rows known to be there at the start of this life; broken: its identity may be unusable
};
struct Idx { int name{}; u64 cb{}, ce{}, eb{inf}, ee{inf}; };
struct Hist { std::vector<Op> ops; std::vector<TxR> txs; std::vector<Gen> start_gens; std::vector<std::pair<int, int>> start_idx; std::set<long long> gone, odd; std::map<long long, int> where; } H;
u64 now_seq() { return (static_cast<u64>(sim::phase()) << 40) + sim::seq(); }
struct Conf { int clients, txs, names; bool faults, maint, crash; double ddl, stale; bool plain_ids; } C;
long long next_v;
std::string T(int n) { return "t" + std::to_string(n); }
bool seq_prop() { return !strcmp(sim::property(), "C06"); }

std::string sql(Op const& o) {
    auto n = [](long long x) { return std::to_string(x); }; auto t = T(o.name);
    switch (o.kind) {
        case ins: return o.sh.s == 0 ? "INSERT INTO " + t + " (k, v, w) VALUES (" + n(o.v) + ", " + n(o.v) + ", " + n(o.v % 5) + ")" : "INSERT INTO " + t + " (v, w) VALUES (" + n(o.v) + ", " + n(o.v % 5) + ")";
        case sel: return o.sh.ident() ? "SELECT v, id FROM " + t : "SELECT v FROM " + t;
        case selidx: return "SELECT v FROM " + t + "@i" + n(o.name) + " WHERE w >= 0 AND w <= 100";
        case del: return "DELETE FROM " + t + " WHERE " + (o.sh.s == 0 ? "k" : "v") + " = " + n(o.v);
        case create: switch (o.sh.s) { case 0: return "CREATE TABLE " + t + " (k BIGINT PRIMARY KEY, v BIGINT, w INT)"; case 1: return "CREATE TABLE " + t + " (id BIGINT " + o.sh.id.sql() + ", v BIGINT PRIMARY KEY, w INT)"; case 2: return "CREATE TABLE " + t + " (v BIGINT, w INT)"; default: return "CREATE TABLE " + t + " (id BIGINT " + o.sh.id.sql() + " PRIMARY KEY, v BIGINT, w INT)"; }
        case drop: return "DROP TABLE " + t;
        case trunc: return "TRUNCATE TABLE " + t;
        case trunc_restart: return "TRUNCATE TABLE " + t + " RESTART IDENTITY";
        case mkidx: return "CREATE INDEX i" + n(o.name) + " ON " + t + " (w)";
        case rmidx: return "DROP INDEX i" + n(o.name);
    }
    return kname[o.kind];
}
// ---------------------------------------------------------------- what happened, reconstructed from the history
struct World {
    std::vector<Gen> gens; std::vector<Idx> idx; std::vector<std::vector<int>> by;   // by[name] = generations
    // generations of a name that may have been current at some moment of [a,b]
    std::vector<int> possible(int name, u64 a, u64 b) const { std::vector<int> r; for (auto g : by[name]) if (gens[g].cb <= b && gens[g].ee >= a) r.push_back(g); return r; }
    int definite(int name, u64 a, u64 b) const { auto p = possible(name, a, b); if (p.size() != 1) return -1; auto& g = gens[p[0]]; return g.ce < a && g.eb > b ? p[0] : -1; }
    bool maybe_absent(int name, u64 a, u64 b) const { for (auto g : by[name]) if (gens[g].ce < a && gens[g].eb > b) return false; return true; }
};
u64 life_start(int l) { return static_cast<u64>(l) << 40; }
// schema changes of this life in an order in which each was possible
bool arrange(std::vector<int> const& ev, std::vector<char>& used, bool exists, std::vector<int>& out, std::size_t left) {
    if (!left) return true;
    u64 minret = inf; for (std::size_t i = 0; i < ev.size(); ++i) if (!used[i]) minret = std::min(minret, H.ops[ev[i]].ret);
    for (std::size_t i = 0; i < ev.size(); ++i) {
        if (used[i]) continue; auto& o = H.ops[ev[i]]; if (o.call > minret) continue;
        if ((o.kind == create) == exists) continue;
        used[i] = 1; out.push_back(ev[i]);
        if (arrange(ev, used, o.kind != drop, out, left - 1)) return true;
        used[i] = 0; out.pop_back();
    }
    return false;
}
World reconstruct(int life) {
    World w; w.by.resize(static_cast<std::size_t>(C.names));
    for (int n = 0; n < C.names; ++n) {
        int cur = -1;
        for (auto& g : H.start_gens) if (g.name == n) { cur = static_cast<int>(w.gens.size()); w.gens.push_back(g); w.by[n].push_back(cur); }
        std::vector<int> ev, order; for (int i = 0; i < static_cast<int>(H.ops.size()); ++i) { auto& o = H.ops[i]; if (o.life == life && o.name == n && o.ok && o.kind >= create && o.kind <= trunc_restart) ev.push_back(i); }
        std::vector<char> used(ev.size());
        if (!arrange(ev, used, cur >= 0, order, ev.size())) {
            std::string s; for (auto e : ev) s += std::string(s.empty() ? "" : ", ") + kname[H.ops[e].kind] + " [" + std::to_string(H.ops[e].call & 0xffffffffff) + "," + std::to_string(H.ops[e].ret & 0xffffffffff) + "]";
            sim::fail("schema-history", "table t%d: no order of the successful schema changes is possible: %s", n, s.c_str());
        }
        for (auto e : order) {
            auto& o = H.ops[e];
            if (cur >= 0) { w.gens[cur].eb = o.call; w.gens[cur].ee = o.ret; w.gens[cur].end = e; }
            if (o.kind == drop) { cur = -1; continue; }
            Gen g; g.name = n; g.cb = o.call; g.ce = o.ret; g.by = e;
            if (o.kind == create) g.sh = o.sh; else { g.sh = w.gens[cur].sh; g.restart = o.kind == trunc_restart; g.broken = w.gens[cur].broken; g.unsure = false; }
            g.root = o.kind == trunc && cur >= 0 ? cur : -1;
            cur = static_cast<int>(w.gens.size()); w.gens.push_back(g); w.by[n].push_back(cur);
        }
        // unanswered changes (crash): they may have happened at any time after their call
        for (auto& o : H.ops) if (o.life == life && o.name == n && !o.answered && o.kind >= create && o.kind <= trunc_restart) { if (cur >= 0 && o.kind != create) { w.gens[cur].eb = std::min(w.gens[cur].eb, o.call); w.gens[cur].ee = inf; } }
        // a change that failed half-way may have reset or removed the identity (DDL operations are not atomic)
        bool prev = false;
        for (auto gi : w.by[n]) {
            auto& g = w.gens[gi];
            for (auto& o : H.ops) if (o.life == life && o.name == n && !o.ok && (o.kind == drop || o.kind == trunc || o.kind == trunc_restart) && !(o.answered && (o.code == 2 || (o.code >= 100 && o.code < 200))) && o.call <= g.ee && o.ret >= g.cb) g.broken = true;
            if (prev && g.by >= 0 && H.ops[g.by].kind != create) g.broken = true;
            prev = g.broken;
        }
    }
    return w;
}
// a transaction may be over from its first failing statement on
u64 end_of(int tx) { u64 e = H.txs[tx].ecall; for (auto& o : H.ops) if (o.tx == tx && !o.ok) e = std::min(e, o.call); return e; }
bool cc_code(int c) { return c >= 200 && c < 300; }
// did any schema change touch this table (or hold it) at some moment of [a,b]?
bool schema_activity(int name, u64 a, u64 b, int except_tx = -1) {
    for (auto& o : H.ops) if (o.ddl() && o.name == name && o.tx != except_tx) {
        u64 e = o.ret; if (o.tx >= 0) e = std::max(e, H.txs[o.tx].eret); if (!o.answered) e = inf;
        if (o.life != static_cast<int>(a >> 40) && e != inf) e = o.ret;
        if (o.call <= b && e >= a) return true;
    }
    return false;
}
// a transaction that had written to the table was still open when an index was created on it: the table lock covers statements only
bool open_at_index(long long v, int name) {
    if (H.odd.count(v)) return true;
    for (auto& o : H.ops) if ((o.kind == ins || o.kind == del) && o.v == v && o.name == name && o.tx >= 0) for (auto& m : H.ops) if (m.kind == mkidx && m.name == name && m.life == o.life && m.tx != o.tx && o.call <= m.ret && H.txs[o.tx].eret >= (m.tx >= 0 && H.txs[m.tx].type == 2 ? H.txs[m.tx].bcall : m.call)) return true;   // a long transaction sees the table as it was at its start
    return false;
}
template<class S> void index_differs(char const* who, int name, S const& x, S const& y) {
    std::vector<long long> d; for (auto v : x) if (!y.count(v)) d.push_back(v); for (auto v : y) if (!x.count(v)) d.push_back(v);
    for (auto v : d) if (!open_at_index(v, name)) sim::fail("index-differs", "%s table t%d has %zu rows, its index %zu (row %lld is in one only)", who, name, x.size(), y.size(), v);
    if (!d.empty() && !seq_prop()) sim::fail("index-lacks-open-row", "%s row %lld, written by a transaction that was open while the index was created, is in one of table t%d and its index only", who, d[0], name);
}
void check_history() {
    int life = sim::phase();
    auto w = reconstruct(life);
    auto& ops = H.ops;
    // one side at a time: a statement that ran completely while another transaction held the table
    for (auto& d : ops) if (d.ddl() && d.ok && d.life == life && d.tx >= 0) {
        auto& dt = H.txs[d.tx]; u64 from = d.ret, to = end_of(d.tx);
        for (auto& o : ops) if (o.tx == d.tx && o.name == d.name && o.kind == drop && o.call > d.ret) to = std::min(to, o.call);   // the lock goes with the table
        for (auto& o : ops) if (o.life == life && o.ok && o.name == d.name && o.tx != d.tx && o.tx >= 0 && (o.kind <= del || o.ddl()) && o.call > from && o.ret < to) {
            if (d.kind == drop) { continue; }   // the dropped table is no longer what the name stands for
            sim::fail("lock-broken", "'%s' of %s ran while %s had changed the table by '%s' and was still open", sql(o).c_str(), H.txs[o.tx].id.c_str(), dt.id.c_str(), sql(d).c_str());
        }
    }
    // rows
    struct RowI { int op; int gen; bool sure; };   // gen: -1 unknown
    std::map<long long, RowI> row; std::map<long long, std::vector<int>> dels;
    for (int i = 0; i < static_cast<int>(ops.size()); ++i) { auto& o = ops[i]; if (o.life != life) continue;
        if (o.kind == ins) { RowI r{i, -1, false}; auto p = w.possible(o.name, o.call, o.ret); if (p.size() == 1) { r.gen = p[0]; r.sure = w.definite(o.name, o.call, o.ret) >= 0; } row[o.v] = r; }
        if (o.kind == del) dels[o.v].push_back(i); }
    for (auto& s : ops) {
        if (s.life != life || !s.ok || (s.kind != sel && s.kind != selidx)) continue;
        auto& st = H.txs[s.tx]; if (!(st.commit && st.acked)) continue;
        auto poss = w.possible(s.name, s.call, s.ret); int cur = w.definite(s.name, s.call, s.ret);
        if (poss.empty()) sim::fail("ghost-table", "'%s' of %s succeeded although the table did not exist", sql(s).c_str(), st.id.c_str());
        std::map<long long, int> seen; for (auto& [v, id] : s.rows) if (++seen[v] > 1) sim::fail("row-twice", "'%s' of %s returned row %lld twice", sql(s).c_str(), st.id.c_str(), v);
        bool stale = s.prepared && schema_activity(s.name, s.plan, s.ret);
        for (auto& [v, id] : s.rows) {
            bool isbase = false; for (auto g : poss) if (w.gens[g].base.count(v)) isbase = true;
            if (isbase) continue;
            auto i = row.find(v); if (i == row.end()) {
                bool un = false; for (auto g : poss) if (w.gens[g].unsure) un = true;
                if (un) continue;
                sim::fail("ghost-row", "'%s' of %s returned a row %lld that no statement of this life inserted and that was not there at its start", sql(s).c_str(), st.id.c_str(), v);
            }
            auto& o = ops[i->second.op];
            if (o.name != s.name) sim::fail("row-of-other-table", "'%s' of %s returned row %lld that was inserted into t%d", sql(s).c_str(), st.id.c_str(), v, o.name);
            if (o.answered && !o.ok) sim::fail("row-of-failed-insert", "'%s' of %s returned row %lld whose insert failed with %d", sql(s).c_str(), st.id.c_str(), v, o.code);
            if (o.tx != s.tx) { auto& ot = H.txs[o.tx]; if (!ot.commit || ot.ecall > s.ret || ot.refused) sim::fail("uncommitted-row", "'%s' of %s returned row %lld of %s, which had not committed", sql(s).c_str(), st.id.c_str(), v, ot.id.c_str()); }
            if (i->second.gen >= 0 && std::find(poss.begin(), poss.end(), i->second.gen) == poss.end()) sim::fail("row-of-old-table", "'%s' of %s returned row %lld that was inserted before the table was dropped or truncated", sql(s).c_str(), st.id.c_str(), v);
            for (auto d : dels[v]) { auto& x = ops[d]; if (x.name != s.name) continue; auto& xt = H.txs[x.tx]; if (o.tx == x.tx ? o.ret >= x.call : H.txs[o.tx].eret >= xt.bcall) continue; if (x.ok && ((x.tx == s.tx && x.ret < s.call) || (xt.commit && xt.acked && xt.eret < st.bcall))) sim::fail("deleted-row", "'%s' of %s returned row %lld that had been deleted", sql(s).c_str(), st.id.c_str(), v); }
        }
        if (cur < 0 || stale) continue;
        sim::probe("select_checked");
        auto need = [&](long long v, char const* why) { if (seen.count(v)) return; for (auto d : dels[v]) if (ops[d].name == s.name && !(ops[d].answered && !ops[d].ok)) return; if (schema_activity(s.name, s.call, s.ret)) return; if (s.kind == selidx && open_at_index(v, s.name)) { if (seq_prop()) return; sim::fail("index-lacks-open-row", "'%s' of %s did not return row %lld, written by a transaction that was open while the index was created", sql(s).c_str(), st.id.c_str(), v); } sim::fail("row-missing", "'%s' of %s did not return row %lld %s", sql(s).c_str(), st.id.c_str(), v, why); };
        for (auto v : w.gens[cur].base) need(v, "that was there after the restart");
        for (auto& [v, r] : row) {
            auto& o = ops[r.op]; if (o.name != s.name || !o.ok || r.gen != cur || !r.sure) continue;
            if (o.prepared && schema_activity(o.name, o.plan, o.ret)) continue;
            if (o.tx == s.tx) { if (o.ret < s.call) need(v, "that the same transaction had inserted"); continue; }
            auto& ot = H.txs[o.tx]; if (ot.commit && ot.acked && ot.eret < st.bcall) need(v, "that had been committed before");
        }
    }
    // the two ways to read a table give the same rows
    for (std::size_t i = 0; i < ops.size(); ++i) if (ops[i].life == life && ops[i].kind == sel && ops[i].ok) for (std::size_t j = 0; j < ops.size(); ++j) {
        auto &a = ops[i], &b = ops[j]; if (b.kind != selidx || b.tx != a.tx || b.name != a.name || !b.ok || a.group || b.group) continue;
        auto& t = H.txs[a.tx]; if (!(t.commit && t.acked)) continue;
        auto lo = std::min(a.call, b.call), hi = std::max(a.ret, b.ret);
        bool wrote = false; for (auto& o : ops) if (o.tx == a.tx && o.name == a.name && (o.kind == ins || o.kind == del) && o.call > lo && o.ret < hi) wrote = true;
        if (wrote || schema_activity(a.name, lo, hi)) continue;
        std::set<long long> x, y; for (auto& r : a.rows) x.insert(r.first); for (auto& r : b.rows) y.insert(r.first);
        sim::probe("index_compared");
        index_differs(("in " + t.id).c_str(), a.name, x, y);
    }
    // errors need a reason
    if (!C.faults) for (auto& o : ops) {
        if (o.life != life || !o.answered || o.ok || o.tx < 0) continue;
        auto& t = H.txs[o.tx];
        bool before = false; for (auto& q : ops) if (&q != &o && q.tx == o.tx && q.answered && !q.ok && q.call < o.ret) before = true;
        if (before || t.type != 1 || cc_code(o.code) || (o.group && t.failed)) continue;
        u64 a = o.prepared ? std::min(o.plan, o.call) : o.call;
        if (o.kind <= del) {
            if (schema_activity(o.name, a, o.ret)) continue;
            if (w.maybe_absent(o.name, a, o.ret)) continue;
            int g = w.definite(o.name, a, o.ret);
            if (o.kind == selidx && g >= 0) continue;   // the index may not exist
            if (g >= 0 && (w.gens[g].broken || w.gens[g].sh.s != o.sh.s)) continue;
            if (o.kind == ins && o.code == 9 && g >= 0 && w.gens[g].sh.ident() && !w.gens[g].sh.id.cycle) continue;   // judged with the identity values
            if (o.kind == ins && o.code == 4 && g >= 0 && w.gens[g].sh.s == 3 && w.gens[g].sh.id.cycle && !w.gens[g].sh.id.plain) continue;
            if (g < 0) continue;
            if (o.kind == del && open_at_index(o.v, o.name)) { if (seq_prop()) continue; sim::fail("index-lacks-open-row", "'%s' of %s failed with %d (%s): the row was written by a transaction that was open while the index was created", sql(o).c_str(), t.id.c_str(), o.code, o.detail.c_str()); }
            sim::fail("statement-refused", "'%s' of %s failed with %d (%s) although nothing changed the table", sql(o).c_str(), t.id.c_str(), o.code, o.detail.c_str());
        } else if (o.ddl()) {
            bool other = schema_activity(o.name, a, o.ret, o.tx);
            bool any = false; for (auto& q : ops) if (&q != &o && q.life == life && (q.name == o.name || q.ddl()) && q.call <= o.ret && q.ret >= a) any = true;
            if (other || any) continue;
            bool ltx = false; for (auto& q : H.txs) if (q.life == life && q.type == 2 && q.bcall <= o.ret && q.eret >= a) ltx = true;   // it may preserve the system tables
            if (ltx && o.sh.seq()) continue;
            bool absent = w.maybe_absent(o.name, a, o.ret); auto p = w.possible(o.name, a, o.ret);
            if (o.kind == create ? !p.empty() : absent) continue;
            if (o.kind == mkidx || o.kind == rmidx) continue;
            sim::fail("statement-refused", "'%s' of %s failed with %d (%s) although nothing stood against it", sql(o).c_str(), t.id.c_str(), o.code, o.detail.c_str());
        }
    }
    for (auto& o : ops) {
        if (o.life != life || !o.ok) continue;
        if (o.kind == list) for (int n = 0; n < C.names; ++n) {
            bool in = std::find(o.names.begin(), o.names.end(), T(n)) != o.names.end();
            if (in && w.possible(n, o.call, o.ret).empty() && !schema_activity(n, o.call, o.ret)) sim::fail("list-wrong", "the table list names t%d, which did not exist", n);
            if (!in && !w.maybe_absent(n, o.call, o.ret)) sim::fail("list-wrong", "the table list lacks t%d, which existed", n);
        }
        if (o.kind == describe && w.possible(o.name, o.call, o.ret).empty() && !schema_activity(o.name, o.call, o.ret)) sim::fail("describe-wrong", "t%d was described although it did not exist", o.name);
    }
    for (auto& o : ops) if (o.life == life && o.kind == describe && o.answered && !o.ok && !w.maybe_absent(o.name, o.call, o.ret) && !C.faults) sim::fail("describe-wrong", "describing t%d failed with %d although it existed", o.name, o.code);
    // identity values
    std::map<long long, long long> idof;
    for (auto& o : ops) if (o.life == life && o.kind == sel && o.ok && o.sh.ident()) {
        auto& t = H.txs[o.tx]; if (!(t.commit && t.acked)) continue;
        std::set<long long> ids; int g = w.definite(o.name, o.call, o.ret);
        for (auto& [v, id] : o.rows) {
            auto [i, fresh] = idof.emplace(v, id); if (!fresh && i->second != id) sim::fail("identity-changed", "row %lld has identity %lld and later %lld", v, i->second, id);
            if (g >= 0 && !(w.gens[g].sh.id.cycle && !w.gens[g].sh.id.plain) && !w.gens[g].broken && !ids.insert(id).second) sim::fail("identity-twice", "t%d has two rows with identity %lld", o.name, id);
        }
    }
    for (auto g0 : w.gens) (void)g0;
    for (int g = 0; g < static_cast<int>(w.gens.size()); ++g) {
        auto& G = w.gens[g]; if (!G.sh.ident() || G.broken) continue;
        auto& I = G.sh.id;
        // statements that may have drawn a value since the identity started
        int root = g; while (w.gens[root].root >= 0) root = w.gens[root].root;
        u64 from = w.gens[root].cb; bool fresh = w.gens[root].by >= 0;
        long long draws = 0; for (auto& o : ops) if (o.life == life && o.kind == ins && o.name == G.name && o.ret >= from) ++draws;
        std::vector<std::tuple<u64, u64, long long, long long>> seen;
        std::set<int> chain; for (int q = g; q >= 0; q = w.gens[q].root) chain.insert(q);     // a plain truncate keeps the identity going
        for (auto& [v, r] : row) if (chain.count(r.gen) && r.sure) { auto i = idof.find(v); if (i == idof.end()) continue; auto& o = ops[r.op]; if (o.prepared && schema_activity(o.name, o.plan, o.ret)) continue; seen.emplace_back(o.call, o.ret, i->second, v); }
        for (auto& [c, r, id, v] : seen) {
            if (id < I.lo || id > I.hi) sim::fail("identity-range", "row %lld of t%d has identity %lld outside %lld..%lld", v, G.name, id, I.lo, I.hi);
            long long base = I.start, d = id - base;
            if (!I.cycle || I.plain) {
                if (d % I.inc || (d / I.inc) < 0) sim::fail("identity-step", "row %lld of t%d has identity %lld, which is not on the way from %lld by %lld", v, G.name, id, I.start, I.inc);
                if (fresh && d / I.inc >= draws) sim::fail("identity-jump", "row %lld of t%d has identity %lld although only %lld values were drawn since the identity started at %lld", v, G.name, id, draws, I.start);
            }
        }
        if (!I.cycle || I.plain) for (auto& [c1, r1, id1, v1] : seen) for (auto& [c2, r2, id2, v2] : seen) if (r1 < c2 && (I.inc > 0 ? id2 < id1 + I.inc : id2 > id1 + I.inc)) sim::fail("identity-order", "t%d: row %lld got identity %lld, row %lld that was inserted later got %lld", G.name, v1, id1, v2, id2);
        if (I.cycle && !I.plain && fresh) {     // one value comes back only after all the others
            std::map<long long, long long> times; for (auto& [c, r, id, v] : seen) ++times[id];
            auto len = (static_cast<__int128>(I.hi) - I.lo) / (I.inc > 0 ? I.inc : -static_cast<__int128>(I.inc)) + 1;
            for (auto [id, n] : times) if (draws < 1 + (n - 1) * len) sim::fail("identity-cycle", "t%d: %lld rows have identity %lld although only %lld of %lld values per cycle were drawn", G.name, n, id, draws, static_cast<long long>(std::min<__int128>(len, inf >> 1)));
        }
        if (!seen.empty()) sim::probe("identity_checked");
        if (!I.cycle && fresh) for (auto& o : ops) if (o.life == life && o.kind == ins && o.answered && !o.ok && o.code == 9 && w.definite(o.name, o.call, o.ret) == g) {
            auto have = static_cast<long long>((I.inc > 0 ? static_cast<__int128>(I.hi) - I.start : static_cast<__int128>(I.start) - I.lo) / (I.inc > 0 ? I.inc : -I.inc)); if (have < static_cast<long long>(inf >> 1)) ++have;
            if (draws <= have) sim::fail("identity-exhausted", "insert into t%d failed with '%s' although only %lld of %lld values can have been drawn", o.name, o.detail.c_str(), draws, have);
            sim::probe("identity_ran_out");
        }
    }
}
// ---------------------------------------------------------------- clients
struct Belief { bool exists{}, idx{}; Shape sh; } B[8];   // what clients were told last; only steers the workload
struct Cl {
    Client c; int no; std::map<std::string, std::pair<u64, u64>> prep;
    Cl(Engine& e, int no) : c(e, static_cast<std::size_t>(no + 1)), no(no) {}
    int add(Op o) { sim::NoPreempt g; o.life = sim::phase(); H.ops.push_back(std::move(o)); return static_cast<int>(H.ops.size()) - 1; }
    Request request(Tx const& t, int i) {
        Op o; { sim::NoPreempt g; o = H.ops[i]; }
        if (!o.prepared) { auto r = o.kind == sel || o.kind == selidx ? Client::query_req(t, sql(o)) : Client::stmt_req(t, sql(o)); return r; }
        std::string q; { sim::NoPreempt g; q = o.kind == ins ? (o.sh.s == 0 ? "INSERT INTO " + T(o.name) + " (k, v, w) VALUES (:v, :v, :w)" : "INSERT INTO " + T(o.name) + " (v, w) VALUES (:v, :w)") : sql(o); }
        bool have; { sim::NoPreempt g; auto p = prep.find(q); have = p != prep.end() && sim::wl().chance(C.stale); }
        if (!have) {
            Request r; { sim::NoPreempt g; r.mutable_prepare()->set_sql(q); for (auto [n, ty] : {std::pair{"v", pr::common::INT8}, std::pair{"w", pr::common::INT4}}) if (o.kind == ins) { auto* x = r.mutable_prepare()->add_placeholders(); x->set_name(n); x->set_atom_type(ty); } }
            auto s = Q(now_seq()); bool ok = c.call(r, "prepare " + q);
            sim::NoPreempt g; if (!ok) { prep.erase(q); H.ops[i].prepared = false; return o.kind == sel || o.kind == selidx ? Client::query_req(t, sql(o)) : Client::stmt_req(t, sql(o)); }
            prep[q] = {c.resp->r.prepare().prepared_statement_handle().handle(), s};
        }
        sim::NoPreempt g; Request r; auto [h, s] = prep[q]; H.ops[i].plan = s; bool query = o.kind == sel || o.kind == selidx;
        auto fill = [&](auto* x) { x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(h); x->mutable_prepared_statement_handle()->set_has_result_records(query); if (o.kind == ins) { auto* p = x->add_parameters(); p->set_name("v"); p->set_int8_value(o.v); p = x->add_parameters(); p->set_name("w"); p->set_int4_value(static_cast<int>(o.v % 5)); } };
        if (query) fill(r.mutable_execute_prepared_query()); else fill(r.mutable_execute_prepared_statement());
        return r;
    }
    std::shared_ptr<Resp> start(Tx const& t, int i) { auto q = request(t, i); Q((H.ops[i].call = now_seq())); std::string s; { sim::NoPreempt g; s = sql(H.ops[i]) + " " + t.id; } return c.e.send(c.s, q, s); }
    void finish(std::shared_ptr<Resp> const& p, int i) {
        Engine::wait(p); sim::NoPreempt g; auto& o = H.ops[i]; auto e = Engine::error_of(*p);
        o.ret = (static_cast<u64>(sim::phase()) << 40) + p->done_at; o.answered = true; o.ok = e.ok; o.code = e.code; o.detail = e.detail;
        if (!e.ok) { sim::ev("error %d %s", e.code, e.detail.c_str()); if (o.tx >= 0) H.txs[o.tx].failed = true; char nm[64]; snprintf(nm, sizeof nm, "%s_err_%d", o.ddl() ? "ddl" : "dml", e.code); sim::probe(strdup(nm)); return; }
        if (o.kind == sel || o.kind == selidx) for (auto& r : p->rows()) o.rows.emplace_back(r.at(0).i, r.size() > 1 ? r[1].i : 0);
        if (o.ddl()) sim::probe(kname[o.kind]);
        auto& b = B[o.name];
        switch (o.kind) { case create: b = {true, false, o.sh}; break; case drop: b = {}; break; case mkidx: b.idx = true; break; case rmidx: b.idx = false; break; default: break; }
    }
    bool run1(Tx const& t, int i) { auto p = start(t, i); finish(p, i); return Q(H.ops[i].ok); }
    Shape random_shape() {
        auto& r = sim::wl(); Shape s; s.s = static_cast<int>(seq_prop() ? 1 + r.below(3) : r.below(4)); if (!s.ident() || r.chance(0.5)) return s;
        auto& i = s.id; i.plain = false; i.cycle = false; i.inc = std::vector<long long>{1, 1, 2, 3, 7, -1, -3}[r.below(7)]; i.cycle = r.chance(0.25);
        switch (r.below(4)) {
            case 0: i.lo = -5 - static_cast<long long>(r.below(10)); i.start = i.lo + static_cast<long long>(r.below(8)); if (i.inc < 0) { i.hi = i.start + static_cast<long long>(r.below(8)); i.lo = -1000; } break;
            case 1: i.lo = 1; i.hi = 4 + static_cast<long long>(r.below(30)); i.start = 1 + static_cast<long long>(r.below(4)); if (i.inc < 0) i.start = i.hi - static_cast<long long>(r.below(4)); if (i.cycle) { i.hi = 3 + static_cast<long long>(r.below(4)); i.start = 1 + static_cast<long long>(r.below(static_cast<u64>(i.hi))); } break;
            case 2: i.hi = static_cast<long long>(inf >> 1); i.start = i.hi - static_cast<long long>(r.below(20)) * i.inc - static_cast<long long>(r.below(3)); if (i.inc < 0) { i.hi = 0; i.start = -1; i.lo = std::numeric_limits<long long>::min(); } else if (i.start < 0) i.start = i.hi - 3; break;
            default: i.lo = std::numeric_limits<long long>::min(); i.start = i.inc > 0 ? i.lo + static_cast<long long>(r.below(3)) : static_cast<long long>(r.below(100)); if (i.inc < 0) i.start = i.lo + static_cast<long long>(r.below(20)); break;
        }
        if (i.cycle && s.s == 3 && r.chance(0.7)) s.s = 1;
        return s;
    }
    Op dml(int name) {
        auto& r = sim::wl(); Op o; o.name = name; o.sh = B[name].sh; auto k = r.below(10);
        o.kind = k < 5 ? ins : k < 7 ? sel : k < 9 ? (B[name].idx ? selidx : sel) : del;
        if (o.kind == ins) o.v = next_v++; if (o.kind == del) o.v = 1 + static_cast<long long>(r.below(static_cast<u64>(next_v)));
        o.prepared = r.chance(0.3) && o.kind != del; return o;
    }
    int ddl(int name) {
        auto& r = sim::wl(); auto& b = B[name];
        if (!b.exists) return r.chance(0.9) ? create : r.chance(0.5) ? drop : trunc;
        auto k = r.below(20); if (seq_prop()) return k < 4 ? drop : k < 9 ? trunc : k < 15 ? trunc_restart : k < 18 ? mkidx : create;
        return k < 5 ? drop : k < 8 ? trunc : k < 10 ? trunc_restart : k < 14 ? mkidx : k < 18 ? rmidx : create;
    }
    void finish_tx(Tx const& t, int tx, int how, int notify) {   // how: 0 commit 1 rollback
        if (how == 0) {
            auto q = Client::commit_req(t, notify); Q((H.txs[tx].commit = true, H.txs[tx].ecall = now_seq()));
            auto p = c.e.send(c.s, q, "commit " + t.id); Engine::wait(p);
            sim::NoPreempt g; auto& x = H.txs[tx]; auto e = Engine::error_of(*p); x.eret = (static_cast<u64>(sim::phase()) << 40) + p->done_at; x.acked = e.ok; x.refused = !e.ok; x.stored = e.ok && notify != 10 && notify != 20;
            if (!e.ok) { sim::ev("commit error %d %s", e.code, e.detail.c_str()); sim::probe("commit_refused"); }
            // a commit of plain inserts has no reason to fail
            if (!e.ok && !C.faults && x.type == 1 && !cc_code(e.code)) { bool sc = false; for (auto& o : H.ops) if (o.tx == tx && (o.ddl() || !o.ok)) sc = true; if (!sc) sim::fail("commit-refused", "commit of %s failed with %d %s", t.id.c_str(), e.code, e.detail.c_str()); }
        } else { Q((H.txs[tx].ecall = now_seq())); c.rollback(t); Q((H.txs[tx].eret = now_seq())); }
        c.dispose(t);
    }
    void transaction() {
        auto& r = sim::wl(); auto* np = new sim::NoPreempt;
        bool is_ddl = r.chance(C.ddl); int name = static_cast<int>(r.below(static_cast<u64>(C.names))); int n = static_cast<int>(1 + r.below(is_ddl ? 3 : 4));
        Opt o; o.type = r.chance(is_ddl ? 0.85 : 0.75) ? 1 : r.chance(0.7) ? 2 : 3; if (is_ddl && o.type == 3) o.type = 1;
        if (o.type == 2) { if (is_ddl) o.ddl = true; for (int i = 0; i < C.names; ++i) if (B[i].exists && r.chance(0.7)) o.wp.push_back(T(i)); }
        int how = r.chance(is_ddl ? 0.93 : 0.85) ? 0 : 1; int notify = is_ddl ? (r.chance(0.8) ? 30 : 0) : std::vector<int>{0, 10, 20, 30, 40}[r.below(5)];
        bool group = !is_ddl && r.chance(seq_prop() ? 0.5 : 0.2); u64 pause = r.chance(0.5) ? 0 : r.below(3000000);
        delete np;
        auto bc = Q(now_seq()); auto t = c.begin(o); if (!t) { if (!C.faults && o.type == 1) sim::fail("begin", "begin failed: %d %s", c.last.code, c.last.detail.c_str()); return; }
        int tx; { sim::NoPreempt g; TxR x; x.life = sim::phase(); x.client = no; x.type = o.type; x.bcall = bc; x.bret = now_seq(); x.id = t.id; H.txs.push_back(x); tx = static_cast<int>(H.txs.size()) - 1; }
        std::vector<std::pair<std::shared_ptr<Resp>, int>> open; bool failed = false;
        for (int i = 0; i < n && !failed; ++i) {
            Op op;
            { sim::NoPreempt g; int nm = r.chance(0.8) ? name : static_cast<int>(r.below(static_cast<u64>(C.names)));
              if (is_ddl && (i == 0 || r.chance(0.4))) { op.kind = ddl(nm); op.name = nm; op.sh = op.kind == create ? random_shape() : B[nm].sh; }
              else { op = dml(nm); if (o.type == 3 && (op.kind == ins || op.kind == del)) { op.kind = sel; } }
              op.tx = tx; op.group = group; }
            int k = add(op);
            if (group) { open.emplace_back(start(t, k), k); continue; }
            if (!run1(t, k)) failed = true;
            if (!failed && op.kind == sel && Q(B[op.name].idx) && r.chance(0.8)) { Op x = op; x.kind = selidx; x.rows.clear(); x.prepared = false; int k2 = add(x); if (!run1(t, k2)) failed = true; }
            if (pause) sim::sleep_ns(pause);
        }
        for (auto& [p, k] : open) { finish(p, k); if (!Q(H.ops[k].ok)) failed = true; }
        finish_tx(t, tx, failed ? 1 : how, notify);
    }
    void info() {
        auto& r = sim::wl(); Request q; Op o; { sim::NoPreempt g; o.kind = r.chance(0.5) ? list : describe; o.name = static_cast<int>(r.below(static_cast<u64>(C.names))); if (o.kind == list) q.mutable_listtables(); else q.mutable_describe_table()->set_name(T(o.name)); }
        int i = add(o); Q((H.ops[i].call = now_seq())); auto p = c.e.send(c.s, q, o.kind == list ? "list tables" : "describe " + T(o.name)); finish(p, i);
        sim::NoPreempt g; auto& x = H.ops[i]; if (!x.ok) return;
        if (x.kind == list) for (auto& tp : p->r.list_tables().success().table_path_names()) x.names.push_back(tp.identifiers(tp.identifiers_size() - 1).label());
    }
};
// reads everything there is in one transaction; false if a name does not exist
bool probe_table(Client& c, int name, bool ident, std::vector<std::pair<long long, long long>>& rows, bool by_index) {
    Op o; o.kind = by_index ? selidx : sel; o.name = name; o.sh.s = ident && !by_index ? 1 : 0; rows.clear();
    auto t = c.begin(); std::vector<Row> rs; bool ok = c.query(t, sql(o), rs); auto e = c.last;
    if (ok) ok = c.commit(t), e = c.last; else c.rollback(t); c.dispose(t); c.last = e;
    sim::NoPreempt g; for (auto& r : rs) rows.emplace_back(r.at(0).i, r.size() > 1 ? r[1].i : 0);
    return ok;
}
// at the end: every table is usable as far as it can be, nothing is left of dropped ones
void final_checks(Engine& e) {
    Client c(e, 90); auto w = reconstruct(sim::phase()); std::size_t expect = 0; bool exact = !C.faults;
    for (int n = 0; n < C.names; ++n) {
        int cur = -1; for (auto g : w.by[n]) if (w.gens[g].end < 0) cur = g;
        std::vector<std::pair<long long, long long>> a, b;
        bool there = probe_table(c, n, cur >= 0 && w.gens[cur].sh.ident(), a, false);
        if (cur < 0 && there) sim::fail("table-left", "t%d is still there at the end", n);
        if (cur >= 0 && !there) sim::fail("table-lost", "t%d cannot be read at the end: %d %s", n, c.last.code, c.last.detail.c_str());
        if (!there) continue;
        ++expect;
        if (probe_table(c, n, false, b, true)) {
            ++expect; std::set<long long> x, y; for (auto& r : a) x.insert(r.first); for (auto& r : b) y.insert(r.first);
            bool stale = false; for (auto& o : H.ops) if (o.name == n && o.prepared && o.kind == ins && schema_activity(n, o.plan, o.ret)) stale = true;
            if (!stale) index_differs("at the end", n, x, y);
        }
        // a table that is there takes new rows
        bool broken = w.gens[cur].broken;
        auto& I = w.gens[cur].sh.id; bool fin = w.gens[cur].sh.ident() && !I.plain;
        auto t = c.begin(); Op o; o.kind = ins; o.name = n; o.sh = w.gens[cur].sh; o.v = Q(next_v++); bool ok = c.exec(t, sql(o)); auto er = c.last; if (ok) { ok = c.commit(t); er = c.last; } else c.rollback(t); c.dispose(t);
        if (!ok && !broken && !fin) sim::fail("table-unusable", "inserting into t%d at the end failed: %d %s", n, er.code, er.detail.c_str());
        if (ok) sim::probe("final_insert");
    }
    if (C.maint && exact) {
        auto count = [] { sim::NoPreempt g; std::size_t k = 0; for (auto& [nm, s] : kv::committed()) if (nm.rfind("__", 0) != 0) ++k; return k; };
        for (int i = 0; i < 60 && count() > expect; ++i) sim::sleep_ns(50'000'000);
        if (count() != expect) sim::fail("storage-left", "%zu storages are in the store at the end, the tables and indices need %zu", count(), expect);
        sim::probe("storages_counted");
    }
}
// ---------------------------------------------------------------- crash
struct Out { std::string b; void u(u64 v) { b.append(reinterpret_cast<char*>(&v), 8); } void s(std::string const& x) { u(x.size()); b += x; } };
struct In { std::string const& b; std::size_t p{}; u64 u() { u64 v; std::memcpy(&v, b.data() + p, 8); p += 8; return v; } std::string s() { auto n = u(); auto r = b.substr(p, n); p += n; return r; } };
void put(Out& o, Shape const& s) { o.u(static_cast<u64>(s.s)); o.u(static_cast<u64>(s.id.start)); o.u(static_cast<u64>(s.id.inc)); o.u(static_cast<u64>(s.id.lo)); o.u(static_cast<u64>(s.id.hi)); o.u(s.id.cycle); o.u(s.id.plain); }
Shape get(In& i) { Shape s; s.s = static_cast<int>(i.u()); s.id.start = static_cast<long long>(i.u()); s.id.inc = static_cast<long long>(i.u()); s.id.lo = static_cast<long long>(i.u()); s.id.hi = static_cast<long long>(i.u()); s.id.cycle = i.u(); s.id.plain = i.u(); return s; }
// what may be there after the crash: per table the states the log may end with
struct Cand { bool exists{}; Shape sh; int gen{-1}; bool broken{}; };   // gen: index in the world of the crashed life
struct Carry { std::vector<std::vector<Cand>> tables; std::vector<std::set<long long>> must, may; std::vector<std::map<long long, long long>> ids; std::vector<int> idx; };   // per generation: rows that must / may be there; idx: 1 there 0 not 2 unknown
void carry(Out& o) {
    auto w = reconstruct(sim::phase()); o.u(static_cast<u64>(C.names)); o.u(static_cast<u64>(next_v));
    for (int n = 0; n < C.names; ++n) {
        std::vector<Cand> cs; 
        // in order of the generations; a change that is certainly in the durable log removes everything before it
        auto sure = [&](int op) { return op >= 0 && H.ops[op].tx >= 0 && H.txs[H.ops[op].tx].stored; };
        bool had = false; for (auto& g : H.start_gens) if (g.name == n) had = true;
        if (!had) cs.push_back({});
        bool activity = false;
        for (auto g : w.by[n]) {
            auto& G = w.gens[g]; if (sure(G.by)) cs.clear();
            else if (G.by >= 0 && H.ops[G.by].kind != create) cs.push_back({});   // an uncommitted TRUNCATE may have marked the old storage only (DDL is not atomic, #448)
            bool br = G.broken; for (int q = g; q >= 0; q = w.gens[q].root) if (w.gens[q].by >= 0 && !sure(w.gens[q].by) && G.sh.seq()) br = true;
            cs.push_back({true, G.sh, g, br});
            if (G.end >= 0 && H.ops[G.end].kind == drop) { if (sure(G.end)) cs.clear(); cs.push_back({}); }
        }
        // changes without an answer or that failed: anything of them may be there
        for (auto& x : H.ops) if (x.life == sim::phase() && x.name == n && x.ddl() && !x.ok) { activity = true; if (!x.answered || x.kind == drop || x.kind == trunc || x.kind == trunc_restart) { cs.push_back({}); } if (!x.answered && (x.kind == create || x.kind == trunc || x.kind == trunc_restart)) { Cand y; y.exists = true; y.sh = x.sh; y.gen = -1; y.broken = true; cs.push_back(y); } }
        // an uncommitted restart of the identity spoils it
        for (auto& x : H.ops) if (x.life == sim::phase() && x.name == n && (x.kind == trunc_restart || x.kind == drop) && !(x.ok && sure(static_cast<int>(&x - H.ops.data())))) for (auto& c : cs) if (c.sh.seq()) c.broken = true;
        (void)activity;
        o.u(cs.size()); for (auto& c : cs) { o.u(c.exists); put(o, c.sh); o.u(static_cast<u64>(c.gen + 1)); o.u(c.broken); }
        int ix = 2; { int last = -1; bool unk = false; for (auto& [nm, v] : H.start_idx) if (nm == n) last = v; for (auto& x : H.ops) if (x.life == sim::phase() && x.name == n && x.ddl()) { if (x.kind == mkidx || x.kind == rmidx || x.kind == drop) { if (!x.answered || !x.ok || !(x.tx >= 0 && H.txs[x.tx].stored)) unk = true; else last = x.kind == mkidx; } if ((x.kind == trunc || x.kind == trunc_restart || x.kind == create) && !(x.ok && x.tx >= 0 && H.txs[x.tx].stored)) unk = true; } if (!unk && last >= 0) ix = last; }
        o.u(static_cast<u64>(ix));
    }
    o.u(w.gens.size());
    for (int g = 0; g < static_cast<int>(w.gens.size()); ++g) {
        auto& G = w.gens[g]; std::set<long long> must, may; std::map<long long, long long> seen;
        for (auto v : G.base) { must.insert(v); may.insert(v); }
        for (auto& x : H.ops) if (x.life == sim::phase() && x.name == G.name) {
            if (x.kind == ins) { auto& t = H.txs[x.tx]; auto p = w.possible(x.name, x.call, x.ret); if (std::find(p.begin(), p.end(), g) == p.end()) continue; if (x.answered && !x.ok) continue; if (t.commit && !t.refused) may.insert(x.v); bool st = x.prepared && schema_activity(x.name, x.plan, x.ret); if (x.ok && t.stored && w.definite(x.name, x.call, x.ret) == g && !st && !schema_activity(x.name, x.call, x.ret)) must.insert(x.v); }
        }
        for (auto& x : H.ops) if (x.life == sim::phase() && x.name == G.name && x.kind == del && !(x.answered && !x.ok)) must.erase(x.v);
        o.u(G.unsure); o.u(must.size()); for (auto v : must) o.u(static_cast<u64>(v)); o.u(may.size()); for (auto v : may) o.u(static_cast<u64>(v));
    }
    for (auto& x : H.ops) if ((x.kind == ins || x.kind == del) && open_at_index(x.v, x.name)) H.odd.insert(x.v);
    o.u(H.odd.size()); for (auto v : H.odd) o.u(static_cast<u64>(v));
}
void recover(Engine& e, std::string const& s, std::size_t pos) {
    In in{s, pos}; C.names = static_cast<int>(in.u()); next_v = static_cast<long long>(in.u()) + 1000;
    std::vector<std::vector<Cand>> cs(static_cast<std::size_t>(C.names)); std::vector<int> ix;
    for (auto& v : cs) { auto n = in.u(); while (n--) { Cand c; c.exists = in.u(); c.sh = get(in); c.gen = static_cast<int>(in.u()) - 1; c.broken = in.u(); v.push_back(c); } ix.push_back(static_cast<int>(in.u())); }
    auto ng = in.u(); std::vector<std::set<long long>> must(ng), may(ng); std::vector<bool> unsure(ng);
    for (u64 g = 0; g < ng; ++g) { unsure[g] = in.u(); auto n = in.u(); while (n--) must[g].insert(static_cast<long long>(in.u())); n = in.u(); while (n--) may[g].insert(static_cast<long long>(in.u())); }
    for (auto n = in.u(); n--;) H.odd.insert(static_cast<long long>(in.u()));
    Client c(e, 91);
    for (int n = 0; n < C.names; ++n) {
        std::vector<std::pair<long long, long long>> rows, ir; bool ident = false, there = probe_table(c, n, true, rows, false); if (there) ident = true; else there = probe_table(c, n, false, rows, false);
        bool can = false, cannot = false; for (auto& x : cs[n]) (x.exists ? can : cannot) = true;
        if (there && !can) sim::fail("table-back", "t%d is there after the restart although it had been dropped or never created", n);
        if (!there && !cannot) sim::fail("table-lost", "t%d is gone after the restart: %d %s", n, c.last.code, c.last.detail.c_str());
        bool hasidx = there && probe_table(c, n, false, ir, true);
        if (ix[n] == 1 && there && !hasidx && !cannot) sim::fail("index-lost", "the index of t%d is gone after the restart: %d %s", n, c.last.code, c.last.detail.c_str());
        if (ix[n] == 0 && hasidx) sim::fail("index-back", "the dropped index of t%d is there after the restart", n);
        if (!there) { B[n] = {}; continue; }
        sim::probe("table_recovered");
        std::set<long long> got, gi; std::set<long long> ids; for (auto& [v, id] : rows) { if (!got.insert(v).second) sim::fail("row-twice", "t%d holds row %lld twice after the restart", n, v); }
        for (auto& [v, id] : ir) gi.insert(v);
        if (hasidx) index_differs("after the restart", n, got, gi);
        std::vector<Cand*> fit; for (auto& x : cs[n]) if (x.exists && x.sh.ident() == ident) fit.push_back(&x);
        if (fit.empty()) sim::fail("table-differs", "t%d came back with another layout", n);
        Gen g; g.name = n; g.sh = fit.back()->sh; g.cb = g.ce = life_start(sim::phase()) + 1; g.restart = false;
        // the generation it is, as far as that can be told
        bool ok = false, brk = false; std::string why;
        for (auto* x : fit) {
            if (x->broken) brk = true;
            if (x->gen < 0) { ok = true; if (!got.empty()) { bool z = false; for (auto v : got) z = true; (void)z; } continue; }
            bool f = true; for (auto v : must[x->gen]) if (!got.count(v)) { f = false; why = "row " + std::to_string(v) + " is missing"; } if (!unsure[x->gen]) for (auto v : got) if (!may[x->gen].count(v)) { f = false; why = "row " + std::to_string(v) + " should not be there"; }
            if (f) { ok = true; g.sh = x->sh; }
        }
        if (!ok) sim::fail("contents-differ", "t%d after the restart: %s", n, why.c_str());
        for (auto* x : fit) if (!(x->sh.s == g.sh.s && x->sh.id == g.sh.id)) brk = true;
        g.base = got; g.broken = brk; H.start_gens.push_back(g); H.start_idx.emplace_back(n, hasidx);
        B[n] = {true, hasidx, g.sh};
        // a generated value is not given out again
        if (ident && !brk && (g.sh.id.plain || !g.sh.id.cycle)) {
            long long best = 0; bool any = false; for (auto& [v, id] : rows) { if (!any || (g.sh.id.inc > 0 ? id > best : id < best)) best = id; any = true; }
            auto t = c.begin(); Op o; o.kind = ins; o.name = n; o.sh = g.sh; o.v = Q(next_v++); bool ins_ok = c.exec(t, sql(o)); auto er = c.last;
            std::vector<Row> rs; Op q; q.kind = sel; q.name = n; q.sh = g.sh; if (ins_ok) { if (c.query(t, sql(q), rs)) for (auto& r : rs) if (r.at(0).i == o.v && any && (g.sh.id.inc > 0 ? r.at(1).i <= best : r.at(1).i >= best)) sim::fail("identity-again", "after the restart t%d gave out identity %lld, rows up to %lld exist", n, r.at(1).i, best); c.rollback(t); sim::probe("identity_after_restart"); }
            else { if (g.sh.id.plain) sim::fail("table-unusable", "inserting into t%d after the restart failed: %d %s", n, er.code, er.detail.c_str()); c.rollback(t); }
            c.dispose(t);
        }
    }
}
void configure(jogasaki::configuration& c) {
    auto& r = sim::cfg();
    c.thread_pool_size(1 + r.below(4)); c.default_partitions(1 + r.below(4)); c.inplace_teardown(r.chance(0.5)); c.inplace_dag_schedule(r.chance(0.5)); c.enable_hybrid_scheduler(r.chance(0.7));
    c.lightweight_job_level(r.chance(0.5) ? 0 : 100); c.stealing_enabled(r.chance(0.7)); c.direct_commit_callback(r.chance(0.3)); c.scan_default_parallel(1 + r.below(3)); c.enable_session_store(r.chance(0.5));
    c.enable_truncate(true); c.enable_maintenance_thread(C.maint); c.maintenance_interval_ms(1 + r.below(10)); c.scan_concurrent_operation_as_not_found(r.chance(0.5)); c.point_read_concurrent_operation_as_not_found(r.chance(0.5));
}
void run() {
    H = {}; rules = {}; next_v = 1 + 100000 * sim::phase(); for (auto& b : B) b = {};
    auto& g = sim::cfg(); bool p23 = !strcmp(sim::property(), "C23");
    C.clients = static_cast<int>(1 + g.below(3)); C.txs = static_cast<int>(3 + g.below(8)); C.names = static_cast<int>(1 + g.below(3)); C.faults = g.chance(0.15); C.maint = g.chance(0.85); C.ddl = g.chance(0.5) ? 0.4 : 0.15; C.stale = g.chance(0.6) ? 0.8 : 0;
    C.crash = g.chance(p23 ? 0.85 : seq_prop() ? 0.5 : 0.2); if (seq_prop()) C.ddl = g.chance(0.7) ? 0.1 : 0.25;
    kv::reset(); auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(200 + g.below(5000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.3) ? 0 : 0.5;
    o.concurrent_op = g.chance(0.5) ? 0.7 : 1; sim::fault_enable(sim::f_kvs_conflict);
    if (C.faults) { o.conflict = 0.1; o.begin_fail = g.chance(0.3) ? 0.05 : 0; for (auto k : {sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k); }
    for (auto k : {sim::f_durable_delay, sim::f_durable_stall, sim::f_callback_delay}) if (g.chance(0.5)) sim::fault_enable(k);
    if (g.chance(0.15)) sim::fault_enable(sim::f_stall);
    sim::set_stall_max(5'000'000); if (g.chance(0.3)) sim::fault_enable(sim::f_spurious_wakeup);
    if (C.crash) sim::fault_enable(sim::f_crash);
    sim::set_step_limit(20000000, true);
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt g; return static_cast<std::size_t>(sim::wl().below(n)); };
    std::size_t pos = 0; bool recovered = sim::phase() > 0;
    if (recovered) { In in{sim::durable()}; kv::restore(in.s()); pos = in.p; }
    auto keep = o; o.conflict = o.begin_fail = 0;
    Engine e; configure(*e.cfg);
    if (auto rc = e.start(); rc != jogasaki::status::ok) sim::fail("start", "start failed with status %d in life %d", static_cast<int>(rc), sim::phase());
    if (recovered) { sim::probe("recovered"); recover(e, sim::durable(), pos); }
    else { Client c(e, 99); Cl cl(e, 98); for (int n = 0; n < C.names; ++n) if (g.chance(seq_prop() ? 0.95 : 0.7)) { Op q; { sim::NoPreempt np; q.kind = create; q.name = n; q.sh = cl.random_shape(); } auto t = cl.c.begin(); int tx; { sim::NoPreempt np; TxR x; x.bcall = x.bret = now_seq(); x.id = t.id; H.txs.push_back(x); tx = static_cast<int>(H.txs.size()) - 1; q.tx = tx; } int k = cl.add(q); if (!cl.run1(t, k)) sim::fail("ddl", "'%s' failed: %d %s", sql(q).c_str(), cl.c.last.code, Q(H.ops[k].detail).c_str()); cl.finish_tx(t, tx, 0, 30); if (Q(!H.txs[tx].acked)) sim::fail("ddl", "commit of '%s' failed", sql(q).c_str()); } Q((cl.c.s->store.dispose(), 0)); }
    o = keep;
    vh::Threads th; static int alive; alive = C.clients;
    for (int i = 0; i < C.clients; ++i) th.go([&e, i] { { Cl cl(e, i + 10 * sim::phase()); for (int k = 0; k < C.txs; ++k) { if (Q(sim::wl().chance(0.1))) cl.info(); cl.transaction(); } sim::NoPreempt g; cl.c.s->store.dispose(); } Q(--alive); });
    if (sim::phase() < 2 && sim::fault(sim::f_crash, 0.95)) {
        sim::sleep_ns(sim::wl().below(g.chance(0.5) ? 8000000 : 80000000));
        if (Q(alive) > 0) { Out out; { sim::NoPreempt np; check_history(); out.s(kv::durable_image(false)); carry(out); } sim::crash(out.b); }
    }
    th.join();
    sim::faults_stop(); o.conflict = o.begin_fail = 0;
    for (auto& p : e.all) Engine::wait(p);
    { sim::NoPreempt np; check_history(); }
    final_checks(e);
    sim::wait_until([] { return kv::open_transactions() == 0; }, "transactions to be given back");
    if (auto rc = e.stop(); rc != jogasaki::status::ok) sim::fail("stop", "stop failed with status %d", static_cast<int>(rc));
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbddl", nullptr, run}; }
