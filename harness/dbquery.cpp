// Random queries and set-oriented statements on the whole engine against a reference evaluator: joins of every kind and strategy, grouping,
// aggregation, DISTINCT, ORDER BY, LIMIT, UNION ALL, INSERT ... SELECT, UPDATE and DELETE; result channels that fail, cancellation, store errors.
#include "engine.h"
#include <jogasaki/executor/exchange/group/input_partition.h>
#include <jogasaki/executor/exchange/aggregate/input_partition.h>
using namespace eng;
namespace {
enum Ty { I4, I8, F8, DEC, STR, BOOL };
char const* const ty_name[] = {"INT", "BIGINT", "DOUBLE", "DECIMAL(10,2)", "VARCHAR(*)", "BOOLEAN"};
// a value; integers and booleans in i, decimals in i (hundredths)
struct D {
    bool null{true}; Ty t{I4}; long long i{}; double f{}; std::string s;
    static D of(Ty t, long long i) { D d; d.null = false; d.t = t; d.i = i; if (t == F8) { d.f = static_cast<double>(i) / 4; d.i = 0; } return d; }
    static D str(std::string s) { D d; d.null = false; d.t = STR; d.s = std::move(s); return d; }
    static D nul(Ty t) { D d; d.t = t; return d; }
    bool operator==(D const& o) const { return null == o.null && (null || (i == o.i && f == o.f && s == o.s)); }
    bool operator<(D const& o) const { if (null != o.null) return null; if (null) return false; return std::tie(i, f, s) < std::tie(o.i, o.f, o.s); }
};
using DR = std::vector<D>;
std::string lit(D const& d) {
    if (d.null) return "NULL"; char b[64];
    switch (d.t) {
        case I4: case I8: return std::to_string(d.i); case BOOL: return d.i ? "TRUE" : "FALSE";
        case F8: snprintf(b, sizeof b, "%.2fe0", d.f); return b;
        case DEC: snprintf(b, sizeof b, "%s%lld.%02lld", d.i < 0 ? "-" : "", std::llabs(d.i) / 100, std::llabs(d.i) % 100); return b;
        default: return "'" + d.s + "'";
    }
}
std::string show(DR const& r) { std::string s = "("; for (auto& d : r) s += (s.size() > 1 ? "," : "") + lit(d); return s + ")"; }
D from(Val const& v, Ty t) {
    D d = D::nul(t); if (v.k == 0) return d;
    d.null = false;
    switch (t) {
        case I4: case I8: case BOOL: if (v.k != 1) sim::fail("wrong-type", "an integer column came back as %s", v.show().c_str()); d.i = v.i; break;
        case F8: if (v.k != 2) sim::fail("wrong-type", "a double column came back as %s", v.show().c_str()); d.f = v.d; break;
        case STR: if (v.k != 3) sim::fail("wrong-type", "a character column came back as %s", v.show().c_str()); d.s = v.s; break;
        case DEC: {
            if (v.k == 1) { d.i = v.i * 100; break; }
            if (v.k != 4) sim::fail("wrong-type", "a decimal column came back as %s", v.show().c_str());
            int sg, ex; unsigned long long hi, lo; if (sscanf(v.s.c_str(), "%d:%llu:%llue%d", &sg, &hi, &lo, &ex) != 4 || hi) sim::fail("wrong-type", "a decimal column came back as %s", v.show().c_str());
            long long x = static_cast<long long>(lo) * sg; for (; ex > -2; --ex) x *= 10; for (; ex < -2; ++ex) { if (x % 10) sim::fail("wrong-type", "a decimal column came back with a finer scale: %s", v.show().c_str()); x /= 10; } d.i = x; break;
        }
    }
    return d;
}
// --- expressions
struct Sc { std::string ref; Ty t; };
using Scope = std::vector<Sc>;
struct Ex { std::string sql; Ty t{}; std::function<D(DR const&)> ev; int col{-1}; };
struct Par { std::string name; D v; };
struct Gen {
    std::vector<Par>* pars{};   // constants become host variables
    sim::Rng& r = sim::wl();
    D value(Ty t, double nul = 0) {
        if (r.chance(nul)) return D::nul(t);
        switch (t) {
            case I4: case I8: return D::of(t, static_cast<long long>(r.below(9)) - 3); case F8: return D::of(F8, static_cast<long long>(r.below(9)) - 3); case DEC: return D::of(DEC, (static_cast<long long>(r.below(9)) - 3) * 25);
            case BOOL: return D::of(BOOL, static_cast<long long>(r.below(2)));
            default: { std::string s; auto n = r.chance(0.6) ? r.below(2) : r.chance(0.9) ? r.below(40) : r.below(3000); auto c = static_cast<char>('a' + r.below(3)); for (u64 i = 0; i < n; ++i) s += n < 3 ? static_cast<char>('a' + r.below(3)) : c; return D::str(s); }
        }
    }
    Ex cons(Ty t) {
        Ex e; e.t = t == I4 ? I8 : t; auto v = value(t); v.t = e.t; e.sql = lit(v);
        if (pars && r.chance(0.6)) { Par p; p.name = "p" + std::to_string(pars->size()); p.v = v; if (r.chance(0.05)) p.v = v = D::nul(e.t); e.sql = ":" + p.name; pars->push_back(p); }
        e.ev = [v](DR const&) { return v; }; return e;
    }
    Ex col(Scope const& s, std::function<bool(Ty)> ok = nullptr) {
        std::vector<int> c; for (std::size_t i = 0; i < s.size(); ++i) if (!ok || ok(s[i].t)) c.push_back(static_cast<int>(i));
        if (c.empty()) return {};
        int i = c[r.below(c.size())]; Ex e; e.sql = s[static_cast<std::size_t>(i)].ref; e.t = s[static_cast<std::size_t>(i)].t; e.col = i; e.ev = [i](DR const& x) { return x[static_cast<std::size_t>(i)]; }; return e;
    }
    static int rank(Ty t) { return t == I4 ? 1 : t == I8 ? 2 : t == DEC ? 3 : t == F8 ? 5 : 0; }
    static D conv(D d, Ty t) { if (d.t == t) return d; D x = d; x.t = t; if (d.null) return x; if (t == DEC && d.t != DEC) x.i = d.i * 100; if (t == F8) { x.f = d.t == DEC ? static_cast<double>(d.i) / 100 : static_cast<double>(d.i); x.i = 0; } return x; }
    static int cmp3(D const& a, D const& b) { Ty t = rank(a.t) > rank(b.t) ? a.t : b.t; D x = a.t == STR || a.t == BOOL ? a : conv(a, t), y = a.t == STR || a.t == BOOL ? b : conv(b, t); return x < y ? -1 : y < x ? 1 : 0; }
    Ex arith(Ex a, Ex b, char op) {
        Ex e; e.t = rank(a.t) > rank(b.t) ? a.t : b.t; e.sql = "(" + a.sql + " " + op + " " + b.sql + ")"; Ty t = e.t;
        e.ev = [a, b, op, t](DR const& x) { D l = conv(a.ev(x), t), r_ = conv(b.ev(x), t); if (l.null || r_.null) return D::nul(t); D o = l; auto f = [&](auto p, auto q) { return op == '+' ? p + q : op == '-' ? p - q : p * q; }; if (t == F8) o.f = f(l.f, r_.f); else o.i = f(l.i, r_.i); return o; };
        return e;
    }
    Ex expr(Scope const& s, int depth = 2) {
        auto k = depth ? r.below(10) : 0;
        if (k < 5) { return col(s); }
        if (k < 7) { auto a = col(s, [](Ty t) { return rank(t) != 0; }); if (a.sql.empty()) return col(s); Ty ct = a.t == I4 ? (r.chance(0.5) ? I8 : I8) : a.t; auto b = r.chance(0.6) ? cons(ct) : col(s, [&](Ty t) { return rank(t) != 0 && (t != DEC || a.t == DEC || a.t == I8) && (a.t != DEC || t != F8); }); if (b.sql.empty()) b = cons(ct); if ((a.t == DEC) != (b.t == DEC) && (a.t == F8 || b.t == F8)) return a; bool times = !(a.t == DEC || b.t == DEC) && r.chance(0.3); return arith(a, b, times ? '*' : r.chance(0.5) ? '+' : '-'); }
        if (k == 7) { auto a = col(s, [](Ty t) { return t == STR; }); if (a.sql.empty()) return col(s); Ex e; e.t = STR; e.sql = "(" + a.sql + " || 'x')"; e.ev = [a](DR const& x) { auto d = a.ev(x); if (!d.null) d.s += "x"; return d; }; return e; }
        if (k == 8) { auto a = col(s, [](Ty t) { return t == I8 || t == STR || t == F8; }); if (a.sql.empty()) return col(s); auto sv = pars; pars = nullptr; auto b = cons(a.t); pars = sv; Ex e; e.t = a.t; e.sql = "COALESCE(" + a.sql + ", " + b.sql + ")"; e.ev = [a, b](DR const& x) { auto d = a.ev(x); return d.null ? b.ev(x) : d; }; return e; }
        auto p = pred(s, 1); auto a = col(s, [](Ty t) { return t == I8 || t == STR || t == F8; }); if (a.sql.empty()) return col(s); Ty t = a.t; auto b = col(s, [t](Ty u) { return u == t; });
        Ex e; e.t = t; e.sql = "CASE WHEN " + p.sql + " THEN " + a.sql + " ELSE " + b.sql + " END"; e.ev = [p, a, b](DR const& x) { auto c = p.ev(x); return !c.null && c.i ? a.ev(x) : b.ev(x); }; return e;
    }
    Ex pred(Scope const& s, int depth) {
        auto k = depth ? r.below(12) : r.below(7); Ex e; e.t = BOOL;
        if (k >= 9) { auto a = pred(s, depth - 1); if (k == 11) { e.sql = "(NOT " + a.sql + ")"; e.ev = [a](DR const& x) { auto d = a.ev(x); if (!d.null) d.i = !d.i; return d; }; return e; }
            auto b = pred(s, depth - 1); bool an = k == 9; e.sql = "(" + a.sql + (an ? " AND " : " OR ") + b.sql + ")";
            e.ev = [a, b, an](DR const& x) { auto l = a.ev(x), m = b.ev(x); if ((!l.null && l.i != an) || (!m.null && m.i != an)) return D::of(BOOL, !an); if (l.null || m.null) return D::nul(BOOL); return D::of(BOOL, an); }; return e; }
        auto a = col(s);
        if (k >= 7) { bool neg = k == 8; e.sql = "(" + a.sql + (neg ? " IS NOT NULL)" : " IS NULL)"); e.ev = [a, neg](DR const& x) { return D::of(BOOL, a.ev(x).null != neg); }; return e; }
        bool nm = rank(a.t) != 0; Ty t = a.t;
        auto b = r.chance(0.65) ? cons(t) : col(s, [&](Ty u) { return u == t || (nm && rank(u) && ((t == DEC) == (u == DEC) || (t != F8 && u != F8))); });
        static char const* const ops[] = {"=", "<>", "<", "<=", ">", ">="}; auto o = r.below(6);
        e.sql = "(" + a.sql + " " + ops[o] + " " + b.sql + ")";
        e.ev = [a, b, o](DR const& x) { auto l = a.ev(x), m = b.ev(x); if (l.null || m.null) return D::nul(BOOL); int c = cmp3(l, m); bool v = o == 0 ? c == 0 : o == 1 ? c != 0 : o == 2 ? c < 0 : o == 3 ? c <= 0 : o == 4 ? c > 0 : c >= 0; return D::of(BOOL, v); }; return e;
    }
};
bool yes(D const& d) { return !d.null && d.i; }
// --- tables
struct Table { std::string name; std::vector<std::string> cols; std::vector<Ty> ty; std::vector<std::vector<int>> idx; std::vector<DR> rows; };   // idx[0] primary key (may be empty: none)
std::vector<Table> tabs;
struct Rel { Scope s; std::vector<DR> rows; bool full{}; };
Scope scope_of(Table const& t, std::string const& a) { Scope s; for (std::size_t i = 0; i < t.cols.size(); ++i) s.push_back({a.empty() ? t.cols[i] : a + "." + t.cols[i], t.ty[i]}); return s; }
struct Query { std::string sql; std::vector<Ty> ty; std::vector<std::string> names; std::vector<DR> rows; std::vector<std::pair<int, bool>> order; long long limit{-1}; std::vector<Par> pars; };
std::size_t max_rows;

// FROM and WHERE
std::string source(Gen& g, Rel& out, int max_join) {
    auto& r = g.r; auto& t = tabs[r.below(tabs.size())]; std::string sql = t.name;
    if (t.idx.size() > 1 && r.chance(0.3)) sql += "@i" + t.name.substr(1) + std::to_string(1 + r.below(t.idx.size() - 1));
    std::string al(1, 'x'); sql += " " + al; out.s = scope_of(t, al); out.rows = t.rows;
    int nj = static_cast<int>(r.below(static_cast<u64>(max_join) + 1));
    for (int j = 0; j < nj; ++j) {
        auto& u = tabs[r.below(tabs.size())]; std::string a(1, static_cast<char>('y' + j)); auto us = scope_of(u, a);
        if (out.rows.size() * u.rows.size() > 4000) break;
        auto pick = r.below(10); int kind = static_cast<int>(r.below(5)); static char const* const kn[] = {"INNER", "LEFT", "FULL", "SEMI", "ANTI"};
        std::vector<Ex> on; std::string mode; Scope both = out.s; both.insert(both.end(), us.begin(), us.end()); auto nl = out.s.size();
        auto right = [&](int c) { Ex e; e.sql = us[static_cast<std::size_t>(c)].ref; e.t = us[static_cast<std::size_t>(c)].t; auto k = nl + static_cast<std::size_t>(c); e.ev = [k](DR const& x) { return x[k]; }; return e; };
        auto eq = [&](Ex a_, Ex b, bool nullsafe) { Ex e; e.t = BOOL; e.sql = a_.sql + " = " + b.sql; e.ev = [a_, b, nullsafe](DR const& x) { auto l = a_.ev(x), m = b.ev(x); if (nullsafe && l.null && m.null) return D::of(BOOL, 1); if (l.null || m.null) return nullsafe ? D::of(BOOL, 0) : D::nul(BOOL); return D::of(BOOL, Gen::cmp3(l, m) == 0); }; return e; };
        if (pick < 4) {   // index joins
            if (kind == 2) kind = static_cast<int>(r.below(2));
            std::size_t ix = r.below(u.idx.size()); auto& key = u.idx[ix]; bool range = key.empty() || r.chance(0.5); if (key.empty()) { ix = 1; }
            if (u.idx[ix].empty()) break;
            mode = range ? "RANGE " : "LOOKUP "; std::size_t n = range ? r.below(u.idx[ix].size() + 1) : u.idx[ix].size(); bool ok = true;
            for (std::size_t i = 0; i < n && ok; ++i) { int c = u.idx[ix][i]; Ty ct = u.ty[static_cast<std::size_t>(c)]; auto l = g.col(out.s, [ct](Ty q) { return q == ct || (ct == I8 && q == I4); }); if (l.sql.empty()) { ok = false; break; } on.push_back(eq(l, right(c), false)); }
            if (!ok) break;
            if (range && n < u.idx[ix].size() && r.chance(0.6)) { int c = u.idx[ix][n]; Ty ct = u.ty[static_cast<std::size_t>(c)]; auto l = g.col(out.s, [ct](Ty q) { return q == ct; }); if (!l.sql.empty()) { bool lower = r.chance(0.5), incl = r.chance(0.5); auto R_ = right(c); Ex e; e.t = BOOL; e.sql = R_.sql + (lower ? incl ? " >= " : " > " : incl ? " <= " : " < ") + l.sql; e.ev = [l, R_, lower, incl](DR const& x) { auto p = R_.ev(x), q = l.ev(x); if (p.null || q.null) return D::nul(BOOL); int cc = Gen::cmp3(p, q); return D::of(BOOL, cc == 0 ? incl : lower ? cc > 0 : cc < 0); }; on.push_back(e); } }
            if (on.empty()) { mode = ""; }
            else a = (ix ? "@i" + u.name.substr(1) + std::to_string(ix) : "") + " " + a;
            if (r.chance(0.3) && !on.empty()) { on.push_back(g.pred(both, 1)); }
        }
        if (mode.empty()) {
            a = std::string(1, static_cast<char>('y' + j));
            on.clear(); auto n = r.chance(0.15) ? 0 : r.chance(0.7) ? 1 : 2;
            std::set<int> ul, ur;   // a column is a key once
            for (int i = 0; i < n; ++i) { auto R_ = g.col(us); auto ct = R_.t; auto l = g.col(out.s, [ct](Ty q) { return q == ct; }); if (l.sql.empty() || ul.count(l.col) || ur.count(R_.col)) continue; ul.insert(l.col); ur.insert(R_.col); on.push_back(eq(l, right(R_.col), true)); }
            if (on.empty() || r.chance(0.3)) { auto p = g.pred(both, 1); if (p.sql.find(" AND ") == std::string::npos && p.sql.find(" = ") == std::string::npos) on.push_back(p); }
            if (on.empty()) { Ex e; e.sql = "1 = 1"; e.ev = [](DR const&) { return D::of(BOOL, 1); }; on.push_back(e); }
            if (a.find('@') != std::string::npos) a = "y";
        }
        std::string cond; for (auto& e : on) cond += (cond.empty() ? "" : " AND ") + e.sql;
        sql += " " + mode + kn[kind] + " JOIN " + u.name + (a[0] == '@' ? "" : " ") + a + " ON " + cond;
        Rel n; n.full = out.full || kind == 2; std::vector<char> hit(u.rows.size());
        for (auto& x : out.rows) {
            bool any = false;
            for (std::size_t k = 0; k < u.rows.size(); ++k) {
                DR z = x; z.insert(z.end(), u.rows[k].begin(), u.rows[k].end()); bool m = true; for (auto& e : on) m = m && yes(e.ev(z));
                if (!m) continue;
                any = true; hit[k] = 1; if (kind < 3) n.rows.push_back(z);
            }
            if (!any && (kind == 1 || kind == 2)) { DR z = x; for (auto t2 : u.ty) z.push_back(D::nul(t2)); n.rows.push_back(z); }
            if ((kind == 3 && any) || (kind == 4 && !any)) n.rows.push_back(x);
        }
        if (kind == 2) for (std::size_t k = 0; k < u.rows.size(); ++k) if (!hit[k]) { DR z; for (auto& c : out.s) z.push_back(D::nul(c.t)); z.insert(z.end(), u.rows[k].begin(), u.rows[k].end()); n.rows.push_back(z); }
        n.s = kind < 3 ? both : out.s; out = std::move(n);
        char pr[40]; snprintf(pr, sizeof pr, "join_%s%s", mode.empty() ? "group_" : mode[0] == 'L' ? "lookup_" : "range_", kn[kind]); sim::probe(strdup(pr));
    }
    if (!out.full && r.chance(0.6)) {
        std::vector<Ex> cs; auto n = 1 + r.below(3); for (u64 i = 0; i < n; ++i) cs.push_back(g.pred(out.s, 1));
        if (r.chance(0.4)) { // a key range
            auto& c = out.s[0]; Ex e; e.t = BOOL; auto a = g.cons(c.t); bool lo = r.chance(0.5); e.sql = c.ref + (lo ? " >= " : " <= ") + a.sql; e.ev = [a, lo](DR const& x) { auto v = a.ev(x); if (x[0].null || v.null) return D::nul(BOOL); int c3 = Gen::cmp3(x[0], v); return D::of(BOOL, lo ? c3 >= 0 : c3 <= 0); }; cs.push_back(e); }
        std::string w; for (auto& e : cs) w += (w.empty() ? " WHERE " : " AND ") + e.sql; sql += w;
        std::vector<DR> k; for (auto& x : out.rows) { bool m = true; for (auto& e : cs) m = m && yes(e.ev(x)); if (m) k.push_back(x); } out.rows = std::move(k);
    }
    return sql;
}
D agg(int f, Ty t, std::vector<D> const& v, Ty& rt) {   // 0 count 1 sum 2 min 3 max 4 avg 5 count distinct
    if (f == 0) { long long n = 0; for (auto& d : v) n += !d.null; rt = I8; return D::of(I8, n); }
    if (f == 5) { std::set<D> s; for (auto& d : v) if (!d.null) s.insert(d); rt = I8; return D::of(I8, static_cast<long long>(s.size())); }
    rt = t; D o = D::nul(t); long long n = 0;
    for (auto& d : v) { if (d.null) continue; ++n; if (o.null) { o = d; continue; } if (f == 1 || f == 4) { o.i += d.i; o.f += d.f; } else if (f == 2 ? d < o : o < d) o = d; }
    if (f == 4 && !o.null) { o.i /= n; o.f /= static_cast<double>(n); }
    return o;
}
Query query(bool pars, int complexity) {
    Query q; Gen g; if (pars) g.pars = &q.pars; auto& r = g.r; Rel rel; auto core = [&](std::vector<Ty> const* want, bool dist, bool grp) {
        auto from = source(g, rel, complexity); std::string sql = "SELECT "; std::vector<DR> out; q.names.clear();
        if (dist) sql += "DISTINCT ";
        if (!grp) {
            std::vector<Ex> items; auto n = want ? want->size() : 1 + r.below(4);
            if (!want && r.chance(0.15)) { sql += "*"; for (auto& c : rel.s) { items.push_back({}); auto k = items.size() - 1; items.back().t = c.t; items.back().ev = [k](DR const& x) { return x[k]; }; q.names.push_back(c.ref.substr(2)); } }
            else for (u64 i = 0; i < n; ++i) { Ex e; if (want) { Ty w = (*want)[i]; for (int k = 0; k < 8; ++k) { e = g.expr(rel.s); if (e.t == w) break; } if (e.t != w) e = g.col(rel.s, [w](Ty t) { return t == w; }); if (e.sql.empty()) { e.t = w; auto sv = g.pars; g.pars = nullptr; auto d = g.value(w, 0); g.pars = sv; e.sql = "CAST(" + lit(d) + " AS " + ty_name[w] + ")"; e.ev = [d](DR const&) { return d; }; } } else e = g.expr(rel.s); auto nm = "c" + std::to_string(i); sql += (i ? ", " : "") + e.sql + " AS " + nm; q.names.push_back(nm); items.push_back(e); }
            q.ty.clear(); for (auto& e : items) q.ty.push_back(e.t);
            for (auto& x : rel.rows) { DR o; for (auto& e : items) o.push_back(e.ev(x)); out.push_back(o); }
        } else {
            std::vector<Ex> keys; auto nk = r.below(3); std::set<int> used; for (u64 i = 0; i < nk; ++i) { auto e = g.col(rel.s); if (used.insert(e.col).second) keys.push_back(e); }
            struct A { int f; Ex e; bool star; }; std::vector<A> as; bool dd = r.chance(0.2); auto na = (keys.empty() ? 1 : 0) + r.below(4);
            for (u64 i = 0; i < na; ++i) { A a; a.star = false; if (dd) { a.f = 5; a.e = g.col(rel.s); } else { a.f = static_cast<int>(r.below(5)); a.star = a.f == 0 && r.chance(0.5); a.e = a.f == 1 ? g.col(rel.s, [](Ty t) { return Gen::rank(t) != 0; }) : a.f == 4 ? g.col(rel.s, [](Ty t) { return t == I4 || t == I8 || t == F8; }) : g.col(rel.s); if (a.e.sql.empty()) { a.f = 0; a.star = true; } } as.push_back(a); }
            static char const* const fn[] = {"COUNT(", "SUM(", "MIN(", "MAX(", "AVG(", "COUNT(DISTINCT "};
            if (keys.empty() && as.empty()) { A a; a.f = 0; a.star = true; as.push_back(a); }
            std::map<DR, std::vector<DR>> gr; for (auto& x : rel.rows) { DR k; for (auto& e : keys) k.push_back(e.ev(x)); gr[k].push_back(x); }
            if (keys.empty() && gr.empty()) gr[{}] = {};
            q.ty.clear(); std::size_t i = 0; for (auto& e : keys) { auto nm = "c" + std::to_string(i); sql += (i++ ? ", " : "") + e.sql + " AS " + nm; q.ty.push_back(e.t); q.names.push_back(nm); }
            for (auto& a : as) { auto nm = "c" + std::to_string(i); sql += (i++ ? ", " : "") + std::string(a.star ? "COUNT(*)" : fn[a.f] + a.e.sql + ")") + " AS " + nm; q.ty.push_back(a.f == 0 || a.f == 5 ? I8 : a.e.t); q.names.push_back(nm); }
            for (auto& [k, xs] : gr) { DR o = k; for (auto& a : as) { if (a.star) { o.push_back(D::of(I8, static_cast<long long>(xs.size()))); continue; } std::vector<D> v; for (auto& x : xs) v.push_back(a.e.ev(x)); Ty rt; o.push_back(agg(a.f, a.e.t, v, rt)); } out.push_back(o); }
            from += ""; std::string gb; for (auto& e : keys) gb += (gb.empty() ? " GROUP BY " : ", ") + e.sql; from += gb; sim::probe(keys.empty() ? "aggregate_whole" : dd ? "aggregate_distinct" : "aggregate_group");
        }
        if (dist) { std::set<DR> s(out.begin(), out.end()); out.assign(s.begin(), s.end()); sim::probe("distinct"); }
        q.rows.insert(q.rows.end(), out.begin(), out.end()); return sql + " FROM " + from;
    };
    bool uni = r.chance(0.15), dist = !uni && r.chance(0.15), grp = !dist && r.chance(0.35);
    q.sql = core(nullptr, dist, grp);
    if (uni) { sim::probe("union"); auto t = q.ty; auto nm = q.names; auto n = 1 + r.below(2); for (u64 i = 0; i < n; ++i) { q.sql += " UNION ALL " + core(&t, false, false); } q.ty = t; q.names = nm; }
    if (r.chance(0.35)) { auto n = 1 + r.below(2); std::set<u64> u; for (u64 i = 0; i < n; ++i) { auto c = r.below(q.ty.size()); if (q.names[c][0] != 'c' || q.names[c].size() < 2 || !u.insert(c).second) continue; bool d = r.chance(0.4); q.sql += (q.order.empty() ? " ORDER BY " : ", ") + q.names[c] + (d ? " DESC" : ""); q.order.emplace_back(static_cast<int>(c), d); } if (!q.order.empty()) sim::probe("order"); }
    if (r.chance(0.25)) { q.limit = static_cast<long long>(r.below(8)); q.sql += " LIMIT " + std::to_string(q.limit); sim::probe("limit"); }
    return q;
}
int order_cmp(Query const& q, DR const& a, DR const& b) { for (auto [c, d] : q.order) { auto& x = a[static_cast<std::size_t>(c)]; auto& y = b[static_cast<std::size_t>(c)]; if (x < y) return d ? 1 : -1; if (y < x) return d ? -1 : 1; } return 0; }
std::string compare(Query const& q, std::vector<DR> const& got) {
    auto want = q.rows.size(); if (q.limit >= 0) want = std::min<std::size_t>(want, static_cast<std::size_t>(q.limit));
    if (got.size() != want) return "returned " + std::to_string(got.size()) + " rows instead of " + std::to_string(want);
    std::multiset<DR> all(q.rows.begin(), q.rows.end());
    for (auto& x : got) { auto i = all.find(x); if (i == all.end()) return "returned " + show(x) + " which is not (so often) in the result" + (all.empty() ? "" : ", missing e.g. " + show(*all.begin())); all.erase(i); }
    for (std::size_t i = 1; i < got.size(); ++i) if (order_cmp(q, got[i - 1], got[i]) > 0) return "is not ordered: " + show(got[i - 1]) + " before " + show(got[i]);
    if (!q.order.empty() && !got.empty()) for (auto& x : all) if (order_cmp(q, x, got.back()) < 0) return "LIMIT kept " + show(got.back()) + " and dropped " + show(x);
    return "";
}
struct Conf { int clients, ops, complexity; bool faults, cancel, chan; };
Conf C;
void configure(jogasaki::configuration& c) {
    auto& r = sim::cfg();
    c.thread_pool_size(1 + r.below(4)); c.default_partitions(1 + r.below(5)); c.scan_block_size(std::vector<std::size_t>{1, 2, 5, 100}[r.below(4)]); c.scan_yield_interval(r.below(2));
    c.inplace_teardown(r.chance(0.5)); c.inplace_dag_schedule(r.chance(0.5)); c.enable_hybrid_scheduler(r.chance(0.7)); c.lightweight_job_level(r.chance(0.5) ? 0 : 100); c.stealing_enabled(r.chance(0.7));
    c.scan_default_parallel(1 + r.below(4)); c.use_preferred_worker_for_current_thread(r.chance(0.3)); c.use_sorted_vector(r.chance(0.4)); c.noop_pregroup(c.use_sorted_vector() ? false : r.chance(0.05) ? false : false);
    c.max_result_set_writers(r.chance(0.4) ? 64 : 1 + r.below(4)); c.return_os_pages(r.chance(0.3)); c.key_distribution(r.chance(0.5) ? jogasaki::key_distribution_kind::uniform : jogasaki::key_distribution_kind::simple);
    c.assign_numa_nodes_uniformly(r.chance(0.2)); c.enable_session_store(r.chance(0.5)); c.apply_max_polls(1 + r.below(3)); c.randomize_memory_usage(r.chance(0.1) ? 1 + r.below(3) : 0);
    if (C.cancel) { auto k = std::make_shared<jogasaki::request_cancel_config>(); for (auto e : {jogasaki::request_cancel_kind::write, jogasaki::request_cancel_kind::scan, jogasaki::request_cancel_kind::find, jogasaki::request_cancel_kind::group, jogasaki::request_cancel_kind::take_cogroup, jogasaki::request_cancel_kind::take_flat, jogasaki::request_cancel_kind::transaction_begin_wait, jogasaki::request_cancel_kind::transaction_precommit}) if (r.chance(0.7)) k->enable(e); c.req_cancel_config(k); }
}
pr::common::AtomType atom(Ty t) { switch (t) { case I4: return pr::common::INT4; case I8: return pr::common::INT8; case F8: return pr::common::FLOAT8; case DEC: return pr::common::DECIMAL; case STR: return pr::common::CHARACTER; default: return pr::common::BOOLEAN; } }
void put(google::protobuf::RepeatedPtrField<pr::request::Parameter>* f, Par const& p) {
    auto* x = f->Add(); x->set_name(p.name); if (p.v.null) return;
    switch (p.v.t) { case I4: x->set_int4_value(static_cast<int>(p.v.i)); break; case I8: x->set_int8_value(p.v.i); break; case F8: x->set_float8_value(p.v.f); break; case STR: x->set_character_value(p.v.s); break; case BOOL: x->set_boolean_value(p.v.i); break;
        case DEC: { auto* d = x->mutable_decimal_value(); auto v = p.v.i; std::string b; do { b.insert(b.begin(), static_cast<char>(v & 0xff)); v >>= 8; } while (v != 0 && v != -1); if ((p.v.i < 0) != ((b[0] & 0x80) != 0)) b.insert(b.begin(), p.v.i < 0 ? '\xff' : '\0'); d->set_unscaled_value(b); d->set_exponent(-2); break; } }
}
bool excused() { return C.faults || C.cancel || C.chan; }
struct Cl {
    Client c; int no; Table w; std::vector<DR> mine; Tx t; bool long_tx{};
    Cl(Engine& e, int no) : c(e, static_cast<std::size_t>(no + 1)), no(no) {}
    bool begin() {
        Opt o; { sim::NoPreempt np; auto& r = sim::wl(); o.type = r.chance(0.5) ? 1 : r.chance(0.4) ? 2 : 3; long_tx = o.type != 1; if (o.type == 2) o.wp.push_back(w.name); if (o.type != 1 && r.chance(0.5)) o.scan_parallel = static_cast<int>(r.below(5)); ro = o.type == 3; }
        t = c.begin(o);
        if (!t && !excused()) sim::fail("begin", "begin failed: %d %s", c.last.code, c.last.detail.c_str());
        return t.ok();
    }
    bool ro{}; std::vector<DR> snap;
    struct Open { std::shared_ptr<Resp> p; Query q; std::string sql; bool cancel; };
    u64 prepare(std::string const& sql, std::vector<Par> const& pars) {
        Request r; { sim::NoPreempt g; auto* p = r.mutable_prepare(); p->set_sql(sql); for (auto& x : pars) { auto* y = p->add_placeholders(); y->set_name(x.name); y->set_atom_type(atom(x.v.t)); } }
        if (!c.call(r, "prepare " + sql)) { if (!excused()) sim::fail("prepare", "prepare of '%s' failed: %d %s", sql.c_str(), c.last.code, c.last.detail.c_str()); return 0; }
        return Q(c.resp->r.prepare().prepared_statement_handle().handle());
    }
    void unprepare(u64 h) { Request r; Q((r.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(h), 0)); c.call(r, "dispose statement"); }
    void check(Open& o) {
        Engine::wait(o.p);
        sim::NoPreempt g; auto e = Engine::error_of(*o.p);
        if (!e.ok) { sim::ev("query error %d %s", e.code, e.detail.c_str()); if (!excused()) sim::fail("query-failed", "'%s' failed: %d %s", o.sql.c_str(), e.code, e.detail.c_str()); sim::probe("query_failed"); return; }
        if (!o.p->heads) sim::fail("no-head", "'%s' succeeded without a body head", o.sql.c_str());
        auto& m = o.p->head.execute_query().record_meta();
        if (static_cast<std::size_t>(m.columns_size()) != o.q.ty.size()) sim::fail("wrong-head", "'%s': head announces %d columns instead of %zu", o.sql.c_str(), m.columns_size(), o.q.ty.size());
        for (int i = 0; i < m.columns_size(); ++i) { auto& k = m.columns(i); if (k.atom_type() != atom(o.q.ty[static_cast<std::size_t>(i)])) sim::fail("wrong-head", "'%s': column %d announced with type %d", o.sql.c_str(), i, static_cast<int>(k.atom_type())); if (k.name() != o.q.names[static_cast<std::size_t>(i)]) sim::fail("wrong-head", "'%s': column %d announced as '%s'", o.sql.c_str(), i, k.name().c_str()); }
        if (o.p->chans.size() != 1) sim::fail("channels", "'%s' used %zu channels", o.sql.c_str(), o.p->chans.size());
        if (o.p->chans[0]->peak > c.e.cfg->max_result_set_writers()) sim::fail("too-many-writers", "'%s' used %zu writers at a time", o.sql.c_str(), o.p->chans[0]->peak);
        for (auto& w_ : o.p->chans[0]->ws) if (!w_->pending.empty()) sim::fail("uncommitted-records", "'%s' succeeded with %zu bytes written and never committed", o.sql.c_str(), w_->pending.size());
        std::vector<DR> got; for (auto& row : o.p->rows()) { if (row.size() != o.q.ty.size()) sim::fail("wrong-row", "'%s' returned a row of %zu columns", o.sql.c_str(), row.size()); DR d; for (std::size_t i = 0; i < row.size(); ++i) d.push_back(from(row[i], o.q.ty[i])); got.push_back(d); }
        auto w_ = compare(o.q, got); if (!w_.empty()) { std::string ps; for (auto& p : o.q.pars) ps += " :" + p.name + "=" + lit(p.v); sim::fail("wrong-result", "'%s'%s %s", o.sql.c_str(), ps.c_str(), w_.c_str()); }
        if (o.p->chans[0]->ws.size() > 1) sim::probe("several_writers"); if (!got.empty()) sim::probe("rows_checked"); max_rows = std::max(max_rows, got.size());
    }
    void queries() {
        int n; { sim::NoPreempt g; n = static_cast<int>(sim::wl().chance(0.7) ? 1 : 2 + sim::wl().below(2)); }
        std::vector<Open> os; std::vector<u64> hs;
        for (int i = 0; i < n; ++i) {
            Open o; bool pre; u64 delay; { sim::NoPreempt g; pre = sim::wl().chance(0.4); o.q = query(pre, C.complexity); o.sql = o.q.sql; o.cancel = C.cancel && sim::wl().chance(0.4); delay = sim::wl().below(300000); }
            Request r;
            if (pre) { auto h = prepare(o.sql, o.q.pars); if (!h) continue; hs.push_back(h); sim::NoPreempt g; auto* x = r.mutable_execute_prepared_query(); x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(h); x->mutable_prepared_statement_handle()->set_has_result_records(true); for (auto& p : o.q.pars) put(x->mutable_parameters(), p); }
            else r = Client::query_req(t, o.sql);
            o.p = c.e.send(c.s, r, o.sql); if (o.cancel) { sim::sleep_ns(delay); Q((o.p->cancel = true)); }
            os.push_back(std::move(o));
        }
        for (auto& o : os) check(o);
        for (auto h : hs) unprepare(h);
    }
    // one set-oriented statement on this client's own table; false: it failed and the transaction is gone
    bool write() {
        std::string sql; std::vector<Par> pars; long long want = 0; std::vector<DR> next; int kind; bool cancel, pre; u64 delay; pr::response::ExecuteResult::CounterType ct;
        {
            sim::NoPreempt np; auto& r = sim::wl(); pre = r.chance(0.3); Gen g; if (pre) g.pars = &pars; next = mine; kind = mine.size() > 300 ? 2 : mine.empty() ? 0 : static_cast<int>(r.below(3)); cancel = C.cancel && r.chance(0.3); delay = r.below(300000);
            auto s = scope_of(w, ""); auto where = [&](std::string& q) { std::vector<Ex> p; auto n = r.chance(0.15) ? 0 : 1 + r.below(2); for (u64 i = 0; i < n; ++i) p.push_back(g.pred(s, 1)); for (std::size_t i = 0; i < p.size(); ++i) q += (i ? " AND " : " WHERE ") + p[i].sql; return p; };
            auto match = [](std::vector<Ex> const& p, DR const& x) { for (auto& e : p) if (!yes(e.ev(x))) return false; return true; };
            if (kind == 0) {
                Rel rel; ct = pr::response::ExecuteResult::INSERTED_ROWS; auto from = source(g, rel, 1); std::vector<Ex> it;
                for (auto ty : w.ty) { Ex e; for (int k = 0; k < 6; ++k) { e = g.expr(rel.s); if (e.t == ty) break; } if (e.t != ty) e = g.col(rel.s, [ty](Ty q) { return q == ty; }); if (e.sql.empty()) { auto d = g.value(ty); e.t = ty; e.sql = "CAST(" + lit(d) + " AS " + ty_name[ty] + ")"; e.ev = [d](DR const&) { return d; }; } it.push_back(e); }
                sql = "INSERT INTO " + w.name + " ("; for (std::size_t i = 0; i < w.cols.size(); ++i) sql += (i ? ", " : "") + w.cols[i]; sql += ") SELECT "; for (std::size_t i = 0; i < it.size(); ++i) sql += (i ? ", " : "") + it[i].sql; sql += " FROM " + from;
                if (rel.rows.size() > 300) return true;
                for (auto& x : rel.rows) { DR o; for (auto& e : it) o.push_back(e.ev(x)); next.push_back(o); ++want; }
                for (auto& x : next) for (auto& d : x) if (d.t == DEC && std::llabs(d.i) > 90000000) return true;
            } else if (kind == 1) {
                ct = pr::response::ExecuteResult::UPDATED_ROWS; sql = "UPDATE " + w.name + " SET "; std::vector<std::pair<std::size_t, Ex>> set; auto n = 1 + r.below(2);
                for (u64 i = 0; i < n; ++i) { auto k = r.below(w.cols.size()); bool dup = false; for (auto& x : set) dup = dup || x.first == k; if (dup) continue; Ex e; for (int q = 0; q < 8; ++q) { e = g.expr(s); if (e.t == w.ty[k]) break; } if (e.t != w.ty[k]) { auto d = g.value(w.ty[k], 0); e.sql = "CAST(" + lit(d) + " AS " + ty_name[w.ty[k]] + ")"; e.t = w.ty[k]; e.ev = [d](DR const&) { return d; }; } sql += (set.empty() ? "" : ", ") + w.cols[k] + " = " + e.sql; set.emplace_back(k, e); }
                auto p = where(sql); for (auto& x : next) if (match(p, x)) { auto o = x; for (auto& [k, e] : set) o[k] = e.ev(x); x = o; ++want; }
                for (auto& x : next) for (auto& d : x) if ((d.t == STR && d.s.size() > 20000) || std::llabs(d.i) > 1000000) return true;
            } else { ct = pr::response::ExecuteResult::DELETED_ROWS; sql = "DELETE FROM " + w.name; auto p = where(sql); std::vector<DR> k; for (auto& x : next) if (match(p, x)) ++want; else k.push_back(x); next = k; }
        }
        Request rq; u64 h = 0;
        if (pre) { h = prepare(sql, pars); if (!h) return false; sim::NoPreempt g; auto* x = rq.mutable_execute_prepared_statement(); x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(h); for (auto& p : pars) put(x->mutable_parameters(), p); }
        else rq = Client::stmt_req(t, sql);
        auto p = c.e.send(c.s, rq, sql); if (cancel) { sim::sleep_ns(delay); Q((p->cancel = true)); }
        Engine::wait(p); bool ok; { sim::NoPreempt g; auto e = Engine::error_of(*p); ok = e.ok; if (!ok) sim::ev("error %d %s", e.code, e.detail.c_str()); if (!ok && !excused()) sim::fail("statement-failed", "'%s' failed: %d %s", sql.c_str(), e.code, e.detail.c_str()); }
        if (h) unprepare(h);
        if (!ok) { sim::probe("statement_failed"); return false; }
        sim::NoPreempt g; long long n = 0; for (auto& k : p->r.execute_result().success().counters()) { if (k.value() && k.type() != ct) sim::fail("wrong-counter", "'%s' counted %lld rows under counter %d", sql.c_str(), static_cast<long long>(k.value()), static_cast<int>(k.type())); n += k.value(); }
        if (n != want) sim::fail("wrong-count", "'%s' reports %lld rows instead of %lld", sql.c_str(), n, want);
        mine = next; static char const* const pn[] = {"insert_select", "update", "delete"}; sim::probe(pn[kind]); return true;
    }
    bool verify_own() {
        Query q; std::string sql = "SELECT "; { sim::NoPreempt g; for (std::size_t i = 0; i < w.cols.size(); ++i) { sql += (i ? ", " : "") + w.cols[i]; q.names.push_back(w.cols[i]); } sql += " FROM " + w.name; q.ty = w.ty; q.rows = mine; q.sql = sql; }
        Open o; o.q = q; o.sql = sql; auto r = Client::query_req(t, sql); o.p = c.e.send(c.s, r, sql); check(o); return Q(Engine::error_of(*o.p).ok);
    }
    void transaction() {
        if (!begin()) return;
        snap = mine; bool ok = true; auto n = Q(1 + sim::wl().below(3));
        for (u64 i = 0; i < n && ok; ++i) { bool wr = Q(!ro && sim::wl().chance(0.4)); if (wr) ok = write() && (long_tx || verify_own()); else queries(); }
        bool commit = Q(sim::wl().chance(0.8));
        if (ok && commit) { ok = c.commit(t, 20); if (!ok && !excused()) sim::fail("commit", "commit failed: %d %s", c.last.code, c.last.detail.c_str()); if (!ok && kv::outcome(t.id, nullptr) == 1) sim::fail("commit-reported-failed", "commit failed but the store committed it"); }
        else { c.rollback(t); ok = false; }
        c.dispose(t); if (!ok) mine = snap;
    }
};
void run() {
    tabs.clear(); rules = {}; max_rows = 0; auto& g = sim::cfg();
    bool p12 = !strcmp(sim::property(), "C12");
    C.clients = static_cast<int>(1 + g.below(3)); C.ops = static_cast<int>(2 + g.below(4)); C.complexity = static_cast<int>(g.below(3)); C.faults = g.chance(0.15); C.cancel = g.chance(p12 ? 0.3 : 0.1); C.chan = g.chance(p12 ? 0.4 : 0.08);
    kv::reset(); auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(500 + g.below(5000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.3) ? 0 : 0.5; o.concurrent_op = 0;
    if (g.chance(0.3)) sim::fault_enable(sim::f_spurious_wakeup); if (g.chance(0.15)) sim::fault_enable(sim::f_stall); sim::set_stall_max(5'000'000);
    sim::set_step_limit(60000000, true); sim::set_time_limit(3600ULL * 1000000000);
    jogasaki::executor::exchange::group::input_partition::ptr_table_size = g.chance(0.3) ? 262144 : 1 + g.below(6);
    jogasaki::executor::exchange::aggregate::input_partition::default_initial_hash_table_size = g.chance(0.3) ? 65536 : 1ULL << (1 + g.below(5));
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt g; return static_cast<std::size_t>(sim::wl().below(n)); };
    Engine e; configure(*e.cfg);
    if (auto rc = e.start(); rc != jogasaki::status::ok) sim::fail("start", "start failed with status %d", static_cast<int>(rc));
    {
        Client c(e, 99); auto ddl = [&](std::string s) { if (!c.ddl(s)) sim::fail("ddl", "'%s' failed: %d %s", s.c_str(), c.last.code, c.last.detail.c_str()); };
        auto& r = sim::wl(); auto n = Q(1 + r.below(3)); double nul = Q(r.chance(0.3) ? 0 : 0.2);
        for (u64 i = 0; i < n; ++i) {
            Table t; std::vector<std::string> sqls;
            { sim::NoPreempt np; Gen gen; t.name = "t" + std::to_string(i); t.cols = {"k", "a", "b", "d", "m", "s"}; t.ty = {I8, I4, I8, F8, DEC, STR}; bool pk = r.chance(0.85);
              std::string sql = "CREATE TABLE " + t.name + " ("; bool comp = pk && r.chance(0.3); for (std::size_t j = 0; j < t.cols.size(); ++j) sql += (j ? ", " : "") + t.cols[j] + " " + ty_name[t.ty[j]] + (comp && j == 2 ? " NOT NULL" : ""); if (pk) sql += comp ? ", PRIMARY KEY (k, b)" : ", PRIMARY KEY (k)"; sql += ")"; sqls.push_back(sql);
              t.idx.push_back(pk ? comp ? std::vector<int>{0, 2} : std::vector<int>{0} : std::vector<int>{});
              auto ni = pk ? r.below(3) : 1 + r.below(2); for (u64 j = 0; j < ni; ++j) { std::vector<int> c1{static_cast<int>(r.below(6))}; if (r.chance(0.4)) { int c2 = static_cast<int>(r.below(6)); if (c2 != c1[0]) c1.push_back(c2); } std::string q = "CREATE INDEX i" + std::to_string(i) + std::to_string(j + 1) + " ON " + t.name + " ("; for (std::size_t z = 0; z < c1.size(); ++z) q += (z ? ", " : "") + t.cols[static_cast<std::size_t>(c1[z])] + (r.chance(0.3) ? " DESC" : ""); sqls.push_back(q + ")"); t.idx.push_back(c1); }
              auto nr = r.chance(0.1) ? 0 : r.chance(0.85) ? 1 + r.below(25) : r.below(120); std::set<std::pair<long long, long long>> keys;
              for (u64 j = 0; j < nr; ++j) { DR x; for (std::size_t q = 0; q < t.ty.size(); ++q) x.push_back(gen.value(t.ty[q], (q == 0 && pk) || (comp && q == 2) ? 0 : nul)); if (pk) { if (!comp) x[0] = D::of(I8, static_cast<long long>(j) - 3); else if (!keys.insert({x[0].i, x[2].i}).second) continue; } t.rows.push_back(x); } }
            for (auto& s : sqls) ddl(s);
            for (std::size_t at = 0; at < t.rows.size();) { std::string s; { sim::NoPreempt np; s = "INSERT INTO " + t.name + " (k, a, b, d, m, s) VALUES "; auto m = std::min(t.rows.size(), at + 1 + r.below(20)); for (auto j = at; j < m; ++j) s += (j > at ? ", " : "") + show(t.rows[j]); at = m; } ddl(s); }
            sim::NoPreempt np; tabs.push_back(std::move(t));
        }
        std::vector<std::string> wsql; for (int i = 0; i < C.clients; ++i) { auto nm = "w" + std::to_string(i); ddl("CREATE TABLE " + nm + " (a INT, b BIGINT, d DOUBLE, m DECIMAL(10,2), s VARCHAR(*))"); if (Q(r.chance(0.4))) ddl("CREATE INDEX j" + std::to_string(i) + " ON " + nm + (Q(r.chance(0.5)) ? " (b, s)" : " (d)")); }
    }
    if (C.faults) { o.io_error = g.chance(0.3) ? 0.002 : 0; o.conflict = g.chance(0.5) ? 0.005 : 0; for (auto k : {sim::f_kvs_conflict, sim::f_kvs_io, sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k); }
    if (C.chan) { rules.channel_faults = true; sim::fault_enable(sim::f_channel); }
    vh::Threads th;
    for (int i = 0; i < C.clients; ++i) th.go([&e, i] { Cl cl(e, i); { sim::NoPreempt np; cl.w.name = "w" + std::to_string(i); cl.w.cols = {"a", "b", "d", "m", "s"}; cl.w.ty = {I4, I8, F8, DEC, STR}; } for (int k = 0; k < C.ops; ++k) cl.transaction();
        sim::NoPreempt np; cl.c.s->store.dispose(); });
    th.join();
    sim::faults_stop(); rules.channel_faults = false; o.io_error = o.conflict = 0;
    for (auto& p : e.all) Engine::wait(p);
    sim::wait_until([] { return kv::open_transactions() == 0; }, "transactions to be given back");
    if (kv::leaked_handles()) sim::fail("kvs-handle-leak", "%d transaction handles were not released", kv::leaked_handles());
    if (auto rc = e.stop(); rc != jogasaki::status::ok) sim::fail("stop", "stop failed with status %d", static_cast<int>(rc));
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbquery", nullptr, run}; }
