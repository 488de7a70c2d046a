// Simulated SQL front end: a parser and planner for the statements the simulation issues. It stands in for mizugaki (parser, analyzer) and
// yugawara's compiler: it resolves names against the real catalog jogasaki passes in and produces takatori plans that jogasaki executes.
// Extensions: FROM t@idx forces a scan of that index; LOOKUP JOIN / RANGE JOIN give join_find / join_scan.
#include "../impl/mizugaki.h"
#include <algorithm>
#include <functional>
#include <optional>

namespace tt = takatori::type; namespace tv = takatori::value; namespace ts = takatori::scalar; namespace tr = takatori::relation; namespace tp = takatori::plan; namespace st = takatori::statement; namespace td = takatori::descriptor; namespace ys = yugawara::storage;
namespace {
using code = mizugaki::analyzer::sql_analyzer_code;
struct bad_syntax { std::string m; };
struct bad_name { code c; std::string m; };
template <class T> using sp = std::shared_ptr<T>; template <class T> using up = std::unique_ptr<T>;
using type_ptr = sp<tt::data const>; using var = td::variable;

struct token { enum K { id, num, str, sym, par, end } k; std::string t; std::string raw; };
std::vector<token> lex(std::string const& s) {
    std::vector<token> r; std::size_t i = 0;
    auto idc = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '#' || c == '$'; };
    while (i < s.size()) {
        char c = s[i];
        if (std::isspace(static_cast<unsigned char>(c))) { ++i; continue; }
        if (c == '-' && i + 1 < s.size() && s[i + 1] == '-') { while (i < s.size() && s[i] != '\n') ++i; continue; }
        if (c == '\'') { std::string v; ++i; for (;;) { if (i >= s.size()) throw bad_syntax{"unterminated string"}; if (s[i] == '\'') { if (i + 1 < s.size() && s[i + 1] == '\'') { v += '\''; i += 2; continue; } ++i; break; } v += s[i++]; } r.push_back({token::str, v, v}); continue; }
        if (c == '"') { auto e = s.find('"', i + 1); if (e == std::string::npos) throw bad_syntax{"unterminated identifier"}; auto v = s.substr(i + 1, e - i - 1); r.push_back({token::id, v, v}); i = e + 1; continue; }
        if (c == ':' && i + 1 < s.size() && idc(s[i + 1])) { std::size_t b = ++i; while (i < s.size() && idc(s[i])) ++i; auto v = s.substr(b, i - b); r.push_back({token::par, v, v}); continue; }
        if (std::isdigit(static_cast<unsigned char>(c))) { std::size_t b = i; while (i < s.size() && (std::isdigit(static_cast<unsigned char>(s[i])) || s[i] == '.' || s[i] == 'e' || s[i] == 'E' || ((s[i] == '-' || s[i] == '+') && (s[i - 1] == 'e' || s[i - 1] == 'E')))) ++i; auto v = s.substr(b, i - b); r.push_back({token::num, v, v}); continue; }
        if (idc(c)) { std::size_t b = i; while (i < s.size() && idc(s[i])) ++i; auto v = s.substr(b, i - b); auto l = v; for (auto& x : l) x = static_cast<char>(std::tolower(static_cast<unsigned char>(x))); r.push_back({token::id, l, v}); continue; }
        static char const* const two[] = {"<>", "<=", ">=", "||", "!="};
        bool hit = false; for (auto* t : two) if (s.compare(i, 2, t) == 0) { r.push_back({token::sym, t, t}); i += 2; hit = true; break; }
        if (hit) continue;
        r.push_back({token::sym, std::string(1, c), std::string(1, c)}); ++i;
    }
    r.push_back({token::end, "", ""}); return r;
}

// --- syntax tree
struct node; using np = sp<node>;
struct node { enum K { integer, approx, dec, str, null, boolean, col, param, un, bin, cmp, isnull, isnotnull, func, cast, coalesce, case_ } k; std::string t, q; std::vector<np> a; bool distinct{}, star{}; type_ptr ty; };
struct table_ref { std::string name, alias, index; int join = 0; /* 0 first, 1 group join, 2 lookup, 3 range */ tr::join_kind jk{}; np on; };
struct item { np e; std::string alias; bool star{}; };
struct okey { np e; bool desc; };
struct select { bool distinct{}; std::vector<item> items; std::vector<table_ref> from; np where; std::vector<np> group; std::vector<okey> order; std::optional<std::size_t> limit; std::vector<sp<select>> unions; };
struct coldef { std::string name; type_ptr ty; bool notnull{}, pk{}, identity{}; np def; std::int64_t start{1}, inc{1}, lo{1}, hi{std::numeric_limits<std::int64_t>::max()}; bool cycle{true}; };
struct stmt {
    enum K { empty, sel, ins, upd, del, ctable, dtable, cindex, dindex, trunc, grant } k{}; std::string table, name; bool flag{}; bool ifx{}; tr::write_kind wk{tr::write_kind::insert};
    sp<select> q; std::vector<std::string> cols; std::vector<std::vector<np>> rows; std::vector<std::pair<std::string, np>> sets; np where; std::string index; std::vector<coldef> defs; std::vector<std::pair<std::string, bool>> keys; bool unique{}; std::vector<std::string> acts, users; bool revoke{};
};
struct parser {
    std::vector<token> v; std::size_t p = 0;
    token const& t() const { return v[p]; }
    bool is(char const* s) const { return (t().k == token::id || t().k == token::sym) && t().t == s; }
    bool acc(char const* s) { if (is(s)) { ++p; return true; } return false; }
    void exp(char const* s) { if (!acc(s)) throw bad_syntax{std::string("expected ") + s + " near " + t().t}; }
    std::string id() { if (t().k != token::id) throw bad_syntax{"identifier expected near " + t().t}; return v[p++].t; }
    static np mk(node::K k, std::string t = {}, std::vector<np> a = {}) { auto n = std::make_shared<node>(); n->k = k; n->t = std::move(t); n->a = std::move(a); return n; }
    std::size_t number() { if (t().k != token::num) throw bad_syntax{"number expected"}; return std::stoull(v[p++].t); }
    type_ptr type() {
        auto n = id();
        auto len = [&](bool& star) -> std::optional<std::size_t> { star = false; if (!acc("(")) return {}; std::optional<std::size_t> r; if (acc("*")) star = true; else r = number(); exp(")"); return r; };
        bool star{};
        if (n == "int" || n == "integer") return std::make_shared<tt::int4>(); if (n == "bigint") return std::make_shared<tt::int8>();
        if (n == "real") return std::make_shared<tt::float4>(); if (n == "double") { acc("precision"); return std::make_shared<tt::float8>(); } if (n == "float") return std::make_shared<tt::float8>();
        if (n == "boolean") return std::make_shared<tt::boolean>();
        if (n == "varchar") { auto l = len(star); return std::make_shared<tt::character>(tt::varying, l); }
        if (n == "char" || n == "character") { auto l = len(star); return std::make_shared<tt::character>(tt::varying_t{false}, l ? l : std::optional<std::size_t>(1)); }
        if (n == "varbinary") { auto l = len(star); return std::make_shared<tt::octet>(tt::varying, l); }
        if (n == "binary") { auto l = len(star); return std::make_shared<tt::octet>(tt::varying_t{false}, l ? l : std::optional<std::size_t>(1)); }
        if (n == "decimal") { std::optional<std::size_t> a, b; if (acc("(")) { if (!acc("*")) a = number(); if (acc(",")) { if (!acc("*")) b = number(); } else b = 0; exp(")"); } else b = 0; return std::make_shared<tt::decimal>(a, b); }
        if (n == "date") return std::make_shared<tt::date>();
        if (n == "time") return std::make_shared<tt::time_of_day>(); if (n == "timestamp") return std::make_shared<tt::time_point>();
        if (n == "blob") return std::make_shared<tt::blob>(); if (n == "clob") return std::make_shared<tt::clob>();
        throw bad_syntax{"unknown type " + n};
    }
    np expr() { auto l = conj(); while (acc("or")) l = mk(node::bin, "or", {l, conj()}); return l; }
    np conj() { auto l = neg(); while (acc("and")) l = mk(node::bin, "and", {l, neg()}); return l; }
    np neg() { if (acc("not")) return mk(node::un, "not", {neg()}); return cmp(); }
    np cmp() {
        auto l = add();
        for (auto* o : {"=", "<>", "!=", "<=", ">=", "<", ">"}) if (acc(o)) return mk(node::cmp, o[0] == '!' ? "<>" : o, {l, add()});
        if (acc("is")) { bool n = acc("not"); exp("null"); return mk(n ? node::isnotnull : node::isnull, {}, {l}); }
        if (acc("between")) { auto a = add(); exp("and"); auto b = add(); return mk(node::bin, "and", {mk(node::cmp, ">=", {l, a}), mk(node::cmp, "<=", {l, b})}); }
        return l;
    }
    np add() { auto l = mul(); for (;;) { if (acc("+")) l = mk(node::bin, "+", {l, mul()}); else if (acc("-")) l = mk(node::bin, "-", {l, mul()}); else if (acc("||")) l = mk(node::bin, "||", {l, mul()}); else return l; } }
    np mul() { auto l = unary(); for (;;) { if (acc("*")) l = mk(node::bin, "*", {l, unary()}); else if (acc("/")) l = mk(node::bin, "/", {l, unary()}); else if (acc("%")) l = mk(node::bin, "%", {l, unary()}); else return l; } }
    np unary() { if (acc("-")) { if (t().k == token::num) { auto n = prim(); n->t = "-" + n->t; return n; } return mk(node::un, "-", {unary()}); } acc("+"); return prim(); }
    np prim() {
        auto& k = t();
        if (k.k == token::num) { ++p; return mk(k.t.find_first_of("eE") != std::string::npos ? node::approx : k.t.find('.') != std::string::npos ? node::dec : node::integer, k.t); }
        if (k.k == token::str) { ++p; return mk(node::str, k.t); }
        if (k.k == token::par) { ++p; return mk(node::param, k.t); }
        if (acc("(")) { auto e = expr(); exp(")"); return e; }
        if (acc("null")) return mk(node::null); if (acc("true")) return mk(node::boolean, "1"); if (acc("false")) return mk(node::boolean, "0");
        if (acc("case")) { auto n = mk(node::case_); while (acc("when")) { n->a.push_back(expr()); exp("then"); n->a.push_back(expr()); } n->star = acc("else"); if (n->star) n->a.push_back(expr()); exp("end"); return n; }
        if (acc("cast")) { exp("("); auto e = expr(); exp("as"); auto ty = type(); exp(")"); auto n = mk(node::cast, {}, {e}); n->ty = ty; return n; }
        if (k.k != token::id) throw bad_syntax{"unexpected token " + k.t};
        auto n = id();
        if (acc("(")) {
            auto f = mk(n == "coalesce" ? node::coalesce : node::func, n);
            if (acc("*")) { f->star = true; exp(")"); return f; }
            f->distinct = acc("distinct");
            if (!acc(")")) { do f->a.push_back(expr()); while (acc(",")); exp(")"); }
            return f;
        }
        if (acc(".")) { auto c = mk(node::col, id()); c->q = n; return c; }
        return mk(node::col, n);
    }
    static bool kw(std::string const& s) { static std::set<std::string> const k{"where", "group", "order", "limit", "join", "left", "inner", "cross", "lookup", "range", "full", "semi", "anti", "on", "union", "set", "values", "select", "from"}; return k.count(s) != 0; }
    table_ref tref() { table_ref r; r.name = id(); if (acc("@")) r.index = id(); acc("as"); if (t().k == token::id && !kw(t().t)) r.alias = id(); else r.alias = r.name; return r; }
    sp<select> sel(bool core = false) {
        auto s = std::make_shared<select>(); exp("select"); s->distinct = acc("distinct");
        do { item i; if (acc("*")) i.star = true; else { i.e = expr(); if (acc("as")) i.alias = id(); else if (i.e->k == node::col) i.alias = i.e->t; } s->items.push_back(i); } while (acc(","));
        if (acc("from")) {
            s->from.push_back(tref());
            for (;;) {
                int mode = 1; tr::join_kind jk = tr::join_kind::inner; std::size_t save = p;
                if (acc("lookup")) mode = 2; else if (acc("range")) mode = 3;
                if (acc("left")) { acc("outer"); jk = tr::join_kind::left_outer; } else if (acc("full")) { acc("outer"); jk = tr::join_kind::full_outer; } else if (acc("semi")) jk = tr::join_kind::semi; else if (acc("anti")) jk = tr::join_kind::anti; else acc("inner");
                if (!acc("join")) { p = save; break; }
                auto r = tref(); r.join = mode; r.jk = jk; exp("on"); r.on = expr(); s->from.push_back(r);
            }
        }
        if (acc("where")) s->where = expr();
        if (acc("group")) { exp("by"); do s->group.push_back(prim()); while (acc(",")); }
        if (core) return s;
        while (is("union")) { ++p; exp("all"); s->unions.push_back(sel_core()); }
        if (acc("order")) { exp("by"); do { okey k; k.e = expr(); k.desc = acc("desc"); if (!k.desc) acc("asc"); s->order.push_back(k); } while (acc(",")); }
        if (acc("limit")) s->limit = number();
        return s;
    }
    sp<select> sel_core() { return sel(true); }
    sp<stmt> statement() {
        auto s = std::make_shared<stmt>();
        if (is("select")) { s->k = stmt::sel; s->q = sel(); }
        else if (acc("insert")) {
            s->k = stmt::ins; if (acc("or")) { if (acc("replace")) s->wk = tr::write_kind::insert_overwrite; else { exp("ignore"); s->wk = tr::write_kind::insert_skip; } }
            exp("into"); s->table = id(); if (acc("(")) { do s->cols.push_back(id()); while (acc(",")); exp(")"); }
            if (acc("values")) { do { exp("("); std::vector<np> r; do { if (acc("default")) r.push_back(nullptr); else r.push_back(expr()); } while (acc(",")); exp(")"); s->rows.push_back(std::move(r)); } while (acc(",")); } else s->q = sel();
        }
        else if (acc("update")) { s->k = stmt::upd; s->table = id(); if (acc("@")) s->index = id(); exp("set"); do { auto c = id(); exp("="); s->sets.emplace_back(c, expr()); } while (acc(",")); if (acc("where")) s->where = expr(); }
        else if (acc("delete")) { s->k = stmt::del; exp("from"); s->table = id(); if (acc("@")) s->index = id(); if (acc("where")) s->where = expr(); }
        else if (acc("create")) {
            if (acc("table")) {
                s->k = stmt::ctable; if (acc("if")) { exp("not"); exp("exists"); s->ifx = true; } s->table = id(); exp("(");
                do {
                    if (acc("primary")) { exp("key"); exp("("); do s->keys.emplace_back(id(), false); while (acc(",")); exp(")"); continue; }
                    coldef d; d.name = id(); d.ty = type();
                    for (;;) { if (acc("not")) { exp("null"); d.notnull = true; } else if (acc("null")) {} else if (acc("primary")) { exp("key"); d.pk = true; } else if (acc("default")) d.def = add(); else if (acc("generated")) { exp("by"); exp("default"); exp("as"); exp("identity"); d.identity = true; if (acc("(")) { d.cycle = false; auto num = [&] { bool neg = acc("-"); auto x = std::stoull(t().t); ++p; return static_cast<std::int64_t>(neg ? 0 - x : x); }; while (!acc(")")) { if (acc("start")) d.start = num(); else if (acc("increment")) d.inc = num(); else if (acc("minvalue")) d.lo = num(); else if (acc("maxvalue")) d.hi = num(); else if (acc("cycle")) d.cycle = true; else throw bad_syntax{"unexpected " + t().t}; } } } else break; }
                    s->defs.push_back(d);
                } while (acc(","));
                exp(")");
            } else { s->unique = acc("unique"); exp("index"); s->k = stmt::cindex; if (acc("if")) { exp("not"); exp("exists"); s->ifx = true; } s->name = id(); exp("on"); s->table = id(); exp("("); do { auto n = id(); bool d = acc("desc"); if (!d) acc("asc"); s->keys.emplace_back(n, d); } while (acc(",")); exp(")"); }
        }
        else if (acc("drop")) { bool t = acc("table"); if (!t) exp("index"); s->k = t ? stmt::dtable : stmt::dindex; if (acc("if")) { exp("exists"); s->ifx = true; } s->name = id(); }
        else if (acc("truncate")) { exp("table"); s->k = stmt::trunc; s->name = id(); if (acc("restart")) { exp("identity"); s->flag = true; } else if (acc("continue")) exp("identity"); }
        else if (is("grant") || is("revoke")) { s->k = stmt::grant; s->revoke = is("revoke"); ++p; do { s->acts.push_back(id()); if (s->acts.back() == "all") acc("privileges"); } while (acc(",")); exp("on"); acc("table"); s->table = id(); exp(s->revoke ? "from" : "to"); do { if (acc("*")) s->users.push_back("*"); else s->users.push_back(id()); } while (acc(",")); }
        else if (t().k == token::end) s->k = stmt::empty;
        else throw bad_syntax{"unexpected " + t().t};
        if (t().k != token::end) throw bad_syntax{"trailing " + t().t};
        return s;
    }
};
bool aggregate_name(std::string const& n) { return n == "count" || n == "sum" || n == "min" || n == "max" || n == "avg"; }
std::string key_of(np const& n) { if (!n) return "-"; std::string r = std::to_string(static_cast<int>(n->k)) + n->q + "." + n->t + (n->distinct ? "d" : "") + (n->star ? "*" : "") + (n->ty ? n->ty->sig() : "") + "("; for (auto& x : n->a) r += key_of(x) + ","; return r + ")"; }

// --- planning
struct scope_col { std::string q, n; var v; type_ptr ty; };
struct stage { tp::process* pr{}; tr::expression* tail{}; std::vector<scope_col> cols; };
struct planner {
    mizugaki::analyzer::sql_analyzer_options const& o; yugawara::variable::provider const* host;
    yugawara::prepared_ out; yugawara::binding::factory f; tp::graph_type* g{}; std::map<std::string, scope_col> computed; // aggregate results by expression key

    sp<ys::table const> table(std::string const& n) { auto t = o.schema->shared_storage_provider()->find_table(n); if (!t) throw bad_name{code::table_not_found, "table " + n + " is not found"}; return t; }
    sp<ys::index const> primary(ys::table const& t) { auto i = o.schema->shared_storage_provider()->find_primary_index(t); if (!i) throw bad_name{code::primary_index_not_found, "primary index is not found"}; return i; }
    ys::column const& column(ys::table const& t, std::string const& n) { for (auto& c : t.columns()) if (c.simple_name() == n) return c; throw bad_name{code::column_not_found, "column " + n + " is not found"}; }
    tt::data const& ty(ts::expression const& e) { return out.i.type_of(e); }
    static type_ptr shared(tt::data const& d) { return type_ptr(d.clone()); }
    static int rank(tt::type_kind k) { switch (k) { case tt::type_kind::int4: return 1; case tt::type_kind::int8: return 2; case tt::type_kind::decimal: return 3; case tt::type_kind::float4: return 4; case tt::type_kind::float8: return 5; default: return 0; } }
    void note(ts::expression const& e, type_ptr t) { (*out.i.expr_types)[&e] = std::move(t); }
    static ts::eptr imm(sp<tv::data const> v, type_ptr t) { return std::make_unique<ts::immediate>(std::move(v), std::move(t)); }
    ts::eptr to(ts::eptr e, tt::data const& target) {
        auto& s = ty(*e);
        if (s == target || s.kind() == tt::type_kind::unknown || (s.kind() == target.kind() && s.kind() != tt::type_kind::character && s.kind() != tt::type_kind::octet && s.kind() != tt::type_kind::decimal)) return e;
        if (s.kind() == tt::type_kind::character && target.kind() == tt::type_kind::character && static_cast<tt::character const&>(target).varying()) return e;
        return std::make_unique<ts::cast>(shared(target), ts::cast_loss_policy::error, std::move(e));
    }
    ts::eptr constant(np const& n) { std::vector<scope_col> none; return expr(n, none); }
    ts::eptr expr(np const& n, std::vector<scope_col> const& sc) {
        if (auto i = computed.find(key_of(n)); i != computed.end()) return std::make_unique<ts::variable_reference>(i->second.v);
        switch (n->k) {
            case node::integer: return imm(std::make_shared<tv::int8>(std::stoll(n->t)), std::make_shared<tt::int8>());
            case node::approx: return imm(std::make_shared<tv::float8>(std::stod(n->t)), std::make_shared<tt::float8>());
            case node::dec: { auto d = n->t.find('.'); std::string digits = n->t; digits.erase(d, 1); int neg = digits[0] == '-'; if (neg) digits.erase(0, 1); return imm(std::make_shared<tv::decimal>(takatori::decimal::triple(neg ? -1 : 1, 0, std::stoull(digits), -static_cast<int>(n->t.size() - d - 1))), std::make_shared<tt::decimal>(38, n->t.size() - d - 1)); }
            case node::str: return imm(std::make_shared<tv::character>(n->t), std::make_shared<tt::character>(tt::varying, n->t.size()));
            case node::boolean: return imm(std::make_shared<tv::boolean>(n->t == "1"), std::make_shared<tt::boolean>());
            case node::null: return imm(std::make_shared<tv::unknown>(), std::make_shared<tt::unknown>());
            case node::param: { auto d = host ? host->find(n->t) : nullptr; if (!d) throw bad_name{code::variable_not_found, "host variable " + n->t + " is not found"}; return std::make_unique<ts::variable_reference>(f(d)); }
            case node::col: { scope_col const* hit{}; for (auto& c : sc) if (c.n == n->t && (n->q.empty() || n->q == c.q)) { if (hit) throw bad_name{code::column_ambiguous, "column " + n->t + " is ambiguous"}; hit = &c; } if (!hit) throw bad_name{code::column_not_found, "column " + n->t + " is not found"}; return std::make_unique<ts::variable_reference>(hit->v); }
            case node::un: { auto e = expr(n->a[0], sc); if (n->t == "not") return std::make_unique<ts::unary>(ts::unary_operator::conditional_not, std::move(e)); return std::make_unique<ts::unary>(ts::unary_operator::sign_inversion, std::move(e)); }
            case node::isnull: return std::make_unique<ts::unary>(ts::unary_operator::is_null, expr(n->a[0], sc));
            case node::isnotnull: return std::make_unique<ts::unary>(ts::unary_operator::conditional_not, std::make_unique<ts::unary>(ts::unary_operator::is_null, expr(n->a[0], sc)));
            case node::cmp: {
                auto l = expr(n->a[0], sc), r = expr(n->a[1], sc); using c = ts::comparison_operator;
                auto k = n->t == "=" ? c::equal : n->t == "<>" ? c::not_equal : n->t == "<" ? c::less : n->t == "<=" ? c::less_equal : n->t == ">" ? c::greater : c::greater_equal;
                return std::make_unique<ts::compare>(k, std::move(l), std::move(r));
            }
            case node::bin: {
                auto l = expr(n->a[0], sc), r = expr(n->a[1], sc); using b = ts::binary_operator;
                auto k = n->t == "and" ? b::conditional_and : n->t == "or" ? b::conditional_or : n->t == "+" ? b::add : n->t == "-" ? b::subtract : n->t == "*" ? b::multiply : n->t == "/" ? b::divide : n->t == "%" ? b::remainder : b::concat;
                type_ptr t;
                if (k == b::conditional_and || k == b::conditional_or) t = std::make_shared<tt::boolean>();
                else if (k == b::concat) t = std::make_shared<tt::character>(tt::varying, std::optional<std::size_t>{});
                else {
                    auto lk = ty(*l).kind(), rk = ty(*r).kind(); if (lk == tt::type_kind::unknown) lk = rk; if (rk == tt::type_kind::unknown) rk = lk;
                    int x = rank(lk), y = rank(rk); if (!x || !y) throw bad_name{code::inconsistent_type, "arithmetic on a non numeric value"};
                    int m = std::max(x, y); if (m == 4 && x != y) m = 5;
                    if (m == 1) t = std::make_shared<tt::int4>(); else if (m == 2) t = std::make_shared<tt::int8>(); else if (m == 3) t = std::make_shared<tt::decimal>(std::optional<std::size_t>{}, std::optional<std::size_t>{}); else if (m == 4) t = std::make_shared<tt::float4>(); else t = std::make_shared<tt::float8>();
                }
                auto e = std::make_unique<ts::binary>(k, std::move(l), std::move(r)); note(*e, t); return e;
            }
            case node::cast: return std::make_unique<ts::cast>(n->ty, ts::cast_loss_policy::ignore, expr(n->a[0], sc));
            case node::coalesce: { auto e = std::make_unique<ts::coalesce>(); type_ptr t; for (auto& a : n->a) { auto x = expr(a, sc); if ((!t || t->kind() == tt::type_kind::unknown)) t = shared(ty(*x)); e->alternatives().push_back(std::move(x)); } note(*e, t); return e; }
            case node::case_: { auto e = std::make_unique<ts::conditional>(); type_ptr t; std::size_t m = n->a.size() - (n->star ? 1 : 0); for (std::size_t i = 0; i + 1 < m + 1 && i + 1 < n->a.size() + 1 && i < m; i += 2) { ts::conditional::alternative a; a.c = expr(n->a[i], sc); a.b = expr(n->a[i + 1], sc); if (!t || t->kind() == tt::type_kind::unknown) t = shared(ty(*a.b)); e->alternatives().push_back(std::move(a)); } if (n->star) { e->d_ = expr(n->a.back(), sc); if (!t || t->kind() == tt::type_kind::unknown) t = shared(ty(*e->d_)); } note(*e, t); return e; }
            case node::func: {
                if (aggregate_name(n->t)) throw bad_name{code::invalid_aggregation_column, "misplaced aggregate function " + n->t};
                std::vector<ts::eptr> args; for (auto& a : n->a) args.push_back(expr(a, sc));
                sp<yugawara::function::declaration> best; int score = -1;
                o.schema->function_provider().each(n->t, args.size(), [&](sp<yugawara::function::declaration> const& d) { int s = 0; for (std::size_t i = 0; i < args.size(); ++i) { auto a = ty(*args[i]).kind(), b = d->shared_parameter_types()[i]->kind(); if (a == b) s += 2; else if (rank(a) && rank(b) && rank(a) < rank(b)) s += 1; else { s = -1; break; } } if (s > score) { score = s; best = d; } });
                if (!best) throw bad_name{code::function_not_found, "function " + n->t + " is not found"};
                auto e = std::make_unique<ts::function_call>(f.function(best)); for (std::size_t i = 0; i < args.size(); ++i) e->arguments().push_back(to(std::move(args[i]), *best->shared_parameter_types()[i])); return e;
            }
            default: throw bad_name{code::unsupported_feature, "unsupported expression"};
        }
    }
    static void conjuncts(np const& n, std::vector<np>& r) { if (!n) return; if (n->k == node::bin && n->t == "and") { conjuncts(n->a[0], r); conjuncts(n->a[1], r); } else r.push_back(n); }
    static bool any(np const& n, std::function<bool(node const&)> const& p) { if (!n) return false; if (p(*n)) return true; for (auto& x : n->a) if (any(x, p)) return true; return false; }
    static bool refers(np const& n) { return any(n, [](node const& x) { return x.k == node::col || (x.k == node::func && aggregate_name(x.t)); }); }
    template <class T, class... A> T& op(stage& s, A&&... a) { auto& e = s.pr->g_.emplace<T>(std::forward<A>(a)...); if (s.tail) s.tail->output() >> e.input(); s.tail = &e; return e; }
    stage fresh() { stage s; s.pr = &g->emplace<tp::process>(); return s; }
    void filter(stage& s, std::vector<np> const& c) { if (c.empty()) return; np n = c[0]; for (std::size_t i = 1; i < c.size(); ++i) n = parser::mk(node::bin, "and", {n, c[i]}); op<tr::filter>(s, expr(n, s.cols)); }
    struct access { sp<ys::index const> ix; bool point{}; std::vector<np> eq; std::vector<std::pair<np, bool>> lo, hi; std::size_t used{}; std::vector<bool> take; };
    std::vector<scope_col> const* outer{};   // columns a join key may refer to
    // a key value that depends on other columns has to convert to the key type without loss
    bool fits(np const& n, tt::data const& t) { if (!refers(n)) return true; if (n->k != node::col || !outer) return false; for (auto& c : *outer) if (c.n == n->t && (n->q.empty() || n->q == c.q)) return c.ty->kind() == t.kind() || (c.ty->kind() == tt::type_kind::int4 && t.kind() == tt::type_kind::int8); return false; }
    // choose the key prefix of `ix` that the conjuncts determine; the values may refer to `outer`
    access probe(sp<ys::index const> ix, std::string const& alias, std::vector<np> const& cs, std::function<bool(np const&)> const& ok_) {
        access a; a.ix = ix; a.take.assign(cs.size(), false);
        auto mine = [&](np const& n, std::string const& c) { return n->k == node::col && n->t == c && (n->q.empty() || n->q == alias); };
        static std::map<std::string, std::string> const flip{{"=", "="}, {"<", ">"}, {">", "<"}, {"<=", ">="}, {">=", "<="}};
        for (auto& k : ix->keys()) {
            auto const& kt = k.column().type(); auto ok = [&](np const& n) { return ok_(n) && fits(n, kt); };
            std::string c{k.column().simple_name()}; bool hit = false;
            for (std::size_t i = 0; i < cs.size() && !hit; ++i) { auto& n = cs[i]; if (a.take[i] || n->k != node::cmp || n->t != "=") continue; for (int s = 0; s < 2; ++s) if (mine(n->a[s], c) && ok(n->a[1 - s])) { a.eq.push_back(n->a[1 - s]); a.take[i] = hit = true; ++a.used; break; } }
            if (hit) continue;
            for (std::size_t i = 0; i < cs.size(); ++i) { auto& n = cs[i]; if (a.take[i] || n->k != node::cmp || !flip.count(n->t) || n->t == "=") continue; for (int s = 0; s < 2; ++s) if (mine(n->a[s], c) && ok(n->a[1 - s])) { auto t = s ? flip.at(n->t) : n->t; bool lower = t[0] == '>'; auto& v = lower ? a.lo : a.hi; if (!v.empty()) break; v.emplace_back(n->a[1 - s], t.size() == 2); a.take[i] = true; ++a.used; break; } }
            break;
        }
        a.point = a.eq.size() == ix->keys().size(); return a;
    }
    access choose(ys::table const& t, std::string const& alias, std::string const& forced, std::vector<np> const& cs, std::function<bool(np const&)> const& ok) {
        auto pk = primary(t);
        if (!forced.empty()) { auto i = o.schema->shared_storage_provider()->find_index(forced); if (!i || i->table().simple_name() != t.simple_name()) throw bad_name{code::index_not_found, "index " + forced + " is not found"}; return probe(i, alias, cs, ok); }
        access best = probe(pk, alias, cs, ok); if (best.point) return best;
        o.schema->shared_storage_provider()->each_table_index(t, [&](std::string_view, sp<ys::index const> const& i) { if (i == pk) return; auto a = probe(i, alias, cs, ok); if ((a.point && !best.point) || (a.point == best.point && a.eq.size() > best.eq.size()) || (a.used > best.used && best.used == 0)) best = std::move(a); });
        return best;
    }
    template <class K> void keys(takatori::tree::tree_fragment_vector<K>& out_, access const& a, std::vector<std::pair<np, bool>> const* extra, std::vector<scope_col> const& sc) {
        std::size_t i = 0; for (auto& e : a.eq) { auto& c = a.ix->keys()[i++].column(); out_.push_back(std::make_unique<K>(f(c), to(expr(e, sc), c.type()))); }
        if (extra) for (auto& e : *extra) { auto& c = a.ix->keys()[i].column(); out_.push_back(std::make_unique<K>(f(c), to(expr(e.first, sc), c.type()))); }
    }
    template <class S> void endpoints(S& s, access const& a, std::vector<scope_col> const& sc) {
        auto one = [&](tr::details::search_endpoint& p, std::vector<std::pair<np, bool>> const& x) { if (a.eq.empty() && x.empty()) return; takatori::tree::tree_fragment_vector<tr::details::search_key_element> v; keys(v, a, &x, sc); p = tr::details::search_endpoint(x.empty() || x[0].second ? tr::endpoint_kind::prefixed_inclusive : tr::endpoint_kind::prefixed_exclusive, std::move(v)); };
        one(s.lower_, a.lo); one(s.upper_, a.hi);
    }
    std::vector<scope_col> open_cols(ys::table const& t, std::string const& alias, std::vector<tr::details::mapping_element>& m) { std::vector<scope_col> r; for (auto& c : t.columns()) { scope_col s{alias, std::string(c.simple_name()), f.stream_variable(std::string(c.simple_name()), c.shared_type()), c.shared_type()}; m.emplace_back(f(c), s.v); r.push_back(std::move(s)); } return r; }
    stage open(table_ref const& r, std::vector<np>& cs) {
        auto t = table(r.name); stage s = fresh();
        auto mine = [&](np const& n) { return !any(n, [&](node const& x) { if (x.k == node::func && aggregate_name(x.t)) return true; if (x.k != node::col) return false; if (!x.q.empty()) return x.q != r.alias; for (auto& c : t->columns()) if (c.simple_name() == x.t) return false; return true; }); };
        std::vector<np> use, rest; for (auto& c : cs) (mine(c) ? use : rest).push_back(c);
        auto a = choose(*t, r.alias, r.index, use, [](np const& n) { return !refers(n); });
        std::vector<np> left; for (std::size_t i = 0; i < use.size(); ++i) if (!a.take[i]) left.push_back(use[i]);
        if (a.point) { auto& e = op<tr::find>(s); e.source_ = f(a.ix); s.cols = open_cols(a.ix->table(), r.alias, e.columns_); keys(e.keys_, a, nullptr, {}); }
        else { auto& e = op<tr::scan>(s); e.source_ = f(a.ix); s.cols = open_cols(a.ix->table(), r.alias, e.columns_); endpoints(e, a, {}); }
        filter(s, left); cs = std::move(rest); return s;
    }
    // offers every column of the scope; returns exchange columns in scope order
    std::vector<var> offer(stage& s, tp::exchange& x, std::vector<var> const* into = nullptr) {
        auto& e = op<tr::step::offer>(s); e.destination_ = f(x); std::vector<var> r;
        for (std::size_t i = 0; i < s.cols.size(); ++i) { auto v = into ? (*into)[i] : f.exchange_column(s.cols[i].n, s.cols[i].ty); e.columns_.emplace_back(s.cols[i].v, v); r.push_back(v); }
        tp::connect(*s.pr, x); return r;
    }
    std::vector<tr::details::mapping_element> take(stage& s, std::vector<scope_col> const& from, std::vector<var> const& ex) { std::vector<tr::details::mapping_element> m; for (std::size_t i = 0; i < from.size(); ++i) { auto c = from[i]; c.v = f.stream_variable(c.n, c.ty); m.emplace_back(ex[i], c.v); s.cols.push_back(c); } return m; }
    // materialise an expression as a stream variable
    var value(stage& s, np const& n, type_ptr& t, tr::project*& pj, tt::data const* target = nullptr) {
        auto e = expr(n, s.cols); if (target) e = to(std::move(e), *target); t = shared(ty(*e));
        if (target && t->kind() == tt::type_kind::unknown) { e = std::make_unique<ts::cast>(shared(*target), ts::cast_loss_policy::ignore, std::move(e)); t = shared(*target); }
        if (e->kind() == ts::expression_kind::variable_reference) { auto v = static_cast<ts::variable_reference&>(*e).variable(); for (auto& c : s.cols) if (c.v == v) return v; for (auto& [k, c] : computed) if (c.v == v) return v; }
        if (!pj) pj = &op<tr::project>(s);
        auto v = f.stream_variable("e", t); pj->columns_.push_back(std::make_unique<tr::details::project_element>(v, std::move(e))); return v;
    }
    void join(stage& s, table_ref const& r) {
        auto t = table(r.name); std::vector<np> cs; conjuncts(r.on, cs);
        if (r.join >= 2) {
            auto known = [&](np const& n) { return !any(n, [&](node const& x) { if (x.k != node::col) return false; for (auto& c : s.cols) if (c.n == x.t && (x.q.empty() || x.q == c.q)) return false; return true; }); };
            outer = &s.cols; auto a = choose(*t, r.alias, r.index, cs, known); outer = nullptr; std::vector<np> left; for (std::size_t i = 0; i < cs.size(); ++i) if (!a.take[i]) left.push_back(cs[i]);
            auto before = s.cols;
            auto cond = [&](auto& e) { if (!left.empty()) { np n = left[0]; for (std::size_t i = 1; i < left.size(); ++i) n = parser::mk(node::bin, "and", {n, left[i]}); e.condition_ = expr(n, s.cols); } };
            if (r.join == 2) { if (!a.point) throw bad_name{code::unsupported_feature, "lookup join needs a full key"}; auto& e = op<tr::join_find>(s); e.kind_ = r.jk; e.source_ = f(a.ix); auto nc = open_cols(a.ix->table(), r.alias, e.columns_); keys(e.keys_, a, nullptr, before); s.cols.insert(s.cols.end(), nc.begin(), nc.end()); cond(e); }
            else { auto& e = op<tr::join_scan>(s); e.kind_ = r.jk; e.source_ = f(a.ix); auto nc = open_cols(a.ix->table(), r.alias, e.columns_); endpoints(e, a, before); s.cols.insert(s.cols.end(), nc.begin(), nc.end()); cond(e); }
            if (r.jk == tr::join_kind::semi || r.jk == tr::join_kind::anti) s.cols = before;
            return;
        }
        std::vector<np> none; table_ref rr = r; stage q = open(rr, none);
        auto& gl = g->emplace<tp::group>(); auto& gr = g->emplace<tp::group>();
        std::vector<std::pair<var, var>> eq; std::vector<np> left;
        auto in = [&](np const& n, std::vector<scope_col> const& sc) -> std::optional<std::size_t> { if (n->k != node::col) return {}; for (std::size_t i = 0; i < sc.size(); ++i) if (sc[i].n == n->t && (n->q.empty() || n->q == sc[i].q)) return i; return {}; };
        std::vector<std::pair<std::size_t, std::size_t>> pairs;
        for (auto& c : cs) { bool done = false; if (c->k == node::cmp && c->t == "=") for (int k = 0; k < 2 && !done; ++k) { auto l = in(c->a[k], s.cols), m = in(c->a[1 - k], q.cols); if (l && m && *s.cols[*l].ty == *q.cols[*m].ty) { pairs.emplace_back(*l, *m); done = true; } } if (!done) left.push_back(c); }
        auto lc = s.cols, rc = q.cols; auto lx = offer(s, gl), rx = offer(q, gr);
        gl.columns_ = lx; gr.columns_ = rx; for (auto& [a, b] : pairs) { gl.group_keys_.push_back(lx[a]); gr.group_keys_.push_back(rx[b]); }
        stage n = fresh(); tp::connect(gl, *n.pr); tp::connect(gr, *n.pr);
        auto& tc = op<tr::step::take_cogroup>(n); auto ml = take(n, lc, lx); std::size_t cut = n.cols.size(); auto mr = take(n, rc, rx);
        tc.groups_.emplace_back(f(gl), ml); tc.groups_.emplace_back(f(gr), mr);
        auto& j = op<tr::step::join>(n); j.kind_ = r.jk;
        if (!left.empty()) { np x = left[0]; for (std::size_t i = 1; i < left.size(); ++i) x = parser::mk(node::bin, "and", {x, left[i]}); j.condition_ = expr(x, n.cols); }
        if (r.jk == tr::join_kind::semi || r.jk == tr::join_kind::anti) n.cols.resize(cut);
        s = std::move(n);
    }
    sp<yugawara::aggregate::declaration> agg_decl(node const& n, tt::data const* arg) {
        sp<yugawara::aggregate::declaration> r; std::string name = n.t + (n.distinct ? std::string(yugawara::aggregate::declaration::name_suffix_distinct) : "");
        o.schema->set_function_provider().each([&](sp<yugawara::aggregate::declaration> const& d) { if (r || d->name() != name) return; auto& p = d->shared_parameter_types(); if (p.size() != (arg ? 1U : 0U)) return; if (arg && p[0]->kind() != arg->kind()) return; r = d; });
        if (!r) throw bad_name{code::function_not_found, "aggregate function " + n.t + " is not found"};
        return r;
    }
    void aggregate(stage& s, select const& q) {
        std::vector<np> calls; std::set<std::string> seen; bool distinct = false;
        auto visit = [&](np const& n) { any(n, [&](node const& x) { if (x.k == node::func && aggregate_name(x.t)) { auto p = std::make_shared<node>(x); if (seen.insert(key_of(p)).second) { calls.push_back(p); distinct = distinct || x.distinct; } } return false; }); };
        for (auto& i : q.items) if (!i.star) visit(i.e); for (auto& k : q.order) visit(k.e);
        if (calls.empty() && q.group.empty()) return;
        tr::project* pj = nullptr; std::vector<scope_col> keys_, args;
        for (auto& k : q.group) { type_ptr t; auto v = value(s, k, t, pj); keys_.push_back({k->k == node::col ? k->q : "", k->k == node::col ? k->t : "", v, t}); if (k->k == node::col && k->q.empty()) for (auto& c : s.cols) if (c.v == v) keys_.back().q = c.q; }
        std::vector<sp<yugawara::aggregate::declaration>> decls; std::vector<int> argi;
        for (auto& c : calls) { if (c->star || c->a.empty()) { decls.push_back(agg_decl(*c, nullptr)); argi.push_back(-1); continue; } type_ptr t; auto v = value(s, c->a[0], t, pj); decls.push_back(agg_decl(*c, t.get())); int at = -1; for (std::size_t i = 0; i < args.size(); ++i) if (args[i].v == v) at = static_cast<int>(i); if (at < 0) { at = static_cast<int>(args.size()); args.push_back({"", "a", v, t}); } argi.push_back(at); }
        if (s.tail && args.empty() && keys_.empty() && s.cols.empty()) throw bad_name{code::unsupported_feature, "aggregate without input"};
        auto before = s.cols; s.cols = keys_; s.cols.insert(s.cols.end(), args.begin(), args.end());
        if (s.cols.empty()) s.cols.push_back(before[0]);
        auto sent = s.cols; stage n; computed.clear();
        if (!distinct) {
            auto& x = g->emplace<tp::aggregate>(); auto ex = offer(s, x); x.source_columns_ = ex; std::vector<scope_col> outc; std::vector<var> dst;
            for (std::size_t i = 0; i < keys_.size(); ++i) { x.group_keys_.push_back(ex[i]); x.destination_columns_.push_back(ex[i]); outc.push_back(keys_[i]); dst.push_back(ex[i]); }
            for (std::size_t i = 0; i < calls.size(); ++i) { auto t = decls[i]->shared_parameter_types().empty() ? shared(decls[i]->return_type()) : shared(decls[i]->return_type()); auto d = f.exchange_column("agg", t); std::vector<var> a; if (argi[i] >= 0) a.push_back(ex[keys_.size() + static_cast<std::size_t>(argi[i])]); x.aggregations_.emplace_back(f.aggregate_function(decls[i]), a, d); x.destination_columns_.push_back(d); outc.push_back({"", "", d, t}); dst.push_back(d); }
            x.mode_ = q.group.empty() ? tp::group_mode::equivalence_or_whole : tp::group_mode::equivalence;
            n = fresh(); tp::connect(x, *n.pr); auto& tg = op<tr::step::take_group>(n); tg.source_ = f(x); tg.columns_ = take(n, outc, dst); op<tr::step::flatten>(n);
            for (std::size_t i = 0; i < calls.size(); ++i) computed[key_of(calls[i])] = n.cols[keys_.size() + i];
        } else {
            auto& x = g->emplace<tp::group>(); auto ex = offer(s, x); x.columns_ = ex; for (std::size_t i = 0; i < keys_.size(); ++i) x.group_keys_.push_back(ex[i]);
            x.mode_ = q.group.empty() ? tp::group_mode::equivalence_or_whole : tp::group_mode::equivalence;
            n = fresh(); tp::connect(x, *n.pr); auto& tg = op<tr::step::take_group>(n); tg.source_ = f(x); tg.columns_ = take(n, sent, ex); auto& ag = op<tr::step::aggregate>(n);
            for (std::size_t i = 0; i < calls.size(); ++i) { auto t = shared(decls[i]->return_type()); auto d = f.stream_variable("agg", t); std::vector<var> a; if (argi[i] >= 0) a.push_back(n.cols[keys_.size() + static_cast<std::size_t>(argi[i])].v); ag.columns_.emplace_back(f.aggregate_function(decls[i]), a, d); computed[key_of(calls[i])] = {"", "", d, t}; }
            op<tr::step::flatten>(n); n.cols.resize(keys_.size());
        }
        for (std::size_t i = 0; i < q.group.size(); ++i) if (q.group[i]->k != node::col) computed[key_of(q.group[i])] = n.cols[i];
        s = std::move(n);
    }
    stage query(select const& q) {
        computed.clear(); std::vector<np> cs; conjuncts(q.where, cs); stage s;
        if (q.from.empty()) { s = fresh(); auto& v = op<tr::values>(s); auto c = f.stream_variable("c", std::make_shared<tt::int8>()); v.columns_.push_back(c); v.rows_.emplace_back(); v.rows_.back().elements().push_back(imm(std::make_shared<tv::int8>(0), std::make_shared<tt::int8>())); s.cols.push_back({"", "", c, std::make_shared<tt::int8>()}); }
        else if (q.from.size() == 1 || q.from[1].jk == tr::join_kind::inner || true) { s = open(q.from[0], cs); for (std::size_t i = 1; i < q.from.size(); ++i) join(s, q.from[i]); }
        filter(s, cs); aggregate(s, q);
        tr::project* pj = nullptr; std::vector<scope_col> outc;
        for (auto& i : q.items) { if (i.star) { for (auto& c : s.cols) { bool hidden = c.n.rfind("__generated_rowid", 0) == 0; if (!hidden) outc.push_back(c); } continue; } type_ptr t; auto v = value(s, i.e, t, pj); outc.push_back({"", i.alias, v, t}); }
        std::size_t visible = outc.size(); std::vector<std::size_t> ok;
        for (auto& k : q.order) { std::size_t at = outc.size(); if (k.e->k == node::col && k.e->q.empty()) for (std::size_t i = 0; i < visible; ++i) if (outc[i].n == k.e->t) { at = i; break; } if (at == outc.size()) { type_ptr t; auto v = value(s, k.e, t, pj); for (std::size_t i = 0; i < outc.size(); ++i) if (outc[i].v == v) { at = i; break; } if (at == outc.size()) outc.push_back({"", "", v, t}); } ok.push_back(at); }
        s.cols = outc; computed.clear();
        auto regroup = [&](std::vector<std::size_t> const& gk, std::vector<std::pair<std::size_t, bool>> const& sk, std::optional<std::size_t> lim) {
            auto& x = g->emplace<tp::group>(); auto c = s.cols; auto ex = offer(s, x); x.columns_ = ex; for (auto i : gk) x.group_keys_.push_back(ex[i]); for (auto& [i, d] : sk) x.sort_keys_.push_back({ex[i], d ? tr::sort_direction::descendant : tr::sort_direction::ascendant}); x.limit_ = lim;
            stage n = fresh(); tp::connect(x, *n.pr); auto& tg = op<tr::step::take_group>(n); tg.source_ = f(x); tg.columns_ = take(n, c, ex); op<tr::step::flatten>(n); s = std::move(n);
        };
        if (!q.unions.empty()) {
            auto& x = g->emplace<tp::forward>(); auto c = s.cols; auto ex = offer(s, x); x.columns_ = ex; 
            for (auto& u : q.unions) { stage b = query(*u); if (b.cols.size() != c.size()) throw bad_name{code::inconsistent_columns, "number of columns differs"}; offer(b, x, &ex); }
            stage n = fresh(); tp::connect(x, *n.pr); auto& tf = op<tr::step::take_flat>(n); tf.source_ = f(x); tf.columns_ = take(n, c, ex); s = std::move(n);
        }
        if (q.distinct) { std::vector<std::size_t> gk; for (std::size_t i = 0; i < s.cols.size(); ++i) gk.push_back(i); regroup(gk, {}, 1); }
        if (!q.order.empty()) { std::vector<std::pair<std::size_t, bool>> sk; for (std::size_t i = 0; i < ok.size(); ++i) sk.emplace_back(ok[i], q.order[i].desc); regroup({}, sk, q.limit); }
        else if (q.limit) { auto& x = g->emplace<tp::forward>(); auto c = s.cols; auto ex = offer(s, x); x.columns_ = ex; x.limit_ = q.limit; stage n = fresh(); tp::connect(x, *n.pr); auto& tf = op<tr::step::take_flat>(n); tf.source_ = f(x); tf.columns_ = take(n, c, ex); s = std::move(n); }
        s.cols.resize(visible); return s;
    }
    sp<tv::data const> literal(np const& n) { auto e = constant(n); if (e->kind() != ts::expression_kind::immediate) throw bad_name{code::unsupported_feature, "default value"}; return static_cast<ts::immediate&>(*e).shared_value(); }
    sp<tv::data const> literal_of(np const& n, tt::data const& t) { if (n->k == node::integer && t.kind() == tt::type_kind::int4) return std::make_shared<tv::int4>(static_cast<std::int32_t>(std::stol(n->t))); return literal(n); }
    void begin() { auto e = std::make_unique<st::execute>(); g = &e->execution_plan(); out.s = std::move(e); }
    yugawara::prepared_ run(stmt const& q) {
        switch (q.k) {
            case stmt::empty: out.s = std::make_unique<st::empty>(); break;
            case stmt::sel: { begin(); auto s = query(*q.q); auto c = s.cols; auto& e = op<tr::emit>(s); for (auto& x : c) e.columns_.emplace_back(x.v, x.n.empty() ? std::optional<std::string>{} : x.n); break; }
            case stmt::ins: {
                auto t = table(q.table); auto pk = primary(*t); std::vector<ys::column const*> cols;
                if (q.cols.empty()) { for (auto& c : t->columns()) if (!c.features().contains(ys::column_feature::hidden)) cols.push_back(&c); } else for (auto& n : q.cols) cols.push_back(&column(*t, n));
                if (!q.q) {
                    auto w = std::make_unique<st::write>(); w->kind_ = q.wk; w->destination_ = f(pk);
                    std::vector<bool> use(cols.size(), true); // DEFAULT for a column in any row leaves it out
                    for (auto& r : q.rows) { if (r.size() != cols.size()) throw bad_name{code::inconsistent_columns, "number of values differs"}; for (std::size_t i = 0; i < r.size(); ++i) if (!r[i]) use[i] = false; }
                    for (std::size_t i = 0; i < cols.size(); ++i) if (use[i]) w->columns_.push_back(f(*cols[i]));
                    for (auto& r : q.rows) { w->tuples_.emplace_back(); for (std::size_t i = 0; i < r.size(); ++i) if (use[i]) w->tuples_.back().elements().push_back(constant(r[i])); }
                    out.s = std::move(w);
                } else {
                    begin(); auto s = query(*q.q); if (s.cols.size() != cols.size()) throw bad_name{code::inconsistent_columns, "number of columns differs"};
                    auto sc = s.cols; auto& w = op<tr::write>(s); w.kind_ = q.wk; w.destination_ = f(pk);
                    for (std::size_t i = 0; i < cols.size(); ++i) { bool k = false; for (auto& x : pk->keys()) k = k || &x.column() == cols[i]; (k ? w.keys_ : w.columns_).emplace_back(sc[i].v, f(*cols[i])); }
                }
                break;
            }
            case stmt::upd: case stmt::del: {
                begin(); auto t = table(q.table); auto pk = primary(*t); std::vector<np> cs; conjuncts(q.where, cs); table_ref r; r.name = r.alias = q.table; r.index = q.index; auto s = open(r, cs); filter(s, cs);
                auto at = [&](ys::column const& c) { for (auto& x : s.cols) if (x.n == c.simple_name()) return x.v; std::abort(); };
                std::vector<tr::details::mapping_element> ks, us; for (auto& k : pk->keys()) ks.emplace_back(at(k.column()), f(k.column()));
                if (q.k == stmt::upd) { tr::project* pj = nullptr; for (auto& [n, e] : q.sets) { auto& c = column(*t, n); type_ptr ty_; auto v = value(s, e, ty_, pj, &c.type()); us.emplace_back(v, f(c)); } }
                auto& w = op<tr::write>(s); w.kind_ = q.k == stmt::upd ? tr::write_kind::update : tr::write_kind::delete_; w.destination_ = f(pk); w.keys_ = ks; w.columns_ = us; break;
            }
            case stmt::ctable: {
                if (o.schema->shared_storage_provider()->find_table(q.table)) { if (q.ifx) { out.s = std::make_unique<st::empty>(); break; } throw bad_name{code::table_already_exists, "table " + q.table + " already exists"}; }
                auto t = std::make_shared<ys::table>(q.table, std::initializer_list<ys::column>{}); std::vector<std::string> kn; for (auto& k : q.keys) kn.push_back(k.first);
                for (auto& d : q.defs) if (d.pk) kn.push_back(d.name);
                for (auto& d : q.defs) {
                    ys::column_value def{}; ys::column_feature_set feat{};
                    if (d.identity) { def = ys::column_value(std::make_shared<ys::sequence const>("", d.start, d.inc, d.lo, d.hi, d.cycle)); feat = ys::column_feature_set{ys::column_feature::identity}; }
                    else if (d.def && d.def->k == node::func) { sp<yugawara::function::declaration const> fd; o.schema->function_provider().each(d.def->t, 0, [&](sp<yugawara::function::declaration> const& x) { fd = x; }); if (!fd) throw bad_name{code::function_not_found, d.def->t}; def = ys::column_value(fd); }
                    else if (d.def && d.def->k != node::null) def = ys::column_value(literal_of(d.def, *d.ty));
                    bool key = std::find(kn.begin(), kn.end(), d.name) != kn.end();
                    t->columns().push_back(ys::column(d.name, d.ty, yugawara::variable::criteria{yugawara::variable::nullity{!d.notnull && !key && !d.identity}}, def, feat));
                    t->columns().back().bind(t.get());
                }
                std::vector<ys::index::key> keys_; for (auto& n : kn) keys_.emplace_back(column(*t, n));
                auto i = std::make_shared<ys::index>(sp<ys::table const>(t), q.table, keys_);
                auto c = std::make_unique<st::create_table>(); c->d = f.storage(sp<ys::table const>(t)); c->pk = f.storage(sp<ys::index const>(i)); out.s = std::move(c); break;
            }
            case stmt::cindex: {
                auto t = table(q.table); if (o.schema->shared_storage_provider()->find_index(q.name)) { if (q.ifx) { out.s = std::make_unique<st::empty>(); break; } throw bad_name{code::index_already_exists, "index " + q.name + " already exists"}; }
                std::vector<ys::index::key> keys_; for (auto& [n, d] : q.keys) keys_.emplace_back(column(*t, n), d ? ys::sort_direction::descendant : ys::sort_direction::ascendant);
                auto c = std::make_unique<st::create_index>(); c->d = f.storage(sp<ys::index const>(std::make_shared<ys::index>(t, q.name, keys_))); out.s = std::move(c); break;
            }
            case stmt::dtable: { auto t = o.schema->shared_storage_provider()->find_table(q.name); if (!t && q.ifx) { out.s = std::make_unique<st::empty>(); break; } auto c = std::make_unique<st::drop_table>(); c->t = f.storage(table(q.name)); out.s = std::move(c); break; }
            case stmt::dindex: { auto i = o.schema->shared_storage_provider()->find_index(q.name); if (!i) { if (q.ifx) { out.s = std::make_unique<st::empty>(); break; } throw bad_name{code::index_not_found, "index " + q.name + " is not found"}; } auto c = std::make_unique<st::drop_index>(); c->t = f.storage(i); out.s = std::move(c); break; }
            case stmt::trunc: { auto c = std::make_unique<st::truncate_table>(); c->t = f.storage(table(q.name)); if (q.flag) c->o = st::truncate_table_option_kind_set{st::truncate_table_option_kind::restart_identity}; out.s = std::move(c); break; }
            case stmt::grant: {
                st::details::table_privilege_element el; el.t = f.storage(table(q.table)); using k = st::details::table_action_kind; std::vector<st::details::table_privilege_action> acts;
                for (auto& a : q.acts) acts.emplace_back(a == "all" ? k::control : a == "select" ? k::select : a == "insert" ? k::insert : a == "update" ? k::update : k::delete_);
                for (auto& u : q.users) { if (u == "public" || u == "*") { if (u == "public") { el.d = acts; continue; } st::details::table_authorization_entry e; e.k = st::authorization_user_kind::all_users; e.p = acts; el.a.push_back(e); continue; } st::details::table_authorization_entry e; e.k = u == "current_user" ? st::authorization_user_kind::current_user : st::authorization_user_kind::specified; e.id = u; e.p = acts; el.a.push_back(e); }
                if (q.revoke) { auto c = std::make_unique<st::revoke_table>(); c->e.push_back(el); out.s = std::move(c); } else { auto c = std::make_unique<st::grant_table>(); c->e.push_back(el); out.s = std::move(c); }
                break;
            }
        }
        return std::move(out);
    }
};
}

namespace mizugaki::parser {
sql_parser_result sql_parser::operator()(std::string const&, std::string text) const {
    sql_parser_result r; r.u = std::make_shared<ast::compilation_unit>();
    try {
        // split at top level semicolons
        std::string cur; bool q = false; std::vector<std::string> parts;
        for (char c : text) { if (c == '\'') q = !q; if (c == ';' && !q) { parts.push_back(cur); cur.clear(); } else cur += c; }
        parts.push_back(cur); if (parts.size() > 1 && cur.find_first_not_of(" \n\t") == std::string::npos) parts.pop_back();
        for (auto& p : parts) { ::parser x{lex(p)}; auto s = x.statement(); r.u->s.push_back(std::make_shared<ast::statement::statement>(s->k == stmt::empty ? ast::statement::kind::empty_statement : ast::statement::kind::other, p)); }
    } catch (bad_syntax& e) { r.bad = true; r.d.m = e.m; r.d.r = "?"; }
    return r;
}
}
namespace mizugaki::analyzer {
sql_analyzer_result sql_analyzer::operator()(sql_analyzer_options const& o, ast::statement::statement const& s, ast::compilation_unit const&, placeholder_map const&, takatori::util::optional_ptr<yugawara::variable::provider const> v) {
    try {
        ::parser x{lex(s.text)}; auto q = x.statement(); planner p{o, v.get(), {}, {}, nullptr, {}};
        auto r = p.run(*q); auto k = r.s->kind() == st::statement_kind::execute ? sql_analyzer_result_kind::execution_plan : sql_analyzer_result_kind::statement;
        return sql_analyzer_result(k, std::make_unique<yugawara::prepared_>(std::move(r)));
    } catch (bad_name& e) { return sql_analyzer_result(std::vector<sql_diagnostic>{{e.c, e.m}}); }
    catch (bad_syntax& e) { return sql_analyzer_result(std::vector<sql_diagnostic>{{sql_analyzer_code::malformed_syntax, e.m}}); }
}
}
namespace yugawara {
compiler_result compiler::operator()(compiler_options& o, prepared_ p) {
    schema::declaration where{"public"}; auto diag = [](storage::prototype_processor::diagnostic) {};
    if (p.s->kind() == st::statement_kind::create_table) { auto& c = static_cast<st::create_table&>(*p.s); auto t = binding::extract_shared<storage::table>(c.d); auto i = binding::extract_shared<storage::index>(c.pk); o.storage_processor().ensure(where, const_cast<storage::table&>(*t), const_cast<storage::index&>(*i), diag); }
    if (p.s->kind() == st::statement_kind::create_index) { auto& c = static_cast<st::create_index&>(*p.s); auto i = binding::extract_shared<storage::index>(c.d); o.storage_processor().ensure(where, const_cast<storage::index&>(*i), diag); }
    auto f = [&](storage::prototype_processor*) {}; (void)f;
    if (p.s->kind() == st::statement_kind::truncate_table && o.restricted_features().s.count(restricted_feature::statement_truncate_table)) return compiler_result(std::vector<diagnostic_>{{compiler_code::unsupported_feature, "TRUNCATE TABLE is not supported"}});
    return compiler_result(std::move(p.s), std::move(p.i));
}
}
