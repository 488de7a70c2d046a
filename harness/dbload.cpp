// Loading files into tables and dumping queries into files: every record once, failures reported, nothing partial, one answer per request.
#include "engine.h"
#include "../standin/impl/files.h"
#include <filesystem>
using namespace eng;
namespace {
namespace sf = simfiles; namespace fs = std::filesystem; namespace pc = pr::common;
struct Ct { char const* name; char const* sql; sf::kind k; pc::AtomType a; };
Ct const cols[] = {{"k", "BIGINT", sf::kind::int8, pc::INT8}, {"s", "VARCHAR(20)", sf::kind::character, pc::CHARACTER}, {"a", "INT", sf::kind::int4, pc::INT4}, {"f", "DOUBLE", sf::kind::float8, pc::FLOAT8}, {"r", "REAL", sf::kind::float4, pc::FLOAT4},
    {"d", "DECIMAL(12,2)", sf::kind::decimal, pc::DECIMAL}, {"o", "VARBINARY(10)", sf::kind::octet, pc::OCTET}, {"dt", "DATE", sf::kind::date, pc::DATE}, {"tm", "TIME", sf::kind::time_of_day, pc::TIME_OF_DAY}, {"ts", "TIMESTAMP", sf::kind::time_point, pc::TIME_POINT}};
constexpr std::size_t n_cols = std::size(cols);
using Cells = std::vector<sf::Cell>;
std::string dec(int sg, unsigned long long hi, unsigned long long lo, int e) { if (!hi && !lo) return "0"; while (!hi && lo % 10 == 0) { lo /= 10; ++e; } return std::to_string(sg < 0 ? -1 : 1) + ":" + std::to_string(hi) + ":" + std::to_string(lo) + "e" + std::to_string(e); }
Val canon(std::size_t c, sf::Cell const& x) {
    if (x.null) return Val::null(); Val v;
    switch (c) {
        case 0: case 2: return Val::of(x.i);
        case 1: case 6: return Val::str(x.s);
        case 3: v.k = 2; v.d = x.d; return v; case 4: v.k = 2; v.d = static_cast<float>(x.d); return v;
        case 5: v.k = 4; v.s = dec(x.sign, x.hi, static_cast<unsigned long long>(x.i), x.x); return v;
        case 7: v.k = 4; v.s = "d" + std::to_string(x.i); return v; case 8: v.k = 4; v.s = "t" + std::to_string(x.i); return v;
        default: v.k = 4; v.s = "p" + std::to_string(x.i) + "." + std::to_string(x.x); return v;
    }
}
Row canon(Cells const& r) { Row o; for (std::size_t i = 0; i < n_cols; ++i) o.push_back(canon(i, r[i])); return o; }
Row from_result(Row r) {   // decimals in one notation
    if (r.size() != n_cols) return r; auto& v = r[5];
    if (v.k == 1) { auto i = v.i; v = Val{}; v.k = 4; v.s = dec(i < 0 ? -1 : 1, 0, static_cast<unsigned long long>(i < 0 ? -i : i), 0); }
    else if (v.k == 4) { int sg = 0, e = 0; unsigned long long h = 0, l = 0; sscanf(v.s.c_str(), "%d:%llu:%llue%d", &sg, &h, &l, &e); v.s = dec(sg, h, l, e); }
    return r;
}
Cells gen(sim::Rng& r, long long k, std::string s) {
    Cells c(n_cols); for (std::size_t i = 2; i < n_cols; ++i) c[i].null = r.chance(0.15);
    c[0].i = k; c[1].s = std::move(s); c[2].i = static_cast<int>(r.next()); c[3].d = static_cast<double>(r.below(1000)) / 8; c[4].d = static_cast<float>(r.below(1000)) / 4;
    c[5].i = static_cast<long long>(r.below(100000)); c[5].sign = c[5].i ? (r.chance(0.5) ? 1 : -1) : 0; c[5].x = -static_cast<int>(r.below(3)); for (u64 n = r.below(11); n--;) c[6].s += static_cast<char>(r.below(256));
    c[7].i = static_cast<long long>(r.below(40000)) - 20000; c[8].i = static_cast<long long>(r.below(86400)) * 1000000000LL + static_cast<long long>(r.below(1000)); c[9].i = static_cast<long long>(r.below(2000000000)) - 1000000000; c[9].x = static_cast<int>(r.below(1000000000));
    return c;
}
// what must be in the tables at the end: units are all or nothing
enum Fate { must, never, either };
struct Unit { Fate f{either}; std::string what; std::size_t n{}, seen{}; };
struct Rec { int table; std::size_t unit; Row row; bool seen{}; };
std::vector<Unit> units; std::map<std::pair<int, std::string>, Rec> recs;   // by table and label
char const* const tables[] = {"t0", "t1", "t2", "rt"};   // t1 has no primary key
struct Conf { int clients, steps; bool lenient, chan, cancel, ltx; double odd; } C;
std::vector<Row> stable; int loads, dumps; bool rt_used; std::string dir;
std::vector<std::pair<int, long long>> aims;   // keys of loads in progress

struct Cl {
    Client c; int no; Cl(Engine& e, int no) : c(e, static_cast<std::size_t>(no + 1)), no(no) {}
    [[nodiscard]] bool ok() { return Q(Engine::error_of(*c.resp).ok); }
    u64 prepare(std::string const& sql, bool all) {
        Request r; { sim::NoPreempt g; auto* p = r.mutable_prepare(); p->set_sql(sql); for (auto& x : cols) if (all) { auto* y = p->add_placeholders(); y->set_name(x.name); y->set_atom_type(x.a); } else if (!strcmp(x.name, "k")) { auto* y = p->add_placeholders(); y->set_name("k"); y->set_atom_type(x.a); } }
        if (!c.call(r, "prepare " + sql)) sim::fail("prepare", "prepare of '%s' failed: %d %s", sql.c_str(), c.last.code, c.last.detail.c_str());
        return Q(c.resp->r.prepare().prepared_statement_handle().handle());
    }
    void unprepare(u64 h) { Request r; Q((r.mutable_dispose_prepared_statement()->mutable_prepared_statement_handle()->set_handle(h), 0)); c.call(r, "dispose statement"); }
    struct Plan { int table{}; std::vector<std::string> files; std::vector<std::size_t> unit; bool bad{}, tx{}, replace{}; std::vector<int> colmap; bool by_pos{}; std::string what; bool contended{}; };
    // the table's rows as a new transaction reads them
    bool read(int table, std::vector<Row>& rows) { auto t = c.begin(); if (!t) return false; bool ok = c.query(t, std::string("SELECT k, s, a, f, r, d, o, dt, tm, ts FROM ") + tables[table], rows); if (ok) ok = c.commit(t); else c.rollback(t); c.dispose(t); for (auto& r : rows) r = from_result(std::move(r)); return ok; }
    Plan plan() {
        sim::NoPreempt g; auto& r = sim::wl(); Plan p; int id = loads++; p.table = static_cast<int>(r.below(3)); p.tx = r.chance(0.5); p.replace = p.table != 1 && r.chance(0.2);
        auto nf = r.chance(0.1) ? 0 : 1 + r.below(4); bool odd = r.chance(C.odd); int what = odd ? static_cast<int>(r.below(8)) : -1; u64 at = nf ? r.below(nf) : 0; long long key = 1000LL * (id + 1);
        p.by_pos = r.chance(0.4); std::vector<int> perm; for (int i = 0; i < static_cast<int>(n_cols); ++i) perm.push_back(i); for (std::size_t i = n_cols; i > 1; --i) std::swap(perm[i - 1], perm[r.below(i)]);
        p.colmap.assign(n_cols, 0); for (std::size_t i = 0; i < n_cols; ++i) p.colmap[static_cast<std::size_t>(perm[i])] = static_cast<int>(i);
        std::size_t txunit = units.size(); if (p.tx) { units.push_back({either, "load " + std::to_string(id), 0, 0}); p.unit.push_back(txunit); }
        for (u64 f = 0; f < nf; ++f) {
            sf::File file; for (auto i : perm) file.cols.push_back({std::string("c_") + cols[i].name, cols[i].k}); int ng = static_cast<int>(1 + r.below(4)); bool big = r.chance(0.05);
            if (odd && f == at && what == 0) { ng = 0; p.bad = true; }                                   // no row group: cannot be opened
            if (odd && f == at && what == 1) { file.cols[r.below(n_cols)] = {"other", sf::kind::boolean}; p.bad = true; }
            int badg = ng ? static_cast<int>(r.below(static_cast<u64>(ng))) : 0; bool planted = false;
            for (int q = 0; q < ng; ++q) {
                file.groups.emplace_back(); std::size_t u = txunit; if (!p.tx) { u = units.size(); units.push_back({either, "load " + std::to_string(id) + " file " + std::to_string(f) + " block " + std::to_string(q), 0, 0}); p.unit.push_back(u); }
                auto n = r.chance(0.2) ? 0 : r.below(big ? 40 : 7); u64 badr = n ? r.below(n) : 0;
                for (u64 x = 0; x < n; ++x) {
                    auto cells = gen(r, key, "L" + std::to_string(id) + "." + std::to_string(f) + "." + std::to_string(q) + "." + std::to_string(x)); bool listed = true;
                    if (odd && f == at && q == badg && x == badr && !planted) {
                        planted = true;
                        if (what == 2 && p.table != 1) { cells[0].null = true; p.bad = true; listed = false; }
                        if (what == 3) { cells[1].s += std::string(25, 'x'); p.bad = true; listed = false; }
                        if (what == 4 && p.table != 1 && !p.replace && key > 1000LL * (id + 1)) { cells[0].i = 1000LL * (id + 1) + static_cast<long long>(r.below(static_cast<u64>(key - 1000LL * (id + 1)))); p.bad = true; }
                        if (what == 5 && p.table == 0 && !p.replace) { cells[0].i = -1 - static_cast<long long>(r.below(5)); p.bad = true; }
                        if (what == 6) { cells[5].i = 99999999999999LL; cells[5].sign = 1; cells[5].x = 0; cells[5].null = false; p.bad = true; listed = false; }   // does not fit
                    }
                    ++key; ++units[u].n; if (listed) recs[{p.table, cells[1].s}] = Rec{p.table, u, canon(cells)};
                    if (!p.replace) aims.emplace_back(p.table, cells[0].i);
                    Cells o; for (auto i : perm) o.push_back(cells[static_cast<std::size_t>(i)]); file.groups.back().push_back(std::move(o));
                }
            }
            auto path = dir + "/l" + std::to_string(id) + "_" + std::to_string(f) + ".parquet"; p.files.push_back(path);
            if (odd && f == at && what == 7) { p.bad = true; continue; }                                  // missing
            sf::put(path, std::move(file));
        }
        p.what = std::string(p.tx ? "load in a transaction" : "load") + " " + std::to_string(id) + " into " + tables[p.table] + (p.bad ? " (bad " + std::to_string(what) + ")" : "");
        return p;
    }
    Request load_req(Plan const& p, Tx const* t, u64 h) {
        sim::NoPreempt g; Request r; auto* x = r.mutable_execute_load(); if (t) x->mutable_transaction_handle()->set_handle(t->h); x->mutable_prepared_statement_handle()->set_handle(h);
        for (std::size_t i = 0; i < n_cols; ++i) { auto* q = x->add_parameters(); q->set_name(cols[i].name); if (p.by_pos) q->set_reference_column_position(static_cast<u64>(p.colmap[i])); else q->set_reference_column_name(std::string(p.table == 3 ? "" : "c_") + cols[i].name); }
        for (auto& f : p.files) x->add_file(f);
        return r;
    }
    bool run_load(Request& q, std::string const& what) {
        auto w = c.async(q, what); bool cancel = C.cancel && Q(sim::wl().chance(0.2)); if (cancel) { sim::sleep_ns(Q(sim::wl().below(200000))); Q((w->cancel = true)); sim::probe("cancelled"); }
        Engine::wait(w); c.resp = w; c.last = Engine::error_of(*w); if (!c.last.ok) Q((sim::ev("error %d %s", c.last.code, c.last.detail.c_str()), 0));
        sim::NoPreempt g;
        if (w->errors && !C.chan && !C.cancel) sim::fail("diagnostics", "%s was answered with diagnostics '%s'", what.c_str(), w->diag.message().c_str());
        if (!c.last.ok && (c.last.code == 0 || c.last.code == -3)) sim::fail("error-without-code", "%s failed without an error code", what.c_str());
        return c.last.ok;
    }
    void fate(Plan const& p, Fate f) { sim::NoPreempt g; for (auto u : p.unit) units[u].f = f; }
    void load(Plan p) {
        auto h = prepare(std::string(p.replace ? "INSERT OR REPLACE INTO " : "INSERT INTO ") + tables[p.table] + " (k, s, a, f, r, d, o, dt, tm, ts) VALUES (:k, :s, :a, :f, :r, :d, :o, :dt, :tm, :ts)", true);
        bool early = Q(sim::wl().chance(0.15));   // the statement is given back while the load runs
        if (!p.tx) {
            auto q = load_req(p, nullptr, h); bool ok = run_load(q, p.what); (void)early;
            check(p, ok); fate(p, ok ? must : either); sim::probe(ok ? "batch_ok" : "batch_error");
            if (ok && Q(sim::wl().chance(0.6))) visible(p);
            unprepare(h); return;
        }
        Opt o; o.type = C.ltx && Q(sim::wl().chance(0.4)) ? 2 : 1; if (o.type == 2) Q((o.wp.push_back(tables[p.table]), 0));
        auto t = c.begin(o); if (!t) { fate(p, never); unprepare(h); return; }
        auto q = load_req(p, &t, h); bool ok; bool race = Q(sim::wl().chance(0.1));
        if (race) {   // the transaction ends while the load runs
            sim::probe("raced"); auto w = c.async(q, p.what); sim::sleep_ns(Q(sim::wl().below(300000))); bool cm = Q(sim::wl().chance(0.5)); bool ce; if (cm) ce = c.commit(t); else ce = c.rollback(t); if (Q(sim::wl().chance(0.5))) c.dispose(t); Engine::wait(w); c.resp = w; c.last = Engine::error_of(*w); ok = c.last.ok; (void)ce;
            if (ok && p.bad) sim::fail("bad-load-accepted", "%s: success", p.what.c_str());
            sim::NoPreempt g; for (auto u : p.unit) { units[u].f = cm ? either : never; if (cm) units[u].n = 0; }   // a commit takes what was inserted so far
        } else {
            ok = run_load(q, p.what); check(p, ok); sim::probe(ok ? "load_ok" : "load_error");
            if (!ok) {
                if (c.commit(t)) sim::fail("failed-load-commits", "%s failed, and its transaction could still be committed", p.what.c_str());
                fate(p, never);
            } else if (Q(sim::wl().chance(0.25))) { c.rollback(t); fate(p, never); sim::probe("load_rolled_back"); }
            else {
                bool looked = Q(sim::wl().chance(0.3)); if (looked) { std::vector<Row> rows; if (c.query(t, std::string("SELECT s FROM ") + tables[p.table], rows)) { sim::NoPreempt g; std::size_t n = 0; for (auto& r : rows) { auto i = recs.find({p.table, r[0].s}); n += i != recs.end() && i->second.unit == p.unit[0]; } if (n != units[p.unit[0]].n) sim::fail("load-incomplete", "%s succeeded, and its transaction sees %zu of %zu records", p.what.c_str(), n, units[p.unit[0]].n); } }
                bool cm = c.commit(t); if (!cm && !C.lenient && o.type == 1 && !C.ltx && !looked) sim::fail("commit-refused", "%s: commit failed with %d %s", p.what.c_str(), c.last.code, c.last.detail.c_str());
                fate(p, cm ? must : c.last.code >= 200 && c.last.code < 300 ? never : either); if (cm && Q(sim::wl().chance(0.5))) visible(p);
            }
        }
        c.dispose(t); unprepare(h);
    }
    void check(Plan const& p, bool ok) {
        if (ok && p.bad) sim::fail("bad-load-accepted", "%s: success, although a record or file cannot be loaded", p.what.c_str());
        if (!ok && !p.bad && !C.lenient) sim::fail("load-refused", "%s failed with %d %s", p.what.c_str(), c.last.code, c.last.detail.c_str());
    }
    void visible(Plan const& p) {
        std::vector<Row> rows; if (!read(p.table, rows)) return;
        sim::NoPreempt g; std::map<std::string, int> n; for (auto& r : rows) ++n[r[1].s];
        for (auto& [k, x] : recs) if (k.first == p.table && std::find(p.unit.begin(), p.unit.end(), x.unit) != p.unit.end() && n[k.second] != 1) sim::fail("loaded-record-missing", "%s succeeded; record %s is then found %d times", p.what.c_str(), k.second.c_str(), n[k.second]);
    }
    // a plain INSERT of a key that some load also has
    void insert() {
        long long key; int table; std::string label; std::size_t u;
        { sim::NoPreempt g; auto& r = sim::wl(); if (aims.empty()) return; auto& a = aims[r.below(aims.size())]; table = a.first; key = a.second; if (table == 3) return; if (key < 0 || !C.lenient) key = 900000 + loads++; label = "I" + std::to_string(units.size()); u = units.size(); units.push_back({either, "insert " + label, 1, 0}); Cells x(n_cols); for (auto& y : x) y.null = true; x[0].null = false; x[0].i = key; x[1].null = false; x[1].s = label; recs[{table, label}] = Rec{table, u, canon(x)}; }
        auto t = c.begin(); if (!t) return; bool ok = c.exec(t, "INSERT INTO " + std::string(tables[table]) + " (k, s) VALUES (" + std::to_string(key) + ", '" + label + "')"); if (ok) ok = c.commit(t); else c.rollback(t); c.dispose(t); Q((units[u].f = ok ? must : either)); sim::probe(ok ? "insert_ok" : "insert_error");
    }
    void dump() {
        auto& r = sim::wl(); int id; std::string d, sql; bool live, keep, arrow, shared; u64 max, batch, cut, total; std::vector<Row> want; bool ordered;
        {
            sim::NoPreempt g; id = dumps++; live = r.chance(0.25); keep = r.chance(0.3); arrow = r.chance(0.4); shared = r.chance(0.3); max = r.chance(0.6) ? 1 + r.below(8) : 0; batch = r.chance(0.5) ? 1 + r.below(3) : 0; ordered = r.chance(0.2); total = stable.size(); cut = r.chance(0.4) ? r.below(total + 1) : 1000000;
            d = shared ? dir + "/shared" : dir + "/d" + std::to_string(id); bool missing = r.chance(C.odd * 0.2); if (!missing) fs::create_directories(d); else d += "/missing";
            if (!live) for (auto& x : stable) if (x[0].i < static_cast<long long>(cut)) want.push_back(x);
            sql = std::string("SELECT k, s, a, f, r, d, o, dt, tm, ts FROM ") + (live ? tables[r.below(3)] : "d0") + (live ? " WHERE k > :k" : " WHERE k < :k") + (ordered ? " ORDER BY s" : "");
        }
        auto h = prepare(sql, false); Opt o; o.type = live ? 1 : static_cast<int>(1 + Q(r.below(3))); if (Q(r.chance(0.3))) o.scan_parallel = static_cast<int>(1 + Q(r.below(4)));
        auto t = c.begin(o); if (!t) { unprepare(h); return; }
        Request q;
        { sim::NoPreempt g; auto* x = q.mutable_execute_dump(); x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(h); x->mutable_prepared_statement_handle()->set_has_result_records(true); auto* p = x->add_parameters(); p->set_name("k"); p->set_int8_value(live ? -1000000 : static_cast<long long>(cut)); x->set_directory(d);
          auto* op = x->mutable_option(); op->set_max_record_count_per_file(max); op->set_fail_behavior(keep ? pr::request::KEEP_FILES : pr::request::DELETE_FILES); if (arrow) op->mutable_arrow()->set_record_batch_size(static_cast<long long>(batch)); else op->mutable_parquet(); }
        auto what = "dump " + std::to_string(id) + " of '" + sql + "'"; bool ok = run_load(q, what); auto w = c.resp; std::vector<Row> live_rows; bool cm = false;
        if (ok && live) { Request y; { sim::NoPreempt g; auto* x = y.mutable_execute_prepared_query(); x->mutable_transaction_handle()->set_handle(t.h); x->mutable_prepared_statement_handle()->set_handle(h); x->mutable_prepared_statement_handle()->set_has_result_records(true); auto* p = x->add_parameters(); p->set_name("k"); p->set_int8_value(-1000000); } cm = c.call(y, sql); if (cm) { live_rows = c.resp->rows(); for (auto& x : live_rows) x = from_result(std::move(x)); } }
        if (!ok && Q(r.chance(0.3))) c.rollback(t); else if (!c.commit(t)) cm = false;
        c.dispose(t); unprepare(h);
        std::vector<std::string> files;
        {
            sim::NoPreempt g; sim::probe(ok ? "dump_ok" : "dump_error");
            if (!ok && !C.lenient && d.find("missing") == std::string::npos) sim::fail("dump-refused", "%s failed with %d %s", what.c_str(), c.last.code, c.last.detail.c_str());
            if (ok && d.find("missing") != std::string::npos && !want.empty()) sim::fail("dump-nowhere", "%s succeeded; its directory does not exist", what.c_str());
            std::error_code ec; std::set<std::string> there; if (fs::exists(d, ec)) for (auto& f : fs::directory_iterator(d)) there.insert(f.path().string());
            if (!ok) { if (!keep && !shared && !there.empty()) sim::fail("dump-files-left", "%s failed; file %s stays", what.c_str(), there.begin()->c_str()); }
            else {
                std::set<std::string> listed; std::vector<Row> got;
                for (auto& x : w->rows()) {
                    if (x.size() != 1 || x[0].k != 3) sim::fail("dump-list", "%s: the file list has a row %s", what.c_str(), eng::show(x).c_str());
                    auto& f = x[0].s; files.push_back(f);
                    if (!listed.insert(f).second) sim::fail("dump-listed-twice", "%s: file %s is listed twice", what.c_str(), f.c_str());
                    if (fs::path(f).parent_path() != fs::path(d)) sim::fail("dump-elsewhere", "%s: file %s is not in %s", what.c_str(), f.c_str(), d.c_str());
                    if (!sf::usable(f)) sim::fail("dump-unusable", "%s succeeded; listed file %s is %s", what.c_str(), f.c_str(), fs::exists(f) ? "incomplete" : "missing");
                    auto& y = sf::files[f]; u64 n = 0; for (auto& gr : y.groups) { n += gr.size(); for (auto& cells : gr) { if (cells.size() != n_cols) sim::fail("dump-columns", "%s: a record of %zu columns", what.c_str(), cells.size()); got.push_back(canon(cells)); } }
                    if (max && n > max) sim::fail("dump-file-size", "%s: file %s has %llu records, at most %llu were asked for", what.c_str(), f.c_str(), (unsigned long long)n, (unsigned long long)max);
                    if (n == 0) sim::probe("empty_dump_file");
                }
                if (!shared) for (auto& f : there) if (!listed.count(f)) sim::fail("dump-unlisted", "%s succeeded; file %s is not listed", what.c_str(), f.c_str());
                if (!live || cm) {
                    if (live) want = live_rows; auto a = want, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
                    if (a != b) { std::string extra; for (auto& x : b) if (!std::binary_search(a.begin(), a.end(), x)) { extra = ", such as " + eng::show(x); break; } for (auto& x : a) if (!std::binary_search(b.begin(), b.end(), x)) { extra += ", missing " + eng::show(x); break; } sim::fail("dump-rows", "%s: the files have %zu records, the query %zu%s", what.c_str(), b.size(), a.size(), extra.c_str()); }
                    if (got.size() > 1) sim::probe("dump_checked");
                }
            }
            ok = ok && !live && !arrow && !shared && !rt_used; if (ok) { rt_used = true; }
        }
        if (!ok) return;
        // and back: the dumped files are loaded into another table
        Plan p; { sim::NoPreempt g; sim::probe("round_trip"); p.table = 3; p.files = files; p.tx = r.chance(0.5); p.by_pos = r.chance(0.5); for (std::size_t i = 0; i < n_cols; ++i) p.colmap.push_back(static_cast<int>(i)); p.what = "load of dumped files"; 
            std::map<std::string, std::size_t> unit; if (p.tx) { units.push_back({either, p.what, 0, 0}); p.unit.push_back(units.size() - 1); }
            for (auto& f : files) for (auto& gr : sf::files[f].groups) { if (!p.tx) { units.push_back({either, p.what + " " + f, 0, 0}); p.unit.push_back(units.size() - 1); } for (auto& cells : gr) { ++units.back().n; recs[{3, cells[1].s}] = Rec{3, units.size() - 1, canon(cells)}; } } }
        load(p);
    }
    void step() {
        auto k = Q(sim::wl().below(10));
        if (k < 6) { auto p = plan(); load(std::move(p)); } else if (k < 9) dump(); else insert();
    }
};
void run() {
    units.clear(); recs.clear(); stable.clear(); aims.clear(); loads = dumps = 0; rt_used = false; rules = {}; sf::files.clear(); sf::count = {}; auto& g = sim::cfg();
    C.clients = static_cast<int>(1 + g.below(3)); C.steps = static_cast<int>(3 + g.below(6)); C.odd = g.chance(0.4) ? 0 : 0.25; C.chan = g.chance(0.15); C.cancel = g.chance(0.1); C.ltx = g.chance(0.3);
    bool faults = g.chance(0.35), io = g.chance(0.3); C.lenient = faults || io || C.chan || C.cancel || C.ltx || g.chance(0.3);
    kv::reset(); auto& o = kv::options(); sim::set_tick_max(1000); o.epoch_us = static_cast<unsigned>(200 + g.below(3000) + 3 * sim::tick_ns()); o.async_commit = g.chance(0.5) ? 0.5 : 0;
    for (auto k : {sim::f_durable_delay, sim::f_callback_delay}) if (g.chance(0.5)) sim::fault_enable(k);
    if (g.chance(0.15)) sim::fault_enable(sim::f_stall);
    sim::set_stall_max(5'000'000);
    if (g.chance(0.3)) sim::fault_enable(sim::f_spurious_wakeup);
    sim::set_step_limit(20000000, true);
    sf::arrow_batch = 1 + g.below(10);
    dir = sim::scratch_dir() + "/files"; fs::create_directories(dir);
    tateyama::task_scheduler::chooser::pick = [](std::size_t n) { sim::NoPreempt q; return static_cast<std::size_t>(sim::wl().below(n)); };
    Engine e; auto& c = *e.cfg;
    c.thread_pool_size(1 + g.below(4)); c.default_partitions(1 + g.below(4)); c.inplace_teardown(g.chance(0.5)); c.inplace_dag_schedule(g.chance(0.5)); c.enable_hybrid_scheduler(g.chance(0.7)); c.lightweight_job_level(g.chance(0.5) ? 0 : 100);
    c.enable_session_store(g.chance(0.5)); c.direct_commit_callback(g.chance(0.3)); c.max_result_set_writers(g.chance(0.6) ? 64 : 1 + g.below(3)); c.scan_default_parallel(1 + g.below(4)); c.stealing_enabled(g.chance(0.7)); c.scan_block_size(1 + g.below(5));
    c.key_distribution(g.chance(0.5) ? jogasaki::key_distribution_kind::uniform : jogasaki::key_distribution_kind::simple);
    if (C.cancel) { auto k = std::make_shared<jogasaki::request_cancel_config>(); for (auto x : {jogasaki::request_cancel_kind::write, jogasaki::request_cancel_kind::scan, jogasaki::request_cancel_kind::find, jogasaki::request_cancel_kind::group, jogasaki::request_cancel_kind::transaction_begin_wait, jogasaki::request_cancel_kind::transaction_precommit}) if (g.chance(0.7)) k->enable(x); c.req_cancel_config(k); }
    if (auto rc = e.start(); rc != jogasaki::status::ok) sim::fail("start", "start failed with status %d", static_cast<int>(rc));
    {
        Cl k(e, 99); auto ddl = [&](std::string s) { if (!k.c.ddl(s)) sim::fail("ddl", "'%s' failed: %d %s", s.c_str(), k.c.last.code, k.c.last.detail.c_str()); };
        for (auto* n : {"t0", "t1", "t2", "rt", "d0"}) { std::string s = std::string("CREATE TABLE ") + n + " ("; for (std::size_t i = 0; i < n_cols; ++i) s += std::string(i ? ", " : "") + cols[i].name + " " + cols[i].sql + (i == 0 && strcmp(n, "t1") ? " PRIMARY KEY" : ""); ddl(s + ")"); }
        if (g.chance(0.4)) ddl("CREATE INDEX i0 ON t0 (a)");
        if (g.chance(0.2)) ddl("CREATE INDEX i1 ON d0 (s)");
        // the stable table is filled through a load as well
        Cl::Plan p; p.table = 3; { sim::NoPreempt q; auto n = g.chance(0.1) ? 0 : g.below(g.chance(0.2) ? 60 : 15); sf::File f; for (auto& x : cols) f.cols.push_back({x.name, x.k}); f.groups.emplace_back(); for (u64 i = 0; i < n; ++i) { auto x = gen(g, static_cast<long long>(i), "D" + std::to_string(i)); stable.push_back(canon(x)); f.groups.back().push_back(x); } p.files.push_back(dir + "/d0.parquet"); sf::put(p.files[0], f); for (std::size_t i = 0; i < n_cols; ++i) p.colmap.push_back(static_cast<int>(i)); p.what = "initial load"; }
        auto h = k.prepare("INSERT INTO d0 (k, s, a, f, r, d, o, dt, tm, ts) VALUES (:k, :s, :a, :f, :r, :d, :o, :dt, :tm, :ts)", true); auto q = k.load_req(p, nullptr, h); if (!k.c.call(q, p.what)) sim::fail("load-refused", "initial load failed: %d %s", k.c.last.code, k.c.last.detail.c_str()); k.unprepare(h);
        auto t = k.c.begin(); for (int i = 1; i <= 5; ++i) { auto s = "P" + std::to_string(i); if (!k.c.exec(t, "INSERT INTO t0 (k, s) VALUES (-" + std::to_string(i) + ", '" + s + "')")) sim::fail("ddl", "preload failed"); sim::NoPreempt x; units.push_back({must, "preload", 1, 0}); Cells y(n_cols); for (auto& z : y) z.null = true; y[0].null = false; y[0].i = -i; y[1].null = false; y[1].s = s; recs[{0, s}] = Rec{0, units.size() - 1, canon(y)}; } if (!k.c.commit(t)) sim::fail("ddl", "preload failed"); k.c.dispose(t);
    }
    if (faults) { o.conflict = g.chance(0.5) ? 0.05 : 0; o.io_error = g.chance(0.4) ? 0.01 : 0; o.begin_fail = g.chance(0.4) ? 0.05 : 0; for (auto k : {sim::f_kvs_conflict, sim::f_kvs_io, sim::f_kvs_error, sim::f_kvs_premature}) sim::fault_enable(k); }
    if (io) for (auto k : {sim::f_io_open, sim::f_io_error, sim::f_io_full}) if (g.chance(0.7)) sim::fault_enable(k);
    if (C.chan) { rules.channel_faults = true; sim::fault_enable(sim::f_channel); }
    vh::Threads th;
    for (int i = 0; i < C.clients; ++i) th.go([&e, i] { Cl cl(e, i); for (int k = 0; k < C.steps; ++k) cl.step(); });
    th.join();
    sim::faults_stop(); rules = {};
    for (auto& p : e.all) Engine::wait(p);
    sim::wait_until([] { return kv::open_transactions() == 0; }, "transactions of finished loads to be given back");
    {
        Cl k(e, 98);
        for (int t = 0; t < 4; ++t) {
            std::vector<Row> rows; for (int a = 0; a < 20 && !k.read(t, rows); ++a) rows.clear();
            sim::NoPreempt q;
            for (auto& r : rows) {
                auto i = recs.find({t, r[1].s}); if (i == recs.end()) sim::fail("unknown-record", "table %s has a record that was never written: %s", tables[t], eng::show(r).c_str());
                auto& x = i->second; if (x.seen) sim::fail("loaded-twice", "record %s is twice in table %s", r[1].s.c_str(), tables[t]); x.seen = true; ++units[x.unit].seen;
                if (r != x.row) sim::fail("record-changed", "table %s has %s, loaded was %s", tables[t], eng::show(r).c_str(), eng::show(x.row).c_str());
            }
        }
        sim::NoPreempt q;
        for (auto& u : units) {
            if (u.f == must && u.seen != u.n) sim::fail("loaded-record-missing", "%s succeeded; %zu of its %zu records are there", u.what.c_str(), u.seen, u.n);
            if (u.f == never && u.seen) sim::fail("failed-load-left-records", "%s did not take place; %zu of its records are there", u.what.c_str(), u.seen);
            if (u.f == either && u.n && u.seen && u.seen != u.n) sim::fail("partial-load", "%s failed; %zu of its %zu records are there", u.what.c_str(), u.seen, u.n);
        }
    }
    if (kv::leaked_handles()) sim::fail("kvs-handle-leak", "%d transaction handles were not released", kv::leaked_handles());
    if (auto rc = e.stop(); rc != jogasaki::status::ok) sim::fail("stop", "stop failed with status %d", static_cast<int>(rc));
    if (sf::count.open_readers) sim::fail("file-left-open", "%d files are still open for reading", sf::count.open_readers);
    if (sf::count.open_writers) sim::fail("file-left-open", "%d files are still open for writing", sf::count.open_writers);
    for (auto& p : e.all) if (p->bodies + p->errors != 1) sim::fail("reply-count", "request '%s' got %d replies", p->what.c_str(), p->bodies + p->errors);
}
} // namespace
namespace sim { Harness const harness{"dbload", nullptr, run}; }
