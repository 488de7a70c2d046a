// UDF record streams: FIFO, exactly-once, timeout, end-of-stream and close, under every schedule.
#include "common.h"
#include <jogasaki/udf/generic_record_impl.h>
#include <jogasaki/udf/error_info.h>

using namespace plugin::udf;
using status = generic_record_stream_status;
using namespace vh;

namespace {
enum kind { k_push, k_eos, k_close, k_try, k_next };
struct Op : OpBase {
    int kind{}; int id{}; bool err{}; status st{}; int got{-1}; bool got_err{}; long timeout_ms{-1}; u64 t0{}, t1{};
};
struct Model {
    std::deque<std::pair<int, bool>> q; bool eos{}; bool closed{};
    bool step(Op const& o) {
        switch (o.kind) {
            case k_push: if (!eos) q.emplace_back(o.id, o.err); return true;
            case k_eos: eos = true; return true;
            case k_close: eos = closed = true; q.clear(); return true;
            default:
                if (!q.empty()) {
                    auto [id, e] = q.front();
                    if (o.st != (e ? status::error : status::ok) || o.got != id) return false;
                    q.pop_front();
                    return true;
                }
                if (eos) return o.st == status::end_of_stream;
                return o.st == status::not_ready && !(o.kind == k_next && o.timeout_ms < 0);
        }
    }
    std::string key() const { std::string s; for (auto& x : q) { s += std::to_string(x.first); s += ','; } return s + (eos ? "E" : "") + (closed ? "C" : ""); }
};

constexpr int n_shapes = 17;
// fills a record with values derived from id; verify reads them back
void fill(generic_record_impl& r, int id) {
    r.add_int4(id);
    for (int i = 0; i < 1 + id % 4; ++i) {
        int v = id * 31 + i;
        switch ((id * 7 + i * 5) % n_shapes) {
            case 0: r.add_bool(v & 1); break;
            case 1: r.add_int8(-1000000000000LL * v); break;
            case 2: r.add_uint4(4000000000U - static_cast<unsigned>(v)); break;
            case 3: r.add_uint8(~0ULL - static_cast<u64>(v)); break;
            case 4: r.add_float(static_cast<float>(v) * 0.5F); break;
            case 5: r.add_double(v * 0.25); break;
            case 6: r.add_string(std::string(static_cast<std::size_t>(v % 50), 'a' + static_cast<char>(v % 26))); break;
            case 7: r.add_bytes(bytes_value{std::string("\0x", 2) + std::to_string(v)}); break;
            case 8: r.add_decimal(decimal_value{std::string(1, static_cast<char>(v)) + "z", -v}); break;
            case 9: r.add_date(date_value{-v}); break;
            case 10: r.add_local_time(local_time_value{v * 1000003LL}); break;
            case 11: r.add_local_datetime(local_datetime_value{-v * 77LL, static_cast<unsigned>(v) % 1000000000U}); break;
            case 12: r.add_offset_datetime(offset_datetime_value{v * 9LL, 5U, -(v % 700)}); break;
            case 13: r.add_blob_reference(blob_reference_value{1, static_cast<u64>(v), 3, (v & 1) != 0}); break;
            case 14: r.add_clob_reference(clob_reference_value{2, static_cast<u64>(v), 9, (v & 2) != 0}); break;
            case 15: r.add_string_null(); break;
            default: r.add_int8_null(); break;
        }
    }
}
void need(bool b, char const* what, int id) { if (!b) sim::fail("record-content", "record %d came out of the stream with a different %s", id, what); }
int verify(generic_record_impl& r) {
    auto c = r.cursor();
    need(c->has_next(), "number of values", -1);
    auto o = c->fetch_int4();
    need(o.has_value(), "first value", -1);
    int id = *o;
    for (int i = 0; i < 1 + id % 4; ++i) {
        int v = id * 31 + i;
        need(c->has_next(), "number of values", id);
        switch ((id * 7 + i * 5) % n_shapes) {
            case 0: need(c->current_kind() == runtime_type_kind::boolean && c->fetch_bool() == ((v & 1) != 0), "bool", id); break;
            case 1: need(c->fetch_int8() == -1000000000000LL * v, "int8", id); break;
            case 2: need(c->fetch_uint4() == 4000000000U - static_cast<unsigned>(v), "uint4", id); break;
            case 3: need(c->fetch_uint8() == ~0ULL - static_cast<u64>(v), "uint8", id); break;
            case 4: need(c->fetch_float() == static_cast<float>(v) * 0.5F, "float", id); break;
            case 5: need(c->fetch_double() == v * 0.25, "double", id); break;
            case 6: need(c->fetch_string() == std::string(static_cast<std::size_t>(v % 50), 'a' + static_cast<char>(v % 26)), "string", id); break;
            case 7: { auto x = c->fetch_bytes(); need(x && x->value == std::string("\0x", 2) + std::to_string(v), "bytes", id); break; }
            case 8: { auto x = c->fetch_decimal(); need(x && x->unscaled_value == std::string(1, static_cast<char>(v)) + "z" && x->exponent == -v, "decimal", id); break; }
            case 9: { auto x = c->fetch_date(); need(x && x->days == -v, "date", id); break; }
            case 10: { auto x = c->fetch_local_time(); need(x && x->nanos == v * 1000003LL, "time", id); break; }
            case 11: { auto x = c->fetch_local_datetime(); need(x && x->offset_seconds == -v * 77LL && x->nano_adjustment == static_cast<unsigned>(v) % 1000000000U, "timestamp", id); break; }
            case 12: { auto x = c->fetch_offset_datetime(); need(x && x->offset_seconds == v * 9LL && x->nano_adjustment == 5U && x->time_zone_offset == -(v % 700), "timestamp tz", id); break; }
            case 13: { auto x = c->fetch_blob_reference(); need(x && x->storage_id == 1 && x->object_id == static_cast<u64>(v) && x->tag == 3 && x->provisioned == ((v & 1) != 0), "blob", id); break; }
            case 14: { auto x = c->fetch_clob_reference(); need(x && x->storage_id == 2 && x->object_id == static_cast<u64>(v) && x->tag == 9 && x->provisioned == ((v & 2) != 0), "clob", id); break; }
            case 15: need(c->current_is_null() && !c->fetch_string(), "null string", id); break;
            default: need(c->current_is_null() && !c->fetch_int8(), "null int8", id); break;
        }
    }
    need(!c->has_next(), "number of values", id);
    return id;
}

void run() {
    auto& g = sim::cfg();
    sim::check_races(g.chance(0.4));
    if (g.chance(0.5)) sim::fault_enable(sim::f_spurious_wakeup, 2.0);
    if (g.chance(0.3)) sim::fault_enable(sim::f_stall);
    if (g.chance(0.3)) sim::fault_enable(sim::f_clock_jump);
    sim::set_step_limit(600000, true);
    int np = 1 + static_cast<int>(g.below(3)), nc = 1 + static_cast<int>(g.below(4));
    bool quota = g.chance(0.4);     // each consumer takes a fixed share of the records and leaves
    bool with_close = !quota && g.chance(0.3), eos_early = !quota && g.chance(0.3), untimed = g.chance(0.6);
    auto* s = new generic_record_stream_impl();
    std::vector<Op> hist;
    auto add = [&hist](Op o) { hist.push_back(std::move(o)); };
    int id = 0, op = 0;
    std::vector<std::vector<Op>> prod(static_cast<std::size_t>(np));
    for (auto& p : prod) for (u64 i = 0, n = 1 + sim::wl().below(4); i < n; ++i) { Op o; o.kind = k_push; o.id = ++id; o.err = sim::wl().chance(0.1); if (sim::op_enabled(op++)) p.push_back(o); }
    int total = id;
    std::vector<int> eos_plan(static_cast<std::size_t>(np));
    if (eos_early) for (auto& e : eos_plan) e = sim::wl().chance(0.4);
    sim::plan_size(op);
    std::vector<int> share(static_cast<std::size_t>(nc));
    for (auto& p : prod) for (auto& o : p) { (void)o; ++share[sim::wl().below(static_cast<u64>(nc))]; }
    bool closer = with_close;
    int consumed = 0, pushed = 0; bool ended = false;
    auto get = [&](generic_record_stream_impl& st, int mode, long tmo) {
        Op o; o.kind = mode ? k_next : k_try; o.timeout_ms = tmo;
        generic_record_impl rec;
        if (Q(sim::wl().chance(0.3))) rec.add_string("left over from before");
        o.t0 = sim::now(); o.call = sim::seq();
        o.st = mode ? st.next(rec, tmo < 0 ? std::nullopt : std::optional<std::chrono::milliseconds>(tmo)) : st.try_next(rec);
        o.ret = sim::seq(); o.t1 = sim::now();
        sim::NoPreempt q;
        if (o.st == status::ok || o.st == status::error) {
            o.got = verify(rec);
            o.got_err = rec.error().has_value();
            ++consumed;
            if (rec.error()) need(rec.error()->message() == "e" + std::to_string(o.got), "error", o.got);
        }
        if (mode && tmo >= 0 && o.st == status::not_ready) {
            sim::probe("timeout reached");
            if (o.t1 - o.t0 < static_cast<u64>(tmo) * 1000000ULL) sim::fail("early-timeout", "next(%ld ms) gave up after %.3f ms", tmo, double(o.t1 - o.t0) / 1e6);
        }
        sim::ev("%s tmo %ld -> %d record %d", mode ? "next" : "try_next", tmo, static_cast<int>(o.st), o.got);
        add(o);
        return o.st;
    };
    Threads th, cons;
    for (int p = 0; p < np; ++p) th.go([&, p] {
        for (auto o : prod[static_cast<std::size_t>(p)]) {
            auto r = std::make_unique<generic_record_impl>();
            fill(*r, o.id);
            if (o.err) r->set_error(error_info(grpc::StatusCode::INTERNAL, "e" + std::to_string(o.id)));
            o.call = sim::seq();
            s->push(std::move(r));
            o.ret = sim::seq();
            sim::NoPreempt q; ++pushed; sim::ev("push %d", o.id); add(o);
        }
        if (eos_plan[static_cast<std::size_t>(p)]) { Op o; o.kind = k_eos; o.call = sim::seq(); s->end_of_stream(); o.ret = sim::seq(); sim::NoPreempt q; sim::ev("eos"); sim::probe("end of stream while producing"); ended = true; add(o); }
    });
    for (int c = 0; c < nc; ++c) cons.go([&, c] {
        for (int mine = 0; !quota || mine < share[static_cast<std::size_t>(c)];) {
            u64 k = Q(sim::wl().below(4));
            status st{};
            if (quota ? k < 3 : (untimed && (c == 0 || k < 2))) st = get(*s, 1, -1);
            else if (k == 3) { st = get(*s, 0, -1); if (st == status::not_ready) sim::sleep_ns(1000); }
            else { static long const ts[] = {0, 1, 5, 100, 5000}; st = get(*s, 1, ts[Q(sim::wl().below(5))]); }
            if (st == status::end_of_stream) break;
            if (st == status::ok || st == status::error) ++mine;
            if (!quota && Q(hist.size() > 26)) break;
        }
    });
    if (closer) th.go([&] {
        sim::sleep_ns(Q(sim::wl().below(200)) * 1000);
        Op o; o.kind = k_close; o.call = sim::seq(); s->close(); o.ret = sim::seq();
        sim::NoPreempt q; sim::ev("close"); sim::probe("close while in use"); ended = true; add(o);
    });
    th.join();
    if (quota) {
        cons.join();
        sim::probe("records shared out without an end of stream");
    } else if (Q(!ended) && untimed) {
        // with no end and no close, an unbounded next must get every record: nobody may sleep on a non-empty stream
        sim::wait_until([&] { return consumed >= pushed || hist.size() > 26; }, "all records consumed");
    }
    { Op o; o.kind = k_eos; o.call = sim::seq(); s->end_of_stream(); o.ret = sim::seq(); sim::NoPreempt q; add(o); }
    cons.join();
    sim::NoPreempt q;
    // drain what is left (consumers that stopped early)
    for (;;) { auto st = get(*s, 0, -1); if (st == status::end_of_stream) break; if (st == status::not_ready) sim::fail("lost-end", "not_ready after end of stream"); }
    std::set<int> seen;
    for (auto& o : hist) if (o.got >= 0) {
        if (o.got < 1 || o.got > total || !seen.insert(o.got).second) sim::fail("duplicate", "record %d delivered twice or never pushed", o.got);
        if (o.got_err != (o.st == status::error)) sim::fail("record-content", "status and error disagree for record %d", o.got);
    }
    bool gave_up = false;
    if (hist.size() <= 40 && !linearizable(hist, Model{}, 60000, &gave_up)) {
        std::string d;
        for (auto& o : hist) d += " [" + std::to_string(o.call) + "," + std::to_string(o.ret) + "]" + std::string("PECTN").substr(static_cast<std::size_t>(o.kind), 1) + std::to_string(o.kind == k_push ? o.id : o.got) + (o.kind >= k_try ? "/" + std::to_string(static_cast<int>(o.st)) : "");
        sim::fail("not-linearizable", "no order of these operations is a FIFO stream:%s", d.c_str());
    }
    if (gave_up) sim::probe("linearizability search gave up");
    sim::state(mix(mix(hist.size(), seen.size()), static_cast<u64>(np * 8 + nc)));
    delete s;
}
} // namespace
sim::Harness const sim::harness{"udf_stream", nullptr, run};
