// UDF plugin loading: configuration, descriptors and (simulated) shared libraries; client call deadlines.
#include "common.h"
#include <filesystem>
#include <fstream>
#include <google/protobuf/descriptor.pb.h>
#include <grpcpp/grpcpp.h>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/udf/udf_loader.h>
#include <jogasaki/udf/generic_client.h>
#include <jogasaki/udf/generic_client_context.h>
#include <jogasaki/udf/generic_client_factory.h>
#include <jogasaki/udf/generic_record.h>

namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static takatori::util::maybe_shared_ptr<configuration> pool = std::make_shared<configuration>();
    if (arg) pool = std::move(arg);
    return pool;
}
}
using namespace vh;
using namespace plugin::udf;
namespace fs = std::filesystem;

namespace {
// ---- simulated plugin libraries ---------------------------------------------------
enum libkind { l_ok, l_noopen, l_noapi, l_apinull, l_nofactory, l_factorynull, l_clientnull, l_kinds };
struct Lib { std::string path; libkind kind; bool open{}; int live{}, opens{}, closes{}; };
std::map<std::string, libkind> kinds;          // path -> behaviour
std::deque<Lib> libs;                          // every opened handle
Lib* current{};                                // library whose entry point was looked up last
std::string chan_endpoint; bool chan_secure{}, creds_secure{}; int channels{};
struct Tied {                                  // an object whose code lives in a library
    Lib* l;
    explicit Tied(Lib* x) : l(x) { if (!l->open) sim::fail("library", "%s: code used after the library was closed", l->path.c_str()); ++l->live; }
    ~Tied() { if (!l->open) sim::fail("library", "%s: an object of the library outlives it", l->path.c_str()); --l->live; }
};
struct Api : plugin_api { Tied t{current}; std::vector<package_descriptor*> p; std::vector<package_descriptor*> const& packages() const noexcept override { return p; } };
struct Client : generic_client {
    Tied t; std::string endpoint; bool secure;
    Client(Lib* l) : t(l), endpoint(chan_endpoint), secure(chan_secure) {}
    void call(generic_client_context&, function_index_type, generic_record&, generic_record&) const override {}
    std::unique_ptr<generic_record_stream> call_server_streaming_async(std::unique_ptr<generic_client_context>, function_index_type, generic_record&) const override { return nullptr; }
};
struct Factory : generic_client_factory { Tied t; explicit Factory(Lib* l) : t(l) {}
    generic_client* create(std::shared_ptr<grpc::Channel>) const override { if (t.l->kind == l_clientnull) return nullptr; return new Client(t.l); } };
plugin_api* entry_api() { if (current->kind == l_apinull) return nullptr; return new Api(); }
generic_client_factory* entry_factory(char const*) { if (current->kind == l_factorynull) return nullptr; return new Factory(current); }
bool last_error = false;
bool refused_by_fault = false;
}
extern "C" {
void* vh_dlopen(char const* p, int) noexcept {
    sim::yield();
    sim::NoPreempt q;
    auto it = kinds.find(p);
    if (it == kinds.end() || !fs::exists(p)) { last_error = true; return nullptr; }
    if (it->second == l_noopen || sim::fault(sim::f_other, 0.1)) { last_error = sim::cfg().chance(0.7); return nullptr; }
    libs.push_back(Lib{p, it->second}); libs.back().open = true; ++libs.back().opens;
    return &libs.back();
}
void* vh_dlsym(void* h, char const* n) noexcept {
    sim::NoPreempt q;
    auto* l = static_cast<Lib*>(h);
    if (!l->open) sim::fail("library", "%s: symbol looked up after the library was closed", l->path.c_str());
    current = l;
    if (!strcmp(n, "create_plugin_api")) return l->kind == l_noapi ? nullptr : reinterpret_cast<void*>(&entry_api);
    if (!strcmp(n, "tsurugi_create_generic_client_factory")) return l->kind == l_nofactory ? nullptr : reinterpret_cast<void*>(&entry_factory);
    return nullptr;
}
int vh_dlclose(void* h) noexcept {
    sim::NoPreempt q;
    auto* l = static_cast<Lib*>(h);
    if (!l->open) sim::fail("library", "%s: closed twice", l->path.c_str());
    if (l->live) sim::fail("library", "%s: closed while %d of its objects are in use", l->path.c_str(), l->live);
    l->open = false; ++l->closes;
    return 0;
}
char* vh_dlerror() noexcept { sim::NoPreempt q; static char m[] = "simulated"; bool e = last_error; last_error = false; return e ? m : nullptr; }
}
namespace grpc {
std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { creds_secure = false; return nullptr; }
std::shared_ptr<ChannelCredentials> SslCredentials(SslCredentialsOptions const&) { creds_secure = true; return nullptr; }
std::shared_ptr<Channel> CreateChannel(std::string const& e, std::shared_ptr<ChannelCredentials> const&) { chan_endpoint = e; chan_secure = creds_secure; ++channels; return nullptr; }
}
namespace {
// ---- descriptors ---------------------------------------------------------------------
using google::protobuf::FileDescriptorSet;
using google::protobuf::FileDescriptorProto;
using google::protobuf::DescriptorProto;
struct Meaning { std::vector<std::string> methods; std::map<std::string, std::set<std::string>> defined, referred; };
std::string dotted(std::string const& n) { return n.empty() || n[0] == '.' ? n : "." + n; }
void meaning_of(DescriptorProto const& m, std::string const& scope, std::string const& file, Meaning& o) {
    auto full = scope + "." + m.name();
    o.defined[full].insert(file);
    for (auto& f : m.field()) if (f.type() == google::protobuf::FieldDescriptorProto::TYPE_MESSAGE && !f.type_name().empty()) o.referred[dotted(f.type_name())].insert(file);
    for (auto& n : m.nested_type()) meaning_of(n, full, file, o);
}
void meaning_of(FileDescriptorSet const& s, Meaning& o) {
    for (auto& f : s.file()) {
        std::string scope = f.package().empty() ? "" : "." + f.package();
        for (auto& m : f.message_type()) meaning_of(m, scope, f.name(), o);
        for (auto& sv : f.service()) for (auto& me : sv.method()) {
            o.methods.push_back(me.name());
            if (!me.input_type().empty()) o.referred[dotted(me.input_type())].insert(f.name());
            if (!me.output_type().empty()) o.referred[dotted(me.output_type())].insert(f.name());
        }
    }
}
char const* const msgs[] = {"A", "B", "C", "D"};
char const* const pkgs[] = {"", "p", "p.q"};
char const* const stems[] = {"alpha", "beta", "gamma", "delta"};
void gen_message(sim::Rng& w, DescriptorProto* m, int depth) {
    for (u64 i = 0, n = w.below(3); i < n; ++i) {
        auto* f = m->add_field(); f->set_name("f" + std::to_string(i)); f->set_number(static_cast<int>(i) + 1);
        if (w.chance(0.5)) { f->set_type(google::protobuf::FieldDescriptorProto::TYPE_MESSAGE); std::string p = pkgs[w.below(3)]; f->set_type_name(std::string(w.chance(0.8) ? "." : "") + (p.empty() ? "" : p + ".") + msgs[w.below(4)]); }
        else if (w.chance(0.2)) { f->set_type(google::protobuf::FieldDescriptorProto::TYPE_ENUM); f->set_type_name(".p.A"); }
        else f->set_type(google::protobuf::FieldDescriptorProto::TYPE_INT32);
    }
    if (depth < 3 && w.chance(0.4)) { auto* n = m->add_nested_type(); n->set_name(msgs[w.below(4)]); gen_message(w, n, depth + 1); }
}
std::vector<std::pair<std::string, DescriptorProto>> made;   // for repeated definitions
std::string gen_set(sim::Rng& w, int& method_src, double dup_method, double dup_message) {
    FileDescriptorSet s;
    for (u64 i = 0, n = w.below(4) == 0 ? 0 : 1 + w.below(2); i < n; ++i) {
        auto* f = s.add_file();
        std::string nm = stems[w.below(4)];
        f->set_name((w.chance(0.3) ? "dir/" : "") + nm + ".proto");
        std::string pk = pkgs[w.below(3)]; if (!pk.empty() || w.chance(0.3)) f->set_package(pk);
        for (u64 k = 0, c = w.below(3); k < c; ++k) {
            auto* m = f->add_message_type();
            m->set_name(w.chance(dup_message) ? std::string(msgs[w.below(4)]) : "M" + std::to_string(method_src++));
            gen_message(w, m, 0);
            if (!made.empty() && w.chance(dup_message)) {   // part of an existing definition again, below the same names
                auto& [opk, d] = made[w.below(made.size())];
                if (opk == pk) {
                    *m = d; m->clear_field();
                    auto* x = m; while (x->nested_type_size() && w.chance(0.8)) { x = x->mutable_nested_type(0); x->clear_field(); }
                    if (x != m && w.chance(0.8)) m->set_name(d.name());
                }
            }
            made.emplace_back(pk, *m);
        }
        for (u64 k = 0, c = w.below(3); k < c; ++k) {
            auto* sv = f->add_service(); sv->set_name("S" + std::to_string(w.below(2)));
            for (u64 j = 0, e = w.below(3); j < e; ++j) {
                auto* me = sv->add_method();
                me->set_name(w.chance(dup_method) ? "dup" : "m" + std::to_string(method_src++));
                if (w.chance(0.8)) me->set_input_type(std::string(".p.") + msgs[w.below(4)]);
                if (w.chance(0.8)) me->set_output_type(std::string(".") + msgs[w.below(4)]);
            }
        }
    }
    std::string out; s.SerializeToString(&out); return out;
}
void write_file(fs::path const& p, std::string const& c) { std::ofstream o(p, std::ios::binary); o << c; }

struct Ini { bool exists{true}, valid{true}, enabled{true}, secure{}; std::string endpoint, transport{"stream"}; std::optional<std::string> server; std::optional<std::size_t> timeout; };
std::string gen_ini(sim::Rng& w, Ini& e, std::string const& def_endpoint, bool def_secure) {
    std::string s;
    if (w.chance(0.05)) { e.valid = false; return "[udf\nenabled=true\n"; }
    if (w.chance(0.2)) s += "; comment\n";
    s += "[udf]\n";
    static char const* const en[] = {"true", "true", "true", "true", "TRUE", "True", "false", "FALSE", "yes", "", nullptr};
    auto* x = en[w.below(11)];
    std::string lx = x ? x : ""; std::transform(lx.begin(), lx.end(), lx.begin(), ::tolower);
    if (x) s += std::string("enabled=") + x + "\n";
    if (lx == "false") e.enabled = false; else if (lx != "true") e.valid = false;
    e.endpoint = def_endpoint; e.secure = def_secure;
    if (w.chance(0.5)) { e.endpoint = "dns:///h" + std::to_string(w.below(1000)) + ":1"; s += "endpoint=" + e.endpoint + "\n"; }
    if (w.chance(0.4)) { std::string t = w.chance(0.3) ? "" : w.chance(0.5) ? "stream" : "unary"; s += "transport=" + t + "\n"; e.transport = t.empty() ? "stream" : t; }
    static char const* const se[] = {"true", "false", "TRUE", "False", "1"};
    if (w.chance(0.5)) { auto* v = se[w.below(w.chance(0.8) ? 4 : 5)]; s += std::string("secure=") + v + "\n"; std::string l = v; std::transform(l.begin(), l.end(), l.begin(), ::tolower); if (l == "true") e.secure = true; else if (l == "false") e.secure = false; else e.valid = false; }
    if (w.chance(0.4)) { e.timeout = w.chance(0.2) ? 0 : w.below(100000000); s += "timeout=" + std::to_string(*e.timeout) + "\n"; }
    if (w.chance(0.4)) { e.server = "dns:///s" + std::to_string(w.below(100)); s += "[grpc_server]\nendpoint=" + *e.server + "\n"; }
    return s;
}
struct Exp { load_status st; std::string file; Ini ini; };

void context_run(sim::Rng& w) {
    using namespace std::chrono;
    generic_client_context c;
    if (c.timeout()) sim::fail("deadline", "a new call context has a timeout");
    auto inf = c.grpc_context().deadline();
    if (inf < system_clock::now() + hours(24 * 365)) sim::fail("deadline", "a new call context has a deadline");
    bool any = false; system_clock::time_point lo{}, hi{};
    for (int i = 0, n = 1 + static_cast<int>(w.below(4)); i < n; ++i) {
        std::optional<milliseconds> v;
        if (w.chance(0.75)) { static long const ms[] = {0, 1, 10, 999, 1000, 60000, 3600000, 86400000L * 30}; v = milliseconds(ms[w.below(8)]); }
        if (w.chance(0.5)) sim::sleep_ns(1000000ULL * w.below(5000));
        auto t0 = system_clock::now();
        c.timeout(v);
        auto t1 = system_clock::now();
        if (v) { any = true; lo = t0 + *v; hi = t1 + *v; }
        if (c.timeout() != v) sim::fail("deadline", "the timeout read back differs from the one set");
        auto d = c.grpc_context().deadline();
        if (!any && d != inf) sim::fail("deadline", "a deadline appeared without a timeout");
        if (any && (d < lo - microseconds(1) || d > hi + microseconds(1)))
            sim::fail("deadline", "deadline is %lld us from the moment the timeout was set plus the timeout", static_cast<long long>(duration_cast<microseconds>(d - lo).count()));
        if (w.chance(0.3)) { sim::sleep_ns(1000000ULL * w.below(5000)); if (c.grpc_context().deadline() != d) sim::fail("deadline", "the deadline moved by itself"); }
        sim::probe("deadline checked");
    }
}

void run() {
    auto& w = sim::wl(); auto& c = sim::cfg();
    kinds.clear(); libs.clear(); made.clear(); channels = 0; last_error = false;
    if (c.chance(0.3)) sim::fault_enable(sim::f_clock_jump, 10);
    if (w.chance(0.12)) { context_run(w); sim::finish(); }
    auto base = fs::path(sim::scratch_dir()) / "plugins";
    auto conf = std::make_shared<jogasaki::configuration>();
    std::string def_endpoint = "dns:///default:" + std::to_string(w.below(100)); bool def_secure = w.chance(0.3);
    conf->endpoint(def_endpoint); conf->secure(def_secure);
    jogasaki::global::config_pool(conf);
    bool faulty = c.chance(0.3), vanish = c.chance(0.25);
    if (faulty) {
        if (c.chance(0.5)) sim::fault_enable(sim::f_io_open, 1);
        if (c.chance(0.5)) sim::fault_enable(sim::f_io_error, 2);
        if (c.chance(0.5)) sim::fault_enable(sim::f_io_eintr, 2);
        if (c.chance(0.5)) sim::fault_enable(sim::f_io_short, 3);
        if (c.chance(0.3)) sim::fault_enable(sim::f_other, 2);
    }
    udf_loader* loader = new udf_loader();
    std::vector<Exp> loaded;      // plugins the loader must hold, in order
    int op = 0, method_src = 0;
    for (int round = 0, rounds = 1 + static_cast<int>(w.below(3)); round < rounds; ++round) {
        // ---- the directory -------------------------------------------------------
        std::vector<std::pair<fs::path, Ini>> inis; std::vector<fs::path> descs; std::vector<std::pair<fs::path, std::string>> desc_bytes;
        std::vector<fs::path> removable;
        auto dir = base / ("r" + std::to_string(round));
        std::string arg = dir.string();
        bool have_dir = true, have_deps = true, deps_file = false;
        double dupm = w.chance(0.25) ? 0.3 : 0.0, dupmsg = w.chance(0.6) ? (w.chance(0.5) ? 0.6 : 0.25) : 0.0;
        {
            sim::NoPreempt q;
            fs::remove_all(base); 
            std::error_code ec; fs::create_directories(dir, ec);
            if (w.chance(0.03)) { arg = ""; have_dir = false; }
            else if (w.chance(0.03)) { arg = (base / "missing").string(); have_dir = false; }
            else if (w.chance(0.03)) { write_file(base / "file", "x"); arg = (base / "file").string(); have_dir = false; }
            if (w.chance(0.95)) { if (w.chance(0.95)) fs::create_directories(dir / "deps"); else { deps_file = true; write_file(dir / "deps", "x"); } } else have_deps = false;
            for (auto const* st : stems) for (bool lib : {false, true}) {
                if (!w.chance(lib ? 0.25 : 0.5)) continue;
                bool en = sim::op_enabled(op++);
                Ini e; auto text = gen_ini(w, e, def_endpoint, def_secure); auto k = static_cast<libkind>(w.chance(0.7) ? 0 : w.below(l_kinds)); bool so = w.chance(0.9);
                if (!en) continue;
                auto stem = std::string(lib ? "lib" : "") + st;
                write_file(dir / (stem + ".ini"), text); removable.push_back(dir / (stem + ".ini"));
                if (so) { write_file(dir / (stem + ".so"), "so"); kinds[(dir / (stem + ".so")).string()] = k; removable.push_back(dir / (stem + ".so")); }
                e.exists = so;
                inis.emplace_back(dir / (stem + ".ini"), e);
            }
            std::sort(inis.begin(), inis.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (u64 i = 0, n = w.below(4); i < n; ++i) {
                bool en = sim::op_enabled(op++);
                auto b = gen_set(w, method_src, dupm, dupmsg);
                if (w.chance(0.08) && !b.empty()) b.resize(w.below(b.size()));              // truncated
                if (w.chance(0.05)) for (auto& ch : b) if (w.chance(0.1)) ch = static_cast<char>(w.next());   // corrupted
                auto p = dir / ("d" + std::to_string(w.below(9)) + ".desc.pb");
                if (!en || fs::exists(p)) continue;
                write_file(p, b); descs.push_back(p); desc_bytes.emplace_back(p, b); removable.push_back(p);
            }
            std::sort(descs.begin(), descs.end()); std::sort(desc_bytes.begin(), desc_bytes.end());
            if (w.chance(0.2)) fs::create_directories(dir / "sub.ini");
            if (w.chance(0.2)) fs::create_directories(dir / "sub.desc.pb");
            if (w.chance(0.2)) write_file(dir / "alone.so", "x");
            if (w.chance(0.2)) write_file(dir / "x.desc.pbx", "garbage");
        }
        // ---- what must come out ----------------------------------------------------
        std::vector<Exp> want; std::string why;
        auto final = [&](load_status s, std::string const& f) { want.push_back({s, f, {}}); };
        if (arg.empty()) final(load_status::path_is_empty, "");
        else if (!have_dir) final(load_status::path_not_found, arg);
        else if (inis.empty()) final(load_status::no_ini_files, arg);
        else if (deps_file) final(load_status::not_regular_file_or_dir, (dir / "deps").string());
        else if (!have_deps) final(load_status::deps_not_found, (dir / "deps").string());
        else {
            Meaning m; bool bad = false;
            for (auto& [p, b] : desc_bytes) { FileDescriptorSet s; if (!s.ParseFromString(b)) { bad = true; final(load_status::descriptor_parse_failed, p.string()); } else meaning_of(s, m); }
            std::set<std::string> uniq(m.methods.begin(), m.methods.end());
            if (bad) sim::probe("corrupt descriptor");
            else if (uniq.size() != m.methods.size()) { final(load_status::rpc_name_duplicated, arg); sim::probe("duplicate RPC"); }
            else {
                std::set<std::string> blocked;
                for (auto& [n, files] : m.defined) if (files.size() > 1) {
                    for (auto& f : files) blocked.insert(fs::path(f).stem().string());
                    for (auto& f : m.referred[n]) blocked.insert(fs::path(f).stem().string());
                }
                for (auto& [p, e] : inis) {
                    if (!e.exists) continue;
                    auto so = p; so.replace_extension(".so");
                    auto stem = p.stem().string(); if (stem.rfind("lib", 0) == 0) stem = stem.substr(3);
                    Exp x; x.ini = e; x.file = so.string();
                    if (!e.valid) { x.st = load_status::ini_invalid; x.file = p.string(); }
                    else if (!e.enabled) { x.st = load_status::udf_disabled; x.file = p.string(); }
                    else if (blocked.count(stem)) { x.st = load_status::message_name_duplicated; sim::probe("blocked by duplicate message"); }
                    else switch (kinds.at(so.string())) {
                        case l_noopen: x.st = load_status::dlopen_failed; break;
                        case l_noapi: x.st = load_status::api_symbol_missing; break;
                        case l_apinull: x.st = load_status::api_init_failed; break;
                        case l_nofactory: case l_factorynull: x.st = load_status::factory_symbol_missing; break;
                        case l_clientnull: x.st = load_status::factory_creation_failed; break;
                        default: x.st = load_status::ok; break;
                    }
                    want.push_back(x);
                }
            }
        }
        // ---- load ------------------------------------------------------------------
        std::vector<load_result> got;
        auto before = loader->get_plugins().size();
        bool gone = false;
        auto nf = [] { u64 n = 0; for (auto k : {sim::f_io_open, sim::f_io_error, sim::f_other}) n += sim::thread_faults(k); return n; };
        auto f0 = nf();
        std::vector<bool> vanished(removable.size());
        sim::io_faults_prefix(base.string());
        {
            Threads th;
            if (vanish && !removable.empty()) th.go([&] {
                for (u64 i = 0, n = 1 + w.below(2); i < n; ++i) {
                    auto k = Q(sim::wl().below(removable.size())); sim::sleep_ns(Q(sim::wl().below(30000)));
                    sim::NoPreempt q; std::error_code ec; fs::remove(removable[k], ec); vanished[k] = true; gone = true;
                }
            });
            try { got = loader->load(arg); }
            catch (fs::filesystem_error const& e) { if (!gone) throw; th.join(); sim::probe("directory changed while it was read"); sim::finish(); }
            th.join();
        }
        sim::io_faults_prefix("");
        bool hit = nf() != f0;
        sim::NoPreempt q;
        for (auto& r : got) sim::ev("result %d %s", static_cast<int>(r.status()), fs::path(r.file()).filename().c_str());
        auto now = loader->get_plugins().size();
        std::size_t oks = 0; for (auto& r : got) oks += r.status() == load_status::ok;
        if (now - before != oks) sim::fail("outcome", "%zu plugins reported as loaded, %zu were added", oks, now - before);
        auto name = [](load_status s) { return std::string(to_string_view(s)); };
        if (!hit && !gone) {
            if (got.size() != want.size()) sim::fail("outcome", "%zu outcomes reported, %zu expected (first reported: %s)", got.size(), want.size(), got.empty() ? "none" : name(got[0].status()).c_str());
            for (std::size_t i = 0; i < got.size(); ++i) if (got[i].status() != want[i].st || got[i].file() != want[i].file)
                sim::fail("outcome", "outcome %zu: %s for %s, expected %s for %s", i, name(got[i].status()).c_str(), got[i].file().c_str(), name(want[i].st).c_str(), want[i].file.c_str());
            for (auto& x : want) if (x.st == load_status::ok) loaded.push_back(x);
            if (!want.empty()) sim::probe("complete outcome list checked");
        } else {
            // with read faults or vanishing files each outcome is the right one or a failure of that file; a descriptor failure loads nothing
            sim::probe(hit ? "load under I/O faults" : "load while files vanish");
            bool global_fail = false;
            for (auto& r : got) if (r.status() == load_status::descriptor_open_failed || r.status() == load_status::descriptor_parse_failed) global_fail = true;
            if (global_fail && oks) sim::fail("all-or-nothing", "%zu plugins loaded although a descriptor could not be read", oks);
            if (global_fail) sim::probe("descriptor failed to read");
            std::map<std::string, int> seen;
            for (auto& r : got) {
                auto p = fs::path(r.file()); p.replace_extension("");
                if (++seen[p.string()] > 1 ) sim::fail("outcome", "two outcomes for %s", r.file().c_str());
                if (r.status() != load_status::ok) continue;
                auto it = std::find_if(want.begin(), want.end(), [&](Exp& x) { return x.file == r.file(); });
                bool desc_gone = false; for (std::size_t i = 0; i < removable.size(); ++i) desc_gone |= vanished[i] && removable[i].extension() == ".pb";
                if (it == want.end() || it->st != load_status::ok) {
                    if (desc_gone) {   // the descriptor left before it could be seen: judged without it
                        bool okini = false; for (auto& [ip, e] : inis) { auto so = ip; so.replace_extension(".so"); if (so.string() == r.file() && e.valid && e.enabled) { okini = true; Exp x; x.st = load_status::ok; x.file = r.file(); x.ini = e; loaded.push_back(x); } }
                        if (okini && kinds.at(r.file()) == l_ok) continue;
                    }
                    sim::fail("outcome", "%s was loaded but must not be", r.file().c_str());
                }
                loaded.push_back(*it);
            }
            if (!gone && !global_fail) for (auto& x : want) {
                auto it = std::find_if(got.begin(), got.end(), [&](load_result& r) { auto a = fs::path(r.file()), b = fs::path(x.file); a.replace_extension(""); b.replace_extension(""); return a == b; });
                if (it == got.end()) sim::fail("outcome", "no outcome for %s", x.file.c_str());
            }
        }
        // ---- what the loader holds ----------------------------------------------------
        auto& pl = loader->get_plugins();
        if (pl.size() != loaded.size()) sim::fail("plugins", "%zu plugins held, %zu expected", pl.size(), loaded.size());
        for (std::size_t i = 0; i < pl.size(); ++i) {
            auto& [api, client, cf] = pl[i]; auto& x = loaded[i].ini;
            if (!api || !client || !cf) sim::fail("plugins", "incomplete plugin entry");
            auto* cl = static_cast<Client*>(client.get());
            if (cl->t.l->path != loaded[i].file || static_cast<Api*>(api.get())->t.l != cl->t.l) sim::fail("plugins", "entry %zu comes from %s, expected %s", i, cl->t.l->path.c_str(), loaded[i].file.c_str());
            if (!cl->t.l->open) sim::fail("library", "%s: a loaded plugin's library is closed", cl->t.l->path.c_str());
            if (cl->endpoint != x.endpoint || cl->secure != x.secure) sim::fail("config", "%s: channel to %s secure=%d, configured %s secure=%d", loaded[i].file.c_str(), cl->endpoint.c_str(), cl->secure, x.endpoint.c_str(), x.secure);
            if (cf->endpoint() != x.endpoint || cf->secure() != x.secure || cf->transport() != x.transport || cf->grpc_server_endpoint() != x.server || cf->timeout() != x.timeout || !cf->enabled())
                sim::fail("config", "%s: configuration differs from its file", loaded[i].file.c_str());
        }
        std::size_t open = 0; for (auto& l : libs) open += l.open;
        if (open != loaded.size()) sim::fail("library", "%zu libraries are open for %zu loaded plugins", open, loaded.size());
        for (auto& l : libs) if (!l.open && l.live) sim::fail("library", "%s: objects outlive the library", l.path.c_str());
        sim::state(mix(loaded.size(), got.size() * 31 + static_cast<u64>(got.empty() ? 99 : static_cast<int>(got[0].status()))));
        if (w.chance(0.5)) {
            loader->unload_all(); loaded.clear();
            if (!loader->get_plugins().empty()) sim::fail("plugins", "plugins left after unload");
            for (auto& l : libs) if (l.open) sim::fail("library", "%s: still open after unload", l.path.c_str());
            sim::probe("unloaded");
        }
    }
    sim::plan_size(op);
    delete loader;
    for (auto& l : libs) if (l.open || l.closes != 1) sim::fail("library", "%s: closed %d times after the loader was destroyed", l.path.c_str(), l.closes);
    sim::finish();
}
}
sim::Harness const sim::harness{"udf_load", [] { (void)jogasaki::global::config_pool(); google::protobuf::FileDescriptorSet s; s.ParseFromString(""); }, run};
