#include "../../harness/common.h"
#include "../impl/files.h"
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/parquet_reader.h>
#include <jogasaki/executor/file/parquet_writer.h>
#include <jogasaki/data/aligned_buffer.h>
#include <jogasaki/accessor/binary.h>
#include <jogasaki/accessor/text.h>
#include <jogasaki/meta/field_type_traits.h>
#include <filesystem>
#include <fstream>
#include <sstream>
namespace simfiles {
std::map<std::string, File> files; Counters count; unsigned long long arrow_batch{64}; static int generation{};
void put(std::string const& path, File f) { sim::NoPreempt g; std::ofstream(path) << "data"; f.complete = true; f.generation = ++generation; files[path] = std::move(f); }
bool usable(std::string const& path) { sim::NoPreempt g; auto i = files.find(path); return i != files.end() && i->second.complete && std::filesystem::exists(path); }
}
namespace jogasaki::executor::file {
namespace sf = simfiles;
using kind = meta::field_type_kind;
template <kind K> using rt = runtime_t<K>;

class parquet_reader::impl {
public:
    bool open_{}; std::string path_, gen_; sf::File f; std::size_t group_{}, row_{}, read_{}, groups_{}; std::vector<std::size_t> map_; meta::record_meta const* meta_{}; data::aligned_buffer buf_{}; maybe_shared_ptr<meta::external_record_meta> none_{};
    std::vector<std::unique_ptr<char[]>> mem_;
    ~impl() { sim::NoPreempt g; if (open_) --sf::count.open_readers; }
    bool init(std::string_view path, reader_option const* opt, std::size_t group) {
        sim::yield(); sim::NoPreempt g; path_ = std::string(path);
        if (sim::fault(sim::f_io_open, 0.08)) { ++sf::count.failed_open; return false; }
        if (!sf::usable(path_)) { ++sf::count.failed_open; return false; }
        f = sf::files[path_]; groups_ = f.groups.size(); group_ = group == index_unspecified ? 0 : group;
        if (group_ >= groups_) { ++sf::count.failed_open; return false; }
        if (opt) {
            meta_ = opt->meta_;
            for (std::size_t i = 0; i < opt->loc_.size(); ++i) {
                auto& l = opt->loc_[i]; std::size_t c = npos;
                if (!l.empty_) {
                    if (l.index_ != npos) c = l.index_; else for (std::size_t q = 0; q < f.cols.size(); ++q) if (f.cols[q].name == l.name_) { c = q; break; }
                    if (c == npos || c >= f.cols.size() || f.cols[c].k != meta_->at(i).kind()) { ++sf::count.failed_open; return false; }
                }
                map_.push_back(c);
            }
            buf_ = data::aligned_buffer{meta_->record_size(), meta_->record_alignment()}; buf_.resize(meta_->record_size());
        }
        open_ = true; ++sf::count.open_readers;
        return true;
    }
    std::string_view keep(std::string const& s) { auto p = std::make_unique<char[]>(s.size() + 1); memcpy(p.get(), s.data(), s.size()); mem_.push_back(std::move(p)); return {mem_.back().get(), s.size()}; }
    bool next(accessor::record_ref& ref) {
        sim::yield(); sim::NoPreempt g;
        if (!open_) sim::fail("reader-closed", "a record is read from a closed file");
        for (auto& m : mem_) (void)m; mem_.clear();
        ref = accessor::record_ref{buf_.data(), buf_.capacity()};
        if (row_ >= f.groups[group_].size()) return false;
        auto& r = f.groups[group_][row_];
        for (std::size_t i = 0; i < map_.size(); ++i) {
            if (map_[i] == npos) continue;
            auto& c = r[map_[i]]; auto o = meta_->value_offset(i);
            switch (meta_->at(i).kind()) {
                case kind::boolean: ref.set_value<rt<kind::boolean>>(o, static_cast<rt<kind::boolean>>(c.i)); break;
                case kind::int4: ref.set_value<rt<kind::int4>>(o, static_cast<std::int32_t>(c.i)); break;
                case kind::int8: ref.set_value<rt<kind::int8>>(o, c.i); break;
                case kind::float4: ref.set_value<rt<kind::float4>>(o, static_cast<float>(c.d)); break;
                case kind::float8: ref.set_value<rt<kind::float8>>(o, c.d); break;
                case kind::decimal: ref.set_value<rt<kind::decimal>>(o, rt<kind::decimal>(c.sign, c.hi, static_cast<std::uint64_t>(c.i), c.x)); break;
                case kind::character: { auto v = keep(c.s); ref.set_value<accessor::text>(o, accessor::text{v.data(), v.size()}); break; }
                case kind::octet: { auto v = keep(c.s); ref.set_value<accessor::binary>(o, accessor::binary{v.data(), v.size()}); break; }
                case kind::date: ref.set_value<rt<kind::date>>(o, rt<kind::date>{c.i}); break;
                case kind::time_of_day: ref.set_value<rt<kind::time_of_day>>(o, rt<kind::time_of_day>{std::chrono::nanoseconds{c.i}}); break;
                case kind::time_point: ref.set_value<rt<kind::time_point>>(o, rt<kind::time_point>{rt<kind::time_point>::offset_type{c.i}, std::chrono::nanoseconds{c.x}}); break;
                default: return false;
            }
            ref.set_null(meta_->nullity_offset(i), c.null);
        }
        ++row_; ++read_;
        return true;
    }
    bool close() { sim::yield(); sim::NoPreempt g; if (open_) { open_ = false; --sf::count.open_readers; mem_.clear(); } return true; }
};
parquet_reader::parquet_reader() : impl_(std::make_unique<impl>()) {}
parquet_reader::~parquet_reader() noexcept = default;
parquet_reader::parquet_reader(parquet_reader&&) noexcept = default;
parquet_reader& parquet_reader::operator=(parquet_reader&&) noexcept = default;
bool parquet_reader::next(accessor::record_ref& ref) { return impl_->next(ref); }
bool parquet_reader::close() { return impl_->close(); }
std::string parquet_reader::path() const noexcept { return impl_->path_; }
std::size_t parquet_reader::read_count() const noexcept { return impl_->read_; }
maybe_shared_ptr<meta::external_record_meta> const& parquet_reader::meta() { return impl_->none_; }
std::size_t parquet_reader::row_group_count() const noexcept { return impl_->groups_; }
std::shared_ptr<parquet_reader> parquet_reader::open(std::string_view path, reader_option const* opt, std::size_t group) { auto r = std::make_shared<parquet_reader>(); if (r->impl_->init(path, opt, group)) return r; return {}; }

namespace {
// one file being written; the real writers report every failure of the library as `false`
struct Out {
    maybe_shared_ptr<meta::external_record_meta> m; std::string path; sf::File f; std::size_t n{}, batch{}; bool open{}, broken{}; int gen{}, busy{};
    ~Out() { sim::NoPreempt g; if (open) --sf::count.open_writers; }
    bool init(std::string_view p) {
        sim::yield(); sim::NoPreempt g; path = std::string(p);
        if (sim::fault(sim::f_io_open, 0.08)) { ++sf::count.failed_open; return false; }
        { std::ofstream o(path); if (!o) { ++sf::count.failed_open; return false; } o << "incomplete"; }
        for (std::size_t i = 0; i < m->field_count(); ++i) { auto nm = m->field_name(i); f.cols.push_back({nm ? std::string(*nm) : std::string{}, m->at(i).kind()}); }
        f.groups.emplace_back(); f.generation = gen = ++sf::generation; sf::files[path] = f; open = true; ++sf::count.open_writers;
        return true;
    }
    bool write(accessor::record_ref r) {
        { sim::NoPreempt g; if (busy++) sim::fail("file-writer-shared", "two threads write one dump file"); }
        sim::yield(); sim::NoPreempt g; --busy;
        if (!open) sim::fail("file-closed", "a record is written to a closed dump file");
        if (broken || sim::fault(sim::f_io_error, 0.01)) { broken = true; ++sf::count.failed_write; return false; }
        std::vector<sf::Cell> row;
        for (std::size_t i = 0; i < m->field_count(); ++i) {
            sf::Cell c; auto o = m->value_offset(i); c.null = r.is_null(m->nullity_offset(i)) && m->nullable(i);
            if (!c.null) switch (m->at(i).kind()) {
                case kind::int4: c.i = r.get_value<std::int32_t>(o); break;
                case kind::int8: c.i = r.get_value<std::int64_t>(o); break;
                case kind::float4: c.d = r.get_value<float>(o); break;
                case kind::float8: c.d = r.get_value<double>(o); break;
                case kind::character: { auto v = r.get_value<accessor::text>(o); c.s = std::string(static_cast<std::string_view>(v)); break; }
                case kind::octet: { auto v = r.get_value<accessor::binary>(o); c.s = std::string(static_cast<std::string_view>(v)); break; }
                case kind::decimal: { auto v = r.get_value<rt<kind::decimal>>(o); c.sign = v.sign(); c.hi = v.coefficient_high(); c.i = static_cast<long long>(v.coefficient_low()); c.x = v.exponent(); break; }
                case kind::date: c.i = r.get_value<rt<kind::date>>(o).days_since_epoch(); break;
                case kind::time_of_day: c.i = r.get_value<rt<kind::time_of_day>>(o).time_since_epoch().count(); break;
                case kind::time_point: { auto v = r.get_value<rt<kind::time_point>>(o); c.i = v.seconds_since_epoch().count(); c.x = static_cast<int>(v.subsecond().count()); break; }
                default: return false;
            }
            row.push_back(std::move(c));
        }
        if (batch && f.groups.back().size() >= batch) f.groups.emplace_back();
        f.groups.back().push_back(std::move(row)); ++n; ++sf::count.written;
        return true;
    }
    bool close() {
        sim::yield(); sim::NoPreempt g; if (!open) return true; open = false; --sf::count.open_writers;
        if (broken || sim::fault(sim::f_io_full, 0.03)) { ++sf::count.failed_close; return false; }
        f.complete = true;
        auto& t = sf::files[path]; if (t.generation == gen) t = f; else { t = f; t.complete = false; }   // two writers of one file: garbage
        return true;
    }
};
}
class parquet_writer::impl : public Out {};
parquet_writer::parquet_writer() : impl_(std::make_unique<impl>()) {}
parquet_writer::parquet_writer(parquet_writer&&) noexcept = default;
parquet_writer& parquet_writer::operator=(parquet_writer&&) noexcept = default;
parquet_writer::parquet_writer(maybe_shared_ptr<meta::external_record_meta> m, parquet_writer_option) : impl_(std::make_unique<impl>()) { impl_->m = std::move(m); }
parquet_writer::~parquet_writer() noexcept = default;
bool parquet_writer::write(accessor::record_ref r) { return impl_->write(r); }
bool parquet_writer::close() { return impl_->close(); }
std::string parquet_writer::path() const noexcept { return impl_->path; }
std::size_t parquet_writer::write_count() const noexcept { return impl_->n; }
void parquet_writer::new_row_group() { impl_->f.groups.emplace_back(); }
std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta> m, std::string_view path, parquet_writer_option opt) { auto r = std::make_shared<parquet_writer>(std::move(m), opt); if (r->impl_->init(path)) return r; return {}; }
std::size_t parquet_writer::row_group_max_records() const noexcept { return 0; }

class arrow_writer::impl : public Out {};
arrow_writer::arrow_writer() : impl_(std::make_unique<impl>()) {}
arrow_writer::arrow_writer(arrow_writer&&) noexcept = default;
arrow_writer& arrow_writer::operator=(arrow_writer&&) noexcept = default;
arrow_writer::arrow_writer(maybe_shared_ptr<meta::external_record_meta> m, arrow_writer_option opt) : impl_(std::make_unique<impl>()) { impl_->m = std::move(m); impl_->batch = opt.record_batch_size() > 0 ? static_cast<std::size_t>(opt.record_batch_size()) : static_cast<std::size_t>(sf::arrow_batch); }
arrow_writer::~arrow_writer() noexcept = default;
bool arrow_writer::write(accessor::record_ref r) { return impl_->write(r); }
bool arrow_writer::close() { return impl_->close(); }
std::string arrow_writer::path() const noexcept { return impl_->path; }
std::size_t arrow_writer::write_count() const noexcept { return impl_->n; }
void arrow_writer::new_row_group() { impl_->f.groups.emplace_back(); }
std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta> m, std::string_view path, arrow_writer_option opt) { auto r = std::make_shared<arrow_writer>(std::move(m), opt); if (r->impl_->init(path)) return r; return {}; }
std::size_t arrow_writer::calculated_batch_size() const noexcept { return impl_->batch; }
std::size_t arrow_writer::row_group_max_records() const noexcept { return impl_->batch; }
}
