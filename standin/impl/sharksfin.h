// Stand-in for sharksfin: a simulated transactional key value store. Interface follows the original;
// behaviour (epochs, group commit, durability, crash survival, concurrency control outcomes, faults) is decided by the simulator.
#pragma once
#include <any>
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
#include <vector>
namespace sharksfin {
enum class StatusCode : std::int64_t { OK = 0, NOT_FOUND = 1, ALREADY_EXISTS = 2, USER_ROLLBACK = 3, WAITING_FOR_OTHER_TRANSACTION = 4, PREMATURE = 5, CONCURRENT_OPERATION = 6,
    ERR_UNKNOWN = -1, ERR_IO_ERROR = -2, ERR_INVALID_ARGUMENT = -3, ERR_INVALID_STATE = -4, ERR_UNSUPPORTED = -5, ERR_USER_ERROR = -6, ERR_ABORTED = -7, ERR_ABORTED_RETRYABLE = -8, ERR_TIME_OUT = -9, ERR_NOT_IMPLEMENTED = -10, ERR_ILLEGAL_OPERATION = -11,
    ERR_CONFLICT_ON_WRITE_PRESERVE = -12, ERR_WRITE_WITHOUT_WRITE_PRESERVE = -14, ERR_INACTIVE_TRANSACTION = -15, ERR_BLOCKED_BY_CONCURRENT_OPERATION = -16, ERR_RESOURCE_LIMIT_REACHED = -17, ERR_INVALID_KEY_LENGTH = -18, ERR_READ_AREA_VIOLATION = -19 };
inline std::string_view to_string_view(StatusCode) { return "sharksfin_status"; }
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << "StatusCode" << static_cast<std::int64_t>(c); }
enum class ErrorCode : std::int64_t { OK, ERROR, KVS_KEY_ALREADY_EXISTS, KVS_KEY_NOT_FOUND, CC_LTX_READ_ERROR, CC_LTX_WRITE_ERROR, CC_OCC_READ_ERROR, CC_OCC_WP_VERIFY_ERROR, CC_ERROR };
inline std::ostream& operator<<(std::ostream& o, ErrorCode c) { return o << "ErrorCode" << static_cast<std::int64_t>(c); }
enum class ErrorLocatorKind { undefined, storage_key };
inline std::ostream& operator<<(std::ostream& o, ErrorLocatorKind k) { return o << static_cast<int>(k); }
class ErrorLocator { public: virtual ~ErrorLocator() = default; virtual ErrorLocatorKind kind() const noexcept = 0; };
class StorageKeyErrorLocator : public ErrorLocator {
public: StorageKeyErrorLocator(std::optional<std::string> k, std::optional<std::string> s) : k_(std::move(k)), s_(std::move(s)) {} ErrorLocatorKind kind() const noexcept override { return ErrorLocatorKind::storage_key; }
    std::optional<std::string_view> key() const { if (k_) return *k_; return {}; } std::optional<std::string_view> storage() const { if (s_) return *s_; return {}; }
private: std::optional<std::string> k_, s_; };
class CallResult { public: CallResult(ErrorCode c, std::string d, std::shared_ptr<ErrorLocator> l = {}) : c_(c), d_(std::move(d)), l_(std::move(l)) {} ErrorCode code() const { return c_; } std::string_view description() const { return d_; } std::string_view result() const { return d_; } std::shared_ptr<ErrorLocator> location() const { return l_; } private: ErrorCode c_; std::string d_; std::shared_ptr<ErrorLocator> l_; };
class Slice { public: Slice() = default; Slice(std::string_view s) : s_(s) {} Slice(std::string const& s) : s_(s) {} Slice(char const* s) : s_(s) {} Slice(char const* p, std::size_t n) : s_(p, n) {} template <class T = char> T const* data() const { return reinterpret_cast<T const*>(s_.data()); } std::size_t size() const { return s_.size(); } bool empty() const { return s_.empty(); } std::string_view to_string_view() const { return s_; } std::string to_string() const { return std::string(s_); } private: std::string_view s_; };
struct Handle_ {};
using DatabaseHandle = std::add_pointer_t<struct DatabaseStub>; using TransactionControlHandle = std::add_pointer_t<struct TxStub>; using TransactionHandle = std::add_pointer_t<struct TxBodyStub>; using StorageHandle = std::add_pointer_t<struct StorageStub>; using IteratorHandle = std::add_pointer_t<struct IteratorStub>;
using SequenceId = std::size_t; using SequenceValue = std::int64_t; using SequenceVersion = std::size_t; using blob_id_type = std::uint64_t; using durability_marker_type = std::uint64_t;
using commit_callback_type = std::function<void(StatusCode, ErrorCode, durability_marker_type)>; using durability_callback_type = std::function<void(durability_marker_type)>;
enum class PutOperation : std::uint32_t { CREATE_OR_UPDATE = 0, CREATE, UPDATE };
enum class EndPointKind : std::uint32_t { UNBOUND = 0, INCLUSIVE, EXCLUSIVE, PREFIXED_INCLUSIVE, PREFIXED_EXCLUSIVE };
class DatabaseOptions { public: enum class OpenMode { RESTORE, CREATE_OR_RESTORE }; void open_mode(OpenMode) {} std::optional<std::string> attribute(std::string const& k) const { auto i = m_.find(k); if (i == m_.end()) return {}; return i->second; } void attribute(std::string k, std::string v) { m_[std::move(k)] = std::move(v); } private: std::map<std::string, std::string> m_; };
class StorageOptions { public: using storage_id_type = std::uint64_t; static constexpr storage_id_type undefined = static_cast<storage_id_type>(-1); StorageOptions() = default; explicit StorageOptions(storage_id_type id) : id_(id) {} storage_id_type storage_id() const { return id_; } StorageOptions& storage_id(storage_id_type i) { id_ = i; return *this; } std::string const& payload() const { return p_; } StorageOptions& payload(std::string p) { p_ = std::move(p); return *this; } private: storage_id_type id_{undefined}; std::string p_; };
class TableArea { public: TableArea(StorageHandle h) : h_(h) {} StorageHandle handle() const { return h_; } private: StorageHandle h_; };
class TransactionOptions { public: enum class TransactionType { SHORT, LONG, READ_ONLY }; using WritePreserves = std::vector<TableArea>; using ReadAreas = std::vector<TableArea>;
    TransactionOptions() = default; TransactionOptions(TransactionType t, WritePreserves w, ReadAreas i = {}, ReadAreas e = {}) : t_(t), w_(std::move(w)), i_(std::move(i)), e_(std::move(e)) {}
    TransactionType transaction_type() const { return t_; } WritePreserves const& write_preserves() const { return w_; } ReadAreas const& read_areas_inclusive() const { return i_; } ReadAreas const& read_areas_exclusive() const { return e_; }
private: TransactionType t_{}; WritePreserves w_; ReadAreas i_, e_; };
class TransactionState { public: enum class StateKind { UNKNOWN, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE }; TransactionState() = default; explicit TransactionState(StateKind k) : k_(k) {} StateKind state_kind() const { return k_; } friend std::ostream& operator<<(std::ostream& o, TransactionState s) { return o << static_cast<int>(s.k_); } private: StateKind k_{}; };
inline std::ostream& operator<<(std::ostream& o, TransactionState::StateKind s) { return o << static_cast<int>(s); }
class TransactionInfo { public: explicit TransactionInfo(std::string i) : i_(std::move(i)) {} std::string_view id() const { return i_; } private: std::string i_; };
class Environment { public: void initialize() {} };
StatusCode implementation_id(Slice* out);
StatusCode implementation_get_datastore(DatabaseHandle, std::any* out);
StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle* out);
StatusCode database_close(DatabaseHandle); StatusCode database_dispose(DatabaseHandle);
StatusCode database_register_durability_callback(DatabaseHandle, durability_callback_type);
StatusCode storage_create(DatabaseHandle, Slice, StorageOptions const&, StorageHandle*); inline StatusCode storage_create(DatabaseHandle d, Slice s, StorageHandle* h) { return storage_create(d, s, StorageOptions{}, h); }
StatusCode storage_get(DatabaseHandle, Slice, StorageHandle*); StatusCode storage_delete(StorageHandle); StatusCode storage_dispose(StorageHandle); StatusCode storage_list(DatabaseHandle, std::vector<std::string>&);
StatusCode storage_get_options(StorageHandle, StorageOptions&); StatusCode storage_set_options(StorageHandle, StorageOptions const&);
StatusCode transaction_begin(DatabaseHandle, TransactionOptions const&, TransactionControlHandle*); StatusCode transaction_borrow_owner(TransactionHandle, DatabaseHandle*); StatusCode transaction_borrow_handle(TransactionControlHandle, TransactionHandle*); StatusCode transaction_acquire_handle(TransactionControlHandle, TransactionHandle*); StatusCode transaction_release_handle(TransactionHandle);
bool transaction_commit_with_callback(TransactionControlHandle, commit_callback_type); StatusCode transaction_commit(TransactionControlHandle, bool async = false); StatusCode transaction_abort(TransactionControlHandle, bool = true); StatusCode transaction_dispose(TransactionControlHandle);
StatusCode transaction_check(TransactionControlHandle, TransactionState&); StatusCode transaction_get_info(TransactionControlHandle, std::shared_ptr<TransactionInfo>&); std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle);
StatusCode content_check_exist(TransactionHandle, StorageHandle, Slice); StatusCode content_get(TransactionHandle, StorageHandle, Slice, Slice*); StatusCode content_put(TransactionHandle, StorageHandle, Slice, Slice, PutOperation = PutOperation::CREATE_OR_UPDATE); StatusCode content_put_with_blobs(TransactionHandle, StorageHandle, Slice, Slice, blob_id_type const*, std::size_t, PutOperation); StatusCode content_delete(TransactionHandle, StorageHandle, Slice);
StatusCode content_scan(TransactionHandle, StorageHandle, Slice, EndPointKind, Slice, EndPointKind, IteratorHandle*, std::size_t limit = 0, bool reverse = false);
StatusCode iterator_next(IteratorHandle); StatusCode iterator_get_key(IteratorHandle, Slice*); StatusCode iterator_get_value(IteratorHandle, Slice*); StatusCode iterator_dispose(IteratorHandle);
StatusCode sequence_create(DatabaseHandle, SequenceId*); StatusCode sequence_put(TransactionHandle, SequenceId, SequenceVersion, SequenceValue); StatusCode sequence_get(DatabaseHandle, SequenceId, SequenceVersion*, SequenceValue*); StatusCode sequence_delete(DatabaseHandle, SequenceId);

// ---- simulation control, used by harnesses only
namespace simkvs {
struct Options {
    double conflict{0}, concurrent_op{0}, io_error{0}, begin_fail{0};   // fault rates (also need the fault kinds enabled)
    bool group_durability{true};       // a durability thread runs (otherwise the harness advances durability)
    unsigned epoch_us{3000};           // epoch length, simulated microseconds
    double async_commit{0.5};          // share of commits whose callback comes later from another thread
    double strict_rw{1.0};             // validate read sets
    bool dispose_aborts{false};        // disposing an active transaction aborts it (what the real store does, with a warning)
};
Options& options();
void reset();                                   // new store (optionally from a durable blob, see restore)
std::string durable_image(bool torn = false);   // what survives a crash now
void restore(std::string const& image);
std::uint64_t epoch(); std::uint64_t durable_epoch();
void advance_epoch(); void make_durable();      // manual control
std::map<std::string, std::map<std::string, std::string>> committed();   // storage -> key -> value
std::map<std::string, std::map<std::string, std::string>> durable();
int open_transactions(); int leaked_handles();
void start_threads(); void stop_threads();      // epoch/durability thread
std::uint64_t begins(); std::uint64_t commits(); std::uint64_t aborts();
void set_datastore(void*);
// outcome of transaction by id string: 0 unknown, 1 committed (marker in *m), 2 aborted
int outcome(std::string const& id, std::uint64_t* m);
// position of a committed transaction in the commit order (0: not committed); several read-only ones may share one
std::string last_begun();                        // id of the transaction this thread began last
std::uint64_t commit_ts(std::string const& id); bool commit_wrote(std::string const& id); std::uint64_t last_ts();
void on_misuse(std::function<void(char const*)>);   // called when the engine breaks the store's usage rules
}
} // namespace sharksfin
