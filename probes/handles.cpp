// Analysed only, never compiled or run: contracts over the layer between the SQL engine and the storage engine.
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include "jogasaki/utils/fail.h"
#include <vector>
#include <sharksfin/api.h>
#include "jogasaki/kvs/database.h"
#include "jogasaki/kvs/error.h"
#include "jogasaki/kvs/iterator.h"
#include "jogasaki/kvs/storage.h"
#include "jogasaki/kvs/transaction.h"
#include "jogasaki/kvs/transaction_option.h"

namespace probe {
using code = sharksfin::StatusCode;
// what the storage engine was asked, and what it said
std::size_t calls(char const* name);
code answer(char const* name);                    // of the last call
int precedes(char const* a, char const* b);       // every call of a comes before every call of b
int disposed_once(char const* name);              // every handle that was handed out was disposed of once, not before its last use
sharksfin::StorageHandle found(std::size_t i);    // the i-th storage that was looked up
template <class T> T given(char const* name, std::size_t arg);  // an argument of the last call
template <class T> T handed(char const* name);    // what the last call stored
}

namespace jogasaki::utils {
void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error{"internal error"}; }
// stands for the lookup in the registry of storages, which C52 is about
std::unique_ptr<kvs::storage> get_storage_by_index_name(std::string_view name) {
    sharksfin::StorageHandle h{};
    if (sharksfin::storage_get(nullptr, name, &h) != sharksfin::StatusCode::OK) { return nullptr; }
    return std::make_unique<kvs::storage>(h);
}
}

namespace probe::meaning {
using jogasaki::status;
status of(code c) {
    switch (c) {
        case code::OK: return status::ok;
        case code::NOT_FOUND: return status::not_found;
        case code::ALREADY_EXISTS: return status::already_exists;
        case code::USER_ROLLBACK: return status::user_rollback;
        case code::PREMATURE: return status::err_invalid_state;
        case code::CONCURRENT_OPERATION: return status::concurrent_operation;
        case code::ERR_UNKNOWN: return status::err_unknown;
        case code::ERR_IO_ERROR: return status::err_io_error;
        case code::ERR_INVALID_ARGUMENT: return status::err_invalid_argument;
        case code::ERR_INVALID_STATE: return status::err_invalid_state;
        case code::ERR_UNSUPPORTED: return status::err_unsupported;
        case code::ERR_USER_ERROR: return status::err_user_error;
        case code::ERR_ABORTED: return status::err_aborted;
        case code::ERR_ABORTED_RETRYABLE: return status::err_serialization_failure;
        case code::ERR_TIME_OUT: return status::err_time_out;
        case code::ERR_NOT_IMPLEMENTED: return status::err_not_implemented;
        case code::ERR_ILLEGAL_OPERATION: return status::err_illegal_operation;
        case code::ERR_CONFLICT_ON_WRITE_PRESERVE: return status::err_conflict_on_write_preserve;
        case code::WAITING_FOR_OTHER_TRANSACTION: return status::waiting_for_other_transaction;
        case code::ERR_WRITE_WITHOUT_WRITE_PRESERVE: return status::err_write_without_write_preserve;
        case code::ERR_INACTIVE_TRANSACTION: return status::err_inactive_transaction;
        case code::ERR_BLOCKED_BY_CONCURRENT_OPERATION: return status::err_unknown;
        case code::ERR_RESOURCE_LIMIT_REACHED: return status::err_resource_limit_reached;
        case code::ERR_INVALID_KEY_LENGTH: return status::err_invalid_key_length;
        case code::ERR_READ_AREA_VIOLATION: return status::err_read_area_violation;
    }
    return status::err_unknown;
}
// a write refused because the transaction only reads
status of_write(code c) { return c == code::ERR_ILLEGAL_OPERATION ? status::err_write_operation_by_rtx : of(c); }
status of_sequence(code c) { return c == code::NOT_FOUND ? status::err_not_found : of(c); }

bool an_answer_keeps_its_meaning(code c) { return jogasaki::kvs::resolve(c) == of(c); }
bool only_ok_means_ok(code c) { return (jogasaki::kvs::resolve(c) == status::ok) == (c == code::OK); }
}

namespace probe::entries {
using namespace probe::meaning;
using namespace jogasaki::kvs;
using S = sharksfin::StorageHandle;
using T = sharksfin::TransactionHandle;
using sharksfin::Slice;

bool an_entry_is_read_from_its_storage(database& db, S h, T t, std::string_view key) {
    transaction tx{db};
    tx.handle_ = t;
    if (t == nullptr) { return true; }
    storage s{h};
    char const* before = "before";
    std::string_view value{before, 6};
    auto r = s.content_get(tx, key, value);
    auto c = answer("content_get");
    bool asked = calls("content_get") == 1 && given<T>("content_get", 0) == t && given<S>("content_get", 1) == h && given<Slice>("content_get", 2).to_string_view() == key;
    if (c == code::OK) { return asked && r == status::ok && value == handed<Slice>("content_get").to_string_view(); }
    return asked && r == of(c) && value.data() == before && value.size() == 6;
}
status put(code c, put_option option) {
    if (c == code::NOT_FOUND) { return option == put_option::update ? status::not_found : status::ok; }
    if (c == code::ALREADY_EXISTS) { return option == put_option::create ? status::already_exists : status::ok; }
    return of_write(c);
}
sharksfin::PutOperation operation(put_option option) {
    switch (option) {
        case put_option::create_or_update: return sharksfin::PutOperation::CREATE_OR_UPDATE;
        case put_option::create: return sharksfin::PutOperation::CREATE;
        case put_option::update: return sharksfin::PutOperation::UPDATE;
    }
    return sharksfin::PutOperation::CREATE_OR_UPDATE;
}
bool an_entry_is_written_to_its_storage(database& db, S h, T t, std::string_view key, std::string_view value, put_option option) {
    transaction tx{db};
    tx.handle_ = t;
    if (t == nullptr) { return true; }
    storage s{h};
    auto r = s.content_put(tx, key, value, option);
    bool asked = calls("content_put_with_blobs") == 1 && given<T>("content_put_with_blobs", 0) == t && given<S>("content_put_with_blobs", 1) == h
        && given<Slice>("content_put_with_blobs", 2).to_string_view() == key && given<Slice>("content_put_with_blobs", 3).to_string_view() == value
        && given<std::size_t>("content_put_with_blobs", 5) == 0 && given<sharksfin::PutOperation>("content_put_with_blobs", 6) == operation(option);
    return asked && r == put(answer("content_put_with_blobs"), option);
}
bool the_blobs_of_an_entry_are_registered(database& db, S h, T t, std::string_view key, std::string_view value, std::vector<jogasaki::lob::lob_id_type> const& lobs) {
    transaction tx{db};
    tx.handle_ = t;
    if (t == nullptr) { return true; }
    storage s{h};
    auto r = s.content_put(tx, key, value, put_option::create, lobs);
    bool asked = calls("content_put_with_blobs") == 1 && given<std::size_t>("content_put_with_blobs", 5) == lobs.size()
        && (lobs.empty() || given<sharksfin::blob_id_type const*>("content_put_with_blobs", 4) == lobs.data());
    return asked && r == put(answer("content_put_with_blobs"), put_option::create);
}
bool an_entry_is_removed_from_its_storage(database& db, S h, T t, std::string_view key) {
    transaction tx{db};
    tx.handle_ = t;
    if (t == nullptr) { return true; }
    storage s{h};
    auto r = s.content_delete(tx, key);
    return calls("content_delete") == 1 && given<T>("content_delete", 0) == t && given<S>("content_delete", 1) == h && given<Slice>("content_delete", 2).to_string_view() == key
        && r == of_write(answer("content_delete"));
}
sharksfin::EndPointKind bound(end_point_kind k) {
    switch (k) {
        case end_point_kind::unbound: return sharksfin::EndPointKind::UNBOUND;
        case end_point_kind::inclusive: return sharksfin::EndPointKind::INCLUSIVE;
        case end_point_kind::exclusive: return sharksfin::EndPointKind::EXCLUSIVE;
        case end_point_kind::prefixed_inclusive: return sharksfin::EndPointKind::PREFIXED_INCLUSIVE;
        case end_point_kind::prefixed_exclusive: return sharksfin::EndPointKind::PREFIXED_EXCLUSIVE;
    }
    return sharksfin::EndPointKind::UNBOUND;
}
bool a_range_is_scanned_as_given(database& db, S h, T t, std::string_view low, end_point_kind from, std::string_view high, end_point_kind to, std::size_t limit, bool reverse) {
    transaction tx{db};
    tx.handle_ = t;
    if (t == nullptr) { return true; }
    storage s{h};
    std::unique_ptr<iterator> it{};
    auto r = s.content_scan(tx, low, from, high, to, it, limit, reverse);
    bool asked = calls("content_scan") == 1 && given<T>("content_scan", 0) == t && given<S>("content_scan", 1) == h
        && given<Slice>("content_scan", 2).to_string_view() == low && given<sharksfin::EndPointKind>("content_scan", 3) == bound(from)
        && given<Slice>("content_scan", 4).to_string_view() == high && given<sharksfin::EndPointKind>("content_scan", 5) == bound(to)
        && given<std::size_t>("content_scan", 7) == limit && given<bool>("content_scan", 8) == reverse;
    auto c = answer("content_scan");
    if (c != code::OK) { return asked && r == of(c) && ! it && calls("iterator_dispose") == 0; }
    bool found = r == status::ok && it && it->handle() == handed<sharksfin::IteratorHandle>("content_scan") && calls("iterator_dispose") == 0;
    it.reset();
    return asked && found && calls("iterator_dispose") == 1 && given<sharksfin::IteratorHandle>("iterator_dispose", 0) == handed<sharksfin::IteratorHandle>("content_scan");
}
bool a_scan_steps_as_the_engine_does(sharksfin::IteratorHandle h) {
    iterator it{h};
    auto n = it.next();
    return calls("iterator_next") == 1 && given<sharksfin::IteratorHandle>("iterator_next", 0) == h && n == of(answer("iterator_next"));
}
bool a_scan_reads_the_key_of_the_engine(sharksfin::IteratorHandle h) {
    iterator it{h};
    char const* before = "before";
    std::string_view k{before, 6};
    auto r = it.read_key(k);
    auto c = answer("iterator_get_key");
    bool asked = calls("iterator_get_key") == 1 && given<sharksfin::IteratorHandle>("iterator_get_key", 0) == h && r == of(c);
    return asked && (c == code::OK ? k == handed<Slice>("iterator_get_key").to_string_view() : k.data() == before && k.size() == 6);
}
bool a_scan_reads_the_value_of_the_engine(sharksfin::IteratorHandle h) {
    iterator it{h};
    char const* before = "before";
    std::string_view k{before, 6};
    auto r = it.read_value(k);
    auto c = answer("iterator_get_value");
    bool asked = calls("iterator_get_value") == 1 && given<sharksfin::IteratorHandle>("iterator_get_value", 0) == h && r == of(c);
    return asked && (c == code::OK ? k == handed<Slice>("iterator_get_value").to_string_view() : k.data() == before && k.size() == 6);
}
bool a_secondary_index_is_bounded_by_prefix(bool secondary, end_point_kind k) {
    auto r = adjust_endpoint_kind(secondary, k);
    if (! secondary) { return r == k; }
    switch (k) {
        case end_point_kind::inclusive: return r == end_point_kind::prefixed_inclusive;
        case end_point_kind::exclusive: return r == end_point_kind::prefixed_exclusive;
        default: return r == k;
    }
}
}

namespace probe::owning {
using namespace probe::meaning;
using namespace jogasaki::kvs;
using D = sharksfin::DatabaseHandle;
using S = sharksfin::StorageHandle;
using C = sharksfin::TransactionControlHandle;
using T = sharksfin::TransactionHandle;

bool a_storage_is_given_back_once(S h) {
    {
        storage s{h};
        if (s.handle() != h || calls("storage_dispose") != 0) { return false; }
    }
    return calls("storage_dispose") == 1 && given<S>("storage_dispose", 0) == h;
}
bool a_scan_is_given_back_once(sharksfin::IteratorHandle h) {
    {
        iterator s{h};
        if (s.handle() != h || calls("iterator_dispose") != 0) { return false; }
    }
    return calls("iterator_dispose") == 1 && given<sharksfin::IteratorHandle>("iterator_dispose", 0) == h;
}
bool a_storage_that_was_found_is_given_back_once(D d, std::string_view name) {
    database db{d};
    auto s = db.get_storage(name);
    bool asked = calls("storage_get") == 1 && given<D>("storage_get", 0) == d && given<sharksfin::Slice>("storage_get", 1).to_string_view() == name;
    auto c = answer("storage_get");
    if (c != code::OK) { return asked && ! s && c == code::NOT_FOUND && calls("storage_dispose") == 0; }
    bool held = s && s->handle() == handed<S>("storage_get") && calls("storage_dispose") == 0;
    s.reset();
    return asked && held && calls("storage_dispose") == 1 && given<S>("storage_dispose", 0) == handed<S>("storage_get");
}
bool a_storage_that_was_made_is_given_back_once(D d, std::string_view name, sharksfin::StorageOptions const& options) {
    database db{d};
    auto s = db.create_storage(name, options);
    bool asked = calls("storage_create") == 1 && given<D>("storage_create", 0) == d && given<sharksfin::Slice>("storage_create", 1).to_string_view() == name
        && given<sharksfin::StorageOptions const*>("storage_create", 2) == std::addressof(options);
    auto c = answer("storage_create");
    if (c != code::OK) { return asked && ! s && c == code::ALREADY_EXISTS && calls("storage_dispose") == 0; }
    bool held = s && s->handle() == handed<S>("storage_create") && calls("storage_dispose") == 0;
    s.reset();
    return asked && held && calls("storage_dispose") == 1 && given<S>("storage_dispose", 0) == handed<S>("storage_create");
}
bool a_storage_is_made_only_when_there_is_none(D d, std::string_view name) {
    database db{d};
    auto s = db.get_or_create_storage(name);
    if (answer("storage_get") == code::OK) { return s && s->handle() == handed<S>("storage_get") && calls("storage_create") == 0; }
    if (calls("storage_create") != 1) { return false; }
    if (answer("storage_create") == code::OK) { return s && s->handle() == handed<S>("storage_create"); }
    return ! s;
}
bool a_storage_is_dropped_in_the_engine(S h) {
    storage s{h};
    auto r = s.delete_storage();
    return calls("storage_delete") == 1 && given<S>("storage_delete", 0) == h && r == of(answer("storage_delete")) && calls("storage_dispose") == 0;
}
bool the_options_of_a_storage_are_the_ones_of_the_engine(S h, sharksfin::StorageOptions const& a, sharksfin::StorageOptions& b) {
    storage s{h};
    auto w = s.set_options(a);
    auto r = s.get_options(b);
    return calls("storage_set_options") == 1 && given<S>("storage_set_options", 0) == h && given<sharksfin::StorageOptions const*>("storage_set_options", 1) == std::addressof(a)
        && calls("storage_get_options") == 1 && given<S>("storage_get_options", 0) == h && given<sharksfin::StorageOptions*>("storage_get_options", 1) == std::addressof(b)
        && w == of(answer("storage_set_options")) && r == of(answer("storage_get_options"));
}
bool the_storages_are_listed_by_the_engine(D d, std::vector<std::string>& out) {
    database db{d};
    auto r = db.list_storages(out);
    return calls("storage_list") == 1 && given<D>("storage_list", 0) == d && given<std::vector<std::string>*>("storage_list", 1) == std::addressof(out) && r == of(answer("storage_list"));
}
bool a_database_that_was_lent_is_left_open(D d) {
    bool ok = true;
    {
        database db{d};
        ok = db.handle() == d && db.close();
    }
    return ok && calls("database_close") == 0 && calls("database_dispose") == 0;
}
bool an_own_database_is_closed_and_given_back_once(D d) {
    if (d == nullptr) { return true; }
    bool closed = false;
    {
        database db{d};
        db.handle_borrowed_ = false;
        closed = db.close();
        if (calls("database_dispose") != 0) { return false; }
    }
    return calls("database_close") == 1 && given<D>("database_close", 0) == d && closed == (answer("database_close") == code::OK)
        && calls("database_dispose") == 1 && given<D>("database_dispose", 0) == d && precedes("database_close", "database_dispose") != 0;
}
bool a_sequence_is_known_to_the_engine(D d, jogasaki::sequence_id before) {
    database db{d};
    auto id = before;
    auto r = db.create_sequence(id);
    auto c = answer("sequence_create");
    return calls("sequence_create") == 1 && given<D>("sequence_create", 0) == d && r == of(c) && id == (c == code::OK ? handed<jogasaki::sequence_id>("sequence_create") : before);
}
bool a_sequence_is_read_as_the_engine_tells(D d, jogasaki::sequence_id id, jogasaki::sequence_version version, jogasaki::sequence_value value) {
    database db{d};
    jogasaki::sequence_versioned_value out{version, value};
    auto r = db.read_sequence(id, out);
    auto c = answer("sequence_get");
    bool asked = calls("sequence_get") == 1 && given<D>("sequence_get", 0) == d && given<jogasaki::sequence_id>("sequence_get", 1) == id && r == of_sequence(c);
    if (c != code::OK) { return asked && out.version_ == version && out.value_ == value; }
    return asked && out.version_ == handed<jogasaki::sequence_version>("sequence_get") && out.value_ == handed<jogasaki::sequence_value>("sequence_get#1");
}
bool a_sequence_is_written_within_the_transaction(D d, T t, jogasaki::sequence_id id, jogasaki::sequence_version version, jogasaki::sequence_value value) {
    if (t == nullptr) { return true; }
    database db{d};
    transaction tx{db};
    tx.handle_ = t;
    auto r = db.update_sequence(tx, id, version, value);
    return calls("sequence_put") == 1 && given<T>("sequence_put", 0) == t && given<jogasaki::sequence_id>("sequence_put", 1) == id
        && given<jogasaki::sequence_version>("sequence_put", 2) == version && given<jogasaki::sequence_value>("sequence_put", 3) == value && r == of_sequence(answer("sequence_put"));
}
bool a_sequence_is_dropped_in_the_engine(D d, jogasaki::sequence_id id) {
    database db{d};
    auto r = db.delete_sequence(id);
    return calls("sequence_delete") == 1 && given<D>("sequence_delete", 0) == d && given<jogasaki::sequence_id>("sequence_delete", 1) == id && r == of_sequence(answer("sequence_delete"));
}
}

namespace probe::transacting {
using namespace probe::owning;

bool an_open_transaction_is_aborted_and_given_back_once(database& db, C h) {
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = true;
    }
    return calls("transaction_abort") == 1 && given<C>("transaction_abort", 0) == h && calls("transaction_dispose") == 1 && given<C>("transaction_dispose", 0) == h
        && precedes("transaction_abort", "transaction_dispose") != 0 && calls("transaction_release_handle") == 0;
}
bool a_finished_transaction_is_only_given_back(database& db, C h) {
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = false;
    }
    return calls("transaction_abort") == 0 && calls("transaction_dispose") == 1 && given<C>("transaction_dispose", 0) == h && calls("transaction_release_handle") == 0;
}
bool a_commit_is_answered_by_the_engine(database& db, C h) {
    status r{};
    bool once = false;
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = true;
        r = tx.commit();
        once = calls("transaction_commit_with_callback") == 1 && given<C>("transaction_commit_with_callback", 0) == h;
    }
    return once && r == of(answer("transaction_commit_with_callback")) && calls("transaction_abort") == 0 && calls("transaction_dispose") == 1;
}
bool a_commit_in_the_background_is_not_aborted(database& db, C h, transaction::commit_callback_type cb) {
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = true;
        (void) tx.commit(std::move(cb));
    }
    return calls("transaction_commit_with_callback") == 1 && given<C>("transaction_commit_with_callback", 0) == h && calls("transaction_abort") == 0 && calls("transaction_dispose") == 1;
}
bool an_abort_is_answered_by_the_engine(database& db, C h) {
    status r{};
    code c{};
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = true;
        r = tx.abort_transaction();
        c = answer("transaction_abort");
        if (calls("transaction_abort") != 1 || given<C>("transaction_abort", 0) != h) { return false; }
    }
    // what could not be aborted is tried again before it is given back
    return r == of(c) && calls("transaction_abort") == (c == code::OK ? 1 : 2) && calls("transaction_dispose") == 1 && precedes("transaction_abort", "transaction_dispose") != 0;
}
bool a_handle_is_borrowed_once(database& db, C h) {
    transaction tx{db};
    tx.tx_ = h;
    auto a = tx.handle();
    auto b = tx.handle();
    return a == b && a == handed<T>("transaction_borrow_handle") && calls("transaction_borrow_handle") == 1 && given<C>("transaction_borrow_handle", 0) == h
        && answer("transaction_borrow_handle") == code::OK;
}
bool a_strand_gives_back_only_its_handle(database& db, C h) {
    {
        transaction tx{db};
        tx.tx_ = h;
        tx.active_ = true;
        {
            auto strand = tx.acquire_strand();
            bool ok = answer("transaction_acquire_handle") == code::OK;
            if (static_cast<bool>(strand) != ok || calls("transaction_acquire_handle") != 1 || given<C>("transaction_acquire_handle", 0) != h) { return false; }
            if (strand && (strand->handle() != handed<T>("transaction_acquire_handle") || strand->control_handle() != h || strand->database() != tx.database())) { return false; }
        }
        bool got = answer("transaction_acquire_handle") == code::OK;
        if (calls("transaction_release_handle") != (got ? 1 : 0)) { return false; }
        if (got && given<T>("transaction_release_handle", 0) != handed<T>("transaction_acquire_handle")) { return false; }
        if (calls("transaction_dispose") != 0 || calls("transaction_abort") != 0) { return false; }
    }
    return calls("transaction_abort") == 1 && calls("transaction_dispose") == 1;
}
using K = transaction_option::transaction_type;
using M = sharksfin::TransactionOptions::TransactionType;
M mode(K k) {
    switch (k) {
        case K::occ: return M::SHORT;
        case K::ltx: return M::LONG;
        case K::read_only: return M::READ_ONLY;
    }
    return M::SHORT;
}
bool a_transaction_begins_as_asked(D d, K kind) {
    database db{d};
    std::unique_ptr<transaction> out{};
    transaction_option option{kind, {}, {}, {}};
    auto r = transaction::create_transaction(db, out, option);
    auto o = handed<sharksfin::TransactionOptions>("transaction_begin");
    bool asked = calls("transaction_begin") == 1 && given<D>("transaction_begin", 0) == d && o.transaction_type() == mode(kind)
        && o.write_preserves().empty() && o.read_areas_inclusive().empty() && o.read_areas_exclusive().empty();
    auto b = answer("transaction_begin");
    if (b != code::OK) { return asked && r == of(b) && ! out && calls("transaction_get_info") == 0; }
    auto h = handed<C>("transaction_begin#1");
    auto i = answer("transaction_get_info");
    asked = asked && calls("transaction_get_info") == 1 && given<C>("transaction_get_info", 0) == h;
    if (i != code::OK) { return asked && r == of(i) && ! out && calls("transaction_dispose") == 1 && given<C>("transaction_dispose", 0) == h; }
    bool running = r == status::ok && out && out->control_handle() == h && out->database() == std::addressof(db) && calls("transaction_abort") == 0 && calls("transaction_dispose") == 0;
    out.reset();
    return asked && running && calls("transaction_abort") == 1 && given<C>("transaction_abort", 0) == h && calls("transaction_dispose") == 1 && given<C>("transaction_dispose", 0) == h;
}
bool a_transaction_begins_with_its_areas(D d, std::string w, std::string in, std::string ex) {
    database db{d};
    std::unique_ptr<transaction> out{};
    transaction_option option{K::ltx, {w}, {in}, {ex}};
    auto r = transaction::create_transaction(db, out, option);
    if (calls("transaction_begin") == 0) {
        // one of the storages is not there
        return r == status::err_invalid_argument && ! out && answer("storage_get") != code::OK && calls("storage_dispose") + 1 == calls("storage_get");
    }
    auto o = handed<sharksfin::TransactionOptions>("transaction_begin");
    bool named = o.transaction_type() == M::LONG && o.write_preserves().size() == 1 && o.read_areas_inclusive().size() == 1 && o.read_areas_exclusive().size() == 1
        && o.write_preserves()[0].handle() == found(0) && o.read_areas_inclusive()[0].handle() == found(1) && o.read_areas_exclusive()[0].handle() == found(2)
        && calls("transaction_begin") == 1 && given<D>("transaction_begin", 0) == d;
    // the storages are held until the transaction has begun
    return named && calls("storage_get") == 3 && calls("storage_dispose") == 3 && precedes("transaction_begin", "storage_dispose") != 0;
}
bool the_state_of_a_transaction_is_asked_from_the_engine(database& db, C h) {
    transaction tx{db};
    tx.tx_ = h;
    auto s = tx.check_state();
    return calls("transaction_check") == 1 && given<C>("transaction_check", 0) == h && answer("transaction_check") == code::OK
        && s.state_kind() == handed<sharksfin::TransactionState>("transaction_check").state_kind();
}
bool a_released_strand_is_reported(database& db, T h) {
    transaction tx{db};
    tx.handle_ = h;
    bool ok = tx.release_strand();
    return calls("transaction_release_handle") == 1 && given<T>("transaction_release_handle", 0) == h && ok == (answer("transaction_release_handle") == code::OK);
}
bool an_opened_database_is_owned() {
    std::map<std::string, std::string> options{};
    auto db = database::open(options);
    if (calls("database_open") != 1) { return false; }
    if (answer("database_open") != code::OK) { return ! db && calls("database_dispose") == 0; }
    if (! db || db->handle() != handed<D>("database_open") || calls("database_dispose") != 0) { return false; }
    bool closed = db->close();
    return calls("database_close") == 1 && given<D>("database_close", 0) == handed<D>("database_open") && closed == (answer("database_close") == code::OK);
}
}
