// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <any>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include "CallResult.h"
#include "DatabaseOptions.h"
#include "ErrorCode.h"
#include "ErrorLocator.h"
#include "Slice.h"
#include "StatusCode.h"
#include "StorageOptions.h"
#include "TransactionInfo.h"
#include "TransactionOptions.h"
#include "TransactionState.h"
namespace sharksfin {
struct DatabaseStub;
struct TransactionStub;
struct TransactionControlStub;
struct IteratorStub;
using DatabaseHandle = DatabaseStub*;
using TransactionHandle = TransactionStub*;
using TransactionControlHandle = TransactionControlStub*;
using IteratorHandle = IteratorStub*;
using SequenceId = std::uint64_t;
using SequenceValue = std::int64_t;
using SequenceVersion = std::uint64_t;
using durability_marker_type = std::uint64_t;
using blob_id_type = std::uint64_t;
using durability_callback_type = std::function<void(durability_marker_type)>;
using commit_callback_type = std::function<void(StatusCode, ErrorCode, durability_marker_type)>;
enum class PutOperation : std::uint32_t { CREATE_OR_UPDATE = 0, CREATE, UPDATE };
enum class EndPointKind : std::uint32_t { UNBOUND = 0, INCLUSIVE, EXCLUSIVE, PREFIXED_INCLUSIVE, PREFIXED_EXCLUSIVE };
enum class TransactionOperation : std::uint32_t { COMMIT = 1, ROLLBACK, ERROR };
class Environment;
StatusCode database_open(DatabaseOptions const& options, Environment* env, DatabaseHandle* result);
StatusCode database_close(DatabaseHandle handle);
StatusCode database_dispose(DatabaseHandle handle);
StatusCode database_register_durability_callback(DatabaseHandle handle, durability_callback_type cb);
StatusCode storage_create(DatabaseHandle handle, Slice key, StorageHandle* result);
StatusCode storage_create(DatabaseHandle handle, Slice key, StorageOptions const& options, StorageHandle* result);
StatusCode storage_get(DatabaseHandle handle, Slice key, StorageHandle* result);
StatusCode storage_delete(StorageHandle handle);
StatusCode storage_dispose(StorageHandle handle);
StatusCode storage_get_options(StorageHandle handle, StorageOptions& out);
StatusCode storage_set_options(StorageHandle handle, StorageOptions const& options);
StatusCode storage_list(DatabaseHandle handle, std::vector<std::string>& out);
StatusCode transaction_begin(DatabaseHandle handle, TransactionOptions const& options, TransactionControlHandle* result);
StatusCode transaction_borrow_owner(TransactionHandle handle, DatabaseHandle* result);
StatusCode transaction_borrow_handle(TransactionControlHandle handle, TransactionHandle* result);
StatusCode transaction_acquire_handle(TransactionControlHandle handle, TransactionHandle* result);
StatusCode transaction_release_handle(TransactionHandle handle);
StatusCode transaction_get_info(TransactionControlHandle handle, std::shared_ptr<TransactionInfo>& result);
bool transaction_commit_with_callback(TransactionControlHandle handle, commit_callback_type callback);
StatusCode transaction_commit(TransactionControlHandle handle, bool async = false);
StatusCode transaction_abort(TransactionControlHandle handle, bool rollback = true);
StatusCode transaction_check(TransactionControlHandle handle, TransactionState& result);
StatusCode transaction_dispose(TransactionControlHandle handle);
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle handle);
StatusCode content_check_exist(TransactionHandle transaction, StorageHandle storage, Slice key);
StatusCode content_get(TransactionHandle transaction, StorageHandle storage, Slice key, Slice* result);
StatusCode content_put(TransactionHandle transaction, StorageHandle storage, Slice key, Slice value, PutOperation operation = PutOperation::CREATE_OR_UPDATE);
StatusCode content_put_with_blobs(TransactionHandle transaction, StorageHandle storage, Slice key, Slice value, blob_id_type const* blobs_data, std::size_t blobs_size, PutOperation operation = PutOperation::CREATE_OR_UPDATE);
StatusCode content_delete(TransactionHandle transaction, StorageHandle storage, Slice key);
StatusCode content_scan(TransactionHandle transaction, StorageHandle storage, Slice begin_key, EndPointKind begin_kind, Slice end_key, EndPointKind end_kind, IteratorHandle* result, std::size_t limit = 0, bool reverse = false);
StatusCode iterator_next(IteratorHandle handle);
StatusCode iterator_get_key(IteratorHandle handle, Slice* result);
StatusCode iterator_get_value(IteratorHandle handle, Slice* result);
StatusCode iterator_dispose(IteratorHandle handle);
StatusCode sequence_create(DatabaseHandle handle, SequenceId* id);
StatusCode sequence_put(TransactionHandle transaction, SequenceId id, SequenceVersion version, SequenceValue value);
StatusCode sequence_get(DatabaseHandle handle, SequenceId id, SequenceVersion* version, SequenceValue* value);
StatusCode sequence_delete(DatabaseHandle handle, SequenceId id);
StatusCode implementation_id(Slice* name);
StatusCode implementation_get_datastore(DatabaseHandle handle, std::any* result);
}
