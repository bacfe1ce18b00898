// Analysed only, never compiled or run: contracts over what becomes of a request to commit.
#include "jobs.cpp"
#include "jogasaki/executor/executor.h"
#include "jogasaki/api/impl/database.h"
#include "jogasaki/api/impl/request_context_factory.h"
#include "jogasaki/api/commit_option.h"
#include "jogasaki/durability_manager.h"
#include "jogasaki/storage/reference_scope.h"
#include "jogasaki/utils/abort_error.h"

namespace probe {
request* current{};                       // what the next request to commit uses
std::shared_ptr<durability_manager> waiters{};
utils::use_counter in_process{};
std::size_t destroyed{};
std::size_t destroyed_id{};
int stopping{};
std::size_t asked{};                      // how often the engine was asked
std::shared_ptr<configuration> chosen{};
std::shared_ptr<configuration>& configured() { return chosen; }
sharksfin::commit_callback_type callback{};
memory::page_pool pages{};
}
namespace probe {
sharksfin::StatusCode answer{};
std::uint64_t reached_later{};
std::size_t aborted_times{};
std::size_t aborted() { return aborted_times; }
// runs what it keeps when it is waited for
struct waited : keeper {
    void wait_for_progress(std::size_t) override {
        current->run(0);
        callback(answer, sharksfin::ErrorCode::OK, reached_later);
        current->run(1);
    }
};
waited* waiting{};
scheduler::task_scheduler* the_scheduler() { return waiting; }
}
namespace jogasaki::global {
memory::page_pool& page_pool() { return probe::pages; }
}
namespace jogasaki::utils {
std::string create_abort_message(request_context const&) { return "aborted"; }
}
namespace jogasaki::api::impl {
std::shared_ptr<class configuration>& database::config() noexcept { return probe::configured(); }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return probe::the_scheduler(); }
bool database::stop_requested() const noexcept { return probe::stopping != 0; }
utils::use_counter const& database::requests_inprocess() const noexcept { return probe::in_process; }
std::shared_ptr<durability_manager> const& database::durable_manager() const noexcept { return probe::waiters; }
status database::destroy_transaction(api::transaction_handle h) { ++probe::destroyed; probe::destroyed_id = h.surrogate_id(); return status::ok; }
std::shared_ptr<request_context> create_request_context(impl::database&, std::shared_ptr<transaction_context>, maybe_shared_ptr<executor::io::record_channel> const&,
    std::shared_ptr<memory::lifo_paged_memory_resource>, request_info const&, bool, std::shared_ptr<scheduler::request_detail>) {
    return probe::current->rctx_;
}
}
namespace sharksfin {
StatusCode transaction_abort(TransactionControlHandle, bool) { ++probe::aborted_times; return StatusCode::OK; }
StatusCode transaction_dispose(TransactionControlHandle) { return StatusCode::OK; }
bool transaction_commit_with_callback(TransactionControlHandle, commit_callback_type cb) {
    ++probe::asked;
    probe::callback = std::move(cb);
    return false;
}
}

namespace probe::committing {
using N = number;
using code = sharksfin::StatusCode;
using kind = commit_response_kind;

struct commit {
    request r_{1};
    N answered_{};
    N refused_{};
    kind with_{};
    status why_{};
    scheduler::job_context::job_id_type id_{};
    commit(api::impl::database& db, int direct, std::uint64_t reached) {
        settings = std::make_shared<configuration>();
        settings->inplace_teardown(false);
        settings->direct_commit_callback(direct != 0);
        waiters = std::make_shared<durability_manager>();
        waiters->instant_update_if_waitlist_empty(reached);
        asked = 0;
        aborted_times = 0;
        destroyed = 0;
        stopping = 0;
        current = &r_;
        r_.tx_->option(std::make_shared<api::transaction_option>());
    }
    void ask(api::impl::database& db, kind k, int dispose) {
        commit_response_kind_set ks{};
        ks.insert(k);
        api::commit_option o{};
        o.commit_response(k);
        o.auto_dispose_on_success(dispose != 0);
        id_ = executor::commit_async(db, r_.tx_,
            [this](kind x) { ++answered_; with_ = x; },
            ks,
            [this](kind x, status s, std::shared_ptr<error::error_info>) { ++refused_; with_ = x; why_ = s; },
            o, request_info{});
    }
    bool silent() { return answered_ + refused_ == 0; }
    bool told() { return answered_ == 1 && refused_ == 0; }
    bool refused() { return answered_ == 0 && refused_ == 1; }
};
}
namespace probe::commits {
using namespace probe::committing;

bool the_engine_is_asked_by_a_task(api::impl::database& db, std::uint64_t reached, int dispose) {
    commit c{db, 0, reached};
    c.ask(db, kind::accepted, dispose);
    if (asked != 0 || ! c.silent() || c.r_.tasks_.tasks_ != 1) { return false; }
    c.r_.run(0);
    return asked == 1 && c.silent() && c.r_.tasks_.tasks_ == 1 && c.r_.tasks_.teardowns_ == 0 && c.r_.tx_->state() == transaction_state_kind::cc_committing
        && c.r_.tx_->termination_mgr().state().going_to_commit();
}
bool an_accepted_commit_is_told_once(api::impl::database& db, std::uint64_t reached, std::uint64_t marker, int dispose, int direct) {
    commit c{db, direct, reached};
    c.ask(db, kind::accepted, dispose);
    c.r_.run(0);
    callback(code::OK, sharksfin::ErrorCode::OK, marker);
    if (direct == 0) {
        if (! c.silent() || c.r_.tasks_.tasks_ != 2) { return false; }
        c.r_.run(1);
    } else if (c.r_.tasks_.tasks_ != 1) { return false; }
    return c.told() && c.with_ == kind::accepted && c.r_.tasks_.teardowns_ == 1 && c.r_.tx_->durability_marker().has_value() && *c.r_.tx_->durability_marker() == marker
        && waiters->heap_.empty();
}
bool a_stored_commit_is_told_when_its_marker_is_reached(api::impl::database& db, std::uint64_t reached, std::uint64_t marker, int direct) {
    commit c{db, direct, reached};
    c.ask(db, kind::stored, 0);
    c.r_.run(0);
    callback(code::OK, sharksfin::ErrorCode::OK, marker);
    if (! c.silent()) { return false; }
    if (marker > reached) {
        return c.r_.tasks_.tasks_ == 1 && c.r_.tasks_.teardowns_ == 0 && waiters->heap_.size() == 1;
    }
    if (c.r_.tasks_.tasks_ != 2 || ! waiters->heap_.empty()) { return false; }
    c.r_.run(1);
    return c.told() && c.with_ == kind::stored && c.r_.tasks_.teardowns_ == 1 && c.r_.tx_->state() == transaction_state_kind::committed_stored;
}
bool a_commit_refused_by_the_engine_is_told_so(api::impl::database& db, code e, std::uint64_t reached, std::uint64_t marker, int stored, int direct, int dispose) {
    if (e == code::OK || e == code::NOT_FOUND || e == code::ALREADY_EXISTS) { return true; }
    commit c{db, direct, reached};
    c.ask(db, stored != 0 ? kind::stored : kind::accepted, dispose);
    c.r_.run(0);
    callback(e, sharksfin::ErrorCode::OK, marker);
    if (! c.silent() || c.r_.tasks_.tasks_ != 2) { return false; }
    c.r_.run(1);
    return c.refused() && c.why_ != status::ok && c.r_.tasks_.teardowns_ == 1 && c.r_.tx_->state() == transaction_state_kind::aborted && destroyed == 0 && waiters->heap_.empty()
        && ! c.r_.tx_->durability_marker().has_value() && c.r_.rctx_->error_info() != nullptr;
}
bool a_transaction_is_forgotten_when_it_was_committed(api::impl::database& db, std::uint64_t reached, std::uint64_t marker, int stored, int dispose) {
    commit c{db, 0, reached};
    c.ask(db, stored != 0 ? kind::stored : kind::accepted, dispose);
    c.r_.run(0);
    if (destroyed != 0) { return false; }
    callback(code::OK, sharksfin::ErrorCode::OK, marker);
    return destroyed == (dispose != 0 ? 1 : 0) && (dispose == 0 || destroyed_id == c.r_.tx_->surrogate_id());
}
bool what_ends_already_is_not_committed(api::impl::database& db, std::uint64_t reached, int aborting) {
    commit c{db, 0, reached};
    c.ask(db, kind::accepted, 0);
    termination_state ts{};
    if (aborting != 0) { (void) c.r_.tx_->termination_mgr().try_set_going_to_abort(ts); }
    else { (void) c.r_.tx_->termination_mgr().try_set_going_to_commit(ts); }
    c.r_.run(0);
    return asked == 0 && c.refused() && c.why_ == status::err_inactive_transaction && c.r_.tasks_.teardowns_ == 1 && c.r_.tx_->state() == transaction_state_kind::active;
}
bool a_transaction_in_use_is_not_committed(api::impl::database& db, std::uint64_t reached) {
    commit c{db, 0, reached};
    c.ask(db, kind::accepted, 0);
    termination_state ts{};
    (void) c.r_.tx_->termination_mgr().try_increment_task_use_count(ts);
    c.r_.run(0);
    return asked == 0 && c.refused() && c.why_ == status::err_illegal_operation && c.r_.tasks_.teardowns_ == 1 && c.r_.tx_->state() == transaction_state_kind::going_to_abort
        && c.r_.tx_->termination_mgr().state().going_to_abort();
}
bool a_second_commit_is_refused(api::impl::database& db, std::uint64_t reached) {
    commit c{db, 0, reached};
    c.ask(db, kind::accepted, 0);
    c.r_.run(0);
    commit d{db, 0, reached};
    d.r_.rctx_->transaction(c.r_.tx_);
    d.r_.tx_ = c.r_.tx_;
    d.ask(db, kind::accepted, 0);
    d.r_.run(0);
    return asked == 0 && d.refused() && c.silent();
}
bool nothing_is_told_while_stopping(api::impl::database& db, code e, std::uint64_t reached, std::uint64_t marker, int stored) {
    commit c{db, 0, reached};
    c.ask(db, stored != 0 ? kind::stored : kind::accepted, 1);
    c.r_.run(0);
    stopping = 1;
    callback(e, sharksfin::ErrorCode::OK, marker);
    return c.silent() && c.r_.tasks_.tasks_ == 1 && destroyed == 0;
}
bool locks_and_references_are_let_go(api::impl::database& db, code e, std::uint64_t reached, std::uint64_t marker, int stop, storage::storage_manager& m) {
    commit c{db, 0, reached};
    c.r_.tx_->storage_lock(std::make_unique<storage::unique_lock>(m, storage::storage_list{}));
    c.ask(db, kind::stored, 0);
    c.r_.run(0);
    if (! c.r_.tx_->storage_lock()) { return false; }
    stopping = stop;
    callback(e, sharksfin::ErrorCode::OK, marker);
    return ! c.r_.tx_->storage_lock() && ! c.r_.tx_->storage_ref_scope_;
}

kind expected(kind k) { return k == kind::accepted || k == kind::available ? kind::accepted : kind::stored; }
struct answering {
    commit c_;
    N ok_{};
    N failed_{};
    answering(api::impl::database& db, kind asks, kind setting, std::uint64_t reached) : c_(db, 0, reached) {
        chosen = std::make_shared<configuration>();
        chosen->default_commit_response(setting);
        api::commit_option o{};
        o.commit_response(asks);
        executor::commit_async(db, c_.r_.tx_, [this](status s, std::shared_ptr<error::error_info>) { ++(s == status::ok ? ok_ : failed_); }, o, request_info{});
    }
};
bool a_commit_is_answered_as_the_client_or_the_settings_ask(api::impl::database& db, kind asks, kind setting, std::uint64_t reached, std::uint64_t marker) {
    auto k = asks != kind::undefined ? asks : setting;
    if (k == kind::undefined) { return true; }
    answering c{db, asks, setting, reached};
    if (c.c_.r_.tx_->commit_response() != expected(k)) { return false; }
    c.c_.r_.run(0);
    callback(code::OK, sharksfin::ErrorCode::OK, marker);
    if (c.ok_ + c.failed_ != 0) { return false; }
    if (expected(k) == kind::stored && marker > reached) { return c.c_.r_.tasks_.tasks_ == 1 && waiters->heap_.size() == 1; }
    c.c_.r_.run(1);
    return c.ok_ == 1 && c.failed_ == 0;
}
bool a_refused_commit_is_not_answered_as_done(api::impl::database& db, code e, int stored, std::uint64_t reached, std::uint64_t marker) {
    if (e == code::OK || e == code::NOT_FOUND || e == code::ALREADY_EXISTS) { return true; }
    answering c{db, stored != 0 ? kind::stored : kind::accepted, kind::undefined, reached};
    c.c_.r_.run(0);
    callback(e, sharksfin::ErrorCode::OK, marker);
    if (c.ok_ + c.failed_ != 0) { return false; }
    c.c_.r_.run(1);
    return c.ok_ == 0 && c.failed_ == 1;
}
bool an_unused_transaction_is_aborted_at_once(api::impl::database& db) {
    commit c{db, 0, 0};
    executor::abort_transaction(c.r_.tx_, request_info{});
    return aborted() == 1 && c.r_.tx_->state() == transaction_state_kind::aborted && c.r_.tx_->termination_mgr().state().going_to_abort() && ! c.r_.tx_->storage_lock();
}
bool a_transaction_in_use_is_aborted_later(api::impl::database& db) {
    commit c{db, 0, 0};
    termination_state ts{};
    (void) c.r_.tx_->termination_mgr().try_increment_task_use_count(ts);
    executor::abort_transaction(c.r_.tx_, request_info{});
    return aborted() == 0 && c.r_.tx_->state() == transaction_state_kind::going_to_abort && c.r_.tx_->termination_mgr().state().going_to_abort();
}
bool a_transaction_is_aborted_once(api::impl::database& db) {
    commit c{db, 0, 0};
    executor::abort_transaction(c.r_.tx_, request_info{});
    executor::abort_transaction(c.r_.tx_, request_info{});
    return aborted() == 1;
}
bool a_transaction_being_committed_is_not_aborted(api::impl::database& db, std::uint64_t marker) {
    commit c{db, 0, 0};
    c.ask(db, kind::accepted, 0);
    c.r_.run(0);
    executor::abort_transaction(c.r_.tx_, request_info{});
    if (aborted() != 0 || c.r_.tx_->state() != transaction_state_kind::cc_committing) { return false; }
    callback(code::OK, sharksfin::ErrorCode::OK, marker);
    c.r_.run(1);
    return c.told();
}
bool an_aborted_transaction_is_not_committed(api::impl::database& db) {
    commit c{db, 0, 0};
    executor::abort_transaction(c.r_.tx_, request_info{});
    c.ask(db, kind::accepted, 0);
    c.r_.run(0);
    return asked == 0 && c.refused() && aborted() == 1 && c.r_.tx_->state() == transaction_state_kind::aborted;
}
bool who_waits_for_a_refused_commit_is_told_so(api::impl::database& db, code e, std::uint64_t reached, std::uint64_t marker) {
    // the tasks are run while it waits
    if (e == code::OK || e == code::NOT_FOUND || e == code::ALREADY_EXISTS) { return true; }
    commit c{db, 0, reached};
    waited w{};
    waiting = &w;
    answer = e;
    reached_later = marker;
    api::commit_option o{};
    o.commit_response(kind::accepted);
    auto rc = executor::commit(db, c.r_.tx_, o);
    return asked == 1 && rc != status::ok && c.r_.tasks_.teardowns_ == 1;
}
}
