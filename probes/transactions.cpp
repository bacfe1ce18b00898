// Analysed only, never compiled or run: contracts over transactions.
#include <cstdint>
#include <memory>
#include <stdexcept>
#include "jogasaki/utils/fail.h"
#include "jogasaki/transaction_context.h"
#include "jogasaki/kvs/transaction.h"
#include "jogasaki/kvs/database.h"
#include "jogasaki/error/error_info.h"
#include "jogasaki/executor/global.h"
#include "jogasaki/storage/storage_manager.h"
#include <limestone/api/blob_pool.h>
#include <sharksfin/api.h>

namespace probe {
std::shared_ptr<jogasaki::storage::storage_manager> registry{};
}
namespace jogasaki::global {
// stands for the one registry of a server
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return probe::registry; }
}
namespace jogasaki::utils {
void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error{"internal error"}; }
}

namespace probe {
using number = std::uint64_t;
// from here on other threads change what is shared between any two steps
std::size_t calls(char const* name);              // what the storage engine was asked
sharksfin::StatusCode answer(char const* name);   // and what it said
template <class T> T handed(char const* name);
int precedes(char const* a, char const* b);
void others_act();
void others_act_too();  // while the transaction is used by a task of this thread
std::size_t changes();
jogasaki::termination_state before();
jogasaki::termination_state after();
number number_before();
number number_after();
jogasaki::transaction_state_kind kind_before();
jogasaki::transaction_state_kind kind_after();
std::size_t error_kept();       // how often the error of a transaction was replaced
int replaced_nothing();         // what was replaced was not an error
std::size_t released();         // how often the blobs were released
}

namespace probe::ending {
using jogasaki::termination_state;
using jogasaki::details::termination_manager;
using N = number;
constexpr N many = 1UL << 40U;

int free(termination_state s) { return ! s.going_to_abort() && ! s.going_to_commit(); }
void start(termination_manager& m, N tasks) {
    termination_state s{};
    s.task_use_count(tasks);
    m.state_ = s;
}
void end(termination_manager& m, N tasks, bool commit) {
    termination_state s{};
    s.task_use_count(tasks);
    if (commit) { s.set_going_to_commit(); } else { s.set_going_to_abort(); }
    m.state_ = s;
}

bool a_state_tells_its_tasks_and_its_end(N n, N k) {
    if (n >= many || k >= many) { return true; }
    termination_state s{};
    s.task_use_count(n);
    bool open = ! s.going_to_abort() && ! s.going_to_commit() && s.task_use_count() == n && s.task_empty() == (n == 0);
    s.set_going_to_abort();
    bool aborting = s.going_to_abort() && ! s.going_to_commit() && s.task_use_count() == n && s.task_empty() == (n == 0);
    s.task_use_count(k);
    bool other = s.going_to_abort() && ! s.going_to_commit() && s.task_use_count() == k && s.task_empty() == (k == 0);
    termination_state t{};
    t.task_use_count(n);
    t.set_going_to_commit();
    bool committing = ! t.going_to_abort() && t.going_to_commit() && t.task_use_count() == n && t.task_empty() == (n == 0);
    t.task_use_count(k);
    return open && aborting && other && committing && ! t.going_to_abort() && t.going_to_commit() && t.task_use_count() == k;
}
bool a_new_transaction_is_open_and_unused() {
    termination_manager m{};
    auto s = m.state();
    return free(s) && s.task_empty() && s.task_use_count() == 0;
}
bool committing_needs_an_unused_transaction(N n) {
    if (n >= many) { return true; }
    termination_manager m{};
    start(m, n);
    termination_state ts{};
    bool ok = m.try_set_going_to_commit(ts);
    auto s = m.state();
    return ok && s.going_to_commit() == (n == 0) && s.going_to_abort() == (n != 0) && s.task_use_count() == n
        && ts.going_to_commit() == (n == 0) && ts.going_to_abort() == (n != 0) && ts.task_use_count() == n;
}
bool aborting_is_possible_while_in_use(N n) {
    if (n >= many) { return true; }
    termination_manager m{};
    start(m, n);
    termination_state ts{};
    bool ok = m.try_set_going_to_abort(ts);
    auto s = m.state();
    return ok && ! s.going_to_commit() && s.going_to_abort() && s.task_use_count() == n && ts.going_to_abort() && ! ts.going_to_commit() && ts.task_use_count() == n;
}
bool nothing_begins_on_an_ending_transaction(N n, bool commit) {
    if (n >= many) { return true; }
    termination_manager m{};
    end(m, n, commit);
    termination_state a{};
    termination_state b{};
    termination_state c{};
    bool none = ! m.try_set_going_to_commit(a) && ! m.try_set_going_to_abort(b) && ! m.try_increment_task_use_count(c);
    auto s = m.state();
    return none && s.going_to_commit() == commit && s.going_to_abort() == ! commit && s.task_use_count() == n;
}
bool tasks_are_counted_up_and_down(N n) {
    if (n >= many) { return true; }
    termination_manager m{};
    start(m, n);
    termination_state ts{};
    bool ok = m.try_increment_task_use_count(ts);
    auto s = m.state();
    m.decrement_task_use_count(ts);
    auto t = m.state();
    return ok && free(s) && s.task_use_count() == n + 1 && free(t) && t.task_use_count() == n && ts.task_use_count() == n;
}
bool tasks_leave_an_ending_transaction(N n, bool commit) {
    if (n >= many || n == 0) { return true; }
    termination_manager m{};
    end(m, n, commit);
    termination_state ts{};
    m.decrement_task_use_count(ts);
    auto s = m.state();
    return s.going_to_commit() == commit && s.going_to_abort() == ! commit && s.task_use_count() == n - 1
        && ts.task_use_count() == n - 1 && ts.going_to_abort() == ! commit && ts.task_empty() == (n == 1);
}
bool what_is_unused_has_no_task_to_end(bool ending, bool commit) {
    termination_manager m{};
    if (ending) { end(m, 0, commit); }
    termination_state ts{};
    try {
        m.decrement_task_use_count(ts);
    } catch (...) {}
    auto s = m.state();
    return s.task_use_count() == 0 && s.going_to_commit() == (ending && commit) && s.going_to_abort() == (ending && ! commit);
}
bool the_end_is_decided_in_one_step(termination_manager& m) {
    others_act();
    termination_state ts{};
    bool ok = m.try_set_going_to_commit(ts);
    if (! ok) { return changes() == 0; }
    auto b = before();
    auto a = after();
    return changes() == 1 && free(b) && a.task_use_count() == b.task_use_count() && a.going_to_commit() == b.task_empty() && a.going_to_abort() == ! b.task_empty()
        && ts.going_to_commit() == a.going_to_commit() && ts.going_to_abort() == a.going_to_abort();
}
bool an_abort_is_decided_in_one_step(termination_manager& m) {
    others_act();
    termination_state ts{};
    bool ok = m.try_set_going_to_abort(ts);
    if (! ok) { return changes() == 0; }
    auto b = before();
    auto a = after();
    return changes() == 1 && free(b) && a.task_use_count() == b.task_use_count() && ! a.going_to_commit() && a.going_to_abort() && ts.going_to_abort() && ts.task_use_count() == a.task_use_count();
}
bool a_task_begins_in_one_step(termination_manager& m) {
    others_act();
    termination_state ts{};
    bool ok = m.try_increment_task_use_count(ts);
    if (! ok) { return changes() == 0; }
    auto b = before();
    auto a = after();
    return changes() == 1 && free(b) && free(a) && a.task_use_count() == b.task_use_count() + 1 && ts.task_use_count() == a.task_use_count();
}
bool a_task_ends_in_one_step(termination_manager& m) {
    others_act_too();
    termination_state ts{};
    m.decrement_task_use_count(ts);
    auto b = before();
    auto a = after();
    return changes() == 1 && b.task_use_count() == a.task_use_count() + 1 && a.going_to_abort() == b.going_to_abort() && a.going_to_commit() == b.going_to_commit()
        && ts.task_use_count() == a.task_use_count() && ts.going_to_abort() == a.going_to_abort() && ts.going_to_commit() == a.going_to_commit();
}
}

namespace probe::worker {
using jogasaki::details::worker_manager;
using N = number;
using W = std::uint32_t;
constexpr N users(N v) { return v >> 32U; }
constexpr N bound(N v) { return v & 0xFFFFFFFFU; }
void start(worker_manager& m, N count, W w) { m.use_count_and_worker_id_ = (count << 32U) + w; }

bool a_new_transaction_belongs_to_no_worker() {
    worker_manager m{};
    return m.use_count() == 0 && m.worker_id() == worker_manager::empty_worker;
}
bool the_first_worker_takes_the_transaction(W w) {
    worker_manager m{};
    W index = w;
    bool ok = m.increment_and_set_on_zero(index);
    return ok && index == w && m.worker_id() == w && m.use_count() == 1;
}
bool another_worker_is_sent_to_the_owner(N n, W owner, W w) {
    if (n == 0 || n >= 1000000 || w == owner) { return true; }
    worker_manager m{};
    start(m, n, owner);
    W index = w;
    bool ok = m.increment_and_set_on_zero(index);
    return ! ok && index == owner && m.worker_id() == owner && m.use_count() == n;
}
bool the_owner_enters_again(N n, W owner) {
    if (n == 0 || n >= 1000000) { return true; }
    worker_manager m{};
    start(m, n, owner);
    W index = owner;
    bool ok = m.increment_and_set_on_zero(index);
    return ok && index == owner && m.worker_id() == owner && m.use_count() == n + 1;
}
bool the_last_use_sets_the_transaction_free(N n, W owner) {
    if (n == 0 || n >= 1000000) { return true; }
    worker_manager m{};
    start(m, n, owner);
    bool last = m.decrement_and_clear_on_zero();
    return last == (n == 1) && m.use_count() == n - 1 && m.worker_id() == (n == 1 ? worker_manager::empty_worker : owner);
}
bool what_is_not_used_is_not_given_back(W w) {
    worker_manager m{};
    bool last = m.decrement_and_clear_on_zero();
    bool none = last && m.use_count() == 0 && m.worker_id() == worker_manager::empty_worker;
    W index = w;
    return none && m.increment_and_set_on_zero(index) && m.worker_id() == w;
}
bool a_transaction_is_taken_in_one_step(worker_manager& m, W w) {
    others_act();
    W index = w;
    bool ok = m.increment_and_set_on_zero(index);
    if (! ok) { return changes() == 0 && index != w; }
    auto b = number_before();
    auto a = number_after();
    return changes() == 1 && index == w && (users(b) == 0 || bound(b) == w) && bound(a) == w && users(a) == users(b) + 1;
}
bool a_transaction_is_given_back_in_one_step(worker_manager& m) {
    others_act();
    bool last = m.decrement_and_clear_on_zero();
    if (changes() == 0) { return last; }
    auto b = number_before();
    auto a = number_after();
    return changes() == 1 && users(b) == users(a) + 1 && last == (users(a) == 0) && bound(a) == (users(a) == 0 ? worker_manager::empty_worker : bound(b));
}
}

namespace probe::life {
using jogasaki::transaction_state;
using K = jogasaki::transaction_state_kind;

// how far a transaction has come
int stage(K k) {
    switch (k) {
        case K::undefined: return 0;
        case K::init: return 1;
        case K::active: return 2;
        case K::going_to_commit: return 3;
        case K::going_to_abort: return 3;
        case K::cc_committing: return 4;
        case K::committed_available: return 5;
        case K::committed_stored: return 6;
        case K::aborted: return 6;
        case K::unknown: return 7;
    }
    return -1;
}
int legal(K from, K to) {
    if (stage(to) <= stage(from)) { return 0; }
    if (to == K::unknown) { return 1; }
    if (from == K::undefined) { return to == K::init; }
    if (from == K::going_to_abort) { return to == K::aborted; }
    if (from == K::committed_available) { return to != K::aborted; }
    return 1;
}

bool a_transaction_never_goes_back(K from, K to) {
    transaction_state s{};
    s.state_ = from;
    s.set(to);
    auto now = s.kind();
    return now == from || (now == to && legal(from, to) != 0);
}
bool a_transaction_goes_on_step_by_step() {
    transaction_state s{};
    bool ok = s.kind() == K::undefined;
    s.set(K::init);
    ok = ok && s.kind() == K::init;
    s.set(K::active);
    ok = ok && s.kind() == K::active;
    s.set(K::going_to_commit);
    ok = ok && s.kind() == K::going_to_commit;
    s.set(K::cc_committing);
    ok = ok && s.kind() == K::cc_committing;
    s.set(K::committed_available);
    ok = ok && s.kind() == K::committed_available;
    s.set(K::committed_stored);
    return ok && s.kind() == K::committed_stored;
}
bool every_open_transaction_can_be_aborted(K from) {
    if (from == K::undefined || from == K::committed_available || from == K::committed_stored || from == K::unknown) { return true; }
    transaction_state s{};
    s.state_ = from;
    s.set(K::aborted);
    return s.kind() == K::aborted;
}
bool an_end_is_reached_at_once_or_step_by_step(K from, K to) {
    if (stage(from) < 1 || stage(from) > 5 || stage(to) <= stage(from) || legal(from, to) == 0) { return true; }
    transaction_state s{};
    s.state_ = from;
    s.set(to);
    return s.kind() == to;
}
bool a_canceled_transaction_becomes_unknown(K from) {
    transaction_state s{};
    s.state_ = from;
    s.set(K::unknown);
    return s.kind() == K::unknown;
}
bool a_state_changes_in_one_step(transaction_state& s, K to) {
    others_act();
    s.set(to);
    if (changes() == 0) { return true; }
    return changes() == 1 && kind_after() == to && legal(kind_before(), to) != 0;
}
bool a_state_changes_only_from_what_is_expected(K from, K expected, K to) {
    transaction_state s{};
    s.state_ = from;
    bool ok = s.set_if(expected, to);
    return ok == (from == expected) && s.kind() == (ok ? to : from);
}
bool an_expected_state_changes_in_one_step(transaction_state& s, K expected, K to) {
    others_act();
    bool ok = s.set_if(expected, to);
    if (! ok) { return changes() == 0; }
    return changes() == 1 && kind_before() == expected && kind_after() == to;
}
}

namespace probe::context {
using jogasaki::transaction_context;
using jogasaki::error_code;
using K = jogasaki::transaction_state_kind;
using I = jogasaki::error::error_info;
using P = std::shared_ptr<I>;
using E = std::uint64_t;
using jogasaki::storage::storage_manager;
using jogasaki::storage::storage_list;
using jogasaki::storage::storage_list_view;
using jogasaki::status;

P error(error_code c) {
    auto p = std::make_shared<I>();
    p->error_code_ = c;
    return p;
}
int real(error_code c) { return c != error_code::none; }
void serve() { registry = std::make_shared<storage_manager>(); }
void hold(transaction_context& tc, jogasaki::kvs::database& db, sharksfin::TransactionControlHandle h) {
    tc.transaction_ = std::make_shared<jogasaki::kvs::transaction>(db);
    tc.transaction_->tx_ = h;
    tc.transaction_->active_ = true;
}

bool the_first_error_is_kept(error_code a, error_code b, K from) {
    if (! real(a)) { return true; }
    serve();
    transaction_context tc{};
    tc.state_.state_ = from;
    bool none = ! tc.error_info();
    auto x = error(a);
    auto y = error(b);
    bool first = tc.error_info(x);
    auto state = tc.state();
    bool second = tc.error_info(y);
    return none && first && ! second && tc.error_info() == x && tc.error_info()->code() == a && state == (from == K::active ? K::aborted : from) && tc.state() == state;
}
bool a_refused_error_leaves_the_state(error_code a, error_code b, K from) {
    if (! real(a)) { return true; }
    serve();
    transaction_context tc{};
    auto x = error(a);
    tc.error_info_ = x;
    tc.state_.state_ = from;
    bool ok = tc.error_info(error(b));
    return ! ok && tc.error_info() == x && tc.state() == from;
}
bool an_empty_error_gives_way(error_code a) {
    if (! real(a)) { return true; }
    serve();
    transaction_context tc{};
    tc.error_info_ = error(error_code::none);
    auto x = error(a);
    return tc.error_info(x) && tc.error_info() == x;
}
bool an_error_is_kept_in_one_step(error_code a) {
    if (! real(a)) { return true; }
    serve();
    transaction_context tc{};
    auto x = error(a);
    others_act();
    bool ok = tc.error_info(x);
    // nothing but the empty value was replaced
    return error_kept() == (ok ? 1 : 0) && (! ok || replaced_nothing() != 0);
}
bool an_abort_lets_go_of_storages(jogasaki::kvs::database& db, sharksfin::TransactionControlHandle h, E a, E b) {
    if (a == b) { return true; }
    serve();
    registry->add_entry(a, "a");
    registry->add_entry(b, "b");
    auto x = registry->find_entry(a);
    auto y = registry->find_entry(b);
    transaction_context tc{};
    hold(tc, db, h);
    tc.state_.state_ = K::active;
    auto l = registry->create_unique_lock();
    if (! registry->add_locked_storages(storage_list{b}, *l)) { return false; }
    tc.storage_lock(std::move(l));
    tc.add_storage_ref(a);
    bool held = x->ref_transaction_count() == 1 && y->state_.load().write_locked && tc.storage_lock();
    auto r = tc.abort_transaction();
    auto c = answer("transaction_abort");
    return held && calls("transaction_abort") == 1 && (r == status::ok) == (c == sharksfin::StatusCode::OK) && tc.state() == K::aborted
        && x->ref_transaction_count() == 0 && ! y->state_.load().write_locked && ! tc.storage_lock();
}
bool a_commit_lets_go_of_storages(jogasaki::kvs::database& db, sharksfin::TransactionControlHandle h, E a, E b) {
    if (a == b) { return true; }
    serve();
    registry->add_entry(a, "a");
    registry->add_entry(b, "b");
    auto x = registry->find_entry(a);
    auto y = registry->find_entry(b);
    transaction_context tc{};
    hold(tc, db, h);
    auto l = registry->create_unique_lock();
    if (! registry->add_locked_storages(storage_list{b}, *l)) { return false; }
    tc.storage_lock(std::move(l));
    tc.add_storage_ref(a);
    bool held = x->ref_transaction_count() == 1 && y->state_.load().write_locked;
    auto r = tc.commit();
    auto c = answer("transaction_commit_with_callback");
    return held && calls("transaction_commit_with_callback") == 1 && (r == status::ok) == (c == sharksfin::StatusCode::OK)
        && x->ref_transaction_count() == 0 && ! y->state_.load().write_locked && ! tc.storage_lock();
}
bool a_transaction_dropped_lets_go_of_storages(E a, E b) {
    if (a == b) { return true; }
    serve();
    registry->add_entry(a, "a");
    registry->add_entry(b, "b");
    auto x = registry->find_entry(a);
    auto y = registry->find_entry(b);
    bool held = false;
    {
        transaction_context tc{};
        auto l = registry->create_unique_lock();
        if (! registry->add_locked_storages(storage_list{b}, *l)) { return false; }
        tc.storage_lock(std::move(l));
        storage_list s{a, b};
        tc.add_storages_ref(s);
        held = x->ref_transaction_count() == 1 && y->ref_transaction_count() == 1 && y->state_.load().write_locked;
    }
    return held && x->ref_transaction_count() == 0 && y->ref_transaction_count() == 0 && ! y->state_.load().write_locked;
}
bool storages_are_let_go_on_request(E a) {
    serve();
    registry->add_entry(a, "a");
    auto x = registry->find_entry(a);
    transaction_context tc{};
    tc.add_storage_ref(a);
    bool one = x->ref_transaction_count() == 1;
    tc.reset_storage_ref_scope();
    bool none = x->ref_transaction_count() == 0;
    tc.add_storage_ref(a);
    return one && none && x->ref_transaction_count() == 0;
}
bool a_commit_in_the_background_is_under_way(jogasaki::kvs::database& db, sharksfin::TransactionControlHandle h, K from, transaction_context::commit_callback_type cb) {
    if (from != K::active && from != K::going_to_commit) { return true; }
    serve();
    transaction_context tc{};
    hold(tc, db, h);
    tc.state_.state_ = from;
    (void) tc.commit(std::move(cb));
    return calls("transaction_commit_with_callback") == 1 && tc.state() == K::cc_committing;
}
bool blobs_are_released_once(std::shared_ptr<limestone::api::blob_pool> p) {
    serve();
    {
        transaction_context tc{};
        tc.blob_pool(p);
        if (tc.blob_pool() != p || released() != 0) { return false; }
    }
    return released() == (p ? 1 : 0);
}
bool a_transaction_has_a_number_of_its_own(std::shared_ptr<jogasaki::kvs::transaction> a, std::shared_ptr<jogasaki::kvs::transaction> b) {
    serve();
    transaction_context x{a};
    transaction_context y{b};
    return x.surrogate_id() != y.surrogate_id() && x.surrogate_id() != 0 && y.surrogate_id() != 0 && x.object() == a && static_cast<bool>(x) == static_cast<bool>(a);
}
bool what_is_known_about_a_transaction_is_kept(std::size_t marker, jogasaki::commit_response_kind k, std::string_view label, transaction_context::clock::time_point a, transaction_context::clock::time_point b,
        std::shared_ptr<jogasaki::api::transaction_option const> o) {
    serve();
    transaction_context tc{};
    bool none = ! tc.durability_marker() && tc.commit_response() == jogasaki::commit_response_kind::undefined && ! tc.start_time() && ! tc.end_time() && tc.label().empty() && ! tc.option();
    tc.durability_marker(marker);
    tc.commit_response(k);
    tc.label(label);
    tc.start_time(a);
    tc.end_time(b);
    tc.option(o);
    return none && tc.durability_marker() == marker && tc.commit_response() == k && tc.label() == label && tc.start_time() == a && tc.end_time() == b && tc.option() == o;
}
bool a_transaction_is_ready_unless_it_waits_for_its_start(jogasaki::kvs::database& db, sharksfin::TransactionControlHandle h) {
    serve();
    transaction_context tc{};
    hold(tc, db, h);
    bool r = tc.is_ready();
    return calls("transaction_check") == 1 && answer("transaction_check") == sharksfin::StatusCode::OK
        && r == (handed<sharksfin::TransactionState>("transaction_check").state_kind() != sharksfin::TransactionState::StateKind::WAITING_START);
}
}
