// Analysed only, never compiled or run: contracts over which statements are run, and for whom.
#include "jobs.cpp"
#include "jogasaki/executor/executor.h"
#include "jogasaki/api/impl/database.h"
#include "jogasaki/api/impl/executable_statement.h"
#include "jogasaki/api/impl/request_context_factory.h"
#include "jogasaki/executor/common/execute.h"
#include "jogasaki/executor/common/graph.h"
#include "jogasaki/executor/io/null_record_channel.h"
#include "jogasaki/plan/executable_statement.h"
#include "jogasaki/plan/mirror_container.h"
#include "jogasaki/scheduler/statement_scheduler.h"
#include "jogasaki/storage/reference_scope.h"
#include "jogasaki/storage/shared_lock.h"
#include "jogasaki/storage/storage_manager.h"
#include "jogasaki/storage/unique_lock.h"
#include "jogasaki/utils/append_request_info.h"

namespace probe {
enum class what : int { query, write, definition, empty };
what sort{};
std::shared_ptr<plan::mirror_container> known{};
maybe_shared_ptr<model::statement> no_operators{};
executor::common::graph* flow{};
std::shared_ptr<storage::storage_manager> tables{};
std::shared_ptr<configuration> chosen{};
scheduler::task_scheduler* the_scheduler{};
std::size_t aborted{};
std::size_t defined{};
int definition_fails{};
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return probe::tables; }
}
namespace jogasaki::plan {
bool executable_statement::is_execute() const noexcept { return probe::sort == probe::what::query; }
bool executable_statement::is_ddl() const noexcept { return probe::sort == probe::what::definition; }
bool executable_statement::is_empty() const noexcept { return probe::sort == probe::what::empty; }
std::shared_ptr<mirror_container> const& executable_statement::mirrors() const noexcept { return probe::known; }
maybe_shared_ptr<model::statement> const& executable_statement::operators() const noexcept { return probe::no_operators; }
}
namespace jogasaki::executor::common {
graph& execute::operators() const noexcept { return *probe::flow; }
}
namespace jogasaki::scheduler {
statement_scheduler::statement_scheduler(std::shared_ptr<configuration>, task_scheduler&) {}
statement_scheduler::~statement_scheduler() {}
void statement_scheduler::schedule(model::statement const&, request_context& c) {
    ++probe::defined;
    if (probe::definition_fails != 0) { c.status_code(status::err_already_exists); }
}
}
namespace jogasaki::api::impl {
std::shared_ptr<class configuration>& database::config() noexcept { return probe::chosen; }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return probe::the_scheduler; }
}
namespace jogasaki::utils {
void print_error(request_context&, std::string_view) {}
}
namespace sharksfin {
StatusCode transaction_abort(TransactionControlHandle, bool) { ++probe::aborted; return StatusCode::OK; }
StatusCode transaction_dispose(TransactionControlHandle) { return StatusCode::OK; }
}

namespace probe::allowing {
using N = number;
using S = std::string_view;
using A = auth::action_kind;
using U = tateyama::api::server::user_type;

struct session : tateyama::api::server::session_info {
    session(U type, std::optional<S> name) : type_(type), name_(name) {}
    std::size_t id() const noexcept override { return 1; }
    S label() const noexcept override { return {}; }
    S application_name() const noexcept override { return {}; }
    std::optional<S> username() const noexcept override { return name_; }
    enum tateyama::api::server::user_type user_type() const noexcept override { return type_; }
    U type_{};
    std::optional<S> name_{};
};
struct asker : tateyama::api::server::request {
    asker(U type, std::optional<S> name) : session_(type, name) {}
    std::size_t session_id() const override { return 1; }
    std::size_t service_id() const override { return 1; }
    std::size_t local_id() const override { return 1; }
    S payload() const override { return {}; }
    class tateyama::api::server::database_info const& database_info() const noexcept override { std::abort(); }
    class tateyama::api::server::session_info const& session_info() const noexcept override { return session_; }
    session session_;
};

// a statement that uses the first table for an action and the second for another
struct statement {
    request r_{1};
    N told_{};
    status with_{};
    int has_error_{};
    error_code why_{};
    request_info info_{};
    statement(what w, A first, A second) {
        sort = w;
        settings = std::make_shared<configuration>();
        settings->inplace_teardown(false);
        known = std::make_shared<plan::mirror_container>();
        known->mutable_storage_operation() = storage::storage_operation{storage::storage_list{std::vector<storage::storage_entry>{1, 2}}, std::vector<auth::action_set>{auth::action_set{first}, auth::action_set{second}}};
        tables = std::make_shared<storage::storage_manager>();
        tables->add_entry(1, "t1", std::nullopt, true);
        tables->add_entry(2, "t2", std::nullopt, true);
        aborted = 0;
        defined = 0;
        definition_fails = 0;
        the_scheduler = &r_.tasks_;
        r_.tx_->storage_ref_scope_ = std::make_unique<storage::reference_scope>(*tables);
    }
    void by(U type, std::optional<S> name) {
        info_ = request_info{1, std::make_shared<asker>(type, name), nullptr};
        r_.rctx_->req_info(info_);
    }
    int run(api::impl::database& db) {
        auto s = std::make_shared<api::impl::executable_statement>();
        s->body_ = std::make_shared<plan::executable_statement>();
        return executor::execute_async_on_context(db, r_.rctx_, maybe_shared_ptr<api::executable_statement>{s}, [this](status st, std::shared_ptr<error::error_info> e, std::shared_ptr<request_statistics>) {
            ++told_;
            with_ = st;
            if (e) { has_error_ = 1; why_ = e->code(); }
        }, false, info_) ? 1 : 0;
    }
    int refused(status s, error_code c) { return told_ == 1 && with_ == s && has_error_ == 1 && why_ == c && r_.tasks_.tasks_ == 0 && r_.tasks_.kept_.empty() && ! r_.rctx_->storage_lock() ? 1 : 0; }
    int started() { return told_ == 0 && r_.tasks_.kept_.size() == 1 && r_.rctx_->storage_lock() && aborted == 0 ? 1 : 0; }
    int free(storage::storage_entry e) { return tables->find_entry(e)->can_lock() ? 1 : 0; }
};
}
namespace probe::allowed {
using namespace probe::allowing;

bool a_user_runs_what_is_granted_to_it(api::impl::database& db, S user, A first, A second, A granted, A shared) {
    statement s{what::write, first, second};
    s.by(U::standard, user);
    auto& one = *tables->find_entry(1);
    auto& two = *tables->find_entry(2);
    one.public_actions().add_action(A::control);
    two.authorized_actions().add_user_actions(user, auth::action_set{granted});
    two.public_actions().add_action(shared);
    bool may = second == granted || second == shared || granted == A::control || shared == A::control;
    int r = s.run(db);
    if (r != 1) { return false; }
    if (may) { return s.started() != 0; }
    return s.refused(status::err_illegal_operation, error_code::permission_error) != 0 && aborted == 1 && s.r_.tx_->state() == transaction_state_kind::aborted && s.free(1) != 0 && s.free(2) != 0;
}
bool every_table_of_a_statement_counts(api::impl::database& db, S user, A first, A second) {
    if (first == A::control) { return true; }
    statement s{what::query, first, second};
    s.by(U::standard, user);
    tables->find_entry(2)->public_actions().add_action(A::control);
    (void) s.run(db);
    return s.refused(status::err_illegal_operation, error_code::permission_error) != 0 && aborted == 1;
}
bool what_is_granted_to_another_does_not_count(api::impl::database& db, S user, S other, A first, A second) {
    if (user == other) { return true; }
    statement s{what::write, first, second};
    s.by(U::standard, user);
    tables->find_entry(1)->authorized_actions().add_user_actions(other, auth::action_set{A::control});
    tables->find_entry(2)->authorized_actions().add_user_actions(user, auth::action_set{A::control});
    (void) s.run(db);
    return s.refused(status::err_illegal_operation, error_code::permission_error) != 0 && aborted == 1;
}
bool what_is_granted_to_the_user_and_to_all_adds_up(api::impl::database& db, S user, A a, A b, A granted, A shared) {
    if (a == A::control || b == A::control || granted == A::control || shared == A::control || a == b) { return true; }
    statement s{what::write, a, b};
    known->mutable_storage_operation() = storage::storage_operation{storage::storage_list{std::vector<storage::storage_entry>{1}}, std::vector<auth::action_set>{auth::action_set{a, b}}};
    s.by(U::standard, user);
    tables->find_entry(1)->authorized_actions().add_user_actions(user, auth::action_set{granted});
    tables->find_entry(1)->public_actions().add_action(shared);
    bool may = (a == granted || a == shared) && (b == granted || b == shared);
    (void) s.run(db);
    if (may) { return s.started() != 0; }
    return s.refused(status::err_illegal_operation, error_code::permission_error) != 0 && aborted == 1 && s.free(1) != 0;
}
bool without_a_transaction_nothing_is_aborted(api::impl::database& db, A a, int fails) {
    statement s{what::definition, a, a};
    s.r_.rctx_->transaction(nullptr);
    definition_fails = fails;
    (void) s.run(db);
    return s.told_ == 1 && defined == 1 && aborted == 0 && s.with_ == (fails != 0 ? status::err_already_exists : status::ok);
}
bool every_table_goes_with_its_own_action(A first, A second) {
    if (first == second || first == A::control || second == A::control) { return true; }
    storage::storage_operation const ops{storage::storage_list{std::vector<storage::storage_entry>{1, 2}}, std::vector<auth::action_set>{auth::action_set{first}, auth::action_set{second}}};
    auto it = ops.begin();
    if (it == ops.end() || (*it).first != 1 || ! (*it).second.has_action(first) || (*it).second.has_action(second)) { return false; }
    ++it;
    if (it == ops.end() || (*it).first != 2 || ! (*it).second.has_action(second) || (*it).second.has_action(first)) { return false; }
    ++it;
    return it == ops.end();
}
bool an_administrator_runs_any_statement(api::impl::database& db, S user, A first, A second) {
    statement s{what::write, first, second};
    s.by(U::administrator, user);
    return s.run(db) == 1 && s.started() != 0;
}
bool without_a_name_there_is_nothing_to_check(api::impl::database& db, A first, A second) {
    statement s{what::write, first, second};
    s.by(U::standard, std::nullopt);
    return s.run(db) == 1 && s.started() != 0;
}
bool a_statement_runs_only_in_an_active_transaction(api::impl::database& db, transaction_state_kind k, A first, A second) {
    using kind = transaction_state_kind;
    if (k == kind::undefined || k == kind::init) { return true; }
    statement s{what::write, first, second};
    s.r_.tx_->state(k);
    int r = s.run(db);
    if (k == kind::active || k == kind::unknown) { return r == 1 && s.started() != 0; }
    return r == 1 && s.refused(status::err_inactive_transaction, error_code::inactive_transaction_exception) != 0 && s.r_.tx_->state() == k && s.free(1) != 0 && s.free(2) != 0;
}
bool a_definition_runs_only_in_an_active_transaction(api::impl::database& db, A a) {
    statement s{what::definition, a, a};
    s.r_.tx_->state(transaction_state_kind::aborted);
    return s.run(db) == 1 && s.refused(status::err_inactive_transaction, error_code::inactive_transaction_exception) != 0 && defined == 0;
}
bool a_table_being_defined_is_not_used(api::impl::database& db, A first, A second, int which) {
    statement s{what::write, first, second};
    storage::storage_entry e = which != 0 ? 1 : 2;
    tables->find_entry(e)->lock();
    (void) s.run(db);
    if (s.refused(status::err_illegal_operation, error_code::sql_execution_exception) == 0 || aborted != 1 || s.r_.tx_->state() != transaction_state_kind::aborted) { return false; }
    // what was locked for it is let go, what another holds is not
    return s.free(e) == 0 && s.free(which != 0 ? 2 : 1) != 0;
}
bool a_table_that_is_gone_is_not_used(api::impl::database& db, A first, A second, S user) {
    statement s{what::write, first, second};
    s.by(U::standard, user);
    tables->find_entry(1)->public_actions().add_action(A::control);
    tables->find_entry(2)->public_actions().add_action(A::control);
    tables->remove_entry(2);
    (void) s.run(db);
    return s.refused(status::err_illegal_operation, error_code::sql_execution_exception) != 0 && aborted == 1 && s.free(1) != 0;
}
bool tables_are_held_until_the_end_of_the_statement(api::impl::database& db, A first, A second, int query, int failed) {
    statement s{query != 0 ? what::query : what::write, first, second};
    if (s.run(db) != 1 || s.started() == 0 || s.free(1) != 0 || s.free(2) != 0) { return false; }
    if (s.r_.tasks_.kept_[0].kind() != (query != 0 ? flat_task_kind::bootstrap : flat_task_kind::write)) { return false; }
    if (failed != 0) { s.r_.rctx_->status_code(status::err_unique_constraint_violation); }
    s.r_.job_.callback()();
    return s.told_ == 1 && s.with_ == (failed != 0 ? status::err_unique_constraint_violation : status::ok) && s.free(1) != 0 && s.free(2) != 0;
}
bool a_definition_is_told_at_once(api::impl::database& db, A a, int fails) {
    statement s{what::definition, a, a};
    definition_fails = fails;
    (void) s.run(db);
    return s.told_ == 1 && defined == 1 && s.with_ == (fails != 0 ? status::err_already_exists : status::ok) && aborted == (fails != 0 ? 1 : 0) && s.r_.tasks_.ended_ == 1
        && s.r_.tasks_.ended_id_ == s.r_.job_.id() && s.r_.tasks_.kept_.empty();
}
bool a_lock_of_the_own_transaction_does_not_block(api::impl::database& db, A first, A second) {
    statement s{what::write, first, second};
    auto l = tables->create_unique_lock();
    if (! tables->add_locked_storages(storage::storage_list{std::vector<storage::storage_entry>{1}}, *l)) { return false; }
    s.r_.tx_->storage_lock(std::move(l));
    return s.run(db) == 1 && s.started() != 0;
}
}
