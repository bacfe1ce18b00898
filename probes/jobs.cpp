// Analysed only, never compiled or run: contracts over the tasks of a request and how the request ends.
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <vector>
#include "jogasaki/executor/global.h"
#include "jogasaki/error/error_info_factory.h"
#include "jogasaki/request_context.h"
#include "jogasaki/durability_common.h"
#include "jogasaki/commit_context.h"
#include "jogasaki/executor/file/loader.h"
#include "jogasaki/executor/common/write_statement.h"
#include "jogasaki/scheduler/conditional_task.h"
#include "jogasaki/scheduler/flat_task.h"
#include "jogasaki/scheduler/job_context.h"
#include "jogasaki/scheduler/request_detail.h"
#include "jogasaki/scheduler/schedule_option.h"
#include "jogasaki/scheduler/task_factory.h"
#include "jogasaki/scheduler/task_scheduler.h"
#include "jogasaki/scheduler/thread_local_info.h"
#include "jogasaki/transaction_context.h"
#include "jogasaki/utils/cancel_request.h"
#include "jogasaki/utils/fail.h"
#include <tateyama/api/server/request.h>
#include <tateyama/api/server/response.h>
#include <tateyama/task_scheduler/context.h>

namespace probe {
takatori::util::maybe_shared_ptr<jogasaki::configuration> settings{};
}
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { return probe::settings; }
}
namespace jogasaki::utils {
void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error{"internal error"}; }
}

namespace probe {
using number = std::uint64_t;
using namespace jogasaki;
using scheduler::flat_task;
using scheduler::flat_task_kind;
using scheduler::schedule_option;

void others_act();      // from here on other threads change what is shared between any two steps
std::size_t changes();  // what this thread changed of it
bool first_before();    // what it changed first
bool first_after();
int loaded();           // what one step of a load answers
std::size_t written();  // how often rows were written
int ready_to_cancel();  // the cancellation of requests of this kind is turned on

struct client : tateyama::api::server::response {
    explicit client(int gone) : gone_(gone) {}
    bool check_cancel() const override { return gone_ != 0; }
    int gone_{};
};

// keeps what it is given until it is run
struct keeper : scheduler::task_scheduler {
    void do_schedule_task(flat_task&& t, schedule_option opt) override {
        if (t.kind() == flat_task_kind::teardown) { ++teardowns_; }
        else { ++tasks_; }
        last_ = opt.policy();
        kept_.emplace_back(std::move(t));
    }
    void do_schedule_conditional_task(scheduler::conditional_task&&) override { ++conditional_; }
    void wait_for_progress(std::size_t) override {}
    void start() override {}
    void stop() override {}
    [[nodiscard]] scheduler::task_scheduler_kind kind() const noexcept override { return scheduler::task_scheduler_kind::serial; }
    void register_job(std::shared_ptr<scheduler::job_context>) override { ++jobs_; }
    void unregister_job(std::size_t id) override { ++ended_; ended_id_ = id; }
    void print_diagnostic(std::ostream&) override {}
    number tasks_{};
    number teardowns_{};
    number conditional_{};
    number jobs_{};
    number ended_{};
    std::size_t ended_id_{};
    scheduler::schedule_policy_kind last_{};
    std::vector<flat_task> kept_{};
};

struct request {
    keeper tasks_{};
    scheduler::job_context job_{};
    std::shared_ptr<transaction_context> tx_{};
    std::shared_ptr<request_context> rctx_{};
    number told_{};   // how often its end was told

    explicit request(int with_transaction) {
        if (with_transaction != 0) {
            tx_ = std::make_shared<transaction_context>();
            tx_->transaction_ = std::make_shared<kvs::transaction>();
            tx_->state(transaction_state_kind::init);
            tx_->state(transaction_state_kind::active);
        }
        rctx_ = std::make_shared<request_context>(nullptr, nullptr, nullptr, tx_);
        rctx_->job(takatori::util::maybe_shared_ptr<scheduler::job_context>{&job_});
        rctx_->scheduler(takatori::util::maybe_shared_ptr<scheduler::task_scheduler>{&tasks_});
        job_.callback([this]() { ++told_; });
    }
    void run(number i) {
        tateyama::task_scheduler::context ctx{};
        flat_task t{tasks_.kept_[i]};
        t(ctx);
    }
    void add(scheduler::task_body_type body, model::task_transaction_kind kind = model::task_transaction_kind::none) {
        tasks_.schedule_task(scheduler::create_custom_task(rctx_.get(), std::move(body), kind));
    }
    number left() { return job_.task_count().load(); }
};
void configure(int inplace) {
    settings = std::make_shared<configuration>();
    settings->inplace_teardown(inplace != 0);
}
}

namespace probe::ending {
using N = number;
using result = model::task_result;

bool the_end_is_submitted_once(N n) {
    request r{0};
    scheduler::submit_teardown(*r.rctx_);
    scheduler::submit_teardown(*r.rctx_, n != 0);
    return r.tasks_.teardowns_ == 1 && r.tasks_.tasks_ == 0 && r.left() == 0 && r.job_.completing().load();
}
bool every_task_but_the_end_is_counted() {
    request r{0};
    r.add([]() { return result::complete; });
    r.add([]() { return result::complete; });
    bool ok = r.left() == 2 && r.tasks_.tasks_ == 2;
    scheduler::submit_teardown(*r.rctx_);
    return ok && r.left() == 2;
}
bool a_task_that_ran_is_counted_off(N n) {
    request r{0};
    N ran = 0;
    r.add([&]() { ++ran; return n == 0 ? result::complete : result::complete_and_teardown; });
    r.add([]() { return result::complete; });
    r.job_.completing().store(true);
    r.run(0);
    return ran == 1 && r.left() == 1 && r.told_ == (n == 0 ? 0 : 1);
}
bool a_request_does_not_end_before_its_tasks(N n) {
    request r{0};
    r.add([]() { return result::complete; });
    scheduler::submit_teardown(*r.rctx_, n != 0);
    r.run(1);
    bool waits = r.told_ == 0 && r.tasks_.ended_ == 0 && r.tasks_.teardowns_ == 2;
    r.run(0);
    waits = waits && r.told_ == 0 && r.left() == 0;
    r.run(2);
    return waits && r.told_ == 1 && r.tasks_.ended_ == 1 && r.tasks_.ended_id_ == r.job_.id() && r.tasks_.teardowns_ == 2;
}
bool a_request_does_not_end_before_it_is_ready(N n) {
    request r{0};
    r.job_.completion_readiness([n]() { return n != 0; });
    scheduler::submit_teardown(*r.rctx_);
    r.run(0);
    if (n == 0) { return r.told_ == 0 && r.tasks_.ended_ == 0 && r.tasks_.teardowns_ == 2; }
    return r.told_ == 1 && r.tasks_.ended_ == 1 && r.tasks_.teardowns_ == 1;
}
bool the_end_of_a_request_is_told_before_it_is_forgotten() {
    request r{0};
    N early = 0;
    r.job_.callback([&]() { ++r.told_; if (r.tasks_.ended_ == 0 && ! r.job_.completion_latch().done_) { ++early; } });
    scheduler::finish_job(*r.rctx_);
    return r.told_ == 1 && early == 1 && r.tasks_.ended_ == 1 && r.tasks_.ended_id_ == r.job_.id() && r.job_.completion_latch().done_;
}
bool a_task_that_yields_is_run_again(N n) {
    request r{0};
    N ran = 0;
    r.add([&]() { ++ran; return ran == 1 ? result::yield : result::complete; });
    r.run(0);
    return ran == 1 && r.left() == 1 && r.tasks_.tasks_ == 2 && r.told_ == 0;
}
bool a_task_that_proceeds_goes_on() {
    request r{0};
    N ran = 0;
    r.add([&]() { ++ran; return ran < 3 ? result::proceed : result::complete; });
    r.run(0);
    return ran == 3 && r.left() == 0 && r.tasks_.tasks_ == 1 && r.told_ == 0;
}
bool a_task_that_ends_its_request_in_place_ends_it_once(N inplace, N others) {
    configure(inplace != 0 ? 1 : 0);
    request r{0};
    r.add([&]() { return scheduler::check_or_submit_teardown(*r.rctx_, true) ? result::complete_and_teardown : result::complete; });
    if (others != 0) { r.add([]() { return result::complete; }); }
    r.run(0);
    if (r.told_ + r.tasks_.teardowns_ != 1) { return false; }
    if (others != 0) { return r.told_ == 0 && r.left() == 1; }
    return (inplace != 0) == (r.told_ == 1) && r.left() == 0 && r.tasks_.ended_ == r.told_;
}
bool a_request_already_ending_is_not_ended_again(N inplace, N worker) {
    configure(inplace != 0 ? 1 : 0);
    request r{0};
    r.job_.completing().store(true);
    bool now = scheduler::check_or_submit_teardown(*r.rctx_, true);
    scheduler::set_going_teardown_or_submit(*r.rctx_);
    return ! now && r.tasks_.teardowns_ == 0 && ! r.job_.going_teardown().load();
}
bool a_request_told_to_end_ends_once(N inplace, N again) {
    configure(inplace != 0 ? 1 : 0);
    request r{0};
    r.add([&]() {
        scheduler::set_going_teardown_or_submit(*r.rctx_);
        if (again != 0) { scheduler::set_going_teardown_or_submit(*r.rctx_); }
        return result::complete;
    });
    r.run(0);
    return r.told_ + r.tasks_.teardowns_ == 1 && r.tasks_.ended_ == r.told_ && r.left() == 0;
}
// other threads act between any two steps
bool one_thread_submits_the_end() {
    request r{0};
    others_act();
    scheduler::submit_teardown(*r.rctx_);
    if (changes() != 0 && (first_before() || ! first_after())) { return false; }
    return r.tasks_.teardowns_ == changes() && r.tasks_.teardowns_ <= 1;
}
bool one_thread_ends_the_request_in_place(N inplace) {
    configure(inplace != 0 ? 1 : 0);
    request r{0};
    others_act();
    scheduler::set_going_teardown_or_submit(*r.rctx_);
    if (changes() == 0) { return r.tasks_.teardowns_ == 0; }
    return ! first_before() && first_after() && r.tasks_.teardowns_ + changes() == 2;
}
bool one_thread_may_end_the_request_now(N inplace) {
    configure(inplace != 0 ? 1 : 0);
    request r{0};
    others_act();
    bool now = scheduler::check_or_submit_teardown(*r.rctx_, true);
    if (changes() == 0) { return ! now && r.tasks_.teardowns_ == 0; }
    return changes() == 1 && ! first_before() && first_after() && r.tasks_.teardowns_ == (now ? 0 : 1);
}
bool a_request_does_not_end_while_a_task_is_left() {
    request r{0};
    r.add([]() { return result::complete; });
    scheduler::submit_teardown(*r.rctx_);
    r.run(1);
    return r.told_ == 0 && r.tasks_.ended_ == 0 && r.tasks_.teardowns_ == 2;
}
}

namespace probe::running {
using N = number;
using result = model::task_result;
constexpr auto inside = model::task_transaction_kind::in_transaction;
constexpr auto alone = model::task_transaction_kind::sticky;

N users(request& r) { return r.tx_->termination_mgr().state_.load().task_use_count(); }

bool a_task_holds_its_transaction_while_it_runs() {
    request r{1};
    N held = 0;
    r.add([&]() { held = users(r); return result::complete; }, inside);
    N before = users(r);
    r.run(0);
    return before == 0 && held == 1 && users(r) == 0 && r.left() == 0;
}
bool a_task_outside_a_transaction_holds_none() {
    request r{1};
    N held = 0;
    r.add([&]() { held = users(r); return result::complete; });
    r.run(0);
    return held == 0 && users(r) == 0;
}
bool a_task_of_a_transaction_that_ends_is_not_run(N commit) {
    configure(0);
    request r{1};
    N ran = 0;
    r.add([&]() { ++ran; return result::complete; }, inside);
    termination_state ts{};
    if (commit != 0) { (void) r.tx_->termination_mgr().try_set_going_to_commit(ts); }
    else { (void) r.tx_->termination_mgr().try_set_going_to_abort(ts); }
    r.run(0);
    return ran == 0 && users(r) == 0 && r.rctx_->status_code() == status::err_inactive_transaction && r.tasks_.teardowns_ == 1 && r.left() == 0;
}
bool the_last_task_of_a_transaction_to_abort_aborts_it(N other) {
    request r{1};
    r.add([&]() {
        termination_state ts{};
        (void) r.tx_->termination_mgr().try_set_going_to_abort(ts);
        return result::complete;
    }, inside);
    if (other != 0) {
        termination_state ts{};
        (void) r.tx_->termination_mgr().try_increment_task_use_count(ts);
    }
    r.run(0);
    return r.left() == 0 && (r.tx_->state() == transaction_state_kind::aborted) == (other == 0) && users(r) == (other == 0 ? 0 : 1);
}
bool a_task_on_its_own_gives_its_worker_back() {
    request r{1};
    r.add([]() { return result::complete; }, alone);
    std::uint32_t worker = 1;
    (void) r.tx_->increment_worker_count(worker);
    N before = r.tx_->mgr_.use_count_and_worker_id_.load() >> 32U;
    r.run(0);
    return before == 1 && (r.tx_->mgr_.use_count_and_worker_id_.load() >> 32U) == 0;
}
bool a_task_that_fails_inside_ends_its_request_with_an_error() {
    request r{0};
    r.add([]() -> result { throw std::logic_error{"failed"}; });
    r.run(0);
    return r.told_ == 1 && r.left() == 0 && r.tasks_.ended_ == 1 && r.rctx_->status_code() != status::ok;
}
bool a_task_that_fails_inside_leaves_its_transaction(N n) {
    request r{1};
    r.add([]() -> result { throw std::logic_error{"failed"}; }, n != 0 ? inside : alone);
    std::uint32_t worker = 1;
    if (n == 0) { (void) r.tx_->increment_worker_count(worker); }
    r.run(0);
    return r.told_ == 1 && users(r) == 0 && (r.tx_->mgr_.use_count_and_worker_id_.load() >> 32U) == 0;
}
bool a_load_goes_on_until_it_is_done() {
    request r{1};
    auto ldr = std::make_shared<executor::file::loader>();
    r.tasks_.schedule_task(flat_task{scheduler::task_enum_tag<flat_task_kind::load>, r.rctx_.get(), ldr});
    r.run(0);
    if (loaded() == 1) { return r.left() == 1 && r.tasks_.tasks_ == 2 && r.tasks_.teardowns_ == 0 && r.told_ == 0 && r.rctx_->status_code() == status::ok; }
    return r.left() == 0 && r.tasks_.tasks_ == 1 && r.tasks_.teardowns_ == 1 && (r.rctx_->status_code() == status::err_io_error) == (loaded() == 2);
}
bool rows_are_written_once_unless_the_client_went_away(N gone, N inplace) {
    configure(inplace);
    request r{0};
    number place = 0;
    r.rctx_->req_info_.response_source_ = std::make_shared<client>(gone != 0 ? 1 : 0);
    r.tasks_.schedule_task(flat_task{scheduler::task_enum_tag<flat_task_kind::write>, r.rctx_.get(), reinterpret_cast<executor::common::write_statement*>(&place)});
    r.run(0);
    bool away = gone != 0 && ready_to_cancel() != 0;
    return written() == (away ? 0 : 1) && (r.rctx_->status_code() == status::request_canceled) == away && r.left() == 0 && r.told_ + r.tasks_.teardowns_ == 1;
}
bool a_task_waiting_for_a_condition_is_counted() {
    request r{0};
    r.tasks_.schedule_conditional_task(scheduler::conditional_task{r.rctx_.get(), []() { return true; }, []() {}});
    return r.left() == 1 && r.tasks_.conditional_ == 1 && r.tasks_.tasks_ == 0;
}
}

namespace probe::answering {
using N = number;

struct committing {
    request r_{1};
    N answered_{};
    N refused_{};
    commit_response_kind with_{};
    committing() {
        r_.rctx_->commit_ctx(std::make_shared<commit_context>(
            [this](commit_response_kind k) { ++answered_; with_ = k; },
            commit_response_kind_set{},
            [this](commit_response_kind k, status, std::shared_ptr<error::error_info>) { ++refused_; with_ = k; }));
    }
};
bool one_answer_is_given(N kind, N failed, N gone, N suspended) {
    committing c{};
    auto k = kind == 0 ? commit_response_kind::stored : commit_response_kind::accepted;
    submit_commit_response(c.r_.rctx_, k, failed != 0, gone != 0, suspended != 0);
    bool before = c.answered_ + c.refused_ == 0 && c.r_.tasks_.tasks_ == 1;
    c.r_.run(0);
    bool bad = failed != 0 || gone != 0;
    return before && c.answered_ == (bad ? 0 : 1) && c.refused_ == (bad ? 1 : 0) && c.with_ == k && c.r_.tasks_.teardowns_ == 1 && c.r_.told_ == 0;
}
bool the_state_of_a_transaction_tells_its_answer(N kind, N failed, N gone) {
    committing c{};
    auto k = kind == 0 ? commit_response_kind::stored : commit_response_kind::accepted;
    submit_commit_response(c.r_.rctx_, k, failed != 0, gone != 0, false);
    auto s = c.r_.tx_->state();
    if (gone != 0) { return s == transaction_state_kind::unknown; }
    if (failed != 0) { return s == transaction_state_kind::aborted; }
    return s == (kind == 0 ? transaction_state_kind::committed_stored : transaction_state_kind::committed_available);
}
}
