// Analysed only, never compiled or run: contracts over what becomes of a request to begin a transaction.
#include "jobs.cpp"
#include "jogasaki/api/impl/database.cpp"
#include "jogasaki/api/impl/request_context_factory.h"
#include "jogasaki/executor/executor.h"

namespace probe {
request* current{};                       // what the next request to begin uses
status begin_with{};
std::size_t begun{};
std::size_t asked{};                      // how often the engine was asked whether the transaction may start
int waiting{};
std::shared_ptr<transaction_context> new_one{};
std::shared_ptr<api::impl::database> the_db{};
std::shared_ptr<jogasaki::storage::storage_manager> entries{};
memory::page_pool pages{};
}
namespace probe {
using catalog = yugawara::storage::configurable_provider;
std::shared_ptr<yugawara::storage::table const> first{};
std::shared_ptr<yugawara::storage::table const> second{};
std::shared_ptr<yugawara::storage::table const> of_system{};
std::vector<std::shared_ptr<yugawara::storage::index const>> indices{};
}
namespace yugawara::storage {
template<> std::shared_ptr<table const> basic_configurable_provider<std::shared_mutex>::find_table(std::string_view name) const {
    if (name == "t1") { return probe::first; }
    if (name == "t2") { return probe::second; }
    if (name == jogasaki::system_sequences_name) { return probe::of_system; }
    return {};
}
template<> void basic_configurable_provider<std::shared_mutex>::each_index(std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& consumer) const {
    for (auto&& i : probe::indices) { consumer(i->simple_name(), i); }
}
}
namespace jogasaki::global {
memory::page_pool& page_pool() { return probe::pages; }
std::shared_ptr<api::impl::database> const& database_impl(std::shared_ptr<api::impl::database>) { return probe::the_db; }
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return probe::entries; }
}
namespace jogasaki::api::impl {
std::shared_ptr<request_context> create_request_context(impl::database&, std::shared_ptr<transaction_context>, maybe_shared_ptr<executor::io::record_channel> const&,
    std::shared_ptr<memory::lifo_paged_memory_resource>, request_info const& info, bool, std::shared_ptr<scheduler::request_detail> d) {
    probe::current->rctx_->req_info_ = info;
    probe::current->job_.request(std::move(d));
    return probe::current->rctx_;
}
}
namespace sharksfin {
StatusCode transaction_check(TransactionControlHandle, TransactionState& result) {
    ++probe::asked;
    result = TransactionState{probe::waiting != 0 ? TransactionState::StateKind::WAITING_START : TransactionState::StateKind::STARTED};
    return StatusCode::OK;
}
}
namespace jogasaki::executor {
status create_transaction(std::shared_ptr<transaction_context>& out, std::shared_ptr<api::transaction_option const> options) {
    if (probe::begin_with != status::ok) { return probe::begin_with; }
    ++probe::begun;
    out = std::make_shared<transaction_context>(std::make_shared<kvs::transaction>(), options);
    out->state(transaction_state_kind::init);
    probe::new_one = out;
    return status::ok;
}
}
namespace probe::beginning {
using N = number;
using who = std::optional<std::size_t>;

// keeps the conditional tasks as well
struct patient : keeper {
    void do_schedule_conditional_task(scheduler::conditional_task&& t) override { ++conditional_; waiting_.emplace_back(std::move(t)); }
    std::vector<scheduler::conditional_task> waiting_{};
};

struct start {
    request r_{0};
    patient later_{};
    N told_{};
    status with_{};
    int reason_{};
    error_code code_{};
    api::transaction_handle handle_{};
    api::transaction_option option_{};

    start(api::impl::database& db) {
        configure(0);
        current = &r_;
        r_.rctx_->scheduler(takatori::util::maybe_shared_ptr<scheduler::task_scheduler>{&later_});
        the_db = std::shared_ptr<api::impl::database>{&db};
        begin_with = status::ok;
        begun = 0;
        asked = 0;
        waiting = 0;
        new_one = nullptr;
        db.transactions_.clear();
        db.transaction_stores_.clear();
        db.kvs_db_ = std::make_shared<kvs::database>();
        db.cfg_ = std::make_shared<configuration>();
        db.cfg_->profile_commits(false);
    }
    void ask(api::impl::database& db, request_info const& info = {}) {
        db.do_create_transaction_async(
            [this](api::transaction_handle h, status s, std::shared_ptr<api::error_info> e) {
                ++told_;
                handle_ = h;
                with_ = s;
                reason_ = e ? 1 : 0;
                if (e) { code_ = e->code(); }
            }, option_, info);
    }
    void run(N i) {
        tateyama::task_scheduler::context ctx{};
        flat_task t{later_.kept_[i]};
        t(ctx);
    }
    // one look at whether the wait is over
    int look() {
        if (! later_.waiting_[0].check()) { return 0; }
        later_.waiting_[0]();
        return 1;
    }
};
using names = std::vector<std::string>;
std::shared_ptr<yugawara::storage::table const> make_table(int id) {
    auto t = std::make_shared<yugawara::storage::table>();
    t->id_ = id;
    return t;
}
void make_index(std::string_view name, std::shared_ptr<yugawara::storage::table const> const& t) {
    auto i = std::make_shared<yugawara::storage::index>();
    i->name_ = name;
    i->table_ = t;
    indices.emplace_back(i);
}
void make_catalog(api::impl::database& db) {
    first = make_table(1);
    second = make_table(2);
    of_system = make_table(3);
    indices = {};
    make_index("t1", first);
    make_index("t2", second);
    make_index("s1", first);
    make_index("q", of_system);
    db.tables_ = std::make_shared<catalog>();
}
int count(names const& in, std::string_view one) {
    int n = 0;
    for (auto&& x : in) { if (x == one) { ++n; } }
    return n;
}
std::shared_ptr<transaction_context> begin(api::impl::database& db, api::transaction_option const& o) {
    std::shared_ptr<transaction_context> tx{};
    (void) db.create_transaction_internal(tx, o);
    return tx;
}
}
namespace probe::areas {
using namespace probe::beginning;

bool a_table_is_written_with_its_indices(api::impl::database& db, who session) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{transaction_type_kind::ltx, {"t1"}, "x", {}, {"t2"}, false, std::nullopt, session};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.write_preserves().size() == 2 && count(p.write_preserves(), "t1") == 1 && count(p.write_preserves(), "s1") == 1
        && p.read_areas_inclusive().empty() && p.read_areas_exclusive().size() == 1 && count(p.read_areas_exclusive(), "t2") == 1;
}
bool what_is_written_may_be_read(api::impl::database& db) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{transaction_type_kind::ltx, {"t1"}, "x", {"t2"}, {}};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.read_areas_inclusive().size() == 3 && count(p.read_areas_inclusive(), "t1") == 1 && count(p.read_areas_inclusive(), "s1") == 1
        && count(p.read_areas_inclusive(), "t2") == 1 && p.write_preserves().size() == 2 && p.read_areas_exclusive().empty();
}
bool what_is_named_twice_is_read_once(api::impl::database& db) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{transaction_type_kind::ltx, {"t2"}, "x", {"t2", "t2"}, {}};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.read_areas_inclusive().size() == 1 && count(p.read_areas_inclusive(), "t2") == 1;
}
bool definitions_are_changed_with_the_tables_of_the_system(api::impl::database& db) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{transaction_type_kind::ltx, {"t2"}, "x", {}, {}, true};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.write_preserves().size() == 2 && count(p.write_preserves(), "t2") == 1 && count(p.write_preserves(), "q") == 1 && p.modifies_definitions();
}
bool the_tables_of_the_system_may_be_read_as_well(api::impl::database& db) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{transaction_type_kind::ltx, {"t2"}, "x", {"t1"}, {}, true};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& r = tx->option()->read_areas_inclusive();
    return r.size() == 4 && count(r, "t1") == 1 && count(r, "s1") == 1 && count(r, "t2") == 1 && count(r, "q") == 1;
}
bool a_short_one_reserves_no_table(api::impl::database& db, int readonly) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{readonly != 0 ? transaction_type_kind::rtx : transaction_type_kind::occ, {}, "x", {}, {}, true};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.write_preserves().empty() && p.read_areas_inclusive().empty() && p.read_areas_exclusive().empty() && p.modifies_definitions();
}
bool what_was_asked_for_is_kept(api::impl::database& db, who session, transaction_type_kind type, std::string const& label, api::transaction_option::scan_parallel_type scan, int defines) {
    start s{db};
    make_catalog(db);
    api::transaction_option o{type, {}, label, {}, {}, defines != 0, scan, session};
    auto tx = begin(db, o);
    if (! tx) { return false; }
    auto& p = *tx->option();
    return p.type() == type && p.label() == label && p.modifies_definitions() == (defines != 0) && p.scan_parallel() == scan && p.session_id() == session && tx->label() == label;
}
}
namespace probe::begins {
using namespace probe::beginning;

bool a_short_transaction_starts_at_once(api::impl::database& db, who session) {
    start s{db};
    s.option_.session_id_ = session;
    s.ask(db);
    if (s.told_ != 0 || begun != 0 || s.later_.tasks_ != 1) { return false; }
    s.run(0);
    if (s.told_ != 0 || begun != 1 || s.later_.conditional_ != 0 || s.later_.teardowns_ != 1) { return false; }
    s.run(1);
    return s.told_ == 1 && s.with_ == status::ok && s.reason_ == 0 && s.handle_.surrogate_id() == new_one->surrogate_id()
        && new_one->state() == transaction_state_kind::active && db.find_transaction(s.handle_) == new_one;
}
bool a_failed_begin_tells_why(api::impl::database& db, who session, status why) {
    if (why == status::ok) { return true; }
    start s{db};
    s.option_.session_id_ = session;
    s.option_.readonly(true);
    begin_with = why;
    s.ask(db);
    s.run(0);
    if (s.told_ != 0 || s.later_.conditional_ != 0 || s.later_.teardowns_ != 1) { return false; }
    s.run(1);
    auto code = why == status::err_invalid_argument ? error_code::target_not_found_exception
        : why == status::err_resource_limit_reached ? error_code::transaction_exceeded_limit_exception : error_code::sql_execution_exception;
    return s.told_ == 1 && s.with_ == why && s.reason_ == 1 && s.code_ == code && s.handle_ == api::transaction_handle{};
}
bool a_transaction_that_must_wait_is_told_when_it_may_start(api::impl::database& db, who session, int readonly) {
    start s{db};
    s.option_.session_id_ = session;
    s.option_.readonly(readonly != 0);
    s.option_.is_long(readonly == 0);
    s.ask(db);
    s.run(0);
    if (s.told_ != 0 || begun != 1 || s.later_.conditional_ != 1 || s.later_.teardowns_ != 0) { return false; }
    waiting = 1;
    if (s.look() != 0 || s.look() != 0 || s.told_ != 0 || s.later_.teardowns_ != 0 || new_one->state() == transaction_state_kind::active) { return false; }
    waiting = 0;
    if (s.look() != 1 || s.later_.teardowns_ != 1) { return false; }
    s.run(1);
    return s.told_ == 1 && s.with_ == status::ok && s.reason_ == 0 && s.handle_.surrogate_id() == new_one->surrogate_id()
        && new_one->state() == transaction_state_kind::active && db.find_transaction(s.handle_) == new_one && begun == 1;
}
bool a_client_that_is_gone_does_not_wait(api::impl::database& db, who session, int gone) {
    start s{db};
    s.option_.session_id_ = session;
    s.option_.is_long(true);
    request_info info{};
    info.response_source_ = std::make_shared<client>(gone);
    s.ask(db, info);
    s.run(0);
    waiting = 1;
    auto over = s.look();
    if (over == 0) { return s.told_ == 0 && s.later_.teardowns_ == 0 && (gone == 0 || ready_to_cancel() == 0); }
    if (gone == 0 || s.later_.teardowns_ != 1) { return false; }
    s.run(1);
    return s.told_ == 1 && s.with_ != status::ok && s.code_ == error_code::request_canceled && s.reason_ == 1 && new_one->state() != transaction_state_kind::active;
}
bool nothing_begins_before_the_database_does(api::impl::database& db) {
    start s{db};
    db.kvs_db_ = nullptr;
    s.ask(db);
    s.run(0);
    s.run(1);
    return s.told_ == 1 && s.with_ == status::err_invalid_state && s.reason_ == 1 && begun == 0 && s.handle_ == api::transaction_handle{};
}
}
