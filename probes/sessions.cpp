// Analysed only, never compiled or run: contracts over the handles of transactions and statements, and over who sees which table.
#include "jogasaki/api/impl/database.cpp"
#include "jogasaki/storage/storage_manager.h"
namespace probe {
std::shared_ptr<jogasaki::api::impl::database> the_db{};
jogasaki::status begin_with{};
jogasaki::status prepare_with{};
int explained{};
std::string_view table_name{};
std::shared_ptr<yugawara::storage::relation const> table{};
std::shared_ptr<yugawara::storage::table const> found{};
std::shared_ptr<jogasaki::storage::storage_manager> entries{};
}
namespace jogasaki::global {
std::shared_ptr<jogasaki::api::impl::database> const& database_impl(std::shared_ptr<jogasaki::api::impl::database>) { return probe::the_db; }
}
namespace yugawara::storage {
std::string_view relation::simple_name() const noexcept { return probe::table_name; }
template<> void basic_configurable_provider<std::shared_mutex>::each_relation(std::function<void(std::string_view, std::shared_ptr<relation const> const&)> const& consumer) const {
    consumer(probe::table_name, probe::table);
}
template<> std::shared_ptr<table const> basic_configurable_provider<std::shared_mutex>::find_table(std::string_view) const { return probe::found; }
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return probe::entries; }
}
namespace takatori::serializer {
json_printer::json_printer(std::ostream&) {}
void object_scanner::operator()(statement::statement const&, json_printer&&) const { ++probe::explained; }
}
namespace yugawara {
takatori::serializer::object_scanner compiled_info::object_scanner() const noexcept { return {}; }
}
namespace jogasaki::executor {
status create_transaction(std::shared_ptr<transaction_context>& out, std::shared_ptr<api::transaction_option const> options) {
    if (probe::begin_with != status::ok) { return probe::begin_with; }
    out = std::make_shared<transaction_context>(std::make_shared<kvs::transaction>(), options);
    return status::ok;
}
}
namespace jogasaki::plan {
status prepare(std::string_view, compiler_context& ctx) {
    auto p = std::make_shared<class prepared_statement>();
    p->mirrors_ = std::make_shared<mirror_container>();
    ctx.prepared_statement(std::move(p));
    return probe::prepare_with;
}
}
namespace probe::handling {
using namespace jogasaki;
using N = std::size_t;
using who = std::optional<N>;
using T = std::shared_ptr<transaction_context>;

struct engine {
    engine(api::impl::database& db) {
        the_db = std::shared_ptr<api::impl::database>{&db};
        begin_with = status::ok;
        prepare_with = status::ok;
        db.transactions_.clear();
        db.transaction_stores_.clear();
        db.prepared_statements_.clear();
        db.statement_stores_.clear();
        db.kvs_db_ = std::make_shared<kvs::database>();
        db.cfg_ = std::make_shared<configuration>();
        db.cfg_->profile_commits(false);
    }
};
T begin(api::impl::database& db, who session) {
    T tx{};
    api::transaction_option o{};
    o.session_id_ = session;
    (void) db.create_transaction_internal(tx, o);
    return tx;
}
api::statement_handle prepared(api::impl::database& db, who session) {
    api::statement_handle h{};
    std::shared_ptr<error::error_info> e{};
    plan::compile_option o{};
    o.session_id(session);
    (void) db.prepare_common("x", std::shared_ptr<yugawara::variable::configurable_provider>{}, h, e, o);
    return h;
}
int same(who a, who b) { return a.has_value() == b.has_value() && (! a.has_value() || *a == *b) ? 1 : 0; }
}
namespace probe::handles {
using namespace probe::handling;
using api::transaction_handle;

bool a_handle_finds_its_transaction(api::impl::database& db, who session) {
    engine e{db};
    auto tx = begin(db, session);
    if (! tx) { return false; }
    return db.find_transaction(transaction_handle{tx->surrogate_id(), session}) == tx;
}
bool a_session_without_transactions_finds_nothing(api::impl::database& db, who session, who other) {
    if (same(session, other) != 0) { return true; }
    engine e{db};
    auto tx = begin(db, session);
    transaction_handle h{tx->surrogate_id(), other};
    return db.find_transaction(h) == nullptr && db.destroy_transaction(h) == status::err_invalid_argument && db.find_transaction(transaction_handle{tx->surrogate_id(), session}) == tx;
}
bool a_session_without_statements_finds_nothing(api::impl::database& db, who session, who other) {
    if (same(session, other) != 0) { return true; }
    engine e{db};
    auto h = prepared(db, session);
    api::statement_handle h2{reinterpret_cast<void*>(h.get()), other};
    return db.find_statement(h2) == nullptr && db.destroy_statement_internal(h2) == status::err_invalid_argument && db.find_statement(h) != nullptr;
}
bool another_session_does_not_find_it(api::impl::database& db, who session, who other) {
    if (same(session, other) != 0) { return true; }
    engine e{db};
    auto tx = begin(db, session);
    auto tx2 = begin(db, other);
    return db.find_transaction(transaction_handle{tx->surrogate_id(), other}) == nullptr
        && db.destroy_transaction(transaction_handle{tx->surrogate_id(), other}) == status::err_invalid_argument
        && db.find_transaction(transaction_handle{tx->surrogate_id(), session}) == tx
        && db.find_transaction(transaction_handle{tx2->surrogate_id(), other}) == tx2;
}
bool an_unknown_handle_finds_nothing(api::impl::database& db, who session, N id) {
    engine e{db};
    auto tx = begin(db, session);
    if (tx->surrogate_id() == id) { return true; }
    return db.find_transaction(transaction_handle{id, session}) == nullptr && db.destroy_transaction(transaction_handle{id, session}) == status::err_invalid_argument;
}
bool transactions_are_told_apart(api::impl::database& db, who session) {
    engine e{db};
    auto tx = begin(db, session);
    auto tx2 = begin(db, session);
    return tx != tx2 && tx->surrogate_id() != tx2->surrogate_id()
        && db.find_transaction(transaction_handle{tx->surrogate_id(), session}) == tx
        && db.find_transaction(transaction_handle{tx2->surrogate_id(), session}) == tx2;
}
bool a_handle_given_back_finds_nothing(api::impl::database& db, who session) {
    engine e{db};
    auto tx = begin(db, session);
    auto tx2 = begin(db, session);
    transaction_handle h{tx->surrogate_id(), session};
    return db.destroy_transaction(h) == status::ok && db.find_transaction(h) == nullptr && db.destroy_transaction(h) == status::err_invalid_argument
        && db.find_transaction(transaction_handle{tx2->surrogate_id(), session}) == tx2;
}
bool transactions_end_with_their_session(api::impl::database& db, N session, who other) {
    if (other.has_value() && *other == session) { return true; }
    engine e{db};
    auto tx = begin(db, session);
    auto tx2 = begin(db, session);
    auto tx3 = begin(db, other);
    auto store = db.find_transaction_store(session);
    if (! store || store->size() != 2 || store->session_id() != session) { return false; }
    store->dispose();
    return store->size() == 0 && db.find_transaction(transaction_handle{tx->surrogate_id(), session}) == nullptr && db.find_transaction(transaction_handle{tx2->surrogate_id(), session}) == nullptr
        && db.find_transaction(transaction_handle{tx3->surrogate_id(), other}) == tx3 && ! db.find_transaction_store(session);
}
bool what_did_not_begin_is_not_kept(api::impl::database& db, who session, status s) {
    if (s == status::ok) { return true; }
    engine e{db};
    begin_with = s;
    T tx{};
    api::transaction_option o{};
    o.session_id_ = session;
    return db.create_transaction_internal(tx, o) == s && ! tx && db.transactions_.size() == 0 && db.transaction_stores_.size() == 0;
}
bool nothing_begins_before_the_database_does(api::impl::database& db, who session) {
    engine e{db};
    db.kvs_db_ = nullptr;
    T tx{};
    api::transaction_option o{};
    o.session_id_ = session;
    return db.create_transaction_internal(tx, o) == status::err_invalid_state && ! tx && db.transactions_.size() == 0 && db.transaction_stores_.size() == 0;
}
bool a_handle_finds_its_statement(api::impl::database& db, who session, who other) {
    if (same(session, other) != 0) { return true; }
    engine e{db};
    auto h = prepared(db, session);
    auto h2 = prepared(db, other);
    auto s = db.find_statement(h);
    auto s2 = db.find_statement(h2);
    return s && s2 && s != s2 && s.get() == reinterpret_cast<void*>(h.get()) && same(h.session_id(), session) != 0 && same(h2.session_id(), other) != 0
        && db.find_statement(api::statement_handle{s.get(), other}) == nullptr;
}
bool a_statement_given_back_is_gone(api::impl::database& db, who session) {
    engine e{db};
    auto h = prepared(db, session);
    auto h2 = prepared(db, session);
    auto s2 = db.find_statement(h2);
    return db.destroy_statement_internal(h) == status::ok && db.find_statement(h) == nullptr && db.destroy_statement_internal(h) == status::err_invalid_argument
        && s2 && db.find_statement(h2) == s2;
}
bool statements_end_with_their_session(api::impl::database& db, N session, who other) {
    if (other.has_value() && *other == session) { return true; }
    engine e{db};
    auto h = prepared(db, session);
    auto h3 = prepared(db, other);
    auto store = db.find_statement_store(session);
    if (! store || store->size() != 1 || store->session_id() != session) { return false; }
    store->dispose();
    return store->size() == 0 && db.find_statement(h) == nullptr && db.find_statement(h3) != nullptr && ! db.find_statement_store(session);
}
bool what_was_not_prepared_is_not_kept(api::impl::database& db, who session, status s) {
    if (s == status::ok) { return true; }
    engine e{db};
    prepare_with = s;
    api::statement_handle h{};
    std::shared_ptr<error::error_info> i{};
    plan::compile_option o{};
    o.session_id(session);
    return db.prepare_common("x", std::shared_ptr<yugawara::variable::configurable_provider>{}, h, i, o) == s && ! h && db.prepared_statements_.size() == 0 && db.statement_stores_.size() == 0;
}
bool a_long_transaction_needs_the_tables_it_names(api::impl::database& db, who session, std::string name, int where) {
    engine e{db};
    found = nullptr;
    db.tables_ = std::make_shared<yugawara::storage::configurable_provider>();
    std::vector<std::string> one{name};
    std::vector<std::string> none{};
    T tx{};
    api::transaction_option o{transaction_type_kind::ltx, where == 0 ? one : none, "", where == 1 ? one : none, where != 0 && where != 1 ? one : none, false, std::nullopt, session};
    return db.create_transaction_internal(tx, o) == status::err_invalid_argument && ! tx && db.transactions_.size() == 0 && db.transaction_stores_.size() == 0;
}
}
namespace probe::seeing {
using namespace jogasaki;
using S = std::string_view;
using A = auth::action_kind;
using U = tateyama::api::server::user_type;
struct session : tateyama::api::server::session_info {
    session(U type, std::optional<S> name) : type_(type), name_(name) {}
    std::size_t id() const noexcept override { return 1; }
    S label() const noexcept override { return {}; }
    S application_name() const noexcept override { return {}; }
    std::optional<S> username() const noexcept override { return name_; }
    enum tateyama::api::server::user_type user_type() const noexcept override { return type_; }
    U type_{};
    std::optional<S> name_{};
};
struct asker : tateyama::api::server::request {
    asker(U type, std::optional<S> name) : session_(type, name) {}
    std::size_t session_id() const override { return 1; }
    std::size_t service_id() const override { return 1; }
    std::size_t local_id() const override { return 1; }
    S payload() const override { return {}; }
    class tateyama::api::server::database_info const& database_info() const noexcept override { std::abort(); }
    class tateyama::api::server::session_info const& session_info() const noexcept override { return session_; }
    session session_;
};
struct catalog {
    catalog(api::impl::database& db, S name) {
        db.tables_ = std::make_shared<yugawara::storage::configurable_provider>();
        entries = std::make_shared<storage::storage_manager>();
        table_name = name;
        table = std::make_shared<yugawara::storage::relation>();
    }
    // 1: the table is listed, 0: it is not, 2: something else
    int listed(api::impl::database& db, request_info const& r) {
        std::vector<std::string> out{};
        std::shared_ptr<error::error_info> e{};
        if (db.list_tables(out, e, r) != status::ok || e) { return 2; }
        return out.empty() ? 0 : out.size() == 1 && out[0] == table_name ? 1 : 2;
    }
};
request_info by(U type, std::optional<S> name) { return request_info{1, std::make_shared<asker>(type, name), nullptr}; }

// a statement that uses two tables
struct plan {
    api::impl::executable_statement s_{};
    plan() {
        entries = std::make_shared<storage::storage_manager>();
        entries->add_entry(1, "t1", std::nullopt, true);
        entries->add_entry(2, "t2", std::nullopt, true);
        explained = 0;
        s_.body_ = std::make_shared<jogasaki::plan::executable_statement>();
        s_.body_->statement_ = std::make_shared<takatori::statement::statement>();
        s_.body_->mirrors_ = std::make_shared<jogasaki::plan::mirror_container>();
        s_.body_->mirrors_->mutable_storage_operation() = storage::storage_operation{storage::storage_list{std::vector<storage::storage_entry>{1, 2}}, std::vector<auth::action_set>{auth::action_set{A::select}, auth::action_set{A::select}}};
    }
    // 1: explained, 0: refused, 2: something else
    int shown(api::impl::database& db, request_info const& r, std::ostream& out) {
        std::shared_ptr<error::error_info> e{};
        auto st = db.explain(s_, out, e, r);
        if (st == status::ok) { return explained == 1 && ! e ? 1 : 2; }
        return st == status::err_illegal_operation && explained == 0 && e && e->code() == error_code::permission_error && e->status() == st ? 0 : 2;
    }
};
}
namespace probe::listed {
using namespace probe::seeing;

bool a_user_sees_the_tables_it_may_use(api::impl::database& db, S user, A granted, A shared) {
    catalog c{db, "t1"};
    entries->add_entry(1, "t1", std::nullopt, true);
    entries->find_entry(1)->authorized_actions().add_user_actions(user, auth::action_set{granted});
    entries->find_entry(1)->public_actions().add_action(shared);
    auto useful = [](A a) { return a == A::control || a == A::select || a == A::insert || a == A::update || a == A::delete_; };
    return c.listed(db, by(U::standard, user)) == (useful(granted) || useful(shared) ? 1 : 0);
}
bool a_user_is_explained_statements_over_tables_it_may_use(api::impl::database& db, S user, A granted, A shared, int which, std::ostream& out) {
    plan p{};
    storage::storage_entry one = which != 0 ? 1 : 2;
    entries->find_entry(which != 0 ? 2 : 1)->public_actions().add_action(A::delete_);
    entries->find_entry(one)->authorized_actions().add_user_actions(user, auth::action_set{granted});
    entries->find_entry(one)->public_actions().add_action(shared);
    auto useful = [](A a) { return a == A::control || a == A::select || a == A::insert || a == A::update || a == A::delete_; };
    return p.shown(db, by(U::standard, user), out) == (useful(granted) || useful(shared) ? 1 : 0);
}
bool only_who_is_known_is_explained_statements(api::impl::database& db, std::optional<S> user, std::ostream& out) {
    plan p{};
    if (p.shown(db, by(U::administrator, user), out) != 1) { return false; }
    plan p2{};
    entries->find_entry(1)->public_actions().add_action(A::control);
    entries->find_entry(2)->public_actions().add_action(A::control);
    return p2.shown(db, by(U::standard, std::nullopt), out) == 0;
}
bool statements_over_tables_that_are_gone_are_not_explained(api::impl::database& db, S user, std::ostream& out) {
    plan p{};
    entries->find_entry(1)->public_actions().add_action(A::control);
    entries->remove_entry(2);
    return p.shown(db, by(U::standard, user), out) == 0;
}
bool a_user_without_grants_sees_nothing(api::impl::database& db, S user, S other) {
    if (user == other) { return true; }
    catalog c{db, "t1"};
    entries->add_entry(1, "t1", std::nullopt, true);
    entries->add_entry(2, "t2", std::nullopt, true);
    entries->find_entry(1)->authorized_actions().add_user_actions(other, auth::action_set{A::control});
    entries->find_entry(2)->authorized_actions().add_user_actions(user, auth::action_set{A::control});
    return c.listed(db, by(U::standard, user)) == 0;
}
bool a_user_without_a_name_sees_nothing(api::impl::database& db) {
    catalog c{db, "t1"};
    entries->add_entry(1, "t1", std::nullopt, true);
    entries->find_entry(1)->public_actions().add_action(A::control);
    return c.listed(db, by(U::standard, std::nullopt)) == 0;
}
bool an_administrator_sees_every_table(api::impl::database& db, std::optional<S> user) {
    catalog c{db, "t1"};
    entries->add_entry(1, "t1", std::nullopt, true);
    return c.listed(db, by(U::administrator, user)) == 1;
}
bool a_table_unknown_to_the_storages_is_not_seen(api::impl::database& db, S user) {
    catalog c{db, "t1"};
    entries->add_entry(1, "t2", std::nullopt, true);
    entries->find_entry(1)->public_actions().add_action(A::control);
    return c.listed(db, by(U::standard, user)) == 0;
}
bool nobody_sees_the_tables_of_the_system(api::impl::database& db, S user) {
    catalog c{db, "__t1"};
    entries->add_entry(1, "__t1", std::nullopt, true);
    entries->find_entry(1)->public_actions().add_action(A::control);
    return c.listed(db, by(U::administrator, user)) == 0 && c.listed(db, by(U::standard, user)) == 0;
}
}
