// Analysed only, never compiled or run: contracts over the deletion of dropped tables and indices.
#include "jogasaki/storage/maintenance_storage.h"
#include "jogasaki/storage/reference_scope.h"
#include "jogasaki/storage/storage_manager.h"
#include "jogasaki/kvs/database.h"
#include "jogasaki/kvs/storage.h"
#include "jogasaki/executor/global.h"
#include <atomic>

namespace probe {
std::shared_ptr<jogasaki::storage::storage_manager> entries{};
std::shared_ptr<jogasaki::kvs::database> the_db{};
std::vector<std::string> asked{};
std::vector<std::string> deleted{};
std::string failing{};
std::string missing{};
jogasaki::status fails_with{};
}
namespace jogasaki::global {
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager>) { return probe::entries; }
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database>) { return probe::the_db; }
}
namespace jogasaki::kvs {
storage::~storage() noexcept {}
std::unique_ptr<storage> database::get_storage(std::string_view name) {
    probe::asked.emplace_back(std::string{name});
    if (name == probe::missing) { return {}; }
    return std::make_unique<storage>();
}
status storage::delete_storage() {
    if (probe::asked.back() == probe::failing) { return probe::fails_with; }
    probe::deleted.emplace_back(probe::asked.back());
    return status::ok;
}
}
namespace probe::cleaning {
using namespace jogasaki;
using S = std::string;
using E = storage::storage_entry;
struct engine {
    engine() {
        entries = std::make_shared<storage::storage_manager>();
        the_db = std::make_shared<kvs::database>();
        asked = {};
        deleted = {};
        failing = "none";
        missing = "none";
        fails_with = status::err_unknown;
    }
    void add(E e, S const& name, S const& key) { entries->add_entry(e, name, key, true); }
    void index(E e, S const& name, S const& key, E of) { entries->add_entry(e, name, key, false, of); }
    int there(E e) { return entries->find_entry(e) ? 1 : 0; }
    int gone(S const& key) {
        int n = 0;
        for (auto&& d : deleted) { if (d == key) { ++n; } }
        return n;
    }
};
}
namespace probe::dropping {
using namespace probe::cleaning;
using storage::maintenance_storage;

bool a_dropped_table_is_deleted(E e, E other) {
    if (e == other) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.add(other, "t2", "k2");
    entries->reserve_delete_entry(e);
    auto r = maintenance_storage();
    return r.size() == 1 && r[0] == "t1" && deleted.size() == 1 && deleted[0] == "k1" && g.there(e) == 0 && g.there(other) == 1 && entries->find_by_name("t2") == other;
}
bool a_table_that_was_not_dropped_stays(E e, E other) {
    if (e == other) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.index(other, "i1", "k2", e);
    auto r = maintenance_storage();
    return r.empty() && deleted.empty() && g.there(e) == 1 && g.there(other) == 1;
}
bool a_table_in_use_stays_until_it_is_not(E e) {
    engine g{};
    g.add(e, "t1", "k1");
    auto first = std::make_unique<storage::reference_scope>(*entries);
    auto second = std::make_unique<storage::reference_scope>(*entries);
    first->add_storage(e);
    second->add_storage(e);
    second->add_storage(e);
    entries->reserve_delete_entry(e);
    if (! maintenance_storage().empty() || ! deleted.empty() || g.there(e) != 1) { return false; }
    second = nullptr;
    if (! maintenance_storage().empty() || ! deleted.empty() || g.there(e) != 1) { return false; }
    first = nullptr;
    return maintenance_storage().size() == 1 && g.gone("k1") == 1 && g.there(e) == 0;
}
bool an_index_of_a_table_in_use_stays_until_it_is_not(E e, E i) {
    if (e == i) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.index(i, "i1", "k2", e);
    auto use = std::make_unique<storage::reference_scope>(*entries);
    use->add_storage(e);
    entries->reserve_delete_entry(i);
    if (! maintenance_storage().empty() || ! deleted.empty() || g.there(i) != 1) { return false; }
    use = nullptr;
    return maintenance_storage().size() == 1 && g.gone("k2") == 1 && g.gone("k1") == 0 && g.there(i) == 0 && g.there(e) == 1;
}
bool an_index_is_deleted_with_its_table(E e, E i) {
    if (e == i) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.index(i, "i1", "k2", e);
    entries->reserve_delete_entry(e);
    entries->reserve_delete_entry(i);
    auto r = maintenance_storage();
    return r.size() == 2 && g.gone("k1") == 1 && g.gone("k2") == 1 && g.there(e) == 0 && g.there(i) == 0;
}
bool an_index_without_its_table_is_deleted(E i, E e, int known) {
    if (e == i) { return true; }
    engine g{};
    if (known != 0) {
        g.index(i, "i1", "k2", e);
    } else {
        entries->add_entry(i, "i1", "k2", false);
    }
    entries->reserve_delete_entry(i);
    auto r = maintenance_storage();
    return r.size() == 1 && g.gone("k2") == 1 && g.there(i) == 0;
}
bool what_cannot_be_deleted_is_tried_again(E e, E other, status why) {
    if (e == other || why == status::ok || why == status::not_found) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.add(other, "t2", "k2");
    entries->reserve_delete_entry(e);
    entries->reserve_delete_entry(other);
    failing = "k1";
    fails_with = why;
    auto r = maintenance_storage();
    if (r.size() != 1 || r[0] != "t2" || g.gone("k1") != 0 || g.gone("k2") != 1 || g.there(e) != 1 || g.there(other) != 0) { return false; }
    failing = "none";
    r = maintenance_storage();
    return r.size() == 1 && r[0] == "t1" && g.gone("k1") == 1 && g.gone("k2") == 1 && g.there(e) == 0 && maintenance_storage().empty() && g.gone("k1") == 1;
}
bool what_is_gone_already_is_forgotten(E e, int how) {
    engine g{};
    g.add(e, "t1", "k1");
    entries->reserve_delete_entry(e);
    if (how != 0) {
        missing = "k1";
    } else {
        failing = "k1";
        fails_with = status::not_found;
    }
    auto r = maintenance_storage();
    return r.size() == 1 && g.gone("k1") == 0 && g.there(e) == 0;
}
bool nothing_is_deleted_while_stopping(E e) {
    engine g{};
    g.add(e, "t1", "k1");
    entries->reserve_delete_entry(e);
    std::atomic_bool stop{true};
    auto r = maintenance_storage(&stop);
    if (! r.empty() || ! deleted.empty() || g.there(e) != 1) { return false; }
    stop = false;
    return maintenance_storage(&stop).size() == 1 && g.gone("k1") == 1 && g.there(e) == 0;
}
bool a_new_table_of_the_same_name_is_left_alone(E e, E fresh) {
    if (e == fresh) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    entries->reserve_delete_entry(e);
    g.add(fresh, "t1", "k2");
    auto r = maintenance_storage();
    return r.size() == 1 && deleted.size() == 1 && deleted[0] == "k1" && g.there(e) == 0 && g.there(fresh) == 1 && entries->find_by_name("t1") == fresh && entries->get_storage_key("t1") == "k2";
}
bool a_table_without_a_key_is_deleted_by_its_name(E e) {
    engine g{};
    entries->add_entry(e, "t1", std::nullopt, true);
    entries->reserve_delete_entry(e);
    auto r = maintenance_storage();
    return r.size() == 1 && r[0] == "t1" && deleted.size() == 1 && deleted[0] == "t1" && g.there(e) == 0;
}
bool a_table_dropped_before_a_restart_is_deleted(E e, E live) {
    if (e == live) { return true; }
    engine g{};
    entries->add_entry(e, std::nullopt, "k1", true, std::nullopt, "t1");
    g.add(live, "t1", "k2");
    auto r = maintenance_storage();
    return r.size() == 1 && r[0] == "t1" && deleted.size() == 1 && deleted[0] == "k1" && g.there(e) == 0 && g.there(live) == 1 && entries->find_by_name("t1") == live;
}
bool a_dropped_table_has_no_name_but_its_key(E e, int keyless) {
    engine g{};
    if (keyless != 0) {
        entries->add_entry(e, "t1", std::nullopt, true);
    } else {
        g.add(e, "t1", "k1");
    }
    auto key = keyless != 0 ? "t1" : "k1";
    if (entries->get_index_name(key) != S{"t1"} || entries->get_storage_key("t1") != S{key} || entries->find_by_name("t1") != e) { return false; }
    if (! entries->reserve_delete_entry(e)) { return false; }
    auto c = entries->find_entry(e);
    return ! entries->get_index_name(key).has_value() && ! entries->get_storage_key("t1").has_value() && ! entries->find_by_name("t1").has_value()
        && c->derived_storage_key() == key && c->original_name() == "t1";
}
bool what_is_removed_is_known_by_nothing(E e, E other) {
    if (e == other) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.add(other, "t2", "k2");
    if (! entries->remove_entry(e) || entries->remove_entry(e)) { return false; }
    return g.there(e) == 0 && ! entries->find_by_name("t1").has_value() && ! entries->get_storage_key("t1").has_value() && ! entries->get_index_name("k1").has_value()
        && g.there(other) == 1 && entries->find_by_name("t2") == other && entries->get_index_name("k2") == S{"t2"} && entries->get_storage_key("t2") == S{"k2"};
}
bool nothing_unknown_is_dropped(E e, E other) {
    if (e == other) { return true; }
    engine g{};
    g.add(other, "t2", "k2");
    if (entries->reserve_delete_entry(e) || entries->remove_entry(e)) { return false; }
    return maintenance_storage().empty() && deleted.empty() && g.there(other) == 1 && entries->find_by_name("t2") == other;
}
bool an_index_dropped_with_its_table_waits_for_its_users(E e, E i) {
    if (e == i) { return true; }
    engine g{};
    g.add(e, "t1", "k1");
    g.index(i, "i1", "k2", e);
    auto use = std::make_unique<storage::reference_scope>(*entries);
    use->add_storage(e);
    entries->reserve_delete_entry(i);
    entries->reserve_delete_entry(e);
    if (! maintenance_storage().empty() || ! deleted.empty() || g.there(i) != 1 || g.there(e) != 1) { return false; }
    use = nullptr;
    auto r = maintenance_storage();
    return r.size() == 2 && g.gone("k1") == 1 && g.gone("k2") == 1 && g.there(e) == 0 && g.there(i) == 0;
}
}
