// Analysed only, never compiled or run: contracts over the registry of storages and the locks on them.
#include <cstdint>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include "jogasaki/storage/storage_manager.h"
#include "jogasaki/storage/reference_scope.h"

namespace probe {
// from here on other threads lock and release what is shared between any two steps
void others_act();
std::size_t changes();
jogasaki::storage::impl::lock_state before();
jogasaki::storage::impl::lock_state after();
std::uint64_t number_before();
std::uint64_t number_after();
}

namespace probe::control {
using jogasaki::storage::impl::storage_control;
using jogasaki::storage::impl::lock_state;

int sound(lock_state s) { return ! (s.write_locked && s.read_lock_count != 0) && s.read_lock_count < 1000; }
int same(lock_state a, lock_state b) { return a.write_locked == b.write_locked && a.read_lock_count == b.read_lock_count; }

bool an_exclusive_lock_needs_a_free_storage(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s)) { return true; }
    bool free = ! s.write_locked && s.read_lock_count == 0;
    bool can = c.can_lock();
    bool ok = c.lock();
    auto t = c.state_.load();
    return can == free && ok == free && t.write_locked == (free || s.write_locked) && t.read_lock_count == s.read_lock_count;
}
bool a_shared_lock_needs_no_exclusive_one(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s)) { return true; }
    bool free = ! s.write_locked;
    bool can = c.can_lock_shared();
    bool ok = c.lock_shared();
    auto t = c.state_.load();
    return can == free && ok == free && t.write_locked == s.write_locked && t.read_lock_count == s.read_lock_count + (free ? 1 : 0);
}
bool releasing_undoes_an_exclusive_lock(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s) || ! c.lock()) { return true; }
    c.release();
    return same(c.state_.load(), s) && c.can_lock();
}
bool releasing_undoes_one_shared_lock(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s) || ! c.lock_shared()) { return true; }
    c.release_shared();
    return same(c.state_.load(), s);
}
bool readers_keep_a_writer_out_until_the_last_has_left(storage_control& c) {
    auto s = c.state_.load();
    if (s.write_locked || s.read_lock_count != 0) { return true; }
    c.lock_shared();
    c.lock_shared();
    bool first = ! c.can_lock() && ! c.lock();
    c.release_shared();
    bool second = ! c.can_lock() && ! c.lock();
    c.release_shared();
    return first && second && c.lock();
}
bool a_writer_keeps_everyone_out(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s) || ! c.lock()) { return true; }
    return ! c.can_lock() && ! c.lock() && ! c.can_lock_shared() && ! c.lock_shared();
}
bool releasing_what_is_not_held_exclusively_is_refused(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s) || s.write_locked) { return true; }
    try {
        c.release();
    } catch (...) {
        return same(c.state_.load(), s);
    }
    return false;
}
bool releasing_what_is_not_shared_is_refused(storage_control& c) {
    auto s = c.state_.load();
    if (! sound(s) || s.read_lock_count != 0) { return true; }
    try {
        c.release_shared();
    } catch (...) {
        return same(c.state_.load(), s);
    }
    return false;
}

// other threads lock and release the same storage meanwhile
bool an_exclusive_lock_is_taken_in_one_step(storage_control& c) {
    others_act();
    bool ok = c.lock();
    if (! ok) { return changes() == 0; }
    return changes() == 1 && ! before().write_locked && before().read_lock_count == 0 && after().write_locked && after().read_lock_count == 0;
}
bool a_shared_lock_is_taken_in_one_step(storage_control& c) {
    others_act();
    bool ok = c.lock_shared();
    if (! ok) { return changes() == 0; }
    return changes() == 1 && ! before().write_locked && ! after().write_locked && after().read_lock_count == before().read_lock_count + 1;
}
bool an_exclusive_lock_is_released_in_one_step(storage_control& c) {
    others_act();
    try {
        c.release();
    } catch (...) {
        return changes() == 0;
    }
    return changes() == 1 && before().write_locked && ! after().write_locked && after().read_lock_count == before().read_lock_count;
}
bool a_shared_lock_is_released_in_one_step(storage_control& c) {
    others_act();
    try {
        c.release_shared();
    } catch (...) {
        return changes() == 0;
    }
    return changes() == 1 && ! after().write_locked && after().read_lock_count == before().read_lock_count - 1;
}

bool a_storage_knows_what_it_was_made_of(std::string name, std::string original, std::uint64_t owner) {
    storage_control p{name};
    storage_control s{name, false, owner};
    storage_control gone{std::nullopt, true, std::nullopt, original};
    return p.name() == name && p.original_name() == name && p.is_primary() && ! p.primary_entry()
        && s.name() == name && ! s.is_primary() && s.primary_entry() == owner
        && ! gone.name() && gone.original_name() == original
        && p.ref_transaction_count() == 0 && ! p.delete_reserved() && ! p.storage_key();
}
bool the_key_of_a_storage_is_its_own_or_its_name(std::string name, std::string original, std::string key) {
    storage_control p{name};
    bool first = p.derived_storage_key() == name;
    p.storage_key(key);
    bool second = p.derived_storage_key() == key && p.storage_key() == key;
    storage_control gone{std::nullopt, true, std::nullopt, original};
    return first && second && gone.derived_storage_key() == original;
}
bool the_original_name_outlives_the_name(std::string name, std::uint64_t owner) {
    storage_control p{name, false};
    p.name(std::nullopt);
    p.primary_entry(owner);
    p.delete_reserved(true);
    bool set = p.delete_reserved();
    p.delete_reserved(false);
    return ! p.name() && p.original_name() == name && p.primary_entry() == owner && set && ! p.delete_reserved();
}
bool a_reference_is_counted_in_one_step(storage_control& c) {
    others_act();
    c.increment_ref_transaction_count();
    bool up = changes() == 1 && number_after() == number_before() + 1;
    c.decrement_ref_transaction_count();
    return up && changes() == 2 && number_after() == number_before() - 1;
}
bool references_are_counted_up_and_down(storage_control& c) {
    auto n = c.ref_transaction_count();
    if (n > 1000) { return true; }
    c.increment_ref_transaction_count();
    auto one = c.ref_transaction_count();
    c.increment_ref_transaction_count();
    c.decrement_ref_transaction_count();
    auto two = c.ref_transaction_count();
    c.decrement_ref_transaction_count();
    return one == n + 1 && two == n + 1 && c.ref_transaction_count() == n;
}
}

namespace probe::registry {
using jogasaki::storage::storage_manager;
using E = std::uint64_t;
using S = std::string_view;

bool a_storage_is_found_under_its_name_and_number(E e, S name) {
    storage_manager m{};
    bool ok = m.add_entry(e, name);
    auto c = m.find_entry(e);
    return ok && c && c->name() == name && c->original_name() == name && c->is_primary() && ! c->delete_reserved() && ! c->primary_entry()
        && m.find_by_name(name) == e && m.size() == 1;
}
bool without_a_key_the_name_is_the_key(E e, S name) {
    storage_manager m{};
    m.add_entry(e, name);
    return m.get_storage_key(name) == name && m.get_index_name(name) == name && ! m.find_entry(e)->storage_key();
}
bool names_and_keys_lead_to_each_other(E e, S name, S key) {
    storage_manager m{};
    m.add_entry(e, name, key);
    return m.get_storage_key(name) == key && m.get_index_name(key) == name && m.find_entry(e)->storage_key() == key;
}
bool a_secondary_storage_knows_its_owner(E e, E owner, S name) {
    storage_manager m{};
    bool ok = m.add_entry(e, name, std::nullopt, false, owner);
    auto c = m.find_entry(e);
    return ok && ! c->is_primary() && c->primary_entry() == owner;
}
bool two_storages_are_kept_apart(E e, E f, S a, S b, S ka, S kb) {
    if (e == f || a == b || ka == kb) { return true; }
    storage_manager m{};
    m.add_entry(e, a, ka);
    m.add_entry(f, b, kb);
    return m.size() == 2 && m.find_by_name(a) == e && m.find_by_name(b) == f && m.get_storage_key(a) == ka && m.get_storage_key(b) == kb
        && m.get_index_name(ka) == a && m.get_index_name(kb) == b && m.find_entry(e)->name() == a && m.find_entry(f)->name() == b;
}
bool a_number_is_taken_once(E e, S a, S b) {
    if (a == b) { return true; }
    storage_manager m{};
    m.add_entry(e, a);
    bool again = m.add_entry(e, b);
    return ! again && m.size() == 1 && m.find_entry(e)->name() == a && m.find_by_name(a) == e && ! m.find_by_name(b) && ! m.get_index_name(b);
}
bool what_was_never_added_is_not_found(E e, E f, S a, S b) {
    if (e == f || a == b) { return true; }
    storage_manager m{};
    m.add_entry(e, a);
    return ! m.find_entry(f) && ! m.find_by_name(b) && ! m.get_storage_key(b) && ! m.get_index_name(b) && ! m.remove_entry(f) && ! m.reserve_delete_entry(f)
        && m.size() == 1 && m.find_by_name(a) == e;
}
bool a_removed_storage_is_gone_and_the_others_are_not(E e, E f, S a, S b, S ka, S kb) {
    if (e == f || a == b || ka == kb) { return true; }
    storage_manager m{};
    m.add_entry(e, a, ka);
    m.add_entry(f, b, kb);
    bool ok = m.remove_entry(e);
    return ok && m.size() == 1 && ! m.find_entry(e) && ! m.find_by_name(a) && ! m.get_storage_key(a) && ! m.get_index_name(ka)
        && m.find_entry(f) && m.find_by_name(b) == f && m.get_index_name(kb) == b && ! m.remove_entry(e);
}
bool a_name_is_free_again_after_removal(E e, E f, S a) {
    storage_manager m{};
    m.add_entry(e, a);
    m.remove_entry(e);
    bool ok = m.add_entry(f, a);
    return ok && m.find_by_name(a) == f && m.get_storage_key(a) == a && m.get_index_name(a) == a && m.size() == 1;
}
bool a_storage_reserved_for_deletion_has_no_name(E e, S a, S k) {
    storage_manager m{};
    m.add_entry(e, a, k);
    bool ok = m.reserve_delete_entry(e);
    auto c = m.find_entry(e);
    return ok && c && c->delete_reserved() && ! c->name() && c->original_name() == a && c->derived_storage_key() == k
        && ! m.find_by_name(a) && ! m.get_storage_key(a) && ! m.get_index_name(k) && m.size() == 1;
}
bool a_storage_without_a_key_keeps_its_name_as_the_key(E e, S a) {
    storage_manager m{};
    m.add_entry(e, a);
    m.reserve_delete_entry(e);
    return m.find_entry(e)->derived_storage_key() == a && m.find_entry(e)->storage_key() == a && ! m.find_by_name(a) && ! m.get_index_name(a);
}
bool a_name_is_free_again_after_a_reservation(E e, E f, S a, S ka, S kb) {
    if (e == f || ka == kb) { return true; }
    storage_manager m{};
    m.add_entry(e, a, ka);
    m.reserve_delete_entry(e);
    bool ok = m.add_entry(f, a, kb);
    bool taken = m.find_by_name(a) == f && m.get_storage_key(a) == kb && m.get_index_name(kb) == a && ! m.get_index_name(ka);
    bool removed = m.remove_entry(e);
    return ok && taken && removed && m.find_by_name(a) == f && m.get_storage_key(a) == kb && m.get_index_name(kb) == a && ! m.get_index_name(ka)
        && ! m.find_entry(e) && m.find_entry(f) && m.size() == 1;
}
bool removing_a_reserved_storage_keeps_the_key_of_its_successor(E e, E f, S a, S k) {
    // the older storage had its name for a key, which the newer one of another number is then given
    if (e == f || a == k) { return true; }
    storage_manager m{};
    m.add_entry(e, a, k);
    m.reserve_delete_entry(e);
    m.remove_entry(e);
    m.add_entry(f, a, k);
    return ! m.remove_entry(e) && m.get_index_name(k) == a && m.find_by_name(a) == f;
}
bool reserved_storages_are_listed_until_removed(E e, E f, S a, S b) {
    if (e == f || a == b) { return true; }
    storage_manager m{};
    m.add_entry(e, a);
    m.add_entry(f, b);
    auto none = m.get_delete_reserved_entries();
    m.reserve_delete_entry(f);
    auto one = m.get_delete_reserved_entries();
    auto again = m.get_delete_reserved_entries();
    m.reserve_delete_entry(e);
    auto both = m.get_delete_reserved_entries();
    m.remove_entry(f);
    auto left = m.get_delete_reserved_entries();
    return none.empty() && one.size() == 1 && one[0] == f && again.size() == 1 && again[0] == f
        && both.size() == 2 && (both[0] == e && both[1] == f || both[0] == f && both[1] == e) && left.size() == 1 && left[0] == e;
}
bool a_storage_found_reserved_at_the_start_is_listed(E e, S original, S key) {
    storage_manager m{};
    bool ok = m.add_entry(e, std::nullopt, key, true, std::nullopt, original);
    auto c = m.find_entry(e);
    auto l = m.get_delete_reserved_entries();
    return ok && c->delete_reserved() && ! c->name() && c->original_name() == original && c->derived_storage_key() == key
        && ! m.find_by_name(original) && ! m.get_index_name(key) && l.size() == 1 && l[0] == e;
}
bool nothing_is_left_after_clearing(E e, E f, S a, S k, S b) {
    storage_manager m{};
    m.add_entry(e, a, k);
    m.add_entry(f, std::nullopt, std::nullopt, true, std::nullopt, b);
    m.clear();
    return m.size() == 0 && ! m.find_entry(e) && ! m.find_entry(f) && ! m.find_by_name(a) && ! m.get_storage_key(a) && ! m.get_index_name(k)
        && ! m.get_index_name(b) && m.get_delete_reserved_entries().empty();
}
bool after_clearing_everything_can_be_added_anew(E e, E f, S a, S k) {
    storage_manager m{};
    m.add_entry(e, a, k);
    m.clear();
    bool ok = m.add_entry(f, std::nullopt, k, true, std::nullopt, a);
    auto l = m.get_delete_reserved_entries();
    return ok && l.size() == 1 && l[0] == f && m.size() == 1;
}
bool after_clearing_names_and_keys_are_free(E e, E f, S a, S k) {
    storage_manager m{};
    m.add_entry(e, a, k);
    m.clear();
    return m.add_entry(f, a, k) && m.find_by_name(a) == f && m.get_index_name(k) == a && m.get_storage_key(a) == k;
}
bool a_surrogate_id_is_taken_in_one_step(storage_manager& m) {
    others_act();
    auto id = m.generate_surrogate_id();
    return changes() == 1 && number_before() == id && number_after() == id + 1;
}
bool surrogate_ids_are_never_handed_out_twice(storage_manager& m, E from) {
    if (from > 1000000) { return true; }
    m.init_next_surrogate_id(from);
    auto a = m.generate_surrogate_id();
    auto b = m.generate_surrogate_id();
    return a == from && b == from + 1;
}
}

namespace probe::locks {
using namespace jogasaki::storage;
using impl::lock_state;
using E = std::uint64_t;
using N = std::size_t;

struct world {
    storage_manager m{};
    explicit world(E a) { m.add_entry(a, "a"); }
    world(E a, E b) { m.add_entry(a, "a"); m.add_entry(b, "b"); }
    void put(E e, bool w, N r) {
        lock_state s{};
        s.write_locked = w;
        s.read_lock_count = r;
        m.find_entry(e)->state_ = s;
    }
    int is(E e, bool w, N r) {
        auto s = m.find_entry(e)->state_.load();
        return s.write_locked == w && s.read_lock_count == r;
    }
};
int sound(bool w, N r) { return ! (w && r != 0) && r < 1000; }

bool one_storage_is_locked_and_released(E a, bool w, N r) {
    if (! sound(w, r)) { return true; }
    world x{a};
    x.put(a, w, r);
    bool free = ! w && r == 0;
    bool inside = false;
    {
        auto l = x.m.create_unique_lock();
        bool ok = x.m.add_locked_storages(storage_list{a}, *l);
        inside = ok == free && x.is(a, w || ok, r) && l->storage().size() == (ok ? 1 : 0) && l->storage().contains(a) == ok;
    }
    return inside && x.is(a, w, r);
}
bool all_are_locked_or_none(E a, E b, bool w, N r, bool v, N q) {
    if (a == b || ! sound(w, r) || ! sound(v, q)) { return true; }
    world x{a, b};
    x.put(a, w, r);
    x.put(b, v, q);
    bool free = ! w && r == 0 && ! v && q == 0;
    bool inside = false;
    {
        auto l = x.m.create_unique_lock();
        bool ok = x.m.add_locked_storages(storage_list{a, b}, *l);
        inside = ok == free && x.is(a, w || ok, r) && x.is(b, v || ok, q) && l->storage().size() == (ok ? 2 : 0)
            && l->storage().contains(a) == ok && l->storage().contains(b) == ok;
    }
    return inside && x.is(a, w, r) && x.is(b, v, q);
}
bool an_unknown_storage_cannot_be_locked(E a, E b) {
    if (a == b) { return true; }
    world x{a};
    auto l = x.m.create_unique_lock();
    bool first = x.m.add_locked_storages(storage_list{a, b}, *l);
    bool second = x.m.add_locked_storages(storage_list{b, a}, *l);
    auto s = x.m.create_shared_lock(storage_list{a, b});
    return ! first && ! second && ! s && x.is(a, false, 0) && l->storage().size() == 0;
}
bool a_lock_grows_by_what_it_does_not_hold(E a, E b, bool v, N q) {
    if (a == b || ! sound(v, q)) { return true; }
    world x{a, b};
    x.put(b, v, q);
    bool free = ! v && q == 0;
    bool inside = false;
    {
        auto l = x.m.create_unique_lock();
        x.m.add_locked_storages(storage_list{a}, *l);
        bool ok = x.m.add_locked_storages(storage_list{a, b}, *l);
        inside = ok == free && x.is(a, true, 0) && x.is(b, v || ok, q) && l->storage().contains(a) && l->storage().contains(b) == ok
            && l->storage().size() == (ok ? 2 : 1);
    }
    return inside && x.is(a, false, 0) && x.is(b, v, q);
}
bool two_locks_never_hold_the_same_storage(E a) {
    world x{a};
    auto l = x.m.create_unique_lock();
    auto k = x.m.create_unique_lock();
    bool first = x.m.add_locked_storages(storage_list{a}, *l);
    bool second = x.m.add_locked_storages(storage_list{a}, *k);
    auto s = x.m.create_shared_lock(storage_list{a});
    return first && ! second && ! s && k->storage().size() == 0 && x.is(a, true, 0);
}
bool part_of_a_lock_is_released_early(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    bool inside = false;
    {
        auto l = x.m.create_unique_lock();
        x.m.add_locked_storages(storage_list{a, b}, *l);
        x.m.remove_locked_storages(storage_list{a}, *l);
        inside = x.is(a, false, 0) && x.is(b, true, 0) && l->storage().size() == 1 && l->storage().contains(b) && ! l->storage().contains(a);
        x.put(a, true, 0);      // someone else's
    }
    return inside && x.is(a, true, 0) && x.is(b, false, 0);
}
bool one_of_a_lock_is_released_early(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    bool inside = false;
    {
        auto l = x.m.create_unique_lock();
        x.m.add_locked_storages(storage_list{a, b}, *l);
        l->release_storage(b);
        l->release_storage(b);
        inside = x.is(a, true, 0) && x.is(b, false, 0) && l->storage().size() == 1 && l->storage().contains(a);
        x.put(b, false, 3);     // readers of someone else
    }
    return inside && x.is(a, false, 0) && x.is(b, false, 3);
}
bool what_a_lock_does_not_hold_is_not_released_through_it(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    x.put(b, true, 0);
    auto l = x.m.create_unique_lock();
    x.m.add_locked_storages(storage_list{a}, *l);
    l->release_storage(b);
    return x.is(b, true, 0) && x.is(a, true, 0) && l->storage().size() == 1;
}
bool a_shared_lock_counts_and_uncounts(E a, E b, bool w, N r, bool v, N q) {
    if (a == b || ! sound(w, r) || ! sound(v, q)) { return true; }
    world x{a, b};
    x.put(a, w, r);
    x.put(b, v, q);
    bool free = ! w && ! v;
    bool inside = false;
    {
        auto s = x.m.create_shared_lock(storage_list{a, b});
        inside = static_cast<bool>(s) == free && x.is(a, w, r + (free ? 1 : 0)) && x.is(b, v, q + (free ? 1 : 0))
            && (! s || s->storage().size() == 2 && s->storage().contains(a) && s->storage().contains(b));
    }
    return inside && x.is(a, w, r) && x.is(b, v, q);
}
bool a_storage_listed_twice_is_counted_and_uncounted_alike(E a, N r) {
    if (r > 1000) { return true; }
    world x{a};
    x.put(a, false, r);
    bool inside = false;
    {
        auto s = x.m.create_shared_lock(storage_list{a, a});
        inside = static_cast<bool>(s);
    }
    return inside && x.is(a, false, r);
}
bool what_the_caller_holds_itself_is_not_locked_again(E a, E b, bool v, N q) {
    if (a == b || ! sound(v, q)) { return true; }
    world x{a, b};
    x.put(b, v, q);
    auto l = x.m.create_unique_lock();
    x.m.add_locked_storages(storage_list{a}, *l);
    bool inside = false;
    {
        auto s = x.m.create_shared_lock(storage_list{a, b}, l.get());
        inside = static_cast<bool>(s) == ! v && x.is(a, true, 0) && x.is(b, v, q + (v ? 0 : 1)) && (! s || s->storage().size() == 1 && s->storage().contains(b));
    }
    return inside && x.is(a, true, 0) && x.is(b, v, q) && l->storage().size() == 1;
}
bool a_storage_removed_meanwhile_is_passed_over(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    {
        auto l = x.m.create_unique_lock();
        x.m.add_locked_storages(storage_list{a, b}, *l);
        x.m.remove_entry(a);
    }
    return x.is(b, false, 0) && ! x.m.find_entry(a);
}
bool a_failed_attempt_leaves_a_lock_as_it_was(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    x.put(b, false, 1);
    auto l = x.m.create_unique_lock();
    x.m.add_locked_storages(storage_list{a}, *l);
    bool ok = x.m.add_locked_storages(storage_list{b}, *l);
    return ! ok && l->storage().size() == 1 && l->storage().contains(a) && x.is(a, true, 0) && x.is(b, false, 1);
}

bool a_transaction_counts_a_storage_once(E a, E b, E unknown) {
    if (a == b || a == unknown || b == unknown) { return true; }
    world x{a, b};
    auto ca = x.m.find_entry(a);
    auto cb = x.m.find_entry(b);
    bool inside = false;
    {
        reference_scope s{x.m};
        s.add_storage(a);
        s.add_storage(a);
        s.add_storage(unknown);
        bool one = ca->ref_transaction_count() == 1 && cb->ref_transaction_count() == 0;
        s.add_storage(b);
        inside = one && ca->ref_transaction_count() == 1 && cb->ref_transaction_count() == 1;
    }
    return inside && ca->ref_transaction_count() == 0 && cb->ref_transaction_count() == 0;
}
bool every_transaction_counts(E a) {
    world x{a};
    auto c = x.m.find_entry(a);
    bool inside = false;
    reference_scope s{x.m};
    s.add_storage(a);
    {
        reference_scope t{x.m};
        t.add_storage(a);
        inside = c->ref_transaction_count() == 2;
    }
    return inside && c->ref_transaction_count() == 1;
}
bool a_storage_removed_meanwhile_is_not_uncounted(E a, E b) {
    if (a == b) { return true; }
    world x{a, b};
    auto ca = x.m.find_entry(a);
    auto cb = x.m.find_entry(b);
    {
        reference_scope s{x.m};
        s.add_storage(a);
        s.add_storage(b);
        x.m.remove_entry(a);
    }
    return cb->ref_transaction_count() == 0;
}

bool a_list_keeps_what_was_added(E a, E b, E c) {
    if (a == b || a == c || b == c) { return true; }
    storage_list l{};
    l.add(a);
    l.add(b);
    storage_list_view v{l};
    bool first = l.size() == 2 && v.contains(a) && v.contains(b) && ! v.contains(c) && v.size() == 2;
    bool none = ! l.remove(c) && l.size() == 2;
    bool one = l.remove(a) && l.size() == 1 && l.entries()[0] == b;
    return first && none && one && ! storage_list_view{l}.contains(a);
}
bool lists_are_equal_when_their_elements_are(E a, E b, E c, E d) {
    storage_list l{a, b}, k{c, d}, s{a};
    return (storage_list_view{l} == storage_list_view{k}) == (a == c && b == d) && (storage_list_view{l} != storage_list_view{k}) == ! (a == c && b == d)
        && storage_list_view{l} != storage_list_view{s} && storage_list_view{l} == storage_list_view{l};
}
}
