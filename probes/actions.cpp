// Analysed only, never compiled or run: contracts over granted actions.
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include "jogasaki/auth/action_kind.h"
#include "jogasaki/auth/action_set.h"
#include "jogasaki/auth/authorized_users_action_set.h"
#include "jogasaki/storage/storage_manager.h"

namespace probe::actions {
using jogasaki::auth::action_kind;
using jogasaki::auth::action_set;
using jogasaki::auth::authorized_users_action_set;
using jogasaki::storage::impl::storage_control;
using A = action_kind;
constexpr A control = action_kind::control;
using S = std::string_view;



bool a_granted_action_is_allowed_and_no_other(A a, A b) {
    if (a == b || a == control) { return true; }
    action_set s{};
    s.add_action(a);
    return s.action_allowed(a) && ! s.action_allowed(b) && s.has_action(a) && ! s.has_action(b) && ! s.empty();
}
bool nothing_is_allowed_at_first(A a) {
    action_set s{};
    return s.empty() && ! s.action_allowed(a) && ! s.has_action(a);
}
bool granted_actions_add_up(A a, A b, A c) {
    if (a == control || b == control || c == control || a == b || c == a || c == b) { return true; }
    action_set s{};
    s.add_action(a);
    s.add_action(b);
    s.add_action(a);
    return s.action_allowed(a) && s.action_allowed(b) && ! s.action_allowed(c);
}
bool control_allows_everything(A a, A b) {
    action_set s{};
    s.add_action(a);
    s.add_action(control);
    s.add_action(b);
    action_set only{control};
    return s.action_allowed(a) && s.action_allowed(b) && s.action_allowed(control) && s.has_action(control) && s == only;
}
bool a_revoked_action_is_not_allowed(A a, A b) {
    if (a == b || a == control || b == control) { return true; }
    action_set s{a, b};
    s.remove_action(a);
    return ! s.action_allowed(a) && s.action_allowed(b) && ! s.empty();
}
bool revoking_what_was_not_granted_changes_nothing(A a, A b) {
    if (a == b || a == control || b == control) { return true; }
    action_set s{b};
    s.remove_action(a);
    return ! s.action_allowed(a) && s.action_allowed(b);
}
bool revoking_control_revokes_everything(A a, A b) {
    action_set s{a, b};
    s.remove_action(control);
    return s.empty() && ! s.action_allowed(a) && ! s.action_allowed(b);
}
bool revoking_one_action_keeps_control(A a, A b) {
    if (a == control) { return true; }
    action_set s{control};
    s.remove_action(a);
    return s.action_allowed(control) && s.action_allowed(a) && s.action_allowed(b);
}
bool sets_are_granted_and_revoked_as_a_whole(A a, A b, A c) {
    if (a == control || b == control || c == control || a == b || c == a || c == b) { return true; }
    action_set s{c};
    s.add_actions(action_set{a, b});
    bool added = s.action_allowed(a) && s.action_allowed(b) && s.action_allowed(c);
    s.remove_actions(action_set{a, b});
    return added && ! s.action_allowed(a) && ! s.action_allowed(b) && s.action_allowed(c);
}
bool a_set_allows_what_it_allows_one_by_one(A a, A b, A c, A d) {
    action_set s{a, b};
    return s.allows(action_set{c, d}) == (s.action_allowed(c) && s.action_allowed(d)) && s.allows(action_set{}) && action_set{}.allows(action_set{});
}
bool a_cleared_set_allows_nothing(A a, A b) {
    action_set s{a};
    s.clear();
    return s.empty() && ! s.action_allowed(a) && ! s.action_allowed(b);
}

bool sets_are_equal_when_they_allow_the_same(A a, A b, A c) {
    if (a == b || a == c || b == c) { return true; }
    action_set s{a, b};
    action_set same{b, a};
    action_set other{a, c};
    action_set less{a};
    if (a == control || b == control || c == control) { return s == same && ! (s != same); }
    return s == same && ! (s != same) && s != other && ! (s == other) && s != less && less != s;
}
bool forgetting_every_user_revokes_everything(S u, S v, A a) {
    if (u == v) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a});
    s.add_user_actions(v, action_set{a});
    s.clear();
    return s.user_count() == 0 && ! s.find_user_actions(u).action_allowed(a) && s.find_user_actions(v).empty();
}
bool grants_are_kept_per_user(S u, S v, A a) {
    if (u == v) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a});
    return s.find_user_actions(u).action_allowed(a) && ! s.find_user_actions(v).action_allowed(a) && s.find_user_actions(v).empty() && s.user_count() == 1;
}
bool grants_to_a_user_add_up(S u, S v, A a, A b) {
    if (u == v || a == control || b == control || a == b) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a});
    s.add_user_actions(u, action_set{b});
    s.add_user_actions(v, action_set{b});
    return s.find_user_actions(u).action_allowed(a) && s.find_user_actions(u).action_allowed(b) && ! s.find_user_actions(v).action_allowed(a)
        && s.find_user_actions(v).action_allowed(b) && s.user_count() == 2;
}
bool granting_nothing_makes_no_user(S u) {
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{});
    return s.user_count() == 0;
}
bool revoking_touches_one_user_only(S u, S v, A a, A b) {
    if (u == v || a == control || b == control || a == b) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a, b});
    s.add_user_actions(v, action_set{a, b});
    s.remove_user_action(u, a);
    return ! s.find_user_actions(u).action_allowed(a) && s.find_user_actions(u).action_allowed(b) && s.find_user_actions(v).action_allowed(a) && s.user_count() == 2;
}
bool a_user_without_actions_is_forgotten(S u, S v, A a, A b) {
    if (u == v) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a});
    s.add_user_actions(v, action_set{b});
    s.remove_user_action(u, a);
    return s.user_count() == 1 && s.find_user_actions(u).empty() && s.find_user_actions(v).action_allowed(b);
}
bool several_actions_are_revoked_at_once(S u, A a, A b, A c) {
    if (a == control || b == control || c == control || a == b || c == a || c == b) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a, b, c});
    s.remove_user_actions(u, action_set{a, c});
    bool left = s.find_user_actions(u).action_allowed(b) && ! s.find_user_actions(u).action_allowed(a) && ! s.find_user_actions(u).action_allowed(c);
    s.remove_user_actions(u, action_set{b, c});
    return left && s.user_count() == 0;
}
bool all_of_a_user_is_revoked_at_once(S u, S v, A a, A b) {
    if (u == v) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(u, action_set{a, b});
    s.add_user_actions(v, action_set{a});
    s.remove_user_all_actions(u);
    return s.find_user_actions(u).empty() && ! s.find_user_actions(u).action_allowed(a) && s.find_user_actions(v).action_allowed(a) && s.user_count() == 1;
}
bool revoking_from_an_unknown_user_changes_nothing(S u, S v, A a) {
    if (u == v) { return true; }
    authorized_users_action_set s{};
    s.add_user_actions(v, action_set{a});
    s.remove_user_action(u, a);
    s.remove_user_all_actions(u);
    return s.user_count() == 1 && s.find_user_actions(v).action_allowed(a);
}

bool a_storage_allows_what_the_user_or_the_public_is_granted(S u, S v, A a, A b, A wanted) {
    if (u == v) { return true; }
    storage_control c{std::string{"t"}};
    c.authorized_actions().add_user_actions(u, action_set{a});
    c.public_actions().add_action(b);
    bool by_user = a == control || a == wanted;
    bool by_public = b == control || b == wanted;
    return c.allows_user_actions(u, action_set{wanted}) == (by_user || by_public) && c.allows_user_actions(v, action_set{wanted}) == by_public;
}
bool a_storage_has_to_allow_every_action(S u, A a, A b, A x, A y) {
    storage_control c{std::string{"t"}};
    c.authorized_actions().add_user_actions(u, action_set{a});
    c.public_actions().add_action(b);
    return c.allows_user_actions(u, action_set{x, y}) == (c.allows_user_actions(u, action_set{x}) && c.allows_user_actions(u, action_set{y}));
}
bool a_storage_allows_nothing_at_first(S u, A a) {
    storage_control c{std::string{"t"}};
    return ! c.allows_user_actions(u, action_set{a}) && c.allows_user_actions(u, action_set{});
}
}
