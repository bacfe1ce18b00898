// Analysed only, never compiled or run: contracts over request statistics.
#include "jogasaki/request_statistics.h"

namespace probe::stats {
using namespace jogasaki;
using K = counter_kind;
using T = std::chrono::system_clock::time_point;

bool a_new_counter_has_no_value() { request_execution_counter c{}; return ! c.has_value() && ! c.count().has_value(); }
bool the_first_count_is_the_value(std::int64_t a) { request_execution_counter c{}; c.count(a); return c.has_value() && c.count() == std::optional<std::int64_t>{a}; }
bool counts_are_added(request_execution_counter c, std::int64_t a) {
    auto before = c.count();
    c.count(a);
    return c.has_value() && c.count().has_value() && *c.count() == (before.has_value() ? *before : 0) + a;
}
bool having_a_value_agrees_with_the_value(request_execution_counter const& c) { return c.has_value() == c.count().has_value(); }
bool a_copy_of_a_counter_has_its_value(request_execution_counter const& a) { request_execution_counter b{a}; return b.count() == a.count(); }
bool a_new_kind_has_no_value(K k) { request_statistics s{}; return ! s.counter(k).has_value(); }
bool a_kind_gets_what_is_counted_for_it(request_statistics s, K k, std::int64_t a) {
    auto before = s.counter(k).count();
    s.counter(k).count(a);
    auto after = s.counter(k).count();
    return after.has_value() && *after == (before.has_value() ? *before : 0) + a;
}
bool two_counts_of_a_kind_are_added(K k, std::int64_t a, std::int64_t b) {
    request_statistics s{};
    s.counter(k).count(a);
    s.counter(k).count(b);
    auto r = s.counter(k).count();
    return r.has_value() && *r == a + b;
}
bool other_kinds_are_not_affected(K k, K l, std::int64_t a) {
    if (k == l) { return true; }
    request_statistics s{};
    s.counter(k).count(a);
    return ! s.counter(l).has_value();
}
bool kinds_are_counted_separately(K k, K l, std::int64_t a, std::int64_t b) {
    if (k == l) { return true; }
    request_statistics s{};
    s.counter(k).count(a);
    s.counter(l).count(b);
    return s.counter(k).count() == std::optional<std::int64_t>{a} && s.counter(l).count() == std::optional<std::int64_t>{b};
}
bool the_duration_is_from_start_to_end(T a, T b) {
    request_statistics s{};
    s.start_time(a);
    s.end_time(b);
    return s.duration<std::chrono::nanoseconds>() == std::chrono::duration_cast<std::chrono::nanoseconds>(b - a);
}
bool the_duration_does_not_depend_on_the_order_of_setting(T a, T b) {
    request_statistics s{};
    s.end_time(b);
    s.start_time(a);
    return s.duration<std::chrono::nanoseconds>() == std::chrono::duration_cast<std::chrono::nanoseconds>(b - a);
}
bool nothing_is_visited_in_new_statistics() {
    request_statistics s{};
    int n = 0;
    s.each_counter([&](K, request_execution_counter const&) { ++n; });
    return n == 0;
}
bool a_recorded_kind_is_visited_with_its_value(K k, std::int64_t a) {
    request_statistics s{};
    s.counter(k).count(a);
    int n = 0;
    bool ok = true;
    s.each_counter([&](K l, request_execution_counter const& c) { ++n; ok = ok && l == k && c.count() == std::optional<std::int64_t>{a}; });
    return n == 1 && ok;
}
bool a_kind_asked_for_but_not_recorded_is_not_visited(K k) {
    request_statistics s{};
    (void) s.counter(k);
    int n = 0;
    s.each_counter([&](K, request_execution_counter const&) { ++n; });
    return n == 0;
}
bool a_recorded_kind_is_visited_whatever_was_asked_for_before(K k, K l, std::int64_t a) {
    if (k == l) { return true; }
    request_statistics s{};
    (void) s.counter(k);
    s.counter(l).count(a);
    int n = 0;
    int x = 0;
    s.each_counter([&](K m, request_execution_counter const& c) { ++n; if (m == l && c.count() == std::optional<std::int64_t>{a}) { ++x; } });
    return n == 1 && x == 1;
}
bool a_recorded_kind_is_visited_whatever_is_asked_for_later(K k, K l, std::int64_t a) {
    if (k == l) { return true; }
    request_statistics s{};
    s.counter(l).count(a);
    (void) s.counter(k);
    int n = 0;
    int x = 0;
    s.each_counter([&](K m, request_execution_counter const& c) { ++n; if (m == l && c.count() == std::optional<std::int64_t>{a}) { ++x; } });
    return n == 1 && x == 1;
}
bool every_recorded_kind_is_visited_once(K k, K l, std::int64_t a, std::int64_t b) {
    if (k == l) { return true; }
    request_statistics s{};
    s.counter(k).count(a);
    s.counter(l).count(b);
    int x = 0;
    int y = 0;
    int n = 0;
    s.each_counter([&](K m, request_execution_counter const& c) {
        ++n;
        if (m == k && c.count() == std::optional<std::int64_t>{a}) { ++x; }
        if (m == l && c.count() == std::optional<std::int64_t>{b}) { ++y; }
    });
    return n == 2 && x == 1 && y == 1;
}
}
