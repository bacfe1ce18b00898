// Analysed only, never compiled or run: contracts over stop watches.
#include "jogasaki/utils/watch.h"
#include "jogasaki/utils/performance_tools.h"

namespace probe::watch {
using W = jogasaki::utils::watch;
using P = W::point_in_code;
using TP = W::Clock::time_point;

bool the_base_is_taken_when_made() { W w{}; auto t = W::Clock::now(); return w.base() <= t; }
bool no_point_names_the_base() { W w{}; return w.view_first(W::npos) == w.base() && w.view_last(W::npos) == w.base(); }
bool an_unset_point_has_no_time(P p) { if (p >= W::num_points) { return true; } W w{}; return w.view_first(p) == TP{} && w.view_last(p) == TP{}; }
bool setting_a_point_tells_so(P p, std::size_t k) { if (p >= W::num_points) { return true; } W w{}; return w.set_point(p, k); }
bool a_point_set_again_keeps_its_time(P p, std::size_t k) {
    if (p >= W::num_points) { return true; }
    W w{};
    w.set_point(p, k);
    auto f = w.view_first(p);
    return ! w.set_point(p, k) && w.view_first(p) == f && w.view_last(p) == f;
}
bool a_certain_point_set_again_keeps_its_time(std::size_t k) {
    W w{};
    w.set_point(3, k);
    auto f = w.view_first(3);
    return ! w.set_point(3, k) && w.view_first(3) == f && w.view_last(3) == f;
}
bool a_point_has_the_time_it_was_set(P p, std::size_t k) {
    if (p >= W::num_points) { return true; }
    W w{};
    auto a = W::Clock::now();
    w.set_point(p, k);
    auto b = W::Clock::now();
    return a <= w.view_first(p) && w.view_first(p) <= b && w.view_last(p) == w.view_first(p);
}
bool other_points_are_not_affected(P p, P q, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q) { return true; }
    W w{};
    w.set_point(p, k);
    return w.view_first(q) == TP{} && w.view_last(q) == TP{};
}
bool the_first_of_two_workers_is_reported(P p, std::size_t j, std::size_t k) {
    if (p >= W::num_points || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    auto a = w.view_first(p);
    auto m = W::Clock::now();
    w.set_point(p, k);
    return w.view_first(p) == a && w.view_last(p) >= m;
}
bool points_of_two_workers_are_set_separately(P p, std::size_t j, std::size_t k) {
    if (p >= W::num_points || j == k) { return true; }
    W w{};
    return w.set_point(p, j) && w.set_point(p, k) && ! w.set_point(p, j) && ! w.set_point(p, k);
}
bool a_restart_forgets_the_points(P p, std::size_t k) {
    if (p >= W::num_points) { return true; }
    W w{};
    w.set_point(p, k);
    auto b = W::Clock::now();
    w.restart();
    return w.view_first(p) == TP{} && w.base() >= b && w.set_point(p, k);
}
bool a_duration_is_from_the_first_begin_to_the_last_end(P p, P q, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(p, k);
    w.set_point(q, j);
    w.set_point(q, k);
    return w.duration(p, q) == static_cast<std::size_t>(std::chrono::duration_cast<W::Duration>(w.view_last(q) - w.view_first(p)).count());
}
bool a_complementary_duration_is_from_the_last_begin_to_the_first_end(P p, P q, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(p, k);
    w.set_point(q, j);
    w.set_point(q, k);
    return w.duration(p, q, true) == static_cast<std::size_t>(std::chrono::duration_cast<W::Duration>(w.view_first(q) - w.view_last(p)).count());
}
bool one_worker_s_average_is_its_duration(P p, P q, std::size_t j) {
    if (p >= W::num_points || q >= W::num_points || p == q) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(q, j);
    return w.average_duration(p, q) == w.duration(p, q);
}
bool no_worker_means_no_average(P p, P q) {
    if (p >= W::num_points || q >= W::num_points) { return true; }
    W w{};
    return w.average_duration(p, q) == 0;
}
bool there_is_a_duration_for_each_worker(P p, P q, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(q, j);
    auto one = w.durations(p, q);
    if (one->size() != 1 || (*one)[0] != w.duration(p, q)) { return false; }
    w.set_point(p, k);
    w.set_point(q, k);
    auto two = w.durations(p, q);
    return two->size() == 2 && ((*two)[0] + (*two)[1]) / 2 == w.average_duration(p, q);
}
bool workers_without_the_point_do_not_count(P p, P q, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q || j == k) { return true; }
    W w{};
    w.set_point(q, k);
    w.set_point(p, j);
    auto a = w.view_first(p);
    return a != TP{} && w.view_last(p) == a;
}
bool workers_without_both_points_have_no_part_in_the_average(P p, P q, P r, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || r >= W::num_points || p == q || p == r || q == r || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(q, j);
    w.set_point(r, k);
    return w.average_duration(p, q) == w.duration(p, q) && w.durations(p, q)->size() == 1;
}
bool a_worker_s_missing_end_is_the_last_of_the_others(P p, P q, std::size_t j, std::size_t k) {
    if (p >= W::num_points || q >= W::num_points || p == q || j == k) { return true; }
    W w{};
    w.set_point(p, j);
    w.set_point(p, k);
    w.set_point(q, k);
    auto one = static_cast<std::size_t>(std::chrono::duration_cast<W::Duration>(w.view_last(q) - w.view_first(p)).count());
    auto ds = w.durations(p, q);
    return ds->size() == 2 && ((*ds)[0] == one || (*ds)[1] == one) && ((*ds)[0] + (*ds)[1]) / 2 == w.average_duration(p, q);
}
bool the_text_tells_total_and_average(P p, P q, std::string_view label) {
    if (p >= W::num_points || q >= W::num_points || p == q) { return true; }
    W w{};
    w.set_point(p, 0);
    w.set_point(q, 0);
    return jogasaki::utils::textualize(w, p, q, label) ==
        std::string{label} + ": total " + std::to_string(w.duration(p, q)) + "ms, average " + std::to_string(w.average_duration(p, q)) + "ms";
}
}
