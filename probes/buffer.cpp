// Analysed only, never compiled or run: contracts over aligned buffers.
#include "jogasaki/data/aligned_buffer.h"

namespace probe { bool aligned_to(void const* block, std::size_t alignment); }

namespace probe::buffer {
using jogasaki::data::aligned_buffer;
using S = std::string_view;

bool a_new_buffer_is_empty() { aligned_buffer b{}; return b.size() == 0 && b.capacity() == 0 && b.alignment() == 1 && b.empty() && ! static_cast<bool>(b); }
bool a_buffer_has_the_given_capacity_and_alignment(std::size_t n, std::size_t a) {
    aligned_buffer b{n, a};
    return b.capacity() == n && b.alignment() == a && b.size() == 0 && b.empty() && static_cast<bool>(b) == (n != 0);
}
bool a_buffer_made_from_text_has_the_text(S s) {
    aligned_buffer b{s};
    return static_cast<S>(b) == s && b.size() == s.size() && b.empty() == s.empty();
}
bool a_buffer_made_from_text_has_its_capacity(S s) { aligned_buffer b{s}; return b.capacity() == s.size() && b.alignment() == 1; }
bool resizing_sets_the_size(S s, std::size_t n) { aligned_buffer b{s}; b.resize(n); return b.size() == n && static_cast<S>(b).size() == n && b.empty() == (n == 0); }
bool growing_keeps_the_contents(S s, std::size_t n) {
    if (n < s.size()) { return true; }
    aligned_buffer b{s};
    b.resize(n);
    return static_cast<S>(b).substr(0, s.size()) == s;
}
bool growing_extends_the_capacity(S s, std::size_t n) {
    aligned_buffer b{s};
    b.resize(n);
    return b.capacity() == (n > s.size() ? n : s.size());
}
bool growing_within_the_capacity_keeps_it(std::size_t n, std::size_t a, std::size_t m) {
    aligned_buffer b{n, a};
    b.resize(m);
    return b.capacity() == (m > n ? m : n) && b.alignment() == a && b.size() == m;
}
bool growing_twice_keeps_the_contents(S s, std::size_t n, std::size_t m) {
    if (n < s.size() || m < n) { return true; }
    aligned_buffer b{s};
    b.resize(n);
    b.resize(m);
    return static_cast<S>(b).substr(0, s.size()) == s && b.size() == m;
}
bool shrinking_keeps_the_remaining_contents(S s, std::size_t n) {
    if (n > s.size()) { return true; }
    aligned_buffer b{s};
    b.resize(n);
    return static_cast<S>(b) == s.substr(0, n);
}
bool shrinking_keeps_the_alignment(std::size_t n, std::size_t a, std::size_t m) {
    if (m > n) { return true; }
    aligned_buffer b{n, a};
    b.resize(m);
    b.shrink_to_fit();
    return b.alignment() == a && b.size() == m && b.capacity() == m;
}
bool shrinking_to_fit_keeps_the_contents(S s, std::size_t n) {
    if (n > s.size()) { return true; }
    aligned_buffer b{s};
    b.resize(n);
    b.shrink_to_fit();
    return static_cast<S>(b) == s.substr(0, n) && b.capacity() == n && b.size() == n;
}
bool shrinking_an_empty_buffer_leaves_no_capacity(std::size_t n) {
    aligned_buffer b{n};
    b.shrink_to_fit();
    return b.capacity() == 0 && ! static_cast<bool>(b);
}
bool assigned_text_replaces_the_contents(S s, S t) { aligned_buffer b{s}; b.assign(t); return static_cast<S>(b) == t && b.size() == t.size(); }
bool assigned_text_extends_the_capacity_if_needed(S s, S t) {
    aligned_buffer b{s};
    b.assign(t);
    return b.capacity() == (t.size() > s.size() ? t.size() : s.size());
}
bool assigned_contents_are_copied(S s, S t) {
    aligned_buffer b{s};
    aligned_buffer o{t};
    b.assign(o);
    return static_cast<S>(b) == t && static_cast<S>(o) == t && b.data() != o.data();
}
bool assigning_keeps_the_alignment(std::size_t n, std::size_t a, S t) {
    aligned_buffer b{n, a};
    b.assign(t);
    return b.alignment() == a && static_cast<S>(b) == t;
}
bool assigning_a_buffer_keeps_the_alignment(std::size_t n, std::size_t a, std::size_t m, std::size_t k) {
    aligned_buffer b{n, a};
    aligned_buffer o{m, k};
    b.assign(o);
    return b.alignment() == a && o.alignment() == k && b.size() == 0 && b.capacity() == n;
}
bool assigning_returns_the_buffer(S s, S t) {
    aligned_buffer b{s};
    aligned_buffer o{t};
    return &b.assign(t) == &b && &b.assign(o) == &b;
}
bool the_copy_does_not_follow_the_original(S s, S t) {
    aligned_buffer o{s};
    aligned_buffer b{};
    b.assign(o);
    o.assign(t);
    return static_cast<S>(b) == s && static_cast<S>(o) == t;
}
bool moving_takes_the_contents(S s) {
    aligned_buffer a{s};
    aligned_buffer b{std::move(a)};
    return static_cast<S>(b) == s && b.capacity() == s.size() && b.alignment() == 1;
}
bool moving_takes_the_alignment(std::size_t n, std::size_t k) {
    aligned_buffer a{n, k};
    aligned_buffer b{std::move(a)};
    return b.capacity() == n && b.alignment() == k && b.size() == 0;
}
bool moving_leaves_nothing(S s) {
    aligned_buffer a{s};
    aligned_buffer b{std::move(a)};
    return a.size() == 0 && a.capacity() == 0 && a.empty() && ! static_cast<bool>(a);
}
bool move_assignment_takes_the_contents(S s, S t) {
    aligned_buffer a{s};
    aligned_buffer b{t};
    b = std::move(a);
    return static_cast<S>(b) == s && b.size() == s.size() && b.capacity() == s.size();
}
bool move_assignment_takes_the_alignment(std::size_t n, std::size_t k, std::size_t m, std::size_t l) {
    aligned_buffer a{n, k};
    aligned_buffer b{m, l};
    b = std::move(a);
    return b.capacity() == n && b.alignment() == k && b.size() == 0;
}
bool move_assignment_leaves_nothing(S s, S t) {
    aligned_buffer a{s};
    aligned_buffer b{t};
    b = std::move(a);
    return a.size() == 0 && a.capacity() == 0 && a.empty() && ! static_cast<bool>(a);
}
bool move_assignment_to_itself_changes_nothing(S s) {
    aligned_buffer a{s};
    aligned_buffer& r = a;
    a = std::move(r);
    return static_cast<S>(a) == s && a.capacity() == s.size();
}
bool a_moved_from_buffer_can_be_assigned(S s, S t) {
    aligned_buffer a{s};
    aligned_buffer b{std::move(a)};
    a.assign(t);
    return static_cast<S>(a) == t && static_cast<S>(b) == s;
}
bool a_moved_from_buffer_can_be_resized(S s, std::size_t n) {
    aligned_buffer a{s};
    aligned_buffer b{std::move(a)};
    a.resize(n);
    return a.size() == n && static_cast<S>(b) == s;
}
bool data_is_aligned(std::size_t n, std::size_t a, std::size_t m) {
    aligned_buffer b{n, a};
    if (! probe::aligned_to(b.data(), a)) { return false; }
    b.resize(m);
    if (! probe::aligned_to(b.data(), a)) { return false; }
    b.shrink_to_fit();
    return probe::aligned_to(b.data(), a);
}
bool assigned_data_is_aligned(std::size_t n, std::size_t a, S t) {
    aligned_buffer b{n, a};
    b.assign(t);
    return probe::aligned_to(b.data(), a);
}
bool a_buffer_equals_itself(S s) { aligned_buffer a{s}; return a == a && ! (a != a); }
} // namespace probe::buffer
