// Analysed only, never compiled or run: contracts over numeric helpers.
#include <cstddef>
#include <cstdint>
#include <vector>
#include <jogasaki/utils/hash_combine.h>
#include <jogasaki/utils/split_mix64.h>
#include "jogasaki/utils/round.h"
#include "jogasaki/utils/subtract_vectors.h"

namespace probe::numeric_use {
using jogasaki::utils::round_down_to_power_of_two;
using jogasaki::utils::round_up_to_power_of_two;
std::size_t down(std::size_t v) { return round_down_to_power_of_two(v); }
std::size_t up(std::size_t v) { return round_up_to_power_of_two(v); }
bool power(std::size_t v) { return jogasaki::utils::is_power_of_two(v); }
std::uint64_t mix(std::uint64_t v) { return jogasaki::utils::split_mix64(v); }
std::uint64_t combine(std::uint64_t a, std::uint64_t b) { return jogasaki::utils::hash_combine(a, b); }
}

namespace probe::numeric {
using V = std::vector<long>;
using jogasaki::utils::subtract_vectors;

bool nothing_taken_leaves_everything(long a, long b) {
    if (a >= b) { return true; }
    return subtract_vectors(V{a, b}, V{}) == V{a, b} && subtract_vectors(V{b, a}, V{}) == V{a, b};
}
bool nothing_is_left_of_nothing(long a) { return subtract_vectors(V{}, V{a}).empty() && subtract_vectors(V{}, V{}).empty(); }
bool everything_can_be_taken(long a, long b) { return subtract_vectors(V{a, b}, V{b, a}).empty() && subtract_vectors(V{a}, V{a}).empty(); }
bool others_are_left(long a, long b) {
    if (a == b) { return true; }
    return subtract_vectors(V{a, b}, V{a}) == V{b} && subtract_vectors(V{a, b}, V{b}) == V{a};
}
bool what_is_not_there_is_not_taken(long a, long b) {
    if (a == b) { return true; }
    return subtract_vectors(V{a}, V{b}) == V{a};
}
bool one_of_two_equal_ones_is_left(long a) { return subtract_vectors(V{a, a}, V{a}) == V{a}; }
bool two_of_three_equal_ones_are_left(long a) { return subtract_vectors(V{a, a, a}, V{a}) == V{a, a}; }
bool many_equal_ones_are_counted(long a, long b) {
    if (a >= b) { return true; }
    V x(20, a);
    x.emplace_back(b);
    return subtract_vectors(x, V(7, a)).size() == 14 && subtract_vectors(x, V(20, a)) == V{b} && subtract_vectors(V(3, a), V(20, a)).empty();
}
bool no_more_are_taken_than_there_are(long a) { return subtract_vectors(V{a}, V{a, a}).empty() && subtract_vectors(V{a, a}, V{a, a, a, a}).empty(); }
bool taking_too_many_of_one_leaves_another(long a, long b) {
    if (a == b) { return true; }
    return subtract_vectors(V{a, b}, V{a, a, a}) == V{b};
}
bool the_rest_is_in_ascending_order(long a, long b, long x) {
    if (a >= b || x == a || x == b) { return true; }
    return subtract_vectors(V{b, x, a}, V{x}) == V{a, b};
}
bool equal_ones_stay_together(long a, long b) {
    if (a >= b) { return true; }
    return subtract_vectors(V{a, b, a, b}, V{b}) == V{a, a, b};
}
}
