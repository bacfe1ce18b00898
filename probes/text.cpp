// Analysed only, never compiled or run: contracts over variable-length values.
#include <sstream>
#include "jogasaki/accessor/text.h"
#include "jogasaki/accessor/binary.h"
#include "jogasaki/data/binary_string_value.h"

namespace probe { bool owned_by(void const* object, void const* resource); }

namespace probe::text {
using jogasaki::accessor::text;
using jogasaki::accessor::binary;
using jogasaki::data::binary_string_value;
using S = std::string_view;
using R = jogasaki::memory::paged_memory_resource;

bool a_new_text_is_empty() { text t{}; return t.size() == 0 && t.empty() && ! static_cast<bool>(t) && static_cast<S>(t).empty(); }
bool a_text_has_the_length_and_bytes_given(R* r, S s) {
    text t{r, s};
    return static_cast<S>(t) == s && t.size() == s.size() && t.empty() == s.empty() && static_cast<bool>(t) == ! s.empty();
}
bool a_text_has_the_length_and_bytes_at_the_address(R* r, S s) {
    text t{r, s.data(), s.size()};
    return static_cast<S>(t) == s && t.size() == s.size() && t.empty() == s.empty();
}
bool a_text_of_existing_data_has_its_length_and_bytes(S s) {
    text t{s};
    text u{s.data(), s.size()};
    return static_cast<S>(t) == s && t.size() == s.size() && static_cast<S>(u) == s && u.size() == s.size();
}
bool a_text_of_a_literal_has_all_of_it() {
    text t{"a\0b"};
    text u{"0123456789abcdef\0g"};
    return static_cast<S>(t) == S{"a\0b", 3} && static_cast<S>(u) == S{"0123456789abcdef\0g", 18} && t.is_short() && ! u.is_short();
}
bool a_short_text_is_inline(R* r, S s) { text t{r, s}; text u{s}; return t.is_short() == (s.size() <= 15) && u.is_short() == t.is_short(); }
bool a_text_turns_into_a_string_with_its_bytes(R* r, S s) { text t{r, s}; return static_cast<std::string>(t) == s; }
bool a_copy_of_a_text_has_its_length_and_bytes(R* r, R* q, S s) {
    text a{r, s};
    text b{q, a};
    return static_cast<S>(b) == s && b.size() == s.size() && static_cast<S>(a) == s;
}
bool a_copy_of_a_text_of_existing_data_has_its_length_and_bytes(R* r, S s) {
    text a{s};
    text b{r, a};
    return static_cast<S>(b) == s && b.size() == s.size();
}
bool a_text_lives_in_its_resource(R* r, S s) { text a{r, s}; return probe::owned_by(&a, r); }
bool a_text_copied_from_an_address_lives_in_its_resource(R* r, S s) { text a{r, s.data(), s.size()}; return probe::owned_by(&a, r); }
bool a_copy_of_a_text_lives_in_its_resource(R* r, R* q, S s) { text a{r, s}; text b{q, a}; return probe::owned_by(&b, q); }
bool a_copy_of_a_text_of_existing_data_lives_in_its_resource(R* q, S s) { text a{s}; text b{q, a}; return probe::owned_by(&b, q); }
bool two_texts_concatenated_live_in_the_resource(R* r, R* q, S s, S t) { text a{r, s}; text b{r, t}; text c{q, a, b}; return probe::owned_by(&c, q); }
bool two_texts_are_concatenated(R* r, S s, S t) {
    text a{r, s};
    text b{r, t};
    text c{r, a, b};
    auto v = static_cast<S>(c);
    return c.size() == s.size() + t.size() && v.substr(0, s.size()) == s && v.substr(s.size(), t.size()) == t;
}
bool two_texts_of_existing_data_are_concatenated(R* r, S s, S t) {
    text a{s};
    text b{t};
    text c{r, a, b};
    auto v = static_cast<S>(c);
    return c.size() == s.size() + t.size() && v.substr(0, s.size()) == s && v.substr(s.size(), t.size()) == t;
}
bool concatenation_leaves_both_texts(R* r, S s, S t) {
    text a{r, s};
    text b{r, t};
    text c{r, a, b};
    return static_cast<S>(a) == s && static_cast<S>(b) == t;
}
bool a_concatenated_text_is_inline_when_it_is_short(R* r, S s, S t) {
    text a{s};
    text b{t};
    text c{r, a, b};
    return c.is_short() == (s.size() + t.size() <= 15);
}
bool nothing_added_to_a_text_leaves_it(R* r, S s) {
    text a{r, s};
    text e{};
    text c{r, a, e};
    text d{r, e, c};
    return static_cast<S>(c) == s && static_cast<S>(d) == s;
}
bool texts_are_equal_when_their_bytes_are(R* r, S s, S t) {
    text a{r, s};
    text b{t};
    return (a == b) == (s == t) && (a != b) == (s != t);
}
bool comparison_of_texts_orders_them_like_their_bytes(R* r, S s, S t) {
    text a{r, s};
    text b{r, t};
    auto c = compare(a, b);
    auto e = s.compare(t);
    return (c < 0) == (e < 0) && (c > 0) == (e > 0);
}
bool texts_are_less_when_their_bytes_are(R* r, S s, S t) { text a{r, s}; text b{r, t}; return (a < b) == (s.compare(t) < 0); }
bool texts_are_greater_when_their_bytes_are(R* r, S s, S t) { text a{r, s}; text b{r, t}; return (a > b) == (s.compare(t) > 0); }
bool texts_are_not_greater_when_their_bytes_are_not(R* r, S s, S t) { text a{r, s}; text b{r, t}; return (a <= b) == (s.compare(t) <= 0); }
bool texts_are_not_less_when_their_bytes_are_not(R* r, S s, S t) { text a{r, s}; text b{r, t}; return (a >= b) == (s.compare(t) >= 0); }
bool texts_with_the_same_bytes_have_the_same_hash(R* r, S s) {
    text a{r, s};
    text b{s};
    text c{r, b};
    std::hash<jogasaki::accessor::text> h{};
    return h(a) == h(b) && h(a) == h(c);
}

bool a_text_prints_as_its_bytes(R* r, S s) {
    text a{r, s};
    std::stringstream out{};
    out << a << "|";
    return out.str() == (s.empty() ? std::string{"<empty>|"} : std::string{s} + "|");
}
bool a_new_binary_is_empty() { binary t{}; return t.size() == 0 && t.empty() && ! static_cast<bool>(t) && static_cast<S>(t).empty(); }
bool a_binary_has_the_length_and_bytes_given(R* r, S s) {
    binary t{r, s};
    return static_cast<S>(t) == s && t.size() == s.size() && t.empty() == s.empty() && static_cast<bool>(t) == ! s.empty();
}
bool a_binary_has_the_length_and_bytes_at_the_address(R* r, S s) {
    binary t{r, s.data(), s.size()};
    return static_cast<S>(t) == s && t.size() == s.size() && t.empty() == s.empty();
}
bool a_binary_of_existing_data_has_its_length_and_bytes(S s) {
    binary t{s};
    binary u{s.data(), s.size()};
    return static_cast<S>(t) == s && t.size() == s.size() && static_cast<S>(u) == s && u.size() == s.size();
}
bool a_binary_of_a_literal_has_all_of_it() {
    binary t{"a\0b"};
    binary u{"0123456789abcdef\0g"};
    return static_cast<S>(t) == S{"a\0b", 3} && static_cast<S>(u) == S{"0123456789abcdef\0g", 18} && t.is_short() && ! u.is_short();
}
bool a_short_binary_is_inline(R* r, S s) { binary t{r, s}; binary u{s}; return t.is_short() == (s.size() <= 15) && u.is_short() == t.is_short(); }
bool a_binary_turns_into_a_string_with_its_bytes(R* r, S s) { binary t{r, s}; return static_cast<std::string>(t) == s; }
bool a_copy_of_a_binary_has_its_length_and_bytes(R* r, R* q, S s) {
    binary a{r, s};
    binary b{q, a};
    return static_cast<S>(b) == s && b.size() == s.size() && static_cast<S>(a) == s;
}
bool a_copy_of_a_binary_of_existing_data_has_its_length_and_bytes(R* r, S s) {
    binary a{s};
    binary b{r, a};
    return static_cast<S>(b) == s && b.size() == s.size();
}
bool a_binary_lives_in_its_resource(R* r, S s) { binary a{r, s}; return probe::owned_by(&a, r); }
bool a_binary_copied_from_an_address_lives_in_its_resource(R* r, S s) { binary a{r, s.data(), s.size()}; return probe::owned_by(&a, r); }
bool a_copy_of_a_binary_lives_in_its_resource(R* r, R* q, S s) { binary a{r, s}; binary b{q, a}; return probe::owned_by(&b, q); }
bool a_copy_of_a_binary_of_existing_data_lives_in_its_resource(R* q, S s) { binary a{s}; binary b{q, a}; return probe::owned_by(&b, q); }
bool two_binaries_concatenated_live_in_the_resource(R* r, R* q, S s, S t) { binary a{r, s}; binary b{r, t}; binary c{q, a, b}; return probe::owned_by(&c, q); }
bool two_binaries_are_concatenated(R* r, S s, S t) {
    binary a{r, s};
    binary b{r, t};
    binary c{r, a, b};
    auto v = static_cast<S>(c);
    return c.size() == s.size() + t.size() && v.substr(0, s.size()) == s && v.substr(s.size(), t.size()) == t;
}
bool two_binaries_of_existing_data_are_concatenated(R* r, S s, S t) {
    binary a{s};
    binary b{t};
    binary c{r, a, b};
    auto v = static_cast<S>(c);
    return c.size() == s.size() + t.size() && v.substr(0, s.size()) == s && v.substr(s.size(), t.size()) == t;
}
bool concatenation_leaves_both_binaries(R* r, S s, S t) {
    binary a{r, s};
    binary b{r, t};
    binary c{r, a, b};
    return static_cast<S>(a) == s && static_cast<S>(b) == t;
}
bool a_concatenated_binary_is_inline_when_it_is_short(R* r, S s, S t) {
    binary a{s};
    binary b{t};
    binary c{r, a, b};
    return c.is_short() == (s.size() + t.size() <= 15);
}
bool nothing_added_to_a_binary_leaves_it(R* r, S s) {
    binary a{r, s};
    binary e{};
    binary c{r, a, e};
    binary d{r, e, c};
    return static_cast<S>(c) == s && static_cast<S>(d) == s;
}
bool binaries_are_equal_when_their_bytes_are(R* r, S s, S t) {
    binary a{r, s};
    binary b{t};
    return (a == b) == (s == t) && (a != b) == (s != t);
}
bool comparison_of_binaries_orders_them_like_their_bytes(R* r, S s, S t) {
    binary a{r, s};
    binary b{r, t};
    auto c = compare(a, b);
    auto e = s.compare(t);
    return (c < 0) == (e < 0) && (c > 0) == (e > 0);
}
bool binaries_are_less_when_their_bytes_are(R* r, S s, S t) { binary a{r, s}; binary b{r, t}; return (a < b) == (s.compare(t) < 0); }
bool binaries_are_greater_when_their_bytes_are(R* r, S s, S t) { binary a{r, s}; binary b{r, t}; return (a > b) == (s.compare(t) > 0); }
bool binaries_are_not_greater_when_their_bytes_are_not(R* r, S s, S t) { binary a{r, s}; binary b{r, t}; return (a <= b) == (s.compare(t) <= 0); }
bool binaries_are_not_less_when_their_bytes_are_not(R* r, S s, S t) { binary a{r, s}; binary b{r, t}; return (a >= b) == (s.compare(t) >= 0); }
bool binaries_with_the_same_bytes_have_the_same_hash(R* r, S s) {
    binary a{r, s};
    binary b{s};
    binary c{r, b};
    std::hash<jogasaki::accessor::binary> h{};
    return h(a) == h(b) && h(a) == h(c);
}

bool a_binary_string_has_the_bytes_given(S s) { binary_string_value v{s}; return v.str() == s; }
bool a_binary_string_has_the_bytes_of_the_string(std::string const& s) { binary_string_value v{std::string{s}}; return v.str() == s; }
bool a_new_binary_string_is_empty() { binary_string_value v{}; return v.str().empty(); }
bool a_copied_binary_string_has_the_same_bytes(S s) { binary_string_value v{s}; binary_string_value w{v}; return w.str() == s && v.str() == s; }
} // namespace probe::text
