// Analysed only, never compiled or run: contracts over key-value service records and options.
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "jogasaki/api/kvsservice/transaction_option.h"
#include "jogasaki/api/kvsservice/transaction_state.h"
#include "jogasaki/api/kvsservice/mapped_record.h"

namespace probe { template <class T> bool identical(T const& a, T const& b); }

namespace probe::kvs {
using namespace jogasaki::api::kvsservice;
using O = transaction_option;
using T = enum transaction_type;
using P = enum transaction_priority;
using A = table_areas;
using R = tateyama::proto::kvs::data::Record;
using V = tateyama::proto::kvs::data::Value;
using S = std::string;


bool default_option() { O o{}; return o.type() == T::unspecified && o.priority() == P{} && o.label().empty() && ! o.modifies_definitions() && o.write_preserves().empty() && o.inclusive_read_areas().empty() && o.exclusive_read_areas().empty(); }
bool option_of_type_and_areas(T t, A w) { A k{w}; O o{t, w}; return o.type() == t && o.write_preserves() == k && o.priority() == P{} && o.label().empty() && ! o.modifies_definitions() && o.inclusive_read_areas().empty() && o.exclusive_read_areas().empty(); }
bool priority_changes_priority_only(O const& a, P p) { O o{a}; o.priority(p); return o.priority() == p && o.type() == a.type() && o.label() == a.label() && o.modifies_definitions() == a.modifies_definitions() && o.write_preserves() == a.write_preserves() && o.inclusive_read_areas() == a.inclusive_read_areas() && o.exclusive_read_areas() == a.exclusive_read_areas(); }
bool label_changes_label_only(O const& a, std::string_view p) { O o{a}; o.label(p); return o.label() == p && o.type() == a.type() && o.priority() == a.priority() && o.modifies_definitions() == a.modifies_definitions() && o.write_preserves() == a.write_preserves() && o.inclusive_read_areas() == a.inclusive_read_areas() && o.exclusive_read_areas() == a.exclusive_read_areas(); }
bool modifies_definitions_changes_that_only(O const& a, bool p) { O o{a}; o.modifies_definitions(p); return o.modifies_definitions() == p && o.type() == a.type() && o.priority() == a.priority() && o.label() == a.label() && o.write_preserves() == a.write_preserves() && o.inclusive_read_areas() == a.inclusive_read_areas() && o.exclusive_read_areas() == a.exclusive_read_areas(); }
bool inclusive_read_areas_changes_that_only(O const& a, A p) { A k{p}; O o{a}; o.inclusive_read_areas(p); return o.inclusive_read_areas() == k && o.type() == a.type() && o.priority() == a.priority() && o.label() == a.label() && o.write_preserves() == a.write_preserves() && o.modifies_definitions() == a.modifies_definitions() && o.exclusive_read_areas() == a.exclusive_read_areas(); }
bool exclusive_read_areas_changes_that_only(O const& a, A p) { A k{p}; O o{a}; o.exclusive_read_areas(p); return o.exclusive_read_areas() == k && o.type() == a.type() && o.priority() == a.priority() && o.label() == a.label() && o.write_preserves() == a.write_preserves() && o.modifies_definitions() == a.modifies_definitions() && o.inclusive_read_areas() == a.inclusive_read_areas(); }
bool a_copied_option_is_the_same(O const& a) { O o{a}; return o.type() == a.type() && o.priority() == a.priority() && o.label() == a.label() && o.write_preserves() == a.write_preserves() && o.modifies_definitions() == a.modifies_definitions() && o.inclusive_read_areas() == a.inclusive_read_areas() && o.exclusive_read_areas() == a.exclusive_read_areas(); }
bool the_last_setting_counts(std::string_view k, std::string_view l, A a, A b, P p, P q, bool m, bool n) {
    A c{a};
    A e{b};
    O o{};
    o.label(k);
    o.inclusive_read_areas(a);
    o.exclusive_read_areas(b);
    o.priority(p);
    o.modifies_definitions(m);
    o.label(l);
    o.inclusive_read_areas(e);
    o.exclusive_read_areas(c);
    o.priority(q);
    o.modifies_definitions(n);
    return o.label() == l && o.inclusive_read_areas() == e && o.exclusive_read_areas() == c && o.priority() == q && o.modifies_definitions() == n;
}
bool the_last_read_areas_count() {
    O o{};
    o.inclusive_read_areas(A{"a"});
    o.exclusive_read_areas(A{"b"});
    o.inclusive_read_areas(A{"c", "d"});
    o.exclusive_read_areas(A{"e", "f"});
    return o.inclusive_read_areas() == A{"c", "d"} && o.exclusive_read_areas() == A{"e", "f"};
}
bool a_column_with_a_nul_in_its_name_is_found(V const& x, V const& y) {
    R r{};
    r.add_names(S("a\0b", 3));
    *r.add_values() = x;
    r.add_names(S("a", 1));
    *r.add_values() = y;
    mapped_record m{r};
    auto* p = m.get_value(S("a\0b", 3));
    auto* q = m.get_value(S("a", 1));
    return p != nullptr && q != nullptr && identical(*p, x) && identical(*q, y);
}
bool names_are_told_apart_by_case_and_length(V const& x) {
    R r{};
    r.add_names("Col");
    *r.add_values() = x;
    mapped_record m{r};
    return m.get_value("Col") != nullptr && m.get_value("col") == nullptr && m.get_value("Co") == nullptr && m.get_value("Col ") == nullptr && m.get_value("") == nullptr;
}
bool state_keeps_its_kind(transaction_state::state_kind k) { transaction_state s{k}; return s.kind() == k; }
bool default_state_is_unknown() { transaction_state s{}; return s.kind() == transaction_state::state_kind::unknown; }

bool nothing_is_found_in_an_empty_record(S const& c) { R r{}; mapped_record m{r}; return m.get_value(c) == nullptr; }
bool nothing_is_found_without_a_record(S const& c) { mapped_record m{}; return m.get_value(c) == nullptr; }
bool one_column_is_found_by_its_name(S const& a, S const& c, V const& x) {
    R r{};
    r.add_names(a);
    *r.add_values() = x;
    mapped_record m{r};
    auto* p = m.get_value(c);
    return c == a ? p != nullptr && identical(*p, x) : p == nullptr;
}
bool two_columns_are_found_by_their_names(S const& a, S const& b, S const& c, V const& x, V const& y) {
    if (a == b) { return true; }
    R r{};
    r.add_names(a);
    *r.add_values() = x;
    r.add_names(b);
    *r.add_values() = y;
    mapped_record m{r};
    auto* p = m.get_value(c);
    if (c == a) { return p != nullptr && identical(*p, x); }
    if (c == b) { return p != nullptr && identical(*p, y); }
    return p == nullptr;
}
bool three_columns_are_found_by_their_names(S const& a, S const& b, S const& d, S const& c, V const& x, V const& y, V const& z) {
    if (a == b || b == d || a == d) { return true; }
    R r{};
    r.add_names(a);
    r.add_names(b);
    r.add_names(d);
    *r.add_values() = x;
    *r.add_values() = y;
    *r.add_values() = z;
    mapped_record m{r};
    auto* p = m.get_value(c);
    if (c == a) { return p != nullptr && identical(*p, x); }
    if (c == b) { return p != nullptr && identical(*p, y); }
    if (c == d) { return p != nullptr && identical(*p, z); }
    return p == nullptr;
}
}
