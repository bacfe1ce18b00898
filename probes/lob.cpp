// Analysed only, never compiled or run: contracts over arbitrary large object references.
#include "jogasaki/lob/blob_locator.h"
#include "jogasaki/lob/blob_reference.h"
#include "jogasaki/lob/clob_locator.h"
#include "jogasaki/lob/clob_reference.h"
#include "jogasaki/lob/lob_reference.h"

namespace probe::lob {
using namespace jogasaki::lob;
using K = lob_reference_kind;
using P = lob_data_provider;
inline lob_reference const& as_base(lob_reference const& r) { return r; }

#define REF_CONTRACTS(R) \
bool R##_default_is_undefined() { R r{}; return r.kind() == K::undefined && r.object_id() == 0 && r.provider() == P::undefined && r.locator() == nullptr && ! as_base(r).reference_tag().has_value(); } \
bool R##_of_a_locator_is_provided(lob_locator const& l) { R r{l}; return r.kind() == K::provided && r.locator() == &l && r.object_id() == 0 && r.provider() == P::undefined && ! as_base(r).reference_tag().has_value(); } \
bool R##_of_an_identifier_is_fetched_from_the_datastore(lob_id_type id) { R r{id}; return r.kind() == K::fetched && r.object_id() == id && r.provider() == P::datastore && r.locator() == nullptr && ! as_base(r).reference_tag().has_value(); } \
bool R##_of_identifier_and_provider_is_resolved(lob_id_type id, P p) { R r{id, p}; return r.kind() == K::resolved && r.object_id() == id && r.provider() == p && r.locator() == nullptr && ! as_base(r).reference_tag().has_value(); } \
bool R##_tag_is_kept_and_changes_nothing_else(R const& a, std::optional<lob_reference_tag_type> t) { R r{a}; r.reference_tag(t); \
    return as_base(r).reference_tag() == t && r.kind() == a.kind() && r.object_id() == a.object_id() && r.provider() == a.provider() && r.locator() == a.locator(); } \
bool R##_copy_keeps_everything(R const& a) { R r{a}; \
    return as_base(r).reference_tag() == as_base(a).reference_tag() && r.kind() == a.kind() && r.object_id() == a.object_id() && r.provider() == a.provider() && r.locator() == a.locator() && r == a; } \
bool R##_assignment_keeps_everything(R const& a, R b) { b = a; \
    return as_base(b).reference_tag() == as_base(a).reference_tag() && b.kind() == a.kind() && b.object_id() == a.object_id() && b.provider() == a.provider() && b.locator() == a.locator(); }

REF_CONTRACTS(lob_reference)
REF_CONTRACTS(blob_reference)
REF_CONTRACTS(clob_reference)

bool different_kinds_are_different(lob_reference const& a, lob_reference const& b) { return a.kind() == b.kind() || ! (a == b); }
bool undefined_references_are_equal(lob_reference const& a, lob_reference const& b) { return a.kind() != K::undefined || b.kind() != K::undefined || a == b; }
bool provided_references_are_equal_by_locator(lob_reference const& a, lob_reference const& b) {
    if (a.kind() != K::provided || b.kind() != K::provided) { return true; }
    return (a == b) == (a.locator() == b.locator());
}
bool fetched_references_are_equal_by_identifier_and_provider(lob_reference const& a, lob_reference const& b) {
    if (a.kind() != K::fetched || b.kind() != K::fetched) { return true; }
    return (a == b) == (a.object_id() == b.object_id() && a.provider() == b.provider());
}
bool resolved_references_are_equal_by_identifier_and_provider(lob_reference const& a, lob_reference const& b) {
    if (a.kind() != K::resolved || b.kind() != K::resolved) { return true; }
    return (a == b) == (a.object_id() == b.object_id() && a.provider() == b.provider());
}
bool unequal_is_the_opposite_of_equal(lob_reference const& a, lob_reference const& b) { return (a != b) == ! (a == b); }
bool a_reference_equals_itself(lob_reference const& a) { return a == a; }

bool locator_keeps_path_and_ownership(std::string p, bool t) { lob_locator l{p, t}; return l.path() == p && l.is_temporary() == t; }
bool blob_locator_keeps_path_and_ownership(std::string p, bool t) { blob_locator l{p, t}; return l.path() == p && l.is_temporary() == t; }
bool clob_locator_keeps_path_and_ownership(std::string p, bool t) { clob_locator l{p, t}; return l.path() == p && l.is_temporary() == t; }
bool locators_are_equal_by_path_and_ownership(lob_locator const& a, lob_locator const& b) { return (a == b) == (a.path() == b.path() && a.is_temporary() == b.is_temporary()); }
bool locators_unequal_is_the_opposite(lob_locator const& a, lob_locator const& b) { return (a != b) == ! (a == b); }
}
