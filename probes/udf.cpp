// Analysed only, never compiled or run: contracts over function descriptors, versions, configuration and client context.
#include "jogasaki/udf/descriptor_impl.h"
#include "jogasaki/udf/error_info.h"
#include "jogasaki/udf/generic_client_context.h"
#include "jogasaki/udf/plugin_api.h"
#include "jogasaki/udf/udf_config.h"

namespace probe {
template<class T> bool identical(T const& a, T const& b);
}

namespace probe::udf {
using namespace plugin::udf;
using std::optional;
using std::string;
using std::string_view;
using C = column_descriptor_impl;
using OI = column_descriptor::oneof_index_type;
using sz = std::size_t;
namespace pu = plugin::udf;
using TK = pu::type_kind;
using FK = pu::function_kind;

// columns
bool a_column_keeps_its_position(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.index() == i; }
bool a_column_keeps_its_name(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return identical(c.column_name(), n); }
bool a_column_keeps_its_type(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.type_kind() == k; }
bool a_column_keeps_its_nested_record(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.nested() == r; }
bool a_column_keeps_its_group(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.oneof_index() == o; }
bool a_column_is_in_a_group_iff_it_was_given_one(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.has_oneof() == o.has_value(); }
bool a_column_keeps_its_group_name(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.oneof_name().has_value() == on.has_value() && (! on.has_value() || identical(*c.oneof_name(), *on)); }
bool a_column_keeps_its_optional_mark(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.proto3_optional() == p; }
bool a_column_is_optional_iff_marked_and_in_a_group(sz i, string_view n, TK k, record_descriptor* r, optional<OI> o, optional<string_view> on, bool p) { C c(i, n, k, r, o, on, p); return c.optional() == (p && o.has_value()); }
bool a_plain_column_has_no_extras(sz i, string_view n, TK k) { C c(i, n, k); return c.nested() == nullptr && ! c.has_oneof() && ! c.oneof_index() && ! c.oneof_name() && ! c.optional() && ! c.proto3_optional(); }

// records
bool a_record_keeps_its_name(string_view n, std::vector<column_descriptor*> const& v) { record_descriptor_impl r(n, v); return identical(r.record_name(), n); }
bool a_record_keeps_its_columns(string_view n, std::vector<column_descriptor*> const& v) { record_descriptor_impl r(n, v); return identical(r.columns(), v); }

// functions
bool a_function_keeps_its_position(sz i, string_view n, FK k, record_descriptor_impl* a, record_descriptor_impl* b) { function_descriptor_impl f(i, n, k, a, b); return f.function_index() == i; }
bool a_function_keeps_its_name(sz i, string_view n, FK k, record_descriptor_impl* a, record_descriptor_impl* b) { function_descriptor_impl f(i, n, k, a, b); return identical(f.function_name(), n); }
bool a_function_keeps_its_kind(sz i, string_view n, FK k, record_descriptor_impl* a, record_descriptor_impl* b) { function_descriptor_impl f(i, n, k, a, b); return f.function_kind() == k; }
bool a_function_keeps_its_input(sz i, string_view n, FK k, record_descriptor_impl& a, record_descriptor_impl& b) { function_descriptor_impl f(i, n, k, &a, &b); return &f.input_record() == static_cast<record_descriptor const*>(&a); }
bool a_function_keeps_its_output(sz i, string_view n, FK k, record_descriptor_impl& a, record_descriptor_impl& b) { function_descriptor_impl f(i, n, k, &a, &b); return &f.output_record() == static_cast<record_descriptor const*>(&b); }

// services and packages
bool a_service_keeps_its_position(sz i, string_view n, std::vector<function_descriptor*> const& v) { service_descriptor_impl s(i, n, v); return s.service_index() == i; }
bool a_service_keeps_its_name(sz i, string_view n, std::vector<function_descriptor*> const& v) { service_descriptor_impl s(i, n, v); return identical(s.service_name(), n); }
bool a_service_keeps_its_functions(sz i, string_view n, std::vector<function_descriptor*> const& v) { service_descriptor_impl s(i, n, v); return identical(s.functions(), v); }
bool a_package_keeps_its_name(string_view n, string_view fn, package_version const& v, std::vector<service_descriptor*> const& s) { package_descriptor_impl p(n, fn, v, s); return identical(p.package_name(), n); }
bool a_package_keeps_its_file(string_view n, string_view fn, package_version const& v, std::vector<service_descriptor*> const& s) { package_descriptor_impl p(n, fn, v, s); return identical(p.file_name(), fn); }
bool a_package_keeps_its_version(string_view n, string_view fn, package_version const& v, std::vector<service_descriptor*> const& s) { package_descriptor_impl p(n, fn, v, s); return p.version().major() == v.major() && p.version().minor() == v.minor() && p.version().patch() == v.patch(); }
bool a_package_keeps_its_services(string_view n, string_view fn, package_version const& v, std::vector<service_descriptor*> const& s) { package_descriptor_impl p(n, fn, v, s); return identical(p.services(), s); }

// versions
bool a_version_keeps_its_numbers(sz a, sz b, sz c) { package_version v(a, b, c); return v.major() == a && v.minor() == b && v.patch() == c; }
bool a_new_version_is_zero() { package_version v{}; return v.major() == 0 && v.minor() == 0 && v.patch() == 0; }
bool versions_are_equal_iff_their_numbers_are(sz a, sz b, sz c, sz x, sz y, sz z) { return (package_version(a, b, c) == package_version(x, y, z)) == (a == x && b == y && c == z); }
bool versions_are_ordered_by_their_numbers(sz a, sz b, sz c, sz x, sz y, sz z) {
    return (package_version(a, b, c) < package_version(x, y, z)) == (a < x || (a == x && (b < y || (b == y && c < z))));
}

// configuration
bool a_configuration_keeps_enabled(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.enabled() == en; }
bool a_configuration_keeps_the_endpoint(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.endpoint() == ep; }
bool a_configuration_keeps_the_transport(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.transport() == t; }
bool a_configuration_keeps_security(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.secure() == s; }
bool a_configuration_keeps_the_server_endpoint(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.grpc_server_endpoint() == g; }
bool a_configuration_keeps_the_time_limit(bool en, string const& ep, string const& t, bool s, optional<string> const& g, optional<sz> to) { udf_config c(en, ep, t, s, g, to); return c.timeout() == to; }
bool a_configuration_needs_no_server_endpoint(bool en, string const& ep, string const& t, bool s) { udf_config c(en, ep, t, s); return ! c.grpc_server_endpoint() && ! c.timeout(); }
bool a_copied_configuration_is_the_same(udf_config const& a) { udf_config b(a); return b.enabled() == a.enabled() && b.endpoint() == a.endpoint() && b.transport() == a.transport() && b.secure() == a.secure() && b.grpc_server_endpoint() == a.grpc_server_endpoint() && b.timeout() == a.timeout(); }

// errors and load results
bool an_error_keeps_its_code(grpc::StatusCode c, string const& m) { return pu::error_info(c, m).code() == c; }
bool an_error_keeps_its_message(grpc::StatusCode c, string const& m) { pu::error_info e(c, m); return e.message() == string_view{m}; }
bool a_load_result_keeps_its_status(load_status s, string const& f, string const& d) { return load_result(s, f, d).status() == s; }
bool a_load_result_keeps_its_file(load_status s, string const& f, string const& d) { return load_result(s, f, d).file() == f; }
bool a_load_result_keeps_its_detail(load_status s, string const& f, string const& d) { return load_result(s, f, d).detail() == d; }
bool setting_the_status_changes_only_it(load_result r, load_status s) { auto f = r.file(); auto d = r.detail(); r.set_status(s); return r.status() == s && r.file() == f && r.detail() == d; }
bool setting_the_file_changes_only_it(load_result r, string const& s) { auto f = r.status(); auto d = r.detail(); r.set_file(s); return r.file() == s && r.status() == f && r.detail() == d; }
bool setting_the_detail_changes_only_it(load_result r, string const& s) { auto f = r.status(); auto d = r.file(); r.set_detail(s); return r.detail() == s && r.status() == f && r.file() == d; }

// client context
bool a_time_limit_is_returned(optional<std::chrono::milliseconds> v) { generic_client_context c{}; c.timeout(v); return c.timeout() == v; }
bool a_new_context_has_no_time_limit() { generic_client_context c{}; return ! c.timeout(); }
bool debug_logging_is_off_at_first() { generic_client_context c{}; return ! c.is_debug_enabled(); }
bool debug_logging_is_as_set(bool v) { generic_client_context c{}; c.debug_enabled(v); return c.is_debug_enabled() == v; }

// sample texts and small lists decide what arbitrary ones leave open
bool a_dotted_record_name_is_kept() { std::vector<column_descriptor*> v{}; record_descriptor_impl r(string_view{"a.b"}, v); return r.record_name() == string_view{"a.b"}; }
bool a_dotted_function_name_is_kept(record_descriptor_impl* a) { function_descriptor_impl f(0, string_view{"p.s/F"}, FK::unary, a, a); return f.function_name() == string_view{"p.s/F"}; }
bool a_dotted_service_name_is_kept() { std::vector<function_descriptor*> v{}; service_descriptor_impl f(0, string_view{"p.S"}, v); return f.service_name() == string_view{"p.S"}; }
bool a_dotted_package_name_is_kept(package_version const& v) { std::vector<service_descriptor*> s{}; package_descriptor_impl p(string_view{"a.b"}, string_view{"d/f.proto"}, v, s); return p.package_name() == string_view{"a.b"} && p.file_name() == string_view{"d/f.proto"}; }
bool a_column_name_with_capitals_is_kept(TK k) { C c(0, string_view{"Ab_c"}, k); return c.column_name() == string_view{"Ab_c"}; }
bool two_columns_are_kept_in_order(column_descriptor* a, column_descriptor* b) { std::vector<column_descriptor*> v{a, b}; if (a->has_oneof() || b->has_oneof()) { return true; } record_descriptor_impl r(string_view{"r"}, v); return r.columns().size() == 2 && r.columns()[0] == a && r.columns()[1] == b; }
bool two_functions_are_kept_in_order(function_descriptor* a, function_descriptor* b) { std::vector<function_descriptor*> v{a, b}; service_descriptor_impl s(0, string_view{"s"}, v); return s.functions().size() == 2 && s.functions()[0] == a && s.functions()[1] == b; }
bool two_services_are_kept_in_order(package_version const& v, service_descriptor* a, service_descriptor* b) { std::vector<service_descriptor*> s{a, b}; package_descriptor_impl p(string_view{"n"}, string_view{"f"}, v, s); return p.services().size() == 2 && p.services()[0] == a && p.services()[1] == b; }
}
