// Analysed only, never compiled or run: contracts over error records, their public view and the exceptions that carry them.
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <nlohmann/json.hpp>
#include "jogasaki/error/error_info.h"
#include "jogasaki/api/impl/error_info.h"
#include "jogasaki/executor/diagnostic_record.h"
#include "jogasaki/executor/sequence/exception.h"
#include "jogasaki/plan/plan_exception.h"
#include "jogasaki/utils/storage_metadata_exception.h"

namespace probe { template <class T> bool identical(T const& a, T const& b); }

namespace probe::errors {
using E = jogasaki::error::error_info;
using A = jogasaki::api::impl::error_info;
using C = jogasaki::error_code;
using X = jogasaki::status;
using V = std::string_view;
using S = std::string;
using J = nlohmann::json;

bool an_empty_error_is_no_error() { E e{}; return ! e && e.code() == C::none && e.message().empty() && e.additional_text().empty() && e.source_file_path().empty() && e.source_file_position().empty(); }
bool an_error_keeps_what_it_was_made_of(C c, V m, V f, V p, V s) {
    E e{c, m, f, p, s};
    return e.code() == c && e.message() == m && e.source_file_path() == f && e.source_file_position() == p && e.additional_text().empty() && e.status() == X::ok;
}
bool an_error_is_set_unless_its_code_is_none(C c, V m, V f, V p, V s) { E e{c, m, f, p, s}; return static_cast<bool>(e) == (c != C::none); }
bool the_status_is_kept_and_changes_nothing_else(E const& a, X x) {
    E e{a};
    e.status(x);
    return e.status() == x && e.code() == a.code() && e.message() == a.message() && e.source_file_path() == a.source_file_path() && e.source_file_position() == a.source_file_position()
        && e.additional_text() == a.additional_text() && e.supplemental_text() == a.supplemental_text();
}
bool the_additional_text_is_kept_and_changes_nothing_else(E const& a, V t) {
    E e{a};
    e.additional_text(t);
    return e.additional_text() == t && e.status() == a.status() && e.code() == a.code() && e.message() == a.message() && e.source_file_path() == a.source_file_path()
        && e.source_file_position() == a.source_file_position();
}
bool a_copied_error_is_the_same(E const& a) {
    E e{a};
    return e.additional_text() == a.additional_text() && e.status() == a.status() && e.code() == a.code() && e.message() == a.message() && e.source_file_path() == a.source_file_path()
        && e.source_file_position() == a.source_file_position() && e.supplemental_text() == a.supplemental_text();
}
bool the_supplemental_text_has_the_source_location(C c, V m, V f, V p, V s) {
    E e{c, m, f, p, s};
    auto j = J::parse(e.supplemental_text());
    return j.contains("source_file") && j["source_file"].get<S>() == S{f} + ":" + S{p};
}
bool the_supplemental_text_has_the_stack_trace(C c, V m, V f, V p, V s) {
    E e{c, m, f, p, s};
    auto j = J::parse(e.supplemental_text());
    return j.contains("stacktrace") == ! s.empty() && (s.empty() || j["stacktrace"].get<S>() == S{s});
}
bool the_supplemental_text_has_no_additional_text_before_it_is_added(C c, V m, V f, V p, V s) {
    E e{c, m, f, p, s};
    auto j = J::parse(e.supplemental_text());
    return ! j.contains("additional_text");
}
bool the_supplemental_text_has_everything_after_text_is_added(C c, V m, V f, V p, V s, V t) {
    E e{c, m, f, p, s};
    e.additional_text(t);
    auto j = J::parse(e.supplemental_text());
    return j.contains("source_file") && j["source_file"].get<S>() == S{f} + ":" + S{p}
        && j.contains("stacktrace") == ! s.empty() && (s.empty() || j["stacktrace"].get<S>() == S{s})
        && j.contains("additional_text") == ! t.empty() && (t.empty() || j["additional_text"].get<S>() == S{t});
}
bool the_text_added_last_counts(C c, V m, V f, V p, V s, V t, V u) {
    E e{c, m, f, p, s};
    e.additional_text(t);
    e.additional_text(u);
    e.status(X::err_unknown);
    auto j = J::parse(e.supplemental_text());
    return e.additional_text() == u && j.contains("additional_text") == ! u.empty() && (u.empty() || j["additional_text"].get<S>() == S{u});
}
bool an_error_printed_shows_its_parts(V m, V f, V p, V s) {
    E e{C::sql_execution_exception, m, f, p, s};
    e.status(X::err_aborted);
    std::stringstream a{};
    a << e;
    std::stringstream b{};
    b << "error_info code:" << e.code() << " status:" << e.status() << " message:\"" << e.message() << "\" supplemental_text:\"" << e.supplemental_text() << "\"";
    return a.str() == b.str();
}

bool no_public_view_of_no_error() { return A::create(nullptr) == nullptr; }
bool the_public_view_shows_the_error(std::shared_ptr<E> const& e) {
    if (! e) { return true; }
    auto v = A::create(e);
    return v != nullptr && v->message() == e->message() && v->code() == e->code() && v->status() == e->status() && v->supplemental_text() == e->supplemental_text() && v->body() == e;
}
bool a_copied_view_shows_the_same_error(A const& a) { A b{a}; return b.body() == a.body(); }

bool a_plan_exception_carries_its_error(std::shared_ptr<E> const& e) {
    if (! e) { return true; }
    jogasaki::plan::plan_exception x{e};
    return x.info() == e && V{x.what()} == V{e->message().data()};
}
bool a_plan_exception_without_error_has_an_empty_text() { jogasaki::plan::plan_exception x{}; return x.info() == nullptr && V{x.what()}.empty(); }
bool a_metadata_exception_carries_status_code_and_text(X x, C c, S const& m) {
    jogasaki::utils::storage_metadata_exception e{x, c, m};
    return e.get_status() == x && e.get_code() == c && V{e.what()} == V{m.c_str()};
}
bool a_sequence_exception_carries_status_and_text(X x, S const& m) {
    jogasaki::executor::sequence::exception e{x, m};
    return e.get_status() == x && V{e.what()} == V{m.c_str()};
}
bool a_sequence_exception_without_text(X x) { jogasaki::executor::sequence::exception e{x}; return e.get_status() == x && V{e.what()}.empty(); }

using D = jogasaki::executor::diagnostic_record<C>;
bool a_diagnostic_keeps_code_and_message(C c, S const& m) { D d{c, m}; return d.code() == c && d.message() == m && d.arguments().empty(); }
bool a_diagnostic_of_a_code_has_no_message(C c) { D d{c}; return d.code() == c && d.message().empty() && d.arguments().empty(); }
bool arguments_of_a_diagnostic_are_kept_in_order(C c, S const& m, S const& x, S const& y) {
    D d{c, m};
    d.new_argument() << x;
    d.new_argument() << y;
    return d.arguments().size() == 2 && d.arguments()[0].str() == x && d.arguments()[1].str() == y && d.code() == c && d.message() == m;
}
bool a_diagnostic_printed_shows_its_parts(S const& m) {
    auto c = C::sql_execution_exception;
    D d{c, m};
    std::stringstream a{};
    a << d;
    std::stringstream b{};
    b << "diagnostic(code=" << c << ", message='" << m << "')";
    return a.str() == b.str();
}
bool a_diagnostic_printed_shows_its_arguments(S const& m, S const& x, S const& y) {
    auto c = C::sql_execution_exception;
    D d{c, m};
    d.new_argument() << x;
    d.new_argument() << y;
    std::stringstream a{};
    a << d;
    std::stringstream b{};
    b << "diagnostic(code=" << c << ", message='" << m << "', args=['" << x << "', '" << y << "'])";
    return a.str() == b.str();
}
}
