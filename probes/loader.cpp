// Analysed only, never compiled or run: contracts over loading function libraries.
#include <algorithm>
#include <any>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include <dlfcn.h>
#include <grpcpp/grpcpp.h>
#include "jogasaki/udf/descriptor/descriptor_analyzer.h"
#define private public
#include "jogasaki/udf/udf_loader.h"
#include "jogasaki/udf/generic_client_factory.h"
#include "jogasaki/udf/udf_config.h"
#undef private

namespace probe {
using S = std::string const&;
using path = std::filesystem::path;
// what the system gives from now on
void a_library_opens(void* handle);
void the_symbol(char const* name, void* address);
void a_setting(char const* key, std::optional<std::string> const& value);
void the_settings(bool readable);
void a_timeout(std::size_t n);
void no_timeout();
void the_library_exists(bool exists);
void the_stem(std::string const& name);
// what happened
void there_is(char const* place, bool exists, bool directory);
void the_directory_holds(std::vector<std::string> const& files, std::vector<std::string> const& others);
void the_analysis_gives(jogasaki::udf::descriptor::descriptor_analysis_result const& r);
void functions_conflict(bool v);
void messages_conflict(jogasaki::udf::descriptor::message_diagnostics const& m);
// what loading one library was asked for
int tries();
bool tried(int i, char const* file);
bool tried_with(int i, char const* blocked);
// what the descriptors were read from
bool read_from(std::vector<std::string> const& files);
bool not_read();
int opened();
int closed(void* handle);
int closed();
bool let_go_before_closing();
template<class T> bool identical(T const& a, T const& b);
}

namespace probe::loader {
using namespace plugin::udf;
using std::string;
using R = std::vector<load_result>;
using L = udf_loader;
using cfg = std::shared_ptr<const udf_config>;

// the library under test: what its functions give
plugin_api* given_api;
generic_client_factory* given_factory;
plugin_api* api() { return given_api; }
struct factory : generic_client_factory {
    generic_client* client;
    explicit factory(generic_client* c) : client(c) {}
    generic_client* create(std::shared_ptr<grpc::Channel>) const override { return client; }
};
generic_client_factory* make_factory(char const*) { return given_factory; }

void symbols(plugin_api* a, generic_client* c) {
    given_api = a;
    given_factory = new factory(c);
    the_symbol("create_plugin_api", reinterpret_cast<void*>(&api));
    the_symbol("tsurugi_create_generic_client_factory", reinterpret_cast<void*>(&make_factory));
}

bool a_library_with_all_its_parts_is_recorded(L& l, void* h, S p, cfg c, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || g == nullptr || ! c) return true;
    symbols(a, g);
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() == load_status::ok && l.plugins_.size() == n + 1 && r.file() == p;
}
bool what_is_recorded_is_what_the_library_gives(L& l, void* h, S p, cfg c, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || g == nullptr || ! c) return true;
    symbols(a, g);
    l.create_api_from_handle(h, p, c);
    auto& e = l.plugins_.back();
    return std::get<0>(e).get() == a && std::get<1>(e).get() == g && std::get<2>(e).get() == c.get();
}
bool no_handle_is_an_error(L& l, S p, cfg c) {
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(nullptr, p, c);
    return r.status() == load_status::dlopen_failed && l.plugins_.size() == n;
}
bool a_missing_function_of_the_library_is_an_error(L& l, void* h, S p, cfg c, plugin_api* a, generic_client* g) {
    if (h == nullptr || ! c) return true;
    symbols(a, g);
    the_symbol("create_plugin_api", nullptr);
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() == load_status::api_symbol_missing && l.plugins_.size() == n && r.file() == p;
}
bool a_library_giving_nothing_is_an_error(L& l, void* h, S p, cfg c, generic_client* g) {
    if (h == nullptr || ! c) return true;
    symbols(nullptr, g);
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() == load_status::api_init_failed && l.plugins_.size() == n && r.file() == p;
}
bool a_missing_factory_is_an_error(L& l, void* h, S p, cfg c, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || ! c) return true;
    symbols(a, g);
    the_symbol("tsurugi_create_generic_client_factory", nullptr);
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() == load_status::factory_symbol_missing && l.plugins_.size() == n && r.file() == p;
}
bool no_factory_is_an_error(L& l, void* h, S p, cfg c, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || ! c) return true;
    symbols(a, g);
    given_factory = nullptr;
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() != load_status::ok && l.plugins_.size() == n && r.file() == p;
}
bool no_client_is_an_error(L& l, void* h, S p, cfg c, plugin_api* a) {
    if (h == nullptr || a == nullptr || ! c) return true;
    symbols(a, nullptr);
    auto n = l.plugins_.size();
    auto r = l.create_api_from_handle(h, p, c);
    return r.status() == load_status::factory_creation_failed && l.plugins_.size() == n && r.file() == p;
}

// settings
using U = std::optional<udf_config>;
void sound() {
    the_settings(true);
    a_setting("udf.enabled", "true");
    a_setting("udf.endpoint", std::nullopt);
    a_setting("udf.transport", std::nullopt);
    a_setting("udf.secure", std::nullopt);
    a_setting("grpc_server.endpoint", std::nullopt);
    no_timeout();
}
int invalid(path const& p) {
    R r{};
    L l{};
    auto u = l.parse_ini(p, r);
    return ! u && r.size() == 1 && r[0].status() == load_status::ini_invalid;
}
int valid(path const& p) {
    R r{};
    L l{};
    auto u = l.parse_ini(p, r);
    return u && r.empty();
}
U settings(path const& p) {
    R r{};
    L l{};
    return l.parse_ini(p, r);
}
bool sound_settings_are_taken(path const& p) { sound(); return valid(p); }
bool unreadable_settings_are_an_error(path const& p) { sound(); the_settings(false); return invalid(p); }
bool settings_without_a_switch_are_an_error(path const& p) { sound(); a_setting("udf.enabled", std::nullopt); return invalid(p); }
bool an_empty_switch_is_an_error(path const& p) { sound(); a_setting("udf.enabled", ""); return invalid(p); }
bool another_switch_is_an_error(path const& p) { sound(); a_setting("udf.enabled", "yes"); return invalid(p); }
bool another_number_is_an_error(path const& p) { sound(); a_setting("udf.enabled", "1"); return invalid(p); }
bool another_security_is_an_error(path const& p) { sound(); a_setting("udf.secure", "yes"); return invalid(p); }
bool an_empty_security_is_an_error(path const& p) { sound(); a_setting("udf.secure", ""); return invalid(p); }
bool another_word_of_security_is_an_error(path const& p) { sound(); a_setting("udf.secure", "truefalse"); return invalid(p); }
bool switched_on(path const& p) { sound(); auto u = settings(p); return u && u->enabled(); }
bool switched_off(path const& p) { sound(); a_setting("udf.enabled", "false"); auto u = settings(p); return u && ! u->enabled(); }
bool switched_off_in_capitals(path const& p) { sound(); a_setting("udf.enabled", "FALSE"); auto u = settings(p); return u && ! u->enabled(); }
bool switched_on_in_capitals(path const& p) { sound(); a_setting("udf.enabled", "True"); auto u = settings(p); return u && u->enabled(); }
bool secured(path const& p) { sound(); a_setting("udf.secure", "true"); auto u = settings(p); return u && u->secure(); }
bool unsecured(path const& p) { sound(); a_setting("udf.secure", "False"); auto u = settings(p); return u && ! u->secure(); }
bool the_endpoint_is_kept(path const& p, S e) { sound(); a_setting("udf.endpoint", e); auto u = settings(p); return u && u->endpoint() == e; }
bool the_transport_is_kept(path const& p, S e) { if (e.empty()) return true; sound(); a_setting("udf.transport", e); auto u = settings(p); return u && u->transport() == e; }
bool the_transport_is_a_stream_otherwise(path const& p) { sound(); auto u = settings(p); return u && u->transport() == "stream"; }
bool an_empty_transport_is_a_stream(path const& p) { sound(); a_setting("udf.transport", ""); auto u = settings(p); return u && u->transport() == "stream"; }
bool the_server_is_kept(path const& p, S e) { sound(); a_setting("grpc_server.endpoint", e); auto u = settings(p); return u && u->grpc_server_endpoint() && *u->grpc_server_endpoint() == e; }
bool there_is_no_server_otherwise(path const& p) { sound(); auto u = settings(p); return u && ! u->grpc_server_endpoint(); }
bool the_limit_is_kept(path const& p, std::size_t n) { sound(); a_timeout(n); auto u = settings(p); return u && u->timeout() && *u->timeout() == n; }
bool there_is_no_limit_otherwise(path const& p) { sound(); auto u = settings(p); return u && ! u->timeout(); }

// one library
using B = std::map<string, std::set<string>>;
using M = jogasaki::udf::descriptor::message_diagnostics;
void found(void* h, plugin_api* a, generic_client* g) {
    sound();
    the_library_exists(true);
    the_stem("any");
    a_library_opens(h);
    symbols(a, g);
}
R tried(L& l, path const& p, B const& b = {}) {
    R r{};
    M m{};
    l.load_one_plugin(p, b, m, r);
    return r;
}
bool a_sound_library_is_loaded(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || g == nullptr) return true;
    found(h, a, g);
    auto n = l.plugins_.size();
    auto r = tried(l, p);
    return r.size() == 1 && r[0].status() == load_status::ok && l.plugins_.size() == n + 1;
}
bool a_loaded_library_stays_open(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || g == nullptr) return true;
    found(h, a, g);
    auto n = l.handles_.size();
    tried(l, p);
    return opened() == 1 && closed() == 0 && l.handles_.size() == n + 1 && l.handles_.back() == h;
}
bool a_library_that_does_not_open_is_an_error(L& l, path const& p, plugin_api* a, generic_client* g) {
    found(nullptr, a, g);
    auto n = l.plugins_.size();
    auto k = l.handles_.size();
    auto r = tried(l, p);
    return r.size() == 1 && r[0].status() == load_status::dlopen_failed && l.plugins_.size() == n && l.handles_.size() == k && closed() == 0;
}
int refused(L& l, path const& p, void* h, load_status s) {
    auto n = l.plugins_.size();
    auto k = l.handles_.size();
    auto r = tried(l, p);
    return r.size() == 1 && r[0].status() == s && l.plugins_.size() == n && l.handles_.size() == k && closed(h) == 1 && closed() == 1;
}
bool a_library_without_its_function_is_refused_and_closed(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    if (h == nullptr) return true;
    found(h, a, g);
    the_symbol("create_plugin_api", nullptr);
    return refused(l, p, h, load_status::api_symbol_missing);
}
bool a_library_giving_nothing_is_refused_and_closed(L& l, path const& p, void* h, generic_client* g) {
    if (h == nullptr) return true;
    found(h, nullptr, g);
    return refused(l, p, h, load_status::api_init_failed);
}
bool a_library_without_factory_is_refused_and_closed(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr) return true;
    found(h, a, g);
    the_symbol("tsurugi_create_generic_client_factory", nullptr);
    return refused(l, p, h, load_status::factory_symbol_missing);
}
bool a_library_giving_no_client_is_refused_and_closed(L& l, path const& p, void* h, plugin_api* a) {
    if (h == nullptr || a == nullptr) return true;
    found(h, a, nullptr);
    return refused(l, p, h, load_status::factory_creation_failed);
}
bool settings_without_library_are_passed_over(L& l, path const& p) {
    sound();
    the_stem("any");
    the_library_exists(false);
    auto n = l.plugins_.size();
    return tried(l, p).empty() && opened() == 0 && l.plugins_.size() == n;
}
int not_opened(L& l, path const& p, load_status s, B const& b = {}) {
    auto n = l.plugins_.size();
    auto r = tried(l, p, b);
    return r.size() == 1 && r[0].status() == s && opened() == 0 && l.plugins_.size() == n;
}
bool a_library_switched_off_is_not_opened(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    found(h, a, g);
    a_setting("udf.enabled", "false");
    return not_opened(l, p, load_status::udf_disabled);
}
bool a_library_with_bad_settings_is_not_opened(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    found(h, a, g);
    a_setting("udf.secure", "bad");
    return not_opened(l, p, load_status::ini_invalid);
}
bool a_library_with_unreadable_settings_is_not_opened(L& l, path const& p, void* h, plugin_api* a, generic_client* g) {
    found(h, a, g);
    the_settings(false);
    return not_opened(l, p, load_status::ini_invalid);
}
bool a_library_with_conflicts_is_not_opened(L& l, path const& p, S name, void* h, plugin_api* a, generic_client* g) {
    found(h, a, g);
    the_stem("one");
    return not_opened(l, p, load_status::message_name_duplicated, {{"one", {name}}});
}
bool a_library_is_named_without_its_prefix(L& l, path const& p, S name, void* h, plugin_api* a, generic_client* g) {
    found(h, a, g);
    the_stem("libone");
    return not_opened(l, p, load_status::message_name_duplicated, {{"one", {name}}});
}
bool conflicts_of_another_library_do_not_matter(L& l, path const& p, S name, void* h, plugin_api* a, generic_client* g) {
    if (h == nullptr || a == nullptr || g == nullptr) return true;
    found(h, a, g);
    the_stem("two");
    auto r = tried(l, p, {{"one", {name}}});
    return r.size() == 1 && r[0].status() == load_status::ok;
}
// unloading
bool unloading_closes_what_was_opened(void* a, void* b) {
    if (a == nullptr || b == nullptr) return true;
    L l{};
    l.handles_.push_back(a);
    l.handles_.push_back(b);
    l.unload_all();
    return closed(a) == 1 && closed(b) == 1 && closed() == 2 && l.handles_.empty() && l.plugins_.empty();
}
bool unloading_again_closes_nothing(void* a) {
    if (a == nullptr) return true;
    L l{};
    l.handles_.push_back(a);
    l.unload_all();
    l.unload_all();
    return closed(a) == 1 && closed() == 1;
}
bool a_loader_closes_what_it_opened_at_its_end(void* a, void* b) {
    if (a == nullptr || b == nullptr) return true;
    {
        L l{};
        l.handles_.push_back(a);
        l.handles_.push_back(b);
    }
    return closed(a) == 1 && closed(b) == 1 && closed() == 2;
}
bool what_a_library_gave_is_let_go_before_closing_it(L& l, void* a) {
    l.handles_.clear();
    if (a == nullptr) return true;
    l.handles_.push_back(a);
    l.unload_all();
    return let_go_before_closing();
}

}
namespace probe::directory {
using namespace plugin::udf;
using std::string;
using L = udf_loader;
using R = std::vector<load_result>;
using A = jogasaki::udf::descriptor::descriptor_analysis_result;
using M = jogasaki::udf::descriptor::message_diagnostics;
using plugin::udf::descriptor_read_status;
void sound() {
    there_is("/d", true, true);
    there_is("/d/deps", true, true);
    the_directory_holds({"b.ini", "x.desc.pb", "a.ini", "a.so", "notes.txt"}, {"c.ini", "deps"});
    the_analysis_gives(A{});
    functions_conflict(false);
    messages_conflict(M{});
}
int refused(load_status s) {
    L l{};
    auto r = l.load("/d");
    return tries() == 0 && r.size() == 1 && r[0].status() == s;
}
bool every_library_of_a_directory_is_tried_once_in_order() {
    sound();
    L l{};
    auto r = l.load("/d");
    return tries() == 2 && tried(0, "/d/a.ini") && tried(1, "/d/b.ini") && static_cast<int>(r.size()) == tries();
}
bool no_directory_is_an_error() {
    L l{};
    auto r = l.load("");
    return tries() == 0 && r.size() == 1 && r[0].status() == load_status::path_is_empty;
}
bool a_missing_directory_is_an_error() { sound(); there_is("/d", false, false); return refused(load_status::path_not_found); }
bool a_file_instead_of_a_directory_is_an_error() { sound(); there_is("/d", true, false); return refused(load_status::path_not_found); }
bool a_directory_without_settings_is_an_error() { sound(); the_directory_holds({"a.so", "a.desc.pb", "ini", "a.ini2"}, {"c.ini"}); return refused(load_status::no_ini_files); }
bool an_empty_directory_is_an_error() { sound(); the_directory_holds({}, {}); return refused(load_status::no_ini_files); }
bool missing_dependencies_are_an_error() { sound(); there_is("/d/deps", false, false); return refused(load_status::deps_not_found); }
bool dependencies_that_are_no_directory_are_an_error() { sound(); there_is("/d/deps", true, false); return refused(load_status::not_regular_file_or_dir); }
bool a_function_conflict_loads_nothing() { sound(); functions_conflict(true); return refused(load_status::rpc_name_duplicated); }
A failing(descriptor_read_status s) {
    A a{};
    jogasaki::udf::descriptor::descriptor_load_error e{};
    e.path = "/d/x.desc.pb";
    e.status = s;
    a.errors().push_back(e);
    return a;
}
bool a_descriptor_that_does_not_open_loads_nothing() { sound(); the_analysis_gives(failing(descriptor_read_status::descriptor_open_failed)); return refused(load_status::descriptor_open_failed); }
bool a_descriptor_that_does_not_parse_loads_nothing() { sound(); the_analysis_gives(failing(descriptor_read_status::descriptor_parse_failed)); return refused(load_status::descriptor_parse_failed); }
bool every_failing_descriptor_is_told() {
    sound();
    A a = failing(descriptor_read_status::descriptor_parse_failed);
    a.errors().push_back(failing(descriptor_read_status::descriptor_open_failed).errors()[0]);
    the_analysis_gives(a);
    L l{};
    auto r = l.load("/d");
    return tries() == 0 && r.size() == 2 && r[0].status() == load_status::descriptor_parse_failed && r[1].status() == load_status::descriptor_open_failed;
}
bool the_descriptors_of_the_directory_are_read() {
    sound();
    the_directory_holds({"z.ini", "b.desc.pb", "a.desc.pb", "desc.pb", ".desc.pb", "a.desc.pbx"}, {"d.desc.pb"});
    L l{};
    l.load("/d");
    return read_from({"/d/.desc.pb", "/d/a.desc.pb", "/d/b.desc.pb"});
}
bool without_descriptors_libraries_are_still_tried() {
    sound();
    the_directory_holds({"a.ini"}, {});
    L l{};
    auto r = l.load("/d");
    return tries() == 1 && tried(0, "/d/a.ini") && static_cast<int>(r.size()) == tries() && not_read();
}
M conflict(string const& m) {
    jogasaki::udf::descriptor::message_diagnostic d{};
    d.defining_protos = {"sub/one.proto", "two.proto"};
    d.referring_protos = {"three.proto"};
    M r{};
    r[m] = d;
    return r;
}
bool message_conflicts_block_what_defines_them(string const& m) { sound(); messages_conflict(conflict(m)); L l{}; auto r = l.load("/d"); return tries() == 2 && static_cast<int>(r.size()) == tries() && tried_with(0, "one") && tried_with(1, "one") && tried_with(0, "two"); }
bool message_conflicts_block_what_refers_to_them(string const& m) { sound(); messages_conflict(conflict(m)); L l{}; l.load("/d"); return tried_with(0, "three") && tried_with(1, "three"); }
bool message_conflicts_block_nothing_else(string const& m) { sound(); messages_conflict(conflict(m)); L l{}; l.load("/d"); return ! tried_with(0, "four") && ! tried_with(1, "a"); }
}
