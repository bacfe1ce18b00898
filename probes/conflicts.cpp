// Analysed only, never compiled or run: contracts over loading function descriptors.
#include <google/protobuf/descriptor.pb.h>
#include "jogasaki/udf/descriptor/descriptor_analyzer.h"
#include "jogasaki/udf/descriptor/descriptor_reader.h"
#include "jogasaki/udf/descriptor/validation/message_duplicate_validator.h"
#include "jogasaki/udf/descriptor/validation/rpc_duplicate_validator.h"

namespace probe {
using S = std::string const&;
using path = std::filesystem::path;
// what reading the file gives from now on
void a_file_gives(path const& p, google::protobuf::FileDescriptorSet const& fds, plugin::udf::descriptor_read_status s);
}

namespace probe::conflicts {
using namespace jogasaki::udf::descriptor;
using namespace jogasaki::udf::descriptor::validation;
using plugin::udf::descriptor_read_status;
using plugin::udf::rpc_duplicate_check_status;
using google::protobuf::FileDescriptorSet;
using google::protobuf::FileDescriptorProto;
using google::protobuf::ServiceDescriptorProto;
using google::protobuf::DescriptorProto;
using google::protobuf::FieldDescriptorProto;

rpc_method_entry entry(S file, S service, S method, S full) {
    rpc_method_entry e{};
    e.proto_file_name = file;
    e.service_name = service;
    e.method_name = method;
    e.full_rpc_path = full;
    return e;
}
int duplicated(std::vector<rpc_method_entry> const& v) { return validate_rpc_method_duplicates(v) == rpc_duplicate_check_status::rpc_name_duplicated; }
int fine(std::vector<rpc_method_entry> const& v) { return validate_rpc_method_duplicates(v) == rpc_duplicate_check_status::ok; }

bool no_function_conflicts_with_nothing(S f, S s, S m, S p) {
    return fine({}) && fine({entry(f, s, m, p)});
}
bool two_functions_conflict_when_their_names_are_equal(S f1, S s1, S m1, S p1, S f2, S s2, S m2, S p2) {
    std::vector<rpc_method_entry> v{entry(f1, s1, m1, p1), entry(f2, s2, m2, p2)};
    return m1 == m2 ? duplicated(v) : fine(v);
}
bool three_functions_conflict_when_two_names_are_equal(S f1, S m1, S p1, S f2, S m2, S p2, S f3, S m3, S p3, S s) {
    std::vector<rpc_method_entry> v{entry(f1, s, m1, p1), entry(f2, s, m2, p2), entry(f3, s, m3, p3)};
    return m1 == m2 || m2 == m3 || m1 == m3 ? duplicated(v) : fine(v);
}
bool a_message_conflicts_when_two_files_define_it(S name, S f1, S f2, S f3, S f4) {
    message_diagnostics all{};
    all[name].defining_protos.insert(f1);
    all[name].defining_protos.insert(f2);
    all[name].referring_protos.insert(f3);
    all[name].referring_protos.insert(f4);
    auto r = filter_message_definition_duplicates(all);
    if (f1 == f2) { return r.empty(); }
    return r.size() == 1 && r.begin()->first == name && r.begin()->second.defining_protos.size() == 2 && r.begin()->second.defining_protos.count(f1) == 1 && r.begin()->second.defining_protos.count(f2) == 1
        && r.begin()->second.referring_protos.count(f3) == 1 && r.begin()->second.referring_protos.count(f4) == 1;
}
bool a_message_only_referred_to_does_not_conflict(S name, S f1, S f2, S f3) {
    message_diagnostics all{};
    all[name].defining_protos.insert(f1);
    all[name].referring_protos.insert(f2);
    all[name].referring_protos.insert(f3);
    return filter_message_definition_duplicates(all).empty() && filter_message_definition_duplicates({}).empty();
}
bool each_conflicting_message_is_told(S a, S b, S f1, S f2) {
    if (a == b || f1 == f2) { return true; }
    message_diagnostics all{};
    all[a].defining_protos.insert(f1);
    all[b].defining_protos.insert(f1);
    all[b].defining_protos.insert(f2);
    auto one = filter_message_definition_duplicates(all);
    all[a].defining_protos.insert(f2);
    auto both = filter_message_definition_duplicates(all);
    return one.size() == 1 && one.count(b) == 1 && both.size() == 2 && both.count(a) == 1 && both.count(b) == 1;
}
}

namespace probe::analysis {
using namespace probe::conflicts;

bool each_unreadable_file_is_reported(path const& p, path const& q, int s, int t) {
    FileDescriptorSet none;
    probe::a_file_gives(p, none, static_cast<descriptor_read_status>(s));
    probe::a_file_gives(q, none, static_cast<descriptor_read_status>(t));
    if (p == q || s < 0 || s > 2 || t < 0 || t > 2) { return true; }
    auto r = analyze_descriptors({p, q});
    auto& e = r.errors();
    std::size_t failed = (s != 0 ? 1 : 0) + (t != 0 ? 1 : 0);
    if (e.size() != failed || ! r.rpc_methods().empty() || ! r.message_info().empty()) { return false; }
    std::size_t i = 0;
    if (s != 0) {
        if (e[i].path != p || e[i].status != static_cast<descriptor_read_status>(s)) { return false; }
        ++i;
    }
    return t == 0 || (e[i].path == q && e[i].status == static_cast<descriptor_read_status>(t));
}
bool an_unreadable_file_does_not_hide_the_next(path const& p, path const& q, S file, S pkg, S service, S method, S message) {
    if (p == q) { return true; }
    FileDescriptorSet none;
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->set_package(pkg);
    auto* s = f->add_service();
    s->set_name(service);
    s->add_method()->set_name(method);
    f->add_message_type()->set_name(message);
    probe::a_file_gives(p, none, descriptor_read_status::descriptor_parse_failed);
    probe::a_file_gives(q, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p, q});
    return r.errors().size() == 1 && r.rpc_methods().size() == 1 && r.message_info().size() == 1;
}
bool a_function_is_known_by_its_names(path const& p, S file, S pkg, S service, S method) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->set_package(pkg);
    auto* s = f->add_service();
    s->set_name(service);
    s->add_method()->set_name(method);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    auto& v = r.rpc_methods();
    return r.errors().empty() && v.size() == 1 && v[0].proto_file_name == file && v[0].service_name == service && v[0].method_name == method
        && v[0].full_rpc_path == (pkg.empty() ? "/" + service + "/" + method : "/" + pkg + "." + service + "/" + method);
}
bool functions_of_one_service_conflict_when_their_names_are_equal(path const& p, S file, S service, S a, S b) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    auto* s = f->add_service();
    s->set_name(service);
    s->add_method()->set_name(a);
    s->add_method()->set_name(b);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    return a == b ? duplicated(r.rpc_methods()) : fine(r.rpc_methods());
}
bool functions_of_two_services_conflict_when_their_names_are_equal(path const& p, S file, S pkg, S s1, S s2, S a, S b) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->set_package(pkg);
    auto* s = f->add_service();
    s->set_name(s1);
    s->add_method()->set_name(a);
    auto* t = f->add_service();
    t->set_name(s2);
    t->add_method()->set_name(b);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    return a == b ? duplicated(r.rpc_methods()) : fine(r.rpc_methods());
}
bool functions_of_two_files_conflict_when_their_names_are_equal(path const& p, path const& q, S f1, S f2, S pkg1, S pkg2, S s1, S s2, S a, S b) {
    if (p == q) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    f->set_package(pkg1);
    auto* s = f->add_service();
    s->set_name(s1);
    s->add_method()->set_name(a);
    FileDescriptorSet other;
    auto* g = other.add_file();
    g->set_name(f2);
    g->set_package(pkg2);
    auto* t = g->add_service();
    t->set_name(s2);
    t->add_method()->set_name(b);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    probe::a_file_gives(q, other, descriptor_read_status::ok);
    auto r = analyze_descriptors({p, q});
    return r.errors().empty() && (a == b ? duplicated(r.rpc_methods()) : fine(r.rpc_methods()));
}
bool files_of_one_descriptor_are_all_looked_at(path const& p, S f1, S f2, S a, S b, S s) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    auto* t = f->add_service();
    t->set_name(s);
    t->add_method()->set_name(a);
    auto* g = fds.add_file();
    g->set_name(f2);
    auto* u = g->add_service();
    u->set_name(s);
    u->add_method()->set_name(b);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    return a == b ? duplicated(r.rpc_methods()) : fine(r.rpc_methods());
}
bool messages_of_two_files_conflict_when_their_full_names_are_equal(path const& p, path const& q, S f1, S f2, S pkg, S a, S b) {
    if (p == q) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    f->set_package(pkg);
    f->add_message_type()->set_name(a);
    FileDescriptorSet other;
    auto* g = other.add_file();
    g->set_name(f2);
    g->set_package(pkg);
    g->add_message_type()->set_name(b);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    probe::a_file_gives(q, other, descriptor_read_status::ok);
    auto r = analyze_descriptors({p, q});
    auto d = filter_message_definition_duplicates(r.message_info());
    if (a != b || f1 == f2) { return d.empty(); }
    return d.size() == 1 && d.begin()->first == (pkg.empty() ? "." + a : "." + pkg + "." + a) && d.begin()->second.defining_protos.count(f1) == 1 && d.begin()->second.defining_protos.count(f2) == 1;
}
bool messages_of_different_packages_do_not_conflict(path const& p, S f1, S f2, S a) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    f->set_package("x");
    f->add_message_type()->set_name(a);
    auto* g = fds.add_file();
    g->set_name(f2);
    g->set_package("y");
    g->add_message_type()->set_name(a);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    return r.message_info().size() == 2 && filter_message_definition_duplicates(r.message_info()).empty();
}
bool a_nested_message_is_known_by_its_full_name(path const& p, S file, S pkg, S outer, S inner, S innermost) {
    if (outer.empty() || inner.empty() || innermost.empty()) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->set_package(pkg);
    auto* m = f->add_message_type();
    m->set_name(outer);
    auto* n = m->add_nested_type();
    n->set_name(inner);
    n->add_nested_type()->set_name(innermost);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    std::string prefix = pkg.empty() ? std::string{"."} : "." + pkg + ".";
    auto& i = r.message_info();
    return i.count(prefix + outer) == 1 && i.count(prefix + outer + "." + inner) == 1 && i.count(prefix + outer + "." + inner + "." + innermost) == 1
        && i.at(prefix + outer + "." + inner + "." + innermost).defining_protos.count(file) == 1 && i.at(prefix + outer + "." + inner).defining_protos.size() == 1;
}
bool messages_nested_in_different_messages_do_not_conflict(path const& p, S f1, S f2, S a) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    auto* m = f->add_message_type();
    m->set_name("x");
    m->add_nested_type()->set_name(a);
    auto* g = fds.add_file();
    g->set_name(f2);
    auto* n = g->add_message_type();
    n->set_name("y");
    n->add_nested_type()->set_name(a);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    return filter_message_definition_duplicates(analyze_descriptors({p}).message_info()).empty();
}
bool nested_messages_conflict_when_two_files_define_them(path const& p, S f1, S f2, S outer, S a) {
    if (f1 == f2 || outer.empty() || a.empty()) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(f1);
    auto* m = f->add_message_type();
    m->set_name(outer);
    m->add_nested_type()->set_name(a);
    auto* g = fds.add_file();
    g->set_name(f2);
    auto* n = g->add_message_type();
    n->set_name(outer);
    n->add_nested_type()->set_name(a);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto d = filter_message_definition_duplicates(analyze_descriptors({p}).message_info());
    return d.size() == 2 && d.count("." + outer) == 1 && d.count("." + outer + "." + a) == 1;
}
bool a_field_refers_to_a_message_and_does_not_define_it(path const& p, S file, S m, S type) {
    if (type.empty() || type.front() == '.') { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    auto* d = f->add_message_type();
    d->set_name(m);
    auto* x = d->add_field();
    x->set_type(FieldDescriptorProto::TYPE_MESSAGE);
    x->set_type_name(type);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    auto& i = r.message_info();
    if (type == m) { return i.size() == 1 && i.at("." + m).defining_protos.size() == 1 && i.at("." + m).referring_protos.count(file) == 1; }
    return i.size() == 2 && i.at("." + m).defining_protos.size() == 1 && i.at("." + m).referring_protos.empty() && i.at("." + type).defining_protos.empty() && i.at("." + type).referring_protos.count(file) == 1;
}
bool a_function_refers_to_its_messages_and_does_not_define_them(path const& p, S file, S service, S method, S in, S out) {
    if (in.empty() || in.front() == '.' || out.empty() || out.front() == '.' || in == out) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    auto* s = f->add_service();
    s->set_name(service);
    auto* x = s->add_method();
    x->set_name(method);
    x->set_input_type(in);
    x->set_output_type("." + out);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    auto& i = r.message_info();
    return i.size() == 2 && i.at("." + in).defining_protos.empty() && i.at("." + out).defining_protos.empty() && i.at("." + in).referring_protos.count(file) == 1 && i.at("." + out).referring_protos.count(file) == 1;
}
bool every_message_of_a_file_is_looked_at(path const& p, S file, S a, S b, S c, S x, S y) {
    if (a.empty() || b.empty() || c.empty() || x.empty() || y.empty() || a == b || a == c || b == c || x == y) { return true; }
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->add_message_type()->set_name(a);
    auto* m = f->add_message_type();
    m->set_name(b);
    m->add_nested_type()->set_name(x);
    m->add_nested_type()->set_name(y);
    f->add_message_type()->set_name(c);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    auto& i = r.message_info();
    return i.count("." + a) == 1 && i.count("." + b) == 1 && i.count("." + c) == 1 && i.count("." + b + "." + x) == 1 && i.count("." + b + "." + y) == 1;
}
bool every_function_of_a_file_is_looked_at(path const& p, S file, S s, S t, S a, S b, S c, S d) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    auto* x = f->add_service();
    x->set_name(s);
    x->add_method()->set_name(a);
    x->add_method()->set_name(b);
    x->add_method()->set_name(c);
    auto* y = f->add_service();
    y->set_name(t);
    y->add_method()->set_name(d);
    probe::a_file_gives(p, fds, descriptor_read_status::ok);
    auto r = analyze_descriptors({p});
    auto& v = r.rpc_methods();
    return v.size() == 4 && v[0].method_name == a && v[1].method_name == b && v[2].method_name == c && v[3].method_name == d && v[2].service_name == s && v[3].service_name == t;
}
bool nothing_is_taken_from_an_unreadable_file(path const& p, S file, S service, S method, S message) {
    FileDescriptorSet fds;
    auto* f = fds.add_file();
    f->set_name(file);
    f->add_message_type()->set_name(message);
    auto* x = f->add_service();
    x->set_name(service);
    x->add_method()->set_name(method);
    probe::a_file_gives(p, fds, descriptor_read_status::descriptor_parse_failed);
    auto r = analyze_descriptors({p});
    return r.errors().size() == 1 && r.rpc_methods().empty() && r.message_info().empty();
}
}
