// Analysed only, never compiled or run: contracts over the encoding of keys and values in the storage engine.
#include <cmath>
#include <cstdint>
#include <limits>
#include <decimal.hh>
#include "jogasaki/data/any.h"
#include "jogasaki/executor/global.h"
#include "jogasaki/kvs/coder.h"
#include "jogasaki/kvs/readable_stream.h"
#include "jogasaki/kvs/writable_stream.h"

namespace probe {
takatori::util::maybe_shared_ptr<jogasaki::configuration> settings{};
}
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { return probe::settings; }
}

namespace probe {
std::size_t bytes{};
std::uint64_t made{};
std::uint64_t rescaled{};
mpd_t number{};
}
namespace decimal {
thread_local Context context{};
std::uint32_t after_making() { return probe::made == 0 ? 0 : probe::made == 1 ? MPD_IEEE_Invalid_operation : MPD_Inexact; }
std::uint32_t after_rescaling() { return probe::rescaled == 0 ? 0 : MPD_Inexact; }
mpd_t const* Decimal::get() const { return &probe::number; }
mpd_t const* Decimal::getconst() const { return &probe::number; }
}
namespace jogasaki::utils {
std::size_t bytes_required_for_digits(std::size_t) { return probe::bytes; }
}

namespace probe {
using namespace jogasaki;
using namespace jogasaki::kvs;
using N = std::uint64_t;

// any number; asked again, the same one
std::int8_t any_int1();
std::int16_t any_int2();
std::int32_t any_int4();
std::int64_t any_int8();
// the same bits
std::uint8_t raw1();
std::uint16_t raw2();
std::uint32_t raw4();
std::uint64_t raw8();
// the number with these bits
float float4_of(std::uint32_t);
double float8_of(std::uint64_t);

// a page of memory
class page : public memory::paged_memory_resource {
public:
    char a_[16]{};
    N used_{};
    // where so many bytes are put
    void* room(N bytes) { auto* p = a_ + used_; used_ += bytes; return p; }
    void end_current_page() override {}
private:
    void* do_allocate(std::size_t bytes, std::size_t) override { return room(bytes); }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& other) const noexcept override { return this == &other; }
    [[nodiscard]] std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
};

int any_order(N desc, order& o) { o = desc == 0 ? order::ascending : desc == 1 ? order::descending : order::undefined; return 0; }
// no trouble with the numbers
int plain_numbers(N k) { bytes = k; made = 0; rescaled = 0; number.digits = 1; ::decimal::context = ::decimal::Context{}; return 0; }
int order_of(N desc, order& o) { o = desc != 0 ? order::descending : order::ascending; return 0; }
}

namespace probe::numbers {

// its bytes are those of the number, most significant first, with the sign turned over, and all turned over in descending order
template<class T, class U>
int as_key(T v, U raw, N desc) {
    order o{};
    order_of(desc, o);
    char b[sizeof(T)]{};
    writable_stream w{b, sizeof(T)};
    if (w.write<T>(v, o) != status::ok || w.size() != sizeof(T)) { return 0; }
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        auto x = static_cast<std::uint8_t>(raw >> (8 * (sizeof(T) - 1 - i)));
        if (i == 0) { x = static_cast<std::uint8_t>(x ^ 0x80U); }
        if (desc != 0) { x = static_cast<std::uint8_t>(~x); }
        if (static_cast<std::uint8_t>(b[i]) != x) { return 0; }
    }
    return 1;
}
template<class T>
int again(T v, N desc) {
    order o{};
    any_order(desc, o);
    char b[sizeof(T)]{};
    writable_stream w{b, sizeof(T)};
    (void) w.write<T>(v, o);
    readable_stream r{b, sizeof(T)};
    return r.read<T>(o, false) == v && r.size() == sizeof(T);
}
bool int1_as_key(N desc) { return as_key(any_int1(), raw1(), desc) != 0; }
bool int2_as_key(N desc) { return as_key(any_int2(), raw2(), desc) != 0; }
bool int4_as_key(N desc) { return as_key(any_int4(), raw4(), desc) != 0; }
bool int8_as_key(N desc) { return as_key(any_int8(), raw8(), desc) != 0; }
bool int1_is_read_as_written(N desc) { return again(any_int1(), desc) != 0; }
bool int2_is_read_as_written(N desc) { return again(any_int2(), desc) != 0; }
bool int4_is_read_as_written(N desc) { return again(any_int4(), desc) != 0; }
bool int8_is_read_as_written(N desc) { return again(any_int8(), desc) != 0; }
}

namespace probe::reals {

template<class T, class U>
int as_key(T v, U raw, N desc, N normal) {
    order o{};
    order_of(desc, o);
    settings = std::make_shared<configuration>();
    settings->normalize_float(normal != 0);
    char b[sizeof(T)]{};
    writable_stream w{b, sizeof(T)};
    if (w.write<T>(v, o) != status::ok || w.size() != sizeof(T)) { return 0; }
    // one not a number only, one zero only
    U u = raw;
    if (normal != 0) {
        if (std::isnan(v)) { u = sizeof(T) == 4 ? U{0x7fc00000U} : U{0x7ff8000000000000UL}; }
        else if (v == T{}) { u = 0; }
    }
    constexpr U sign = U{1} << (8 * sizeof(T) - 1);
    u = (u & sign) == 0 ? u ^ sign : ~u;
    if (desc != 0) { u = ~u; }
    for (std::size_t i = 0; i < sizeof(T); ++i) {
        if (static_cast<std::uint8_t>(b[i]) != static_cast<std::uint8_t>(u >> (8 * (sizeof(T) - 1 - i)))) { return 0; }
    }
    readable_stream r{b, sizeof(T)};
    auto x = r.read<T>(o, false);
    if (normal != 0) { return 1; }
    return details::type_change<U>(x) == raw;
}
bool float4_as_key(N desc, N normal) { return as_key(float4_of(raw4()), raw4(), desc, normal) != 0; }
bool float8_as_key(N desc, N normal) { return as_key(float8_of(raw8()), raw8(), desc, normal) != 0; }
}

namespace probe::texts {

// its characters, then blanks if its length is fixed, then an end that is less than every character
int as_key(char const* t, N n, N desc, N key, N fixed, N writes, N most) {
    order o{};
    order_of(desc, o);
    char b[9]{};
    writable_stream w{b, 9};
    coding_context ctx{};
    ctx.coding_for_write(writes != 0);
    w.set_context(ctx);
    accessor::text v{t, n};
    auto st = w.write<accessor::text>(v, o, meta::character_field_option{fixed == 0, most}, key != 0);
    if (writes != 0 && n > most) { return st == status::err_insufficient_field_storage && w.size() == 0; }
    for (N i = 0; i < n; ++i) {
        if (t[i] == 0) { return st == status::err_invalid_runtime_value && w.size() == 0; }
    }
    N m = writes != 0 && fixed != 0 ? most : n;
    if (st != status::ok || w.size() != m + 4) { return 0; }
    for (N i = 0; i < m + 4; ++i) {
        auto x = i < n ? t[i] : i < m ? ' ' : '\0';
        if (desc != 0) { x = static_cast<char>(~x); }
        if (b[i] != x) { return 0; }
    }
    return 1;
}
bool no_text_as_key(N desc, N key, N fixed, N writes) { return as_key("", 0, desc, key, fixed, writes, 2) != 0; }
bool one_character_as_key(N desc, N key, N fixed, N writes) {
    char t[1] = {static_cast<char>(any_int1())};
    return as_key(t, 1, desc, key, fixed, writes, 2) != 0;
}
bool two_characters_as_key(N desc, N key, N fixed, N writes) {
    char t[2] = {static_cast<char>(any_int1()), 'x'};
    return as_key(t, 2, desc, key, fixed, writes, 2) != 0;
}
bool three_characters_as_key(N desc, N key, N fixed, N writes) {
    char t[3] = {'x', static_cast<char>(any_int1()), 'x'};
    return as_key(t, 3, desc, key, fixed, writes, 2) != 0;
}
}

namespace probe::texts_again {

// the characters written are read, those of a fixed length with their blanks; what follows is not touched
int again(char const* t, N n, N desc, N fixed, N discard) {
    order o{};
    any_order(desc, o);
    char b[12]{};
    writable_stream w{b, 12};
    accessor::text v{t, n};
    for (N i = 0; i < n; ++i) {
        if (t[i] == 0) { return 1; }
    }
    if (w.write<accessor::text>(v, o, meta::character_field_option{fixed == 0, 2}) != status::ok) { return 0; }
    auto end = w.size();
    if (w.write<std::int8_t>(5, o) != status::ok) { return 0; }
    page p{};
    readable_stream r{b, w.size()};
    auto x = r.read<accessor::text>(o, discard != 0, discard != 0 ? nullptr : &p);
    if (r.size() != end) { return 0; }
    if (discard != 0) { return r.read<std::int8_t>(o, false) == 5; }
    std::string_view s{x};
    N m = fixed != 0 ? 2 : n;
    if (s.size() != m) { return 0; }
    for (N i = 0; i < m; ++i) {
        if (s[i] != (i < n ? t[i] : ' ')) { return 0; }
    }
    return r.read<std::int8_t>(o, false) == 5;
}
bool no_text_again(N desc, N fixed, N discard) { return again("", 0, desc, fixed, discard) != 0; }
bool one_character_again(N desc, N fixed, N discard) {
    char t[1] = {static_cast<char>(any_int1())};
    return again(t, 1, desc, fixed, discard) != 0;
}
bool two_characters_again(N desc, N fixed, N discard) {
    char t[2] = {static_cast<char>(any_int1()), 'x'};
    return again(t, 2, desc, fixed, discard) != 0;
}
}

namespace probe::octets {

// octets of a fixed length are filled up with zeros; others come after their length
int as_key(char const* t, N n, N desc, N key, N fixed, N writes, N most) {
    order o{};
    order_of(desc, o);
    char b[9]{};
    writable_stream w{b, 9};
    coding_context ctx{};
    ctx.coding_for_write(writes != 0);
    w.set_context(ctx);
    accessor::binary v{t, n};
    auto st = w.write<accessor::binary>(v, o, meta::octet_field_option{fixed == 0, most}, key != 0);
    if (writes != 0 && n > most) { return st == status::err_insufficient_field_storage && w.size() == 0; }
    N m = writes != 0 && fixed != 0 ? most : n;
    N k = fixed != 0 ? 0 : 4;
    if (st != status::ok || w.size() != m + k) { return 0; }
    for (N i = 0; i < m + k; ++i) {
        auto x = i < k ? static_cast<char>(n >> (8 * (3 - i))) : i - k < n ? t[i - k] : '\0';
        if (desc != 0) { x = static_cast<char>(~x); }
        if (b[i] != x) { return 0; }
    }
    return 1;
}
int again(char const* t, N n, N desc, N fixed, N discard) {
    order o{};
    any_order(desc, o);
    char b[12]{};
    writable_stream w{b, 12};
    accessor::binary v{t, n};
    meta::octet_field_option option{fixed == 0, 2};
    if (w.write<accessor::binary>(v, o, option) != status::ok) { return 0; }
    auto end = w.size();
    if (w.write<std::int8_t>(5, o) != status::ok) { return 0; }
    page p{};
    readable_stream r{b, w.size()};
    auto x = r.read<accessor::binary>(o, discard != 0, option, discard != 0 ? nullptr : &p);
    if (r.size() != end) { return 0; }
    if (discard != 0) { return r.read<std::int8_t>(o, false) == 5; }
    std::string_view s{x};
    N m = fixed != 0 ? 2 : n;
    if (s.size() != m) { return 0; }
    for (N i = 0; i < m; ++i) {
        if (s[i] != (i < n ? t[i] : '\0')) { return 0; }
    }
    return r.read<std::int8_t>(o, false) == 5;
}
bool no_octets_as_key(N desc, N key, N fixed, N writes) { return as_key("", 0, desc, key, fixed, writes, 2) != 0; }
bool one_octet_as_key(N desc, N key, N fixed, N writes) {
    char t[1] = {static_cast<char>(any_int1())};
    return as_key(t, 1, desc, key, fixed, writes, 2) != 0;
}
bool two_octets_as_key(N desc, N key, N fixed, N writes) {
    char t[2] = {static_cast<char>(any_int1()), 'x'};
    return as_key(t, 2, desc, key, fixed, writes, 2) != 0;
}
bool three_octets_as_key(N desc, N key, N fixed, N writes) {
    char t[3] = {'x', static_cast<char>(any_int1()), 'x'};
    return as_key(t, 3, desc, key, fixed, writes, 2) != 0;
}
bool no_octets_again(N desc, N fixed, N discard) { return again("", 0, desc, fixed, discard) != 0; }
bool one_octet_again(N desc, N fixed, N discard) {
    char t[1] = {static_cast<char>(any_int1())};
    return again(t, 1, desc, fixed, discard) != 0;
}
bool two_octets_again(N desc, N fixed, N discard) {
    char t[2] = {static_cast<char>(any_int1()), 'x'};
    return again(t, 2, desc, fixed, discard) != 0;
}
}

namespace probe::moments {

// the number at a place of an encoded key
template<class T>
T number_at(char const* b, N desc) {
    order o{};
    any_order(desc, o);
    readable_stream r{b, sizeof(T)};
    return r.read<T>(o, false);
}
using date = runtime_t<meta::field_type_kind::date>;
using time_of_day = runtime_t<meta::field_type_kind::time_of_day>;
using time_point = runtime_t<meta::field_type_kind::time_point>;
using blob = runtime_t<meta::field_type_kind::blob>;
using clob = runtime_t<meta::field_type_kind::clob>;

bool a_date_is_its_number_of_days(N desc) {
    order o{};
    any_order(desc, o);
    char b[8]{};
    writable_stream w{b, 8};
    if (w.write<date>(date{any_int8()}, o) != status::ok || w.size() != 8 || number_at<std::int64_t>(b, desc) != any_int8()) { return false; }
    readable_stream r{b, 8};
    return r.read<date>(o, false).days_since_epoch() == any_int8() && r.size() == 8;
}
bool a_time_is_its_nanoseconds(N desc) {
    order o{};
    any_order(desc, o);
    char b[8]{};
    writable_stream w{b, 8};
    auto v = time_of_day{std::chrono::duration<std::uint64_t, std::nano>{raw8()}};
    if (w.write<time_of_day>(v, o) != status::ok || w.size() != 8 || number_at<std::int64_t>(b, desc) != any_int8()) { return false; }
    readable_stream r{b, 8};
    return r.read<time_of_day>(o, false).time_since_epoch().count() == v.time_since_epoch().count() && r.size() == 8;
}
// its seconds, then its nanoseconds
bool a_moment_is_its_seconds_then_nanoseconds(N desc) {
    order o{};
    any_order(desc, o);
    char b[12]{};
    writable_stream w{b, 12};
    auto v = time_point{std::chrono::duration<std::int64_t>{any_int8()}, std::chrono::nanoseconds{999999999}};
    if (w.write<time_point>(v, o) != status::ok || w.size() != 12) { return false; }
    if (number_at<std::int64_t>(b, desc) != any_int8() || number_at<std::int32_t>(b + 8, desc) != 999999999) { return false; }
    readable_stream r{b, 12};
    auto x = r.read<time_point>(o, false);
    return x.seconds_since_epoch().count() == any_int8() && x.subsecond().count() == 999999999 && r.size() == 12;
}
bool an_object_is_its_identifier(N desc) {
    order o{};
    any_order(desc, o);
    char b[16]{};
    writable_stream w{b, 16};
    if (w.write<blob>(blob{raw8(), lob::lob_data_provider::datastore}, o) != status::ok || w.size() != 8) { return false; }
    if (w.write<clob>(clob{raw8(), lob::lob_data_provider::datastore}, o) != status::ok || w.size() != 16) { return false; }
    readable_stream r{b, 16};
    if (r.read<blob>(o, false).object_id() != raw8() || r.size() != 8) { return false; }
    return r.read<clob>(o, false).object_id() == raw8() && r.size() == 16;
}
}

namespace probe::flags {

using kind = meta::field_type_kind;
template<kind K>
meta::field_type type_of() { return meta::field_type{meta::field_enum_tag<K>}; }

// a value that may be missing: whether it is there, then itself
template<class T, kind K>
int optional_value(T v, N missing, N desc) {
    order o{};
    any_order(desc, o);
    coding_spec spec{true, o};
    coding_context ctx{};
    char b[10]{};
    writable_stream w{b, 10};
    auto type = type_of<K>();
    data::any src{};
    if (missing == 0) { src = data::any{std::in_place_type<T>, v}; }
    if (encode_nullable(src, type, spec, ctx, w) != status::ok) { return 0; }
    auto end = w.size();
    if (end != (missing != 0 ? 1 : 1 + sizeof(T))) { return 0; }
    readable_stream f{b, 1};
    if (f.read<std::int8_t>(o, false) != (missing != 0 ? 0 : 1)) { return 0; }
    readable_stream r{b, end};
    data::any back{std::in_place_type<std::int8_t>, std::int8_t{7}};
    if (decode_nullable(r, type, spec, ctx, back, nullptr) != status::ok || r.size() != end) { return 0; }
    if (missing != 0) { return back.empty(); }
    readable_stream skip{b, end};
    if (consume_stream_nullable(skip, type, spec, ctx) != status::ok || skip.size() != end) { return 0; }
    return ! back.empty() && back.type_index() == data::any::index<T> && back.to<T>() == v;
}
bool an_int1_or_nothing(N missing, N desc) { return optional_value<std::int32_t, kind::int1>(any_int4(), missing, desc) != 0; }
bool an_int2_or_nothing(N missing, N desc) { return optional_value<std::int32_t, kind::int2>(any_int4(), missing, desc) != 0; }
bool an_int4_or_nothing(N missing, N desc) { return optional_value<std::int32_t, kind::int4>(any_int4(), missing, desc) != 0; }
bool an_int8_or_nothing(N missing, N desc) { return optional_value<std::int64_t, kind::int8>(any_int8(), missing, desc) != 0; }
bool a_flag_or_nothing(N missing, N desc) { return optional_value<std::int8_t, kind::boolean>(any_int1(), missing, desc) != 0; }
bool nothing_is_not_a_value(N desc) {
    order o{};
    any_order(desc, o);
    coding_context ctx{};
    char b[10]{};
    writable_stream w{b, 10};
    data::any src{};
    return encode(src, type_of<kind::int4>(), coding_spec{true, o}, ctx, w) == status::err_data_corruption && w.size() == 0;
}
// a flag that is neither is reported; so is a value that is cut off
bool a_bad_flag_is_reported(N desc) {
    order o{};
    any_order(desc, o);
    coding_spec spec{true, o};
    coding_context ctx{};
    char b[6]{};
    writable_stream w{b, 6};
    (void) w.write<std::int8_t>(any_int1(), o);
    (void) w.write<std::int32_t>(3, o);
    readable_stream r{b, 5};
    data::any back{};
    auto st = decode_nullable(r, type_of<kind::int4>(), spec, ctx, back, nullptr);
    readable_stream skip{b, 5};
    auto st2 = consume_stream_nullable(skip, type_of<kind::int4>(), spec, ctx);
    auto f = any_int1();
    if (f != 0 && f != 1) { return st == status::err_data_corruption && st2 == status::err_data_corruption && back.empty(); }
    return st == status::ok && st2 == status::ok && r.size() == (f == 0 ? 1 : 5) && skip.size() == r.size() && back.empty() == (f == 0);
}
bool a_cut_value_is_reported(N desc, N left) {
    order o{};
    any_order(desc, o);
    coding_spec spec{true, o};
    coding_context ctx{};
    char b[6]{};
    writable_stream w{b, 6};
    (void) w.write<std::int8_t>(1, o);
    (void) w.write<std::int32_t>(any_int4(), o);
    if (left >= 5) { return true; }
    readable_stream r{b, left};
    data::any back{};
    auto st = decode_nullable(r, type_of<kind::int4>(), spec, ctx, back, nullptr);
    readable_stream skip{b, left};
    auto st2 = consume_stream_nullable(skip, type_of<kind::int4>(), spec, ctx);
    return st == status::err_data_corruption && st2 == status::err_data_corruption && back.empty() && r.size() <= left && skip.size() <= left;
}
}

namespace probe::records {

// a field of a record that may be missing
using kind = meta::field_type_kind;
template<class T, kind K>
int optional_field(T v, N missing, N desc) {
    order o{};
    any_order(desc, o);
    coding_spec spec{true, o};
    coding_context ctx{};
    char from[16]{};
    accessor::record_ref x{from, 16};
    x.set_value<T>(8, v);
    x.set_null(3, missing != 0);
    if (from[0] != (missing != 0 ? 8 : 0)) { return 0; }
    char b[10]{};
    writable_stream w{b, 10};
    auto type = flags::type_of<K>();
    if (encode_nullable(x, 8, 3, type, spec, ctx, w) != status::ok) { return 0; }
    auto end = w.size();
    if (end != (missing != 0 ? 1 : 1 + sizeof(T))) { return 0; }
    // a missing value leaves what was there
    char to[16]{5, 1, 1, 1, 1, 1, 1, 1};
    accessor::record_ref y{to, 16};
    readable_stream r{b, end};
    if (decode_nullable(r, type, spec, ctx, y, 8, 9, nullptr) != status::ok || r.size() != end) { return 0; }
    if (to[0] != 5 || to[1] != (missing != 0 ? 3 : 1) || to[2] != 1 || y.is_null(9) != (missing != 0)) { return 0; }
    // one that is not optional has no flag
    writable_stream w2{b, 10};
    if (encode(x, 8, type, spec, ctx, w2) != status::ok || w2.size() != sizeof(T)) { return 0; }
    readable_stream r2{b, w2.size()};
    char to2[16]{};
    accessor::record_ref z{to2, 16};
    if (decode(r2, type, spec, ctx, z, 8, nullptr) != status::ok || r2.size() != sizeof(T) || z.get_value<T>(8) != v) { return 0; }
    readable_stream skip{b, w2.size()};
    if (consume_stream(skip, type, spec, ctx) != status::ok || skip.size() != sizeof(T)) { return 0; }
    return missing != 0 || y.get_value<T>(8) == v;
}
bool a_flag_field(N missing, N desc) { return optional_field<std::int8_t, kind::boolean>(any_int1(), missing, desc) != 0; }
bool an_int1_field(N missing, N desc) { return optional_field<std::int32_t, kind::int1>(any_int4(), missing, desc) != 0; }
bool an_int2_field(N missing, N desc) { return optional_field<std::int32_t, kind::int2>(any_int4(), missing, desc) != 0; }
bool an_int4_field(N missing, N desc) { return optional_field<std::int32_t, kind::int4>(any_int4(), missing, desc) != 0; }
bool an_int8_field(N missing, N desc) { return optional_field<std::int64_t, kind::int8>(any_int8(), missing, desc) != 0; }
}

namespace probe::limits {

// what does not fit is refused, or only counted; nothing is written outside
bool a_number_that_does_not_fit(N desc, N count) {
    order o{};
    any_order(desc, o);
    char b[5]{1, 2, 3, 4, 5};
    writable_stream w{b, 4, count != 0};
    (void) w.write<std::int8_t>(any_int1(), o);
    bool refused = false;
    try {
        (void) w.write<std::int32_t>(7, o);
    } catch (std::logic_error const&) { refused = true; }
    return refused == (count == 0) && b[1] == 2 && b[2] == 3 && b[3] == 4 && b[4] == 5 && w.size() == (count != 0 ? 5 : 1);
}
bool a_text_that_does_not_fit(N desc, N count, N fixed) {
    order o{};
    any_order(desc, o);
    char b[9]{1, 2, 3, 4, 5, 6, 7, 8, 9};
    writable_stream w{b, 6, count != 0};
    bool refused = false;
    char t[1] = {'x'};
    try {
        (void) w.write<accessor::text>(accessor::text{t, 1}, o, meta::character_field_option{fixed == 0, 3});
    } catch (std::logic_error const&) { refused = true; }
    if (fixed == 0) { return ! refused && w.size() == 5 && b[5] == 6 && b[6] == 7; }
    return refused == (count == 0) && b[6] == 7 && b[7] == 8 && (refused ? w.size() <= 6 : w.size() == 7);
}
bool octets_that_do_not_fit(N desc, N count) {
    order o{};
    any_order(desc, o);
    char b[9]{1, 2, 3, 4, 5, 6, 7, 8, 9};
    writable_stream w{b, 5, count != 0};
    bool refused = false;
    char t[2] = {'x', 'y'};
    try {
        (void) w.write<accessor::binary>(accessor::binary{t, 2}, o, meta::octet_field_option{true, 3});
    } catch (std::logic_error const&) { refused = true; }
    return refused == (count == 0) && b[5] == 6 && b[6] == 7 && (refused ? w.size() <= 5 : w.size() == 6);
}
bool filling_that_does_not_fit(N desc, N count) {
    order o{};
    any_order(desc, o);
    char b[9]{1, 2, 3, 4, 5, 6, 7, 8, 9};
    writable_stream w{b, 4, count != 0};
    bool refused = false;
    char t[1] = {'x'};
    try {
        (void) w.write<accessor::binary>(accessor::binary{t, 1}, o, meta::octet_field_option{false, 5});
    } catch (std::logic_error const&) { refused = true; }
    return refused == (count == 0) && b[1] == 2 && b[3] == 4 && b[4] == 5 && w.size() == (count != 0 ? 5 : 1);
}
bool bytes_are_written_as_they_are(N count) {
    char b[4]{1, 2, 3, 4};
    writable_stream w{b, 3, count != 0};
    char t[2] = {static_cast<char>(any_int1()), 'y'};
    if (w.write(t, 2) != status::ok || w.size() != 2 || b[0] != t[0] || b[1] != 'y' || b[2] != 3) { return false; }
    bool refused = false;
    try {
        (void) w.write(t, 2);
    } catch (std::logic_error const&) { refused = true; }
    return refused == (count == 0) && b[2] == 3 && b[3] == 4 && w.size() == (count != 0 ? 4 : 2);
}
bool reading_beyond_the_end_is_refused(N discard) {
    char b[4]{1, 2, 3, 4};
    readable_stream r{b, 3};
    bool refused = false;
    (void) r.read<std::int8_t>(order::ascending, false);
    try {
        (void) r.read<std::int32_t>(order::ascending, discard != 0);
    } catch (std::domain_error const&) { refused = true; }
    return refused && r.size() == 1;
}
bool reading_octets_beyond_the_end_is_refused(N discard, N fixed) {
    char b[6]{0x7f, 0, 0, 0, 5, 6};
    readable_stream r{b, 6};
    b[0] = 0;
    b[3] = 3;
    bool refused = false;
    page p{};
    try {
        (void) r.read<accessor::binary>(order::ascending, discard != 0, meta::octet_field_option{fixed == 0, 7}, &p);
    } catch (std::domain_error const&) { refused = true; }
    return refused;
}
}

namespace probe {

// so many bytes of the coefficient, most significant first, with the sign turned over
int decimal_as_key(int sign, N hi, N lo, N k, N desc) {
    order o{};
    order_of(desc, o);
    plain_numbers(k);
    char b[17]{};
    writable_stream w{b, 17};
    runtime_t<meta::field_type_kind::decimal> v{sign, hi, lo, -2};
    auto st = w.write<runtime_t<meta::field_type_kind::decimal>>(v, o, meta::decimal_field_option{38, 2});
    if (st != status::ok || w.size() != k) { return 0; }
    if (sign < 0) {
        lo = ~lo + 1;
        hi = ~hi;
        if (lo == 0) { hi += 1; }
    }
    for (N i = 0; i < k; ++i) {
        auto x = static_cast<std::uint8_t>(i < 8 ? lo >> (8 * i) : i < 16 ? hi >> (8 * (i - 8)) : sign < 0 ? 0xff : 0);
        if (i == k - 1) { x = static_cast<std::uint8_t>(x ^ 0x80U); }
        if (desc != 0) { x = static_cast<std::uint8_t>(~x); }
        if (static_cast<std::uint8_t>(b[k - 1 - i]) != x) { return 0; }
    }
    return 1;
}
// one that is not negative is read as it was written
int decimal_again(N hi, N lo, N k, N desc, N discard) {
    order o{};
    any_order(desc, o);
    plain_numbers(k);
    char b[18]{};
    writable_stream w{b, 18};
    runtime_t<meta::field_type_kind::decimal> v{1, hi, lo, -2};
    meta::decimal_field_option option{38, 2};
    if (w.write<runtime_t<meta::field_type_kind::decimal>>(v, o, option) != status::ok) { return 0; }
    (void) w.write<std::int8_t>(5, o);
    readable_stream r{b, w.size()};
    auto x = r.read<runtime_t<meta::field_type_kind::decimal>>(o, discard != 0, option);
    if (r.size() != k) { return 0; }
    if (discard != 0) { return r.read<std::int8_t>(o, false) == 5; }
    return x.sign() == 1 && x.coefficient_high() == hi && x.coefficient_low() == lo && x.exponent() == -2 && r.read<std::int8_t>(o, false) == 5;
}
}

namespace probe::decimals_positive {

bool one_byte_as_key(N desc) { return decimal_as_key(1, 0, raw8() & 0x7fU, 1, desc) != 0; }
bool two_bytes_as_key(N desc) { return decimal_as_key(1, 0, raw8() & 0x7fffU, 2, desc) != 0; }
bool eight_bytes_as_key(N desc) { return decimal_as_key(1, 0, raw8() & 0x7fffffffffffffffU, 8, desc) != 0; }
bool nine_bytes_as_key(N desc) { return decimal_as_key(1, raw8() & 0x7fU, raw8(), 9, desc) != 0; }
bool sixteen_bytes_as_key(N desc) { return decimal_as_key(1, raw8() & 0x7fffffffffffffffU, raw8(), 16, desc) != 0; }
bool seventeen_bytes_as_key(N desc) { return decimal_as_key(1, raw8(), raw8(), 17, desc) != 0; }
}

namespace probe::decimals_again {

bool one_byte_again(N desc, N discard) { return decimal_again(0, raw8() & 0x7fU, 1, desc, discard) != 0; }
bool two_bytes_again(N desc, N discard) { return decimal_again(0, raw8() & 0x7fffU, 2, desc, discard) != 0; }
bool eight_bytes_again(N desc, N discard) { return decimal_again(0, raw8() & 0x7fffffffffffffffU, 8, desc, discard) != 0; }
bool nine_bytes_again(N desc, N discard) { return decimal_again(raw8() & 0x7fU, raw8(), 9, desc, discard) != 0; }
bool sixteen_bytes_again(N desc, N discard) { return decimal_again(raw8() & 0x7fffffffffffffffU, raw8(), 16, desc, discard) != 0; }
bool seventeen_bytes_again(N desc, N discard) { return decimal_again(raw8(), raw8(), 17, desc, discard) != 0; }
}

namespace probe::decimals_negative {

bool one_byte_below_zero_as_key(N desc) { return decimal_as_key(-1, 0, raw8() & 0x7fU, 1, desc) != 0; }
bool two_bytes_below_zero_as_key(N desc) { return decimal_as_key(-1, 0, raw8() & 0x7fffU, 2, desc) != 0; }
bool eight_bytes_below_zero_as_key(N desc) { return decimal_as_key(-1, 0, raw8() & 0x7fffffffffffffffU, 8, desc) != 0; }
bool nine_bytes_below_zero_as_key(N desc) { return decimal_as_key(-1, raw8() & 0x7fU, raw8() | 1U, 9, desc) != 0; }
bool nine_bytes_below_zero_without_low_part_as_key(N desc) { return decimal_as_key(-1, raw8() & 0x7fU, 0, 9, desc) != 0; }
bool sixteen_bytes_below_zero_as_key(N desc) { return decimal_as_key(-1, raw8() & 0x7fffffffffffffffU, raw8() | 1U, 16, desc) != 0; }
bool sixteen_bytes_below_zero_without_low_part_as_key(N desc) { return decimal_as_key(-1, raw8() & 0x7fffffffffffffffU, 0, 16, desc) != 0; }
bool seventeen_bytes_below_zero_as_key(N desc) { return decimal_as_key(-1, raw8(), raw8() | 1U, 17, desc) != 0; }
bool seventeen_bytes_below_zero_without_low_part_as_key(N desc) { return decimal_as_key(-1, raw8(), 0, 17, desc) != 0; }
}

namespace probe {

// the number these bytes stand for when they are below zero
int decimal_below_zero(N hi, N lo, N k, N desc) {
    order o{};
    order_of(desc, o);
    plain_numbers(k);
    char b[17]{};
    for (N i = 0; i < k; ++i) {
        auto x = static_cast<std::uint8_t>(i < 8 ? lo >> (8 * i) : i < 16 ? hi >> (8 * (i - 8)) : 0xff);
        if (i == k - 1) { x = static_cast<std::uint8_t>(x ^ 0x80U); }
        if (desc != 0) { x = static_cast<std::uint8_t>(~x); }
        b[k - 1 - i] = static_cast<char>(x);
    }
    readable_stream r{b, k};
    auto x = r.read<runtime_t<meta::field_type_kind::decimal>>(o, false, meta::decimal_field_option{38, 2});
    return x.sign() == -1 && x.coefficient_high() == ~hi && x.coefficient_low() == ~lo + 1 && x.exponent() == -2 && r.size() == k;
}
}

namespace probe::decimals_read {

bool one_byte_below_zero(N desc) { return decimal_below_zero(0xffffffffffffffffU, raw8() | 0xffffffffffffff81U, 1, desc) != 0; }
bool two_bytes_below_zero(N desc) { return decimal_below_zero(0xffffffffffffffffU, raw8() | 0xffffffffffff8001U, 2, desc) != 0; }
bool eight_bytes_below_zero(N desc) { return decimal_below_zero(0xffffffffffffffffU, raw8() | 0x8000000000000001U, 8, desc) != 0; }
bool nine_bytes_below_zero(N desc) { return decimal_below_zero(raw8() | 0xffffffffffffff80U, raw8() | 1U, 9, desc) != 0; }
bool sixteen_bytes_below_zero(N desc) { return decimal_below_zero(raw8() | 0x8000000000000000U, raw8() | 1U, 16, desc) != 0; }
// these may also be refused: -2^128 is none
bool seventeen_bytes_below_zero(N desc) {
    try {
        return decimal_below_zero(raw8(), raw8() | 1U, 17, desc) != 0;
    } catch (std::domain_error const&) { return true; }
}
bool seventeen_bytes_that_stand_for_nothing(N desc, N first) {
    order o{};
    order_of(desc, o);
    plain_numbers(17);
    // neither 0 nor 255 in front
    char b[17]{};
    auto x = static_cast<std::uint8_t>(first == 0 ? 0x80U ^ 0x01U : first == 1 ? 0x80U ^ 0xfeU : 0x80U ^ 0x80U);
    if (desc != 0) { x = static_cast<std::uint8_t>(~x); }
    b[0] = static_cast<char>(x);
    readable_stream r{b, 17};
    try {
        (void) r.read<runtime_t<meta::field_type_kind::decimal>>(o, false, meta::decimal_field_option{38, 2});
    } catch (std::domain_error const&) { return true; }
    return false;
}
bool decimals_beyond_the_end_are_refused(N discard) {
    plain_numbers(5);
    char b[4]{};
    readable_stream r{b, 4};
    try {
        (void) r.read<runtime_t<meta::field_type_kind::decimal>>(order::ascending, discard != 0, meta::decimal_field_option{10, 2});
    } catch (std::domain_error const&) { return r.size() == 0; }
    return false;
}
// numbers that are none, that lose digits, or have more digits than there is room for, are refused
bool decimals_that_are_not_of_the_type(N what, N desc) {
    order o{};
    order_of(desc, o);
    plain_numbers(3);
    made = what == 1 ? 1 : what == 2 ? 2 : 0;
    rescaled = what == 3 ? 1 : 0;
    number.digits = what == 4 ? 11 : 10;
    char b[3]{};
    writable_stream w{b, 3};
    runtime_t<meta::field_type_kind::decimal> v{1, 0, 7, -2};
    meta::decimal_field_option option{10, 2};
    if (what == 5) { option.precision_.reset(); }
    if (what == 6) { option.scale_.reset(); }
    auto st = w.write<runtime_t<meta::field_type_kind::decimal>>(v, o, option);
    if (what == 0 || what == 2 || what > 6) { return st == status::ok && w.size() == 3; }
    return st == status::err_expression_evaluation_failure && w.size() == 0;
}
bool decimals_that_do_not_fit(N desc, N count) {
    order o{};
    order_of(desc, o);
    plain_numbers(3);
    char b[5]{1, 2, 3, 4, 5};
    writable_stream w{b, 2, count != 0};
    bool refused = false;
    auto st = status::ok;
    try {
        st = w.write<runtime_t<meta::field_type_kind::decimal>>(runtime_t<meta::field_type_kind::decimal>{1, 0, 7, -2}, o, meta::decimal_field_option{10, 2});
    } catch (std::logic_error const&) { refused = true; }
    if (b[0] != 1 || b[1] != 2 || b[2] != 3 || b[3] != 4) { return false; }
    if (st != status::ok) { return false; }
    return refused == (count == 0) && w.size() == (count != 0 ? 3 : 0);
}
}
