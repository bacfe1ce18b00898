// Analysed only, never compiled or run: contracts over transactions that wait until they are durable.
#include <cstdint>
#include <memory>
#include <sstream>
#include <stdexcept>
#include "jogasaki/durability_manager.h"
#include "jogasaki/executor/global.h"
#include "jogasaki/kvs/transaction.h"
#include "jogasaki/request_context.h"
#include "jogasaki/transaction_context.h"
#include "jogasaki/utils/cancel_request.h"
#include "jogasaki/utils/fail.h"
#include <tateyama/api/server/request.h>
#include <tateyama/api/server/response.h>

namespace probe {
takatori::util::maybe_shared_ptr<jogasaki::configuration> settings{};
}
namespace jogasaki::global {
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration>) { return probe::settings; }
}
namespace jogasaki::utils {
void fail_with_exception_impl(std::string_view, std::string_view, std::string_view) { throw std::logic_error{"internal error"}; }
}

namespace probe {
using number = std::uint64_t;
void others_act();      // from here on other threads change what is shared between any two steps
std::size_t changes();  // what this thread changed of it
bool first_before();    // what it changed first
bool first_after();
bool after();           // what it changed last
int ready_to_cancel();  // the cancellation of waiting requests is turned on
struct client : tateyama::api::server::response {
    explicit client(int gone) : gone_(gone) {}
    bool check_cancel() const override { return gone_ != 0; }
    int gone_{};
};

}

namespace probe::waiting {
using jogasaki::durability_manager;
using jogasaki::request_context;
using jogasaki::transaction_context;
using N = number;
using waiter = std::shared_ptr<request_context>;
constexpr N some = 1UL << 40U;

waiter committing(N marker) {
    auto tx = std::make_shared<transaction_context>();
    tx->transaction_ = std::make_shared<jogasaki::kvs::transaction>();
    tx->durability_marker(marker);
    return std::make_shared<request_context>(nullptr, nullptr, nullptr, tx);
}
waiter committing_for(N marker, std::shared_ptr<client> const& c) {
    auto r = committing(marker);
    r->req_info_.response_source_ = c;
    return r;
}
int free(durability_manager& m) { return ! m.heap_in_use_.load(); }
int taken(durability_manager& m, waiter const& a) {
    waiter x{};
    return m.heap_.try_pop(x) && x == a;
}

bool those_whose_marker_was_reached_are_told_and_the_others_wait(N a, N b, N reached) {
    durability_manager m{};
    auto x = committing(a);
    auto y = committing(b);
    m.add_to_waitlist(x);
    m.add_to_waitlist(y);
    N told_x = 0;
    N told_y = 0;
    N others = 0;
    bool done = m.update_current_marker(reached, [&](waiter const& e) {
        if (e == x) { ++told_x; } else if (e == y) { ++told_y; } else { ++others; }
    });
    return done && told_x == (a <= reached ? 1 : 0) && told_y == (b <= reached ? 1 : 0) && others == 0
        && m.heap_.size() == (a <= reached ? 0 : 1) + (b <= reached ? 0 : 1) && m.current_marker() == reached && free(m);
}
bool those_that_still_wait_are_told_later(N a, N first, N second) {
    durability_manager m{};
    auto x = committing(a);
    m.add_to_waitlist(x);
    N told = 0;
    N early = 0;
    bool done = m.update_current_marker(first, [&](waiter const&) { ++early; }) && m.update_current_marker(second, [&](waiter const& e) { if (e == x) { ++told; } });
    return done && early == (a <= first ? 1 : 0) && told == (a > first && a <= second ? 1 : 0) && early + told + m.heap_.size() == 1;
}
bool those_told_are_told_in_the_order_of_their_markers(N a, N b, N reached) {
    durability_manager m{};
    auto x = committing(a);
    auto y = committing(b);
    m.add_to_waitlist(x);
    m.add_to_waitlist(y);
    N told = 0;
    N last = 0;
    N back = 0;
    m.update_current_marker(reached, [&](waiter const& e) {
        auto marker = *e->transaction()->durability_marker();
        if (told != 0 && marker < last) { ++back; }
        last = marker;
        ++told;
    });
    return back == 0;
}
bool the_marker_reached_is_known_when_it_was_told_to(N first, N second) {
    durability_manager m{};
    bool done = m.update_current_marker(first, [](waiter const&) {});
    bool ok = m.current_marker() == first;
    done = m.update_current_marker(second, [](waiter const&) {}) && done;
    return done && ok && m.current_marker() == (first < second ? second : first);
}
bool the_marker_is_taken_at_once_only_when_nobody_waits(N a, N first, N reached, N n) {
    durability_manager m{};
    bool done = m.instant_update_if_waitlist_empty(first) && m.current_marker() == first;
    if (n == 0) {
        done = m.instant_update_if_waitlist_empty(reached) && done;
        return done && m.current_marker() == (first < reached ? reached : first) && free(m);
    }
    auto x = committing(a);
    m.add_to_waitlist(x);
    return done && ! m.instant_update_if_waitlist_empty(reached) && m.current_marker() == first && m.heap_.size() == 1 && free(m);
}
bool a_marker_nobody_told_is_refused() {
    durability_manager m{};
    (void) m.current_marker();
    return false;
}
bool nothing_happens_while_another_uses_the_list(N a, N current, N reached) {
    durability_manager m{};
    m.update_current_marker(current, [](waiter const&) {});
    auto x = committing_for(a, std::make_shared<client>(1));
    m.add_to_waitlist(x);
    m.heap_in_use_ = true;
    N told = 0;
    auto cb = [&](waiter const&) { ++told; };
    bool taken_at_once = m.instant_update_if_waitlist_empty(reached);
    bool updated = m.update_current_marker(reached, cb);
    bool checked = m.check_cancel(cb);
    return ! taken_at_once && ! updated && (! checked || ! ready_to_cancel()) && told == 0 && m.heap_.size() == 1 && m.current_marker() == current && ! free(m);
}
bool those_who_went_away_are_told_and_the_others_wait(N a, N b, N gone_a, N gone_b) {
    durability_manager m{};
    auto x = committing_for(a, std::make_shared<client>(gone_a != 0 ? 1 : 0));
    auto y = committing_for(b, std::make_shared<client>(gone_b != 0 ? 1 : 0));
    auto z = committing(a);
    m.add_to_waitlist(x);
    m.add_to_waitlist(y);
    m.add_to_waitlist(z);
    N told_x = 0;
    N told_y = 0;
    N others = 0;
    bool done = m.check_cancel([&](waiter const& e) {
        if (e == x) { ++told_x; } else if (e == y) { ++told_y; } else { ++others; }
    });
    N on = ready_to_cancel() ? 1 : 0;
    N told = told_x + told_y;
    return done && told_x == (gone_a != 0 ? on : 0) && told_y == (gone_b != 0 ? on : 0) && others == 0 && m.heap_.size() == 3 - told && free(m);
}
bool a_report_keeps_those_who_wait(N a, N b, std::ostream& out) {
    durability_manager m{};
    auto x = committing(a);
    auto y = committing(b);
    m.add_to_waitlist(x);
    m.add_to_waitlist(y);
    m.print_diagnostic(out);
    N told_x = 0;
    N told_y = 0;
    bool done = m.update_current_marker(~0UL, [&](waiter const& e) {
        if (e == x) { ++told_x; } else if (e == y) { ++told_y; }
    });
    return done && told_x == 1 && told_y == 1 && m.heap_.size() == 0;
}
// other threads act between any two steps
bool the_list_is_used_only_by_who_took_it(N a, N reached) {
    durability_manager m{};
    auto x = committing(a);
    m.add_to_waitlist(x);
    N told = 0;
    others_act();
    bool done = m.update_current_marker(reached, [&](waiter const& e) { if (e == x && changes() != 0 && ! first_before() && first_after()) { ++told; } });
    if (! done) { return changes() == 0 && told == 0 && m.heap_.size() == 1; }
    return changes() >= 2 && ! after() && told == (a <= reached ? 1 : 0) && m.heap_.size() + told == 1;
}
bool the_list_is_checked_only_by_who_took_it(N a) {
    durability_manager m{};
    auto x = committing_for(a, std::make_shared<client>(1));
    m.add_to_waitlist(x);
    N told = 0;
    others_act();
    bool done = m.check_cancel([&](waiter const& e) { if (e == x && changes() != 0 && ! first_before() && first_after()) { ++told; } });
    if (! ready_to_cancel()) { return done && changes() == 0 && told == 0; }
    if (! done) { return changes() == 0 && told == 0 && m.heap_.size() == 1; }
    return changes() >= 2 && ! after() && told == 1 && m.heap_.size() == 0;
}
}
