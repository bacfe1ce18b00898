// Analysed only, never compiled or run: contracts over the values of sequences and over what a commit keeps of them.
#include <cstdint>
#include <limits>
#include <optional>
#include <vector>
#include "jogasaki/executor/sequence/info.h"
#include "jogasaki/executor/sequence/manager.h"
#include "jogasaki/executor/sequence/sequence.h"
#include "jogasaki/executor/sequence/metadata_store.h"
#include "jogasaki/executor/sequence/exception.h"
#include "jogasaki/kvs/database.h"
#include "jogasaki/kvs/transaction.h"

namespace probe {
struct update { std::uint64_t id_{}; std::uint64_t version_{}; std::int64_t value_{}; };
std::vector<update> updates{};
sharksfin::StatusCode update_with{};
sharksfin::StatusCode read_with{};
std::uint64_t kept_version{};
std::int64_t kept_value{};
std::uint64_t next_id{};
std::uint64_t removed_id{};
int removed{};
std::vector<std::pair<std::int64_t, std::int64_t>> id_map{};
}
namespace sharksfin {
StatusCode transaction_borrow_handle(TransactionControlHandle, TransactionHandle* result) { *result = {}; return StatusCode::OK; }
StatusCode sequence_create(DatabaseHandle, SequenceId* id) { *id = ++probe::next_id; return StatusCode::OK; }
StatusCode sequence_put(TransactionHandle, SequenceId id, SequenceVersion version, SequenceValue value) {
    if (probe::update_with == StatusCode::OK) { probe::updates.emplace_back(probe::update{id, version, value}); }
    return probe::update_with;
}
StatusCode sequence_get(DatabaseHandle, SequenceId, SequenceVersion* version, SequenceValue* value) {
    if (probe::read_with == StatusCode::OK) { *version = probe::kept_version; *value = probe::kept_value; }
    return probe::read_with;
}
StatusCode sequence_delete(DatabaseHandle, SequenceId id) { ++probe::removed; probe::removed_id = id; return StatusCode::OK; }
}
namespace probe::counting {
using namespace jogasaki;
using executor::sequence::manager;
using executor::sequence::sequence;
using executor::sequence::sequence_error;
using V = std::int64_t;
constexpr V most = std::numeric_limits<V>::max();
constexpr V least = std::numeric_limits<V>::min();

// what a next value is to be
struct one {
    kvs::database db_{};
    kvs::transaction tx_{};
    manager m_;
    class executor::sequence::info info_;
    sequence s_;
    one(V initial, V by, V lowest, V highest, int cycle, std::uint64_t version, V now) :
        m_(db_, {}), info_(1, 7, "s", initial, by, lowest, highest, cycle != 0), s_(info_, m_, version, now) {
        updates = {};
        update_with = sharksfin::StatusCode::OK;
        read_with = sharksfin::StatusCode::OK;
        removed = 0;
        next_id = 10;
    }
    int gives(V v) {
        auto r = s_.next(tx_);
        return r ? (r.value() == v ? 1 : 0) : 0;
    }
    int refuses(sequence_error e) {
        auto before = s_.get();
        auto r = s_.next(tx_);
        return ! r && r.error() == e && s_.get() == before ? 1 : 0;
    }
};
}
namespace probe::counters {
using namespace probe::counting;

bool the_first_value_is_the_initial_one(V initial, V by, V lowest, V highest, int cycle) {
    one s{initial, by, lowest, highest, cycle, 1, initial};
    return s.gives(initial) == 1 && s.s_.get().version_ == 2 && s.s_.get().value_ == initial;
}
bool the_next_value_is_one_step_on(V initial, V by, V lowest, V highest, int cycle, std::uint64_t version, V now) {
    if (version < 2 || version > 1000000 || by < -1000 || by > 1000 || by == 0) { return true; }
    if (lowest < -1000000 || highest > 1000000 || lowest > highest || now < lowest || now > highest || now + by < lowest || now + by > highest) { return true; }
    one s{initial, by, lowest, highest, cycle, version, now};
    return s.gives(now + by) == 1 && s.s_.get().version_ == version + 1 && s.s_.get().value_ == now + by;
}
bool at_its_end_it_starts_over_or_refuses(V initial, V by, V lowest, V highest, int cycle, std::uint64_t version, V now) {
    if (version < 2 || version > 1000000 || by < -1000 || by > 1000 || by == 0) { return true; }
    if (lowest < -1000000 || highest > 1000000 || lowest > highest || now < lowest || now > highest || (now + by >= lowest && now + by <= highest)) { return true; }
    one s{initial, by, lowest, highest, cycle, version, now};
    if (cycle == 0) { return s.refuses(by > 0 ? sequence_error::out_of_upper_bound : sequence_error::out_of_lower_bound) == 1; }
    return s.gives(by > 0 ? lowest : highest) == 1 && s.s_.get().version_ == version + 1;
}
bool it_counts_up_through_all_numbers(int cycle) {
    one s{-5, 1, least, most, cycle, 2, -5};
    return s.gives(-4) == 1;
}
bool it_counts_down_through_all_numbers(int cycle) {
    one s{5, -1, least, most, cycle, 2, 5};
    return s.gives(4) == 1;
}
bool the_last_number_is_given(int cycle) {
    one s{0, 1, least, most, cycle, 2, most - 1};
    if (s.gives(most) != 1) { return false; }
    return cycle != 0 ? s.gives(least) == 1 : s.refuses(sequence_error::out_of_upper_bound) == 1;
}
bool the_first_number_is_given(int cycle) {
    one s{0, -1, least, most, cycle, 2, least + 1};
    if (s.gives(least) != 1) { return false; }
    return cycle != 0 ? s.gives(most) == 1 : s.refuses(sequence_error::out_of_lower_bound) == 1;
}
bool a_commit_keeps_the_last_value_once(V now) {
    if (now < 0 || now > 1000) { return true; }
    one s{1, 1, 1, 5000, 0, 5, now};
    (void) s.gives(now + 1);
    (void) s.gives(now + 2);
    auto other = std::make_unique<kvs::transaction>();
    if (! s.m_.notify_updates(*other) || ! updates.empty()) { return false; }
    if (! s.m_.notify_updates(s.tx_) || updates.size() != 1 || updates[0].id_ != 7 || updates[0].version_ != 7 || updates[0].value_ != now + 2) { return false; }
    return s.m_.notify_updates(s.tx_) && updates.size() == 1;
}
bool a_sequence_unknown_to_the_engine_starts_from_its_beginning(V initial, V by, std::uint64_t version, V kept, int missing) {
    one s{1, 1, 1, 5, 0, 1, 1};
    read_with = missing != 0 ? sharksfin::StatusCode::NOT_FOUND : sharksfin::StatusCode::OK;
    kept_version = version;
    kept_value = kept;
    auto* q = s.m_.register_sequence(&s.tx_, 3, "q", initial, by, -1000, 1000, false, false);
    if (q == nullptr || s.m_.find_sequence(3) != q || s.m_.find_sequence(4) != nullptr) { return false; }
    if (missing != 0 || version == 0) { return q->get().version_ == 1 && q->get().value_ == initial; }
    return q->get().version_ == version && q->get().value_ == kept && q->info().id() == 11 && q->info().increment() == by;
}
}
