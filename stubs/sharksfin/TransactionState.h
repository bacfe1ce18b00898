// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <cstdint>
#include <ostream>
namespace sharksfin {
class TransactionState {
public:
    enum class StateKind : std::int64_t { UNKNOWN, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE };
    TransactionState() = default;
    explicit TransactionState(StateKind kind) : kind_(kind) {}
    StateKind state_kind() const noexcept { return kind_; }
private:
    StateKind kind_{StateKind::UNKNOWN};
};
std::ostream& operator<<(std::ostream& out, TransactionState::StateKind value);
std::ostream& operator<<(std::ostream& out, TransactionState const& value);
}
