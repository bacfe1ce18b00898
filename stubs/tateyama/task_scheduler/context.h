// Analysed only.
#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class context {
public:
    context() = default;
    explicit context(std::size_t i) : index_(i) {}
    std::size_t index() const noexcept { return index_; }
    std::size_t last_steal_from() const noexcept { return 0; }
    bool task_is_stolen() const noexcept { return stolen_; }
    void task_is_stolen(bool v) noexcept { stolen_ = v; }
private:
    std::size_t index_{};
    bool stolen_{};
};
}
