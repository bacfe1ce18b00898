// Analysed only: the behaviour of the container as one thread sees it.
#pragma once
#include <cstddef>
#include <functional>
#include <utility>
#include <vector>
namespace tbb {
template<class T, class Compare = std::less<T>, class... Rest> class concurrent_priority_queue {
public:
    concurrent_priority_queue() = default;
    explicit concurrent_priority_queue(Compare const&) {}
    void push(T const& v) { values_.push_back(v); }
    void push(T&& v) { values_.push_back(std::move(v)); }
    template<class... A> void emplace(A&&... a) { values_.emplace_back(std::forward<A>(a)...); }
    bool try_pop(T& out) {
        if (values_.empty()) { return false; }
        std::size_t best = 0;
        for (std::size_t i = 1; i < values_.size(); ++i) {
            if (Compare{}(values_[best], values_[i])) { best = i; }
        }
        out = std::move(values_[best]);
        values_.erase(values_.begin() + best);
        return true;
    }
    bool empty() const { return values_.empty(); }
    std::size_t size() const { return values_.size(); }
    void clear() { values_.clear(); }
private:
    std::vector<T> values_{};
};
}
