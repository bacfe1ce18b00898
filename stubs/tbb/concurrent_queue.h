// Analysed only: the behaviour of the container as one thread sees it.
#pragma once
#include <cstddef>
#include <deque>
#include <utility>
namespace tbb {
template<class T, class... Rest> class concurrent_queue {
public:
    concurrent_queue() = default;
    void push(T const& v) { values_.push_back(v); }
    void push(T&& v) { values_.push_back(std::move(v)); }
    template<class... A> void emplace(A&&... a) { values_.emplace_back(std::forward<A>(a)...); }
    bool try_pop(T& out) {
        if (values_.empty()) { return false; }
        out = std::move(values_.front());
        values_.pop_front();
        return true;
    }
    bool empty() const { return values_.empty(); }
    std::size_t unsafe_size() const { return values_.size(); }
    void clear() { values_.clear(); }
private:
    std::deque<T> values_{};
};
}
