// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstddef>
#include <ostream>
#include <type_traits>
#include <vector>
namespace takatori::util {
template<class T> class sequence_view {
public:
    using entity = std::vector<std::remove_const_t<T>>;
    sequence_view() = default;
    sequence_view(entity const& v) : all_(&v) {}
    std::size_t size() const { return all_ == nullptr ? 0 : all_->size(); }
    bool empty() const { return size() == 0; }
    T& operator[](std::size_t i) const { return (*all_)[i]; }
    auto begin() const { return all_->begin(); }
    auto end() const { return all_->end(); }
private:
    entity const* all_{};
};
template<class T> std::ostream& operator<<(std::ostream& out, sequence_view<T> const& value) {
    for (auto&& v : value) { out << v << ","; }
    return out;
}
}
