// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstddef>
#include <initializer_list>
namespace takatori::util {
template<class T, T First, T Last> class enum_set {
public:
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<T> vs) {
        for (T v : vs) { insert(v); }
    }
    constexpr bool contains(T v) const {
        for (std::size_t i = 0; i < size_; ++i) {
            if (values_[i] == v) { return true; }
        }
        return false;
    }
    constexpr bool insert(T v) {
        if (contains(v)) { return false; }
        values_[size_] = v;
        ++size_;
        return true;
    }
    constexpr bool erase(T v) {
        for (std::size_t i = 0; i < size_; ++i) {
            if (values_[i] == v) {
                for (std::size_t k = i + 1; k < size_; ++k) { values_[k - 1] = values_[k]; }
                --size_;
                return true;
            }
        }
        return false;
    }
    constexpr void clear() { size_ = 0; }
    constexpr bool empty() const { return size_ == 0; }
    constexpr std::size_t size() const { return size_; }
    constexpr T const* begin() const { return values_; }
    constexpr T const* end() const { return values_ + size_; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) {
        if (a.size_ != b.size_) { return false; }
        for (std::size_t i = 0; i < a.size_; ++i) {
            if (! b.contains(a.values_[i])) { return false; }
        }
        return true;
    }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) { return !(a == b); }
private:
    T values_[8]{};
    std::size_t size_{};
};
}
