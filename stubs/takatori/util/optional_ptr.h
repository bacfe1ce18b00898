// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstddef>
namespace takatori::util {
template<class T> class optional_ptr {
public:
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {}
    constexpr explicit optional_ptr(T* v) noexcept : v_(v) {}
    constexpr optional_ptr(T& v) noexcept : v_(&v) {}
    template<class U> constexpr optional_ptr(optional_ptr<U> const& o) noexcept : v_(o.get()) {}
    constexpr T* get() const noexcept { return v_; }
    constexpr T& operator*() const noexcept { return *v_; }
    constexpr T* operator->() const noexcept { return v_; }
    constexpr T& value() const { return *v_; }
    constexpr explicit operator bool() const noexcept { return v_ != nullptr; }
    constexpr bool has_value() const noexcept { return v_ != nullptr; }
    constexpr void reset() noexcept { v_ = nullptr; }
private:
    T* v_{};
};
}
