// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
namespace sharksfin {
class Slice {
public:
    constexpr Slice() noexcept = default;
    Slice(void const* data, std::size_t size) noexcept : v_(static_cast<char const*>(data), size) {}
    Slice(std::string_view v) noexcept : v_(v) {}
    Slice(std::string const& v) noexcept : v_(v) {}
    std::string_view to_string_view() const noexcept { return v_; }
    template<class T = void> T const* data() const noexcept { return reinterpret_cast<T const*>(v_.data()); }
    std::size_t size() const noexcept { return v_.size(); }
    bool empty() const noexcept { return v_.empty(); }
private:
    std::string_view v_{};
};
}
