// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <ostream>
#include <string>
#include <type_traits>
namespace decimal { class Decimal; }
namespace takatori::decimal {
class triple {
public:
    constexpr triple() noexcept = default;
    constexpr triple(std::int32_t sign, std::uint64_t coefficient_high, std::uint64_t coefficient_low, std::int32_t exponent) noexcept :
        high_(coefficient_high), low_(coefficient_low), sign_(sign), exponent_(exponent) {}
    constexpr triple(std::int64_t coefficient, std::int32_t exponent) noexcept;
    constexpr triple(std::int64_t coefficient) noexcept;
    template<class D, class = std::enable_if_t<std::is_same_v<D, ::decimal::Decimal>>> triple(D const& v) noexcept : triple(v.value()) {}
    constexpr std::int32_t sign() const noexcept { return sign_; }
    constexpr std::uint64_t coefficient_high() const noexcept { return high_; }
    constexpr std::uint64_t coefficient_low() const noexcept { return low_; }
    constexpr std::int32_t exponent() const noexcept { return exponent_; }
    std::string to_string() const;
    triple shift(std::int32_t offset) const noexcept { return triple{sign_, high_, low_, exponent_ + offset}; }
private:
    std::uint64_t high_{};
    std::uint64_t low_{};
    std::int32_t sign_{};
    std::int32_t exponent_{};
};
inline bool operator==(triple const& a, triple const& b) { return a.sign() == b.sign() && a.coefficient_high() == b.coefficient_high() && a.coefficient_low() == b.coefficient_low() && a.exponent() == b.exponent(); }
inline bool operator!=(triple const& a, triple const& b) { return !(a == b); }
bool operator<(triple const& a, triple const& b);
std::ostream& operator<<(std::ostream& out, triple const& value);
}
template<> struct std::hash<takatori::decimal::triple> { std::size_t operator()(takatori::decimal::triple const& v) const noexcept; };
