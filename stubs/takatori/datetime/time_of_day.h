// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <chrono>
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class time_of_day {
public:
    using time_unit = std::chrono::duration<std::uint64_t, std::nano>;
    constexpr time_of_day() noexcept = default;
    constexpr explicit time_of_day(time_unit elapsed) noexcept : elapsed_(elapsed) {}
    explicit time_of_day(std::uint32_t hour, std::uint32_t minute, std::uint32_t second, time_unit subsecond = {}) noexcept;
    constexpr time_unit time_since_epoch() const noexcept { return elapsed_; }
    std::uint32_t hour() const noexcept;
    std::uint32_t minute() const noexcept;
    std::uint32_t second() const noexcept;
    time_unit subsecond() const noexcept;
private:
    time_unit elapsed_{};
};
inline bool operator==(time_of_day a, time_of_day b) { return a.time_since_epoch().count() == b.time_since_epoch().count(); }
inline bool operator!=(time_of_day a, time_of_day b) { return a.time_since_epoch().count() != b.time_since_epoch().count(); }
inline bool operator<(time_of_day a, time_of_day b) { return a.time_since_epoch().count() < b.time_since_epoch().count(); }
inline bool operator<=(time_of_day a, time_of_day b) { return a.time_since_epoch().count() <= b.time_since_epoch().count(); }
inline bool operator>(time_of_day a, time_of_day b) { return a.time_since_epoch().count() > b.time_since_epoch().count(); }
inline bool operator>=(time_of_day a, time_of_day b) { return a.time_since_epoch().count() >= b.time_since_epoch().count(); }
std::ostream& operator<<(std::ostream& out, time_of_day value);
}
template<> struct std::hash<takatori::datetime::time_of_day> { std::size_t operator()(takatori::datetime::time_of_day const& v) const noexcept { return static_cast<std::size_t>(v.time_since_epoch().count()); } };
