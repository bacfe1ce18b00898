// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstdint>
#include <ostream>
namespace takatori::datetime {
class date {
public:
    using difference_type = std::int64_t;
    constexpr date() noexcept = default;
    constexpr explicit date(difference_type days) noexcept : days_(days) {}
    explicit date(std::int32_t year, std::uint32_t month, std::uint32_t day);
    constexpr difference_type days_since_epoch() const noexcept { return days_; }
    std::int32_t year() const noexcept;
    std::uint32_t month() const noexcept;
    std::uint32_t day() const noexcept;
    date& operator+=(difference_type offset) noexcept { days_ += offset; return *this; }
private:
    difference_type days_{};
};
inline bool operator==(date a, date b) { return a.days_since_epoch() == b.days_since_epoch(); }
inline bool operator!=(date a, date b) { return a.days_since_epoch() != b.days_since_epoch(); }
inline bool operator<(date a, date b) { return a.days_since_epoch() < b.days_since_epoch(); }
inline bool operator<=(date a, date b) { return a.days_since_epoch() <= b.days_since_epoch(); }
inline bool operator>(date a, date b) { return a.days_since_epoch() > b.days_since_epoch(); }
inline bool operator>=(date a, date b) { return a.days_since_epoch() >= b.days_since_epoch(); }
inline date operator+(date a, date::difference_type b) { return date(a.days_since_epoch() + b); }
inline date operator-(date a, date::difference_type b) { return date(a.days_since_epoch() - b); }
std::ostream& operator<<(std::ostream& out, date value);
}
template<> struct std::hash<takatori::datetime::date> { std::size_t operator()(takatori::datetime::date const& v) const noexcept { return static_cast<std::size_t>(v.days_since_epoch()); } };
