// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <chrono>
#include <cstdint>
#include <ostream>
#include "date.h"
#include "time_of_day.h"
namespace takatori::datetime {
class time_point {
public:
    using offset_type = std::chrono::duration<std::int64_t>;
    using difference_type = std::chrono::duration<std::int64_t>;
    using subsecond_unit = std::chrono::duration<std::uint64_t, std::nano>;
    constexpr time_point() noexcept = default;
    constexpr explicit time_point(offset_type offset, subsecond_unit subsecond = {}) noexcept : offset_(offset), subsecond_(subsecond) {}
    explicit time_point(datetime::date date, time_of_day time = {}) noexcept;
    template<class D> explicit time_point(std::chrono::time_point<std::chrono::system_clock, D> t) noexcept;
    constexpr offset_type seconds_since_epoch() const noexcept { return offset_; }
    constexpr subsecond_unit subsecond() const noexcept { return subsecond_; }
    datetime::date date() const noexcept;
    time_of_day time() const noexcept;
    static time_point now() noexcept;
    time_point& operator+=(difference_type d) noexcept;
    time_point& operator-=(difference_type d) noexcept;
    template<class D> time_point& operator+=(D d) noexcept;
    template<class D> time_point& operator-=(D d) noexcept;
private:
    offset_type offset_{};
    subsecond_unit subsecond_{};
};
inline bool operator==(time_point a, time_point b) { return a.seconds_since_epoch().count() == b.seconds_since_epoch().count() && a.subsecond().count() == b.subsecond().count(); }
inline bool operator!=(time_point a, time_point b) { return !(a == b); }
inline bool operator<(time_point a, time_point b) { return a.seconds_since_epoch().count() < b.seconds_since_epoch().count() || (a.seconds_since_epoch().count() == b.seconds_since_epoch().count() && a.subsecond().count() < b.subsecond().count()); }
inline bool operator<=(time_point a, time_point b) { return !(b < a); }
inline bool operator>(time_point a, time_point b) { return b < a; }
inline bool operator>=(time_point a, time_point b) { return !(a < b); }
template<class D> time_point operator+(time_point a, D d);
template<class D> time_point operator-(time_point a, D d);
std::ostream& operator<<(std::ostream& out, time_point value);
}
template<> struct std::hash<takatori::datetime::time_point> { std::size_t operator()(takatori::datetime::time_point const& v) const noexcept { return static_cast<std::size_t>(v.seconds_since_epoch().count()); } };
