// Analysed only: stands in for the header of the library of decimal numbers, which is not installed here.
#pragma once
#include <cstdint>
#include <string>
#include <takatori/decimal/triple.h>
#define MPD_IEEE_Invalid_operation 0x1U
#define MPD_Inexact 0x2U
struct mpd_t {
    std::int64_t digits;
    std::int64_t exp;
};
namespace decimal {
class Context {
public:
    std::uint32_t status() const { return status_; }
    void clear_status() { status_ = 0; }
    void raised(std::uint32_t x) { status_ |= x; }
private:
    std::uint32_t status_{};
};
extern thread_local Context context;
// what comes of making a number, and of giving it another exponent
std::uint32_t after_making();
std::uint32_t after_rescaling();
class Decimal {
public:
    Decimal() = default;
    Decimal(takatori::decimal::triple const& v) : v_(v) { context.raised(after_making()); }
    Decimal(std::int64_t v);
    Decimal(std::string const& v);
    // with another exponent; with its own, it is what it was
    Decimal rescale(std::int64_t exponent) const { context.raised(after_rescaling()); return exponent == v_.exponent() ? *this : rescaled(exponent); }
    mpd_t const* get() const;
    mpd_t const* getconst() const;
    takatori::decimal::triple value() const { return v_; }
private:
    Decimal rescaled(std::int64_t exponent) const;
    takatori::decimal::triple v_{};
};
}
