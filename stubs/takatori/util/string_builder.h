// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
    template<class T> string_builder& operator<<(T&& v) & { buffer_ << std::forward<T>(v); return *this; }
    template<class T> string_builder&& operator<<(T&& v) && { buffer_ << std::forward<T>(v); return std::move(*this); }
    std::string operator<<(to_string_t) & { return buffer_.str(); }
    std::string operator<<(to_string_t) && { return buffer_.str(); }
    std::string str() const { return buffer_.str(); }
private:
    std::ostringstream buffer_{};
};
}
