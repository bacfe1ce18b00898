// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <utility>
#include <variant>
namespace takatori::util {
template<class Error, class Value> class either {
public:
    either(Error e) : v_(std::in_place_index<0>, std::move(e)) {}
    either(Value v) : v_(std::in_place_index<1>, std::move(v)) {}
    bool is_error() const noexcept { return v_.index() == 0; }
    bool is_right() const noexcept { return v_.index() == 1; }
    bool has_value() const noexcept { return v_.index() == 1; }
    explicit operator bool() const noexcept { return v_.index() == 1; }
    Error& error() { return std::get<0>(v_); }
    Error const& error() const { return std::get<0>(v_); }
    Value& value() { return std::get<1>(v_); }
    Value const& value() const { return std::get<1>(v_); }
    Value* operator->() { return &std::get<1>(v_); }
    Value& operator*() { return std::get<1>(v_); }
private:
    std::variant<Error, Value> v_;
};
}
