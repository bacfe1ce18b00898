// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <functional>
#include <memory>
#include "element.h"
namespace takatori::descriptor {
class variable {
public:
    using entity_type = element;
    explicit variable(std::shared_ptr<element> e) : e_(std::move(e)) {}
    element const& entity() const { return *e_; }
    friend bool operator==(variable const& a, variable const& b) { return a.e_ == b.e_; }
private:
    std::shared_ptr<element> e_{};
};
}
template <> struct std::hash<takatori::descriptor::variable> { std::size_t operator()(takatori::descriptor::variable const& v) const noexcept { return reinterpret_cast<std::size_t>(&v.entity()); } };
