// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
namespace yugawara::storage {
class sequence {
public:
    using definition_id_type = std::size_t;
    using value_type = std::int64_t;
    std::optional<definition_id_type> definition_id() const noexcept;
    sequence& definition_id(std::optional<definition_id_type> v) noexcept;
    std::string_view simple_name() const noexcept;
    value_type initial_value() const noexcept;
    value_type increment_value() const noexcept;
    value_type min_value() const noexcept;
    value_type max_value() const noexcept;
    bool cycle() const noexcept;
};
}
