// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <memory>
#include <string_view>
#include "table.h"
namespace yugawara::storage {
class index {
public:
    class table const& table() const noexcept { return *table_; }
    std::string_view simple_name() const noexcept { return name_; }
    std::shared_ptr<class table const> table_{};
    std::string_view name_{};
};
}
