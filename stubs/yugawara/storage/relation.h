// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <string_view>
namespace yugawara::storage {
class relation {
public:
    std::string_view simple_name() const noexcept;
};
}
