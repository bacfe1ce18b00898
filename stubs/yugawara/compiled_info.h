// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <takatori/serializer/object_scanner.h>
namespace yugawara {
class compiled_info {
public:
    takatori::serializer::object_scanner object_scanner() const noexcept;
};
}
