// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <iosfwd>
namespace takatori::serializer {
class json_printer {
public:
    explicit json_printer(std::ostream& out);
};
}
