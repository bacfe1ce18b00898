// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <takatori/serializer/json_printer.h>
namespace takatori::statement { class statement; }
namespace takatori::serializer {
class object_scanner {
public:
    void operator()(statement::statement const& s, json_printer&& printer) const;
};
}
