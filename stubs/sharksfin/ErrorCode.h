// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <cstdint>
#include <ostream>
namespace sharksfin {
enum class ErrorCode : std::uint32_t {
    OK = 0,
    ERROR = 1,
    KVS_KEY_ALREADY_EXISTS = 2,
    KVS_KEY_NOT_FOUND = 3,
    CC_LTX_READ_ERROR = 4,
    CC_LTX_WRITE_ERROR = 5,
    CC_LTX_PHANTOM_ERROR = 6,
    CC_LTX_READ_UPPER_BOUND_VIOLATION = 7,
    CC_OCC_READ_ERROR = 8,
    CC_OCC_PHANTOM_ERROR = 9,
};
std::ostream& operator<<(std::ostream& out, ErrorCode value);
}
