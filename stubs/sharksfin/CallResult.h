// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <memory>
#include <string>
#include <string_view>
#include "ErrorCode.h"
#include "ErrorLocator.h"
namespace sharksfin {
class CallResult {
public:
    CallResult(ErrorCode code, std::shared_ptr<ErrorLocator> loc, std::string text) : code_(code), loc_(std::move(loc)), text_(std::move(text)) {}
    ErrorCode code() const noexcept { return code_; }
    std::shared_ptr<ErrorLocator> const& location() const noexcept { return loc_; }
    std::string_view description() const noexcept { return text_; }
private:
    ErrorCode code_{};
    std::shared_ptr<ErrorLocator> loc_{};
    std::string text_{};
};
}
