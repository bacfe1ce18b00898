// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <functional>
#include <memory>
#include <string_view>
namespace tateyama::api::server { class request;
class response {
public:
    virtual ~response() = default;
    virtual bool check_cancel() const = 0;
}; }
