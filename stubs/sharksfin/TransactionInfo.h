// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <string>
#include <string_view>
namespace sharksfin {
class TransactionInfo {
public:
    TransactionInfo() = default;
    explicit TransactionInfo(std::string id) : id_(std::move(id)) {}
    std::string_view id() const noexcept { return id_; }
private:
    std::string id_{};
};
}
