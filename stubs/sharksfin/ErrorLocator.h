// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <optional>
#include <ostream>
#include <string>
#include <string_view>
namespace sharksfin {
enum class ErrorLocatorKind { unknown, storage_key };
std::ostream& operator<<(std::ostream& out, ErrorLocatorKind value);
class ErrorLocator {
public:
    virtual ~ErrorLocator() = default;
    virtual ErrorLocatorKind kind() const noexcept = 0;
};
class StorageKeyErrorLocator : public ErrorLocator {
public:
    StorageKeyErrorLocator(std::optional<std::string> key, std::optional<std::string> storage) : key_(std::move(key)), storage_(std::move(storage)) {}
    ErrorLocatorKind kind() const noexcept override { return ErrorLocatorKind::storage_key; }
    std::optional<std::string> const& key() const noexcept { return key_; }
    std::optional<std::string> const& storage() const noexcept { return storage_; }
private:
    std::optional<std::string> key_{};
    std::optional<std::string> storage_{};
};
}
