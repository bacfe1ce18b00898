// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
namespace sharksfin {
class StorageOptions {
public:
    using storage_id_type = std::uint64_t;
    static constexpr storage_id_type undefined = static_cast<storage_id_type>(-1);
    StorageOptions() = default;
    explicit StorageOptions(storage_id_type id) : id_(id) {}
    storage_id_type storage_id() const { return id_; }
    StorageOptions& storage_id(storage_id_type id) { id_ = id; return *this; }
    std::string_view payload() const { return payload_; }
    StorageOptions& payload(std::string arg) { payload_ = std::move(arg); return *this; }
private:
    storage_id_type id_{undefined};
    std::string payload_{};
};
}
