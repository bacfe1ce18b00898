// Analysed only: stands in for the header of the storage engine, which is not installed here.
#pragma once
#include <utility>
#include <vector>
namespace sharksfin {
struct StorageStub;
using StorageHandle = StorageStub*;
struct WritePreserve {
    WritePreserve(StorageHandle handle) : handle_(handle) {}
    StorageHandle handle() const noexcept { return handle_; }
    StorageHandle handle_{};
};
struct ReadArea {
    ReadArea(StorageHandle handle) : handle_(handle) {}
    StorageHandle handle() const noexcept { return handle_; }
    StorageHandle handle_{};
};
class TransactionOptions {
public:
    enum class TransactionType { SHORT, LONG, READ_ONLY };
    using WritePreserves = std::vector<WritePreserve>;
    using ReadAreas = std::vector<ReadArea>;
    TransactionOptions() = default;
    TransactionOptions(TransactionType type, WritePreserves wps, ReadAreas in = {}, ReadAreas ex = {}) :
        type_(type), wps_(std::move(wps)), in_(std::move(in)), ex_(std::move(ex)) {}
    TransactionType transaction_type() const { return type_; }
    WritePreserves const& write_preserves() const { return wps_; }
    ReadAreas const& read_areas_inclusive() const { return in_; }
    ReadAreas const& read_areas_exclusive() const { return ex_; }
private:
    TransactionType type_{TransactionType::SHORT};
    WritePreserves wps_{};
    ReadAreas in_{};
    ReadAreas ex_{};
};
}
