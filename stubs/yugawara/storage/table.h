// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace yugawara::storage {
class table {
public:
    int id_{};
};
inline bool operator==(table const& a, table const& b) noexcept { return a.id_ == b.id_; }
}
