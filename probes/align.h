// Analysed only: what std::align does, in arithmetic the analysis follows.
#pragma once
#include <cstddef>
#include <cstdint>
namespace probe {
inline void* align(std::size_t alignment, std::size_t bytes, void*& pos, std::size_t& space) {
    if (space < bytes) { return nullptr; }
    auto from = reinterpret_cast<std::uintptr_t>(pos);
    auto to = (from + (alignment - 1)) / alignment * alignment;
    auto skipped = to - from;
    if (skipped > space - bytes) { return nullptr; }
    space -= skipped;
    pos = reinterpret_cast<void*>(to);
    return pos;
}
// keeps it in what is analysed
inline void* aligned(std::size_t alignment, std::size_t bytes, void* pos, std::size_t space) { return align(alignment, bytes, pos, space); }
}
