// Analysed only, never compiled or run: contracts over pages and the resources that hand them out.
#include "jogasaki/memory/page_pool.h"
#include "align.h"
#include "jogasaki/memory/details/page_allocation_info.h"

namespace probe::pages {
using jogasaki::memory::page_size;
using jogasaki::memory::details::page_allocation_info;
using page = jogasaki::memory::page_pool::page_info;
using N = std::size_t;

// a page at any address with any part in use
N valid(N head, N lower, N upper) { return head != 0 && head < (1UL << 47) && lower <= upper && upper <= page_size; }
page_allocation_info at(N head, N node, N lower, N upper) {
    page_allocation_info p{page{reinterpret_cast<void*>(head), node}};
    p.lower_bound_offset(lower);
    p.upper_bound_offset(upper);
    return p;
}
N address(void* p) { return reinterpret_cast<N>(p); }

bool a_page_in_use_keeps_its_bounds(N head, N node, N lower, N upper) {
    if (! valid(head, lower, upper)) { return true; }
    auto p = at(head, node, lower, upper);
    return p.lower_bound_offset() == lower && p.upper_bound_offset() == upper && p.head().address() == reinterpret_cast<void*>(head) && p.head().birth_place() == node && p.empty() == (lower == upper);
}
bool an_allocation_is_beyond_the_part_in_use(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto r = address(p.try_allocate_back(bytes, alignment));
    return r == 0 || r >= head + upper;
}
bool an_allocation_is_inside_the_page(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto r = address(p.try_allocate_back(bytes, alignment));
    return r == 0 || (r - head <= page_size && bytes <= page_size - (r - head));
}
bool an_allocation_is_aligned(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto r = address(p.try_allocate_back(bytes, alignment));
    return r == 0 || r % alignment == 0;
}
bool an_allocation_is_counted_as_in_use(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto r = address(p.try_allocate_back(bytes, alignment));
    return r == 0 || (p.upper_bound_offset() == r - head + bytes && p.lower_bound_offset() == (lower == upper ? r - head : lower));
}
bool an_allocation_that_fits_is_made(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto next = (head + upper + (alignment - 1)) / alignment * alignment;
    auto r = address(p.try_allocate_back(bytes, alignment));
    return (r != 0) == (next - head <= page_size && bytes <= page_size - (next - head));
}
bool a_refused_allocation_changes_nothing(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto r = address(p.try_allocate_back(bytes, alignment));
    return r != 0 || (p.upper_bound_offset() == upper && p.lower_bound_offset() == lower);
}
bool the_rest_of_a_page_can_be_allocated(N head, N node, N lower, N upper, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto n = p.remaining(alignment);
    auto r = address(p.try_allocate_back(n, alignment));
    return n == 0 || (r != 0 && r + n == head + page_size);
}
bool no_more_than_the_rest_of_a_page_can_be_allocated(N head, N node, N lower, N upper, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    return p.try_allocate_back(p.remaining(alignment) + 1, alignment) == nullptr;
}
bool looking_at_the_rest_of_a_page_changes_nothing(N head, N node, N lower, N upper, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    p.remaining(alignment);
    return p.upper_bound_offset() == upper && p.lower_bound_offset() == lower;
}
bool giving_the_last_block_back_leaves_the_ones_before(N head, N node, N lower, N upper, N bytes, N alignment, N more, N other) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size || other == 0 || other > page_size || lower == upper) { return true; }
    auto p = at(head, node, lower, upper);
    auto a = p.try_allocate_back(bytes, alignment);
    if (a == nullptr) { return true; }
    auto used = p.upper_bound_offset();
    auto b = p.try_allocate_back(more, other);
    if (b == nullptr) { return true; }
    auto done = p.try_deallocate_back(b, more, other);
    return done && p.lower_bound_offset() == lower && p.upper_bound_offset() >= used && p.upper_bound_offset() <= address(b) - head;
}
bool giving_the_only_block_back_empties_the_page(N head, N node, N bytes, N alignment) {
    if (! valid(head, 0, 0) || alignment == 0 || alignment > page_size || bytes == 0) { return true; }
    auto p = at(head, node, 0, 0);
    auto a = p.try_allocate_back(bytes, alignment);
    if (a == nullptr) { return true; }
    return ! p.empty() && p.try_deallocate_back(a, bytes, alignment) && p.empty() && p.remaining(1) == page_size;
}
bool giving_the_first_block_back_leaves_the_ones_after(N head, N node, N lower, N upper, N bytes, N alignment) {
    if (! valid(head, lower, upper) || bytes == 0 || bytes > upper - lower || alignment == 0 || alignment > page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto done = p.try_deallocate_front(reinterpret_cast<void*>(head + lower), bytes, alignment);
    return done && p.lower_bound_offset() == lower + bytes && p.upper_bound_offset() == upper && p.empty() == (bytes == upper - lower);
}
bool giving_the_first_of_two_blocks_back_leaves_the_second(N head, N node, N bytes, N alignment, N more, N other) {
    if (! valid(head, 0, 0) || alignment == 0 || alignment > page_size || other == 0 || other > page_size || bytes == 0 || more == 0) { return true; }
    auto p = at(head, node, 0, 0);
    auto a = p.try_allocate_back(bytes, alignment);
    if (a == nullptr) { return true; }
    auto b = p.try_allocate_back(more, other);
    if (b == nullptr) { return true; }
    return p.try_deallocate_front(a, bytes, alignment) && ! p.empty() && head + p.lower_bound_offset() <= address(b) && head + p.upper_bound_offset() == address(b) + more
        && p.try_deallocate_front(b, more, other) && p.empty();
}
bool a_block_of_another_page_is_not_taken_back(N head, N node, N lower, N upper, N block, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size || bytes == 0 || bytes > page_size || block == 0 || block > (1UL << 47)) { return true; }
    if (block + bytes > head && block < head + page_size) { return true; }
    auto p = at(head, node, lower, upper);
    auto q = at(head, node, lower, upper);
    return ! p.try_deallocate_front(reinterpret_cast<void*>(block), bytes, alignment) && ! q.try_deallocate_back(reinterpret_cast<void*>(block), bytes, alignment)
        && p.lower_bound_offset() == lower && p.upper_bound_offset() == upper && q.lower_bound_offset() == lower && q.upper_bound_offset() == upper;
}
bool a_block_beyond_the_part_in_use_is_not_taken_back(N head, N node, N lower, N upper, N offset, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size || bytes > page_size || offset > page_size || offset + bytes <= upper) { return true; }
    auto p = at(head, node, lower, upper);
    auto q = at(head, node, lower, upper);
    return ! p.try_deallocate_front(reinterpret_cast<void*>(head + offset), bytes, alignment) && ! q.try_deallocate_back(reinterpret_cast<void*>(head + offset), bytes, alignment)
        && p.lower_bound_offset() == lower && p.upper_bound_offset() == upper && q.lower_bound_offset() == lower && q.upper_bound_offset() == upper;
}
bool a_block_before_the_part_in_use_is_not_taken_from_the_front(N head, N node, N lower, N upper, N offset, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size || bytes > page_size || offset >= lower) { return true; }
    auto p = at(head, node, lower, upper);
    return ! p.try_deallocate_front(reinterpret_cast<void*>(head + offset), bytes, alignment) && p.lower_bound_offset() == lower && p.upper_bound_offset() == upper;
}
bool a_later_block_is_not_taken_from_the_front(N head, N node, N lower, N upper, N offset, N bytes, N alignment) {
    if (! valid(head, lower, upper) || alignment == 0 || alignment > page_size || bytes > page_size || offset > page_size || offset < lower + alignment) { return true; }
    auto p = at(head, node, lower, upper);
    return ! p.try_deallocate_front(reinterpret_cast<void*>(head + offset), bytes, alignment) && p.lower_bound_offset() == lower && p.upper_bound_offset() == upper;
}
}
