// Analysed only, never compiled or run: contracts over the resources that hand out pages.
#include "jogasaki/memory/page_pool.h"
#include "align.h"
#include "jogasaki/memory/monotonic_paged_memory_resource.h"
#include "jogasaki/memory/lifo_paged_memory_resource.h"
#include "jogasaki/memory/fifo_paged_memory_resource.h"

namespace probe {
bool each_page_returned_once();          // every page taken from the pool was given back once, and no other
bool held(void* block, std::size_t bytes);     // the block lies in a page taken from the pool and not given back
std::size_t pages_held();
void no_more_pages();
}

namespace probe::resources {
using jogasaki::memory::page_size;
using jogasaki::memory::page_pool;
using monotonic = jogasaki::memory::monotonic_paged_memory_resource;
using lifo = jogasaki::memory::lifo_paged_memory_resource;
using fifo = jogasaki::memory::fifo_paged_memory_resource;
using N = std::size_t;

N fits(N bytes, N alignment) { return bytes <= page_size && bytes > 0 && alignment > 0 && alignment <= page_pool::min_alignment; }
N apart(void* a, N n, void* b, N m) { return reinterpret_cast<N>(a) + n <= reinterpret_cast<N>(b) || reinterpret_cast<N>(b) + m <= reinterpret_cast<N>(a); }

bool a_monotonic_resource_gives_its_pages_back(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    {
        monotonic r{pool};
        r.allocate(n, a);
        r.allocate(m, b);
    }
    return probe::each_page_returned_once();
}
bool a_block_of_a_monotonic_resource_lies_in_a_page_it_holds(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    monotonic r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return probe::held(p, n) && probe::held(q, m) && reinterpret_cast<N>(p) % a == 0 && reinterpret_cast<N>(q) % b == 0;
}
bool blocks_of_a_monotonic_resource_do_not_overlap(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    monotonic r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return apart(p, n, q, m);
}
bool a_monotonic_resource_counts_its_pages(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    monotonic r{pool};
    auto none = r.count_pages() == 0 && probe::pages_held() == 0;
    r.allocate(n, a);
    auto one = r.count_pages() == 1 && probe::pages_held() == 1;
    r.allocate(m, b);
    return none && one && r.count_pages() == probe::pages_held();
}

bool a_lifo_resource_gives_its_pages_back(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    {
        lifo r{pool};
        r.allocate(n, a);
        r.allocate(m, b);
    }
    return probe::each_page_returned_once();
}
bool a_block_of_a_lifo_resource_lies_in_a_page_it_holds(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return probe::held(p, n) && probe::held(q, m) && reinterpret_cast<N>(p) % a == 0 && reinterpret_cast<N>(q) % b == 0;
}
bool blocks_of_a_lifo_resource_do_not_overlap(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return apart(p, n, q, m);
}
bool a_lifo_resource_counts_its_pages(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto none = r.count_pages() == 0 && probe::pages_held() == 0;
    r.allocate(n, a);
    auto one = r.count_pages() == 1 && probe::pages_held() == 1;
    r.allocate(m, b);
    return none && one && r.count_pages() == probe::pages_held();
}

bool a_fifo_resource_gives_its_pages_back(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    {
        fifo r{pool};
        r.allocate(n, a);
        r.allocate(m, b);
    }
    return probe::each_page_returned_once();
}
bool a_block_of_a_fifo_resource_lies_in_a_page_it_holds(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    fifo r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return probe::held(p, n) && probe::held(q, m) && reinterpret_cast<N>(p) % a == 0 && reinterpret_cast<N>(q) % b == 0;
}
bool blocks_of_a_fifo_resource_do_not_overlap(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    fifo r{pool};
    auto* p = r.allocate(n, a);
    auto* q = r.allocate(m, b);
    return apart(p, n, q, m);
}
bool a_fifo_resource_counts_its_pages(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    fifo r{pool};
    auto none = r.count_pages() == 0 && probe::pages_held() == 0;
    r.allocate(n, a);
    auto one = r.count_pages() == 1 && probe::pages_held() == 1;
    r.allocate(m, b);
    return none && one && r.count_pages() == probe::pages_held();
}

bool a_monotonic_resource_refuses_what_no_page_can_hold(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || m <= page_size || ! fits(1, b)) { return true; }
    bool refused = false;
    {
        monotonic r{pool};
        r.allocate(n, a);
        try {
            r.allocate(m, b);
        } catch (std::bad_alloc const&) {
            refused = true;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_monotonic_resource_fails_when_there_is_no_page(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    bool refused = false;
    {
        monotonic r{pool};
        probe::no_more_pages();
        try {
            r.allocate(n, a);
        } catch (std::bad_alloc const&) {
            refused = r.count_pages() == 0;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_monotonic_resource_starts_a_page_when_asked_to(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        monotonic r{pool};
        auto* p = r.allocate(n, a);
        r.end_current_page();
        ok = r.count_pages() == 2 && r.page_remaining(1) == page_size;
        r.end_current_page();
        ok = ok && r.count_pages() == 2;
        auto* q = r.allocate(m, b);
        ok = ok && r.count_pages() == 2 && probe::held(p, n) && probe::held(q, m) && apart(p, n, q, m) && r.page_remaining(1) == page_size - m;
    }
    return ok && probe::each_page_returned_once();
}
bool a_monotonic_resource_tells_what_remains_of_its_page(page_pool* pool, N n, N a, N b) {
    if (! fits(n, a) || ! fits(1, b)) { return true; }
    monotonic r{pool};
    if (r.page_remaining(b) != 0) { return false; }
    r.allocate(n, a);
    auto rest = r.page_remaining(b);
    if (rest == 0) { return true; }
    r.allocate(rest, b);
    return r.count_pages() == 1 && r.page_remaining(1) == 0;
}
bool a_monotonic_resource_is_equal_to_itself_only(page_pool* pool) {
    monotonic r{pool};
    monotonic s{pool};
    return r.is_equal(r) && ! r.is_equal(s);
}

bool a_lifo_resource_refuses_what_no_page_can_hold(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || m <= page_size || ! fits(1, b)) { return true; }
    bool refused = false;
    {
        lifo r{pool};
        r.allocate(n, a);
        try {
            r.allocate(m, b);
        } catch (std::bad_alloc const&) {
            refused = true;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_lifo_resource_fails_when_there_is_no_page(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    bool refused = false;
    {
        lifo r{pool};
        probe::no_more_pages();
        try {
            r.allocate(n, a);
        } catch (std::bad_alloc const&) {
            refused = r.count_pages() == 0;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_lifo_resource_starts_a_page_when_asked_to(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        r.end_current_page();
        ok = r.count_pages() == 2 && r.page_remaining(1) == page_size;
        r.end_current_page();
        ok = ok && r.count_pages() == 2;
        auto* q = r.allocate(m, b);
        ok = ok && r.count_pages() == 2 && probe::held(p, n) && probe::held(q, m) && apart(p, n, q, m) && r.page_remaining(1) == page_size - m;
    }
    return ok && probe::each_page_returned_once();
}
bool a_lifo_resource_tells_what_remains_of_its_page(page_pool* pool, N n, N a, N b) {
    if (! fits(n, a) || ! fits(1, b)) { return true; }
    lifo r{pool};
    if (r.page_remaining(b) != 0) { return false; }
    r.allocate(n, a);
    auto rest = r.page_remaining(b);
    if (rest == 0) { return true; }
    r.allocate(rest, b);
    return r.count_pages() == 1 && r.page_remaining(1) == 0;
}
bool a_lifo_resource_is_equal_to_itself_only(page_pool* pool) {
    lifo r{pool};
    lifo s{pool};
    return r.is_equal(r) && ! r.is_equal(s);
}

bool a_fifo_resource_refuses_what_no_page_can_hold(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || m <= page_size || ! fits(1, b)) { return true; }
    bool refused = false;
    {
        fifo r{pool};
        r.allocate(n, a);
        try {
            r.allocate(m, b);
        } catch (std::bad_alloc const&) {
            refused = true;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_fifo_resource_fails_when_there_is_no_page(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    bool refused = false;
    {
        fifo r{pool};
        probe::no_more_pages();
        try {
            r.allocate(n, a);
        } catch (std::bad_alloc const&) {
            refused = r.count_pages() == 0;
        }
    }
    return refused && probe::each_page_returned_once();
}
bool a_fifo_resource_starts_a_page_when_asked_to(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        fifo r{pool};
        auto* p = r.allocate(n, a);
        r.end_current_page();
        ok = r.count_pages() == 2 && r.page_remaining(1) == page_size;
        r.end_current_page();
        ok = ok && r.count_pages() == 2;
        auto* q = r.allocate(m, b);
        ok = ok && r.count_pages() == 2 && probe::held(p, n) && probe::held(q, m) && apart(p, n, q, m) && r.page_remaining(1) == page_size - m;
    }
    return ok && probe::each_page_returned_once();
}
bool a_fifo_resource_tells_what_remains_of_its_page(page_pool* pool, N n, N a, N b) {
    if (! fits(n, a) || ! fits(1, b)) { return true; }
    fifo r{pool};
    if (r.page_remaining(b) != 0) { return false; }
    r.allocate(n, a);
    auto rest = r.page_remaining(b);
    if (rest == 0) { return true; }
    r.allocate(rest, b);
    return r.count_pages() == 1 && r.page_remaining(1) == 0;
}
bool a_fifo_resource_is_equal_to_itself_only(page_pool* pool) {
    fifo r{pool};
    fifo s{pool};
    return r.is_equal(r) && ! r.is_equal(s);
}

bool a_block_given_back_to_a_lifo_resource_leaves_the_one_before(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        auto* q = r.allocate(m, b);
        r.deallocate(q, m, b);
        ok = r.count_pages() == 1 && probe::held(p, n);
        auto* o = r.allocate(k, c);
        ok = ok && probe::held(p, n) && probe::held(o, k) && apart(p, n, o, k);
    }
    return ok && probe::each_page_returned_once();
}
bool a_lifo_resource_with_all_blocks_given_back_is_empty(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        auto* q = r.allocate(m, b);
        r.deallocate(q, m, b);
        r.deallocate(p, n, a);
        ok = r.count_pages() == 0 && probe::pages_held() <= 1;
    }
    return ok && probe::each_page_returned_once();
}
bool a_lifo_resource_takes_a_block_back_after_starting_a_page(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        r.end_current_page();
        r.deallocate(p, n, a);
        ok = r.count_pages() == 0 && probe::pages_held() <= 1;
    }
    return ok && probe::each_page_returned_once();
}
bool a_lifo_resource_uses_the_page_it_kept(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        r.deallocate(p, n, a);
        auto* q = r.allocate(m, b);
        ok = r.count_pages() == 1 && probe::pages_held() == 1 && probe::held(q, m);
    }
    return ok && probe::each_page_returned_once();
}
bool returning_to_a_checkpoint_gives_back_what_was_allocated_since(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        auto cp = r.get_checkpoint();
        auto rest = r.page_remaining(1);
        r.allocate(m, b);
        r.deallocate_after(cp);
        ok = r.count_pages() == 1 && r.get_checkpoint() == cp && r.page_remaining(1) == rest && probe::held(p, n);
        auto* o = r.allocate(k, c);
        ok = ok && probe::held(p, n) && probe::held(o, k) && apart(p, n, o, k);
    }
    return ok && probe::each_page_returned_once();
}
bool a_checkpoint_moves_with_what_is_allocated(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto first = r.get_checkpoint();
    r.allocate(n, a);
    auto second = r.get_checkpoint();
    r.allocate(m, b);
    auto third = r.get_checkpoint();
    return first != second && ! (first == second) && second != third && ! (third == second) && third != first && third == r.get_checkpoint() && ! (third != r.get_checkpoint());
}
bool returning_to_a_checkpoint_twice_is_as_once(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto* p = r.allocate(n, a);
    auto cp = r.get_checkpoint();
    r.allocate(m, b);
    r.deallocate_after(cp);
    r.deallocate_after(cp);
    return r.count_pages() == 1 && r.get_checkpoint() == cp && probe::held(p, n);
}
bool returning_to_the_first_checkpoint_gives_back_everything(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto cp = r.get_checkpoint();
        r.allocate(n, a);
        r.allocate(m, b);
        r.deallocate_after(cp);
        ok = cp == lifo::initial_checkpoint && r.count_pages() == 0 && probe::pages_held() <= 1 && r.get_checkpoint() == cp;
    }
    return ok && probe::each_page_returned_once();
}
bool returning_to_a_checkpoint_passes_over_whole_pages(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        lifo r{pool};
        auto* p = r.allocate(n, a);
        auto cp = r.get_checkpoint();
        r.end_current_page();
        r.allocate(m, b);
        r.end_current_page();
        r.allocate(k, c);
        r.deallocate_after(cp);
        ok = r.count_pages() == 1 && r.get_checkpoint() == cp && probe::held(p, n) && probe::pages_held() <= 2;
    }
    return ok && probe::each_page_returned_once();
}
bool a_block_given_back_to_a_fifo_resource_leaves_the_one_after(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        fifo r{pool};
        auto* p = r.allocate(n, a);
        auto* q = r.allocate(m, b);
        r.deallocate(p, n, a);
        ok = r.count_pages() == 1 && probe::pages_held() == 1 && probe::held(q, m);
        auto* o = r.allocate(k, c);
        ok = ok && probe::held(q, m) && probe::held(o, k) && apart(q, m, o, k);
    }
    return ok && probe::each_page_returned_once();
}
bool a_fifo_resource_with_all_blocks_given_back_is_empty(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    bool ok = true;
    {
        fifo r{pool};
        auto* p = r.allocate(n, a);
        auto* q = r.allocate(m, b);
        r.deallocate(p, n, a);
        r.deallocate(q, m, b);
        ok = r.count_pages() == 0 && probe::pages_held() == 0;
    }
    return ok && probe::each_page_returned_once();
}
bool passing_a_checkpoint_gives_back_what_was_allocated_before(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        fifo r{pool};
        r.allocate(n, a);
        auto cp = r.get_checkpoint();
        auto* q = r.allocate(m, b);
        auto pages = r.count_pages();
        r.deallocate_before(cp);
        ok = r.count_pages() == 1 && pages <= 2 && probe::pages_held() == 1 && probe::held(q, m);
        auto* o = r.allocate(k, c);
        ok = ok && probe::held(q, m) && probe::held(o, k) && apart(q, m, o, k);
    }
    return ok && probe::each_page_returned_once();
}
bool passing_a_checkpoint_with_nothing_before_gives_nothing_back(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    fifo r{pool};
    auto cp = r.get_checkpoint();
    auto* p = r.allocate(n, a);
    r.deallocate_before(cp);
    return r.count_pages() == 1 && probe::held(p, n);
}
bool passing_a_checkpoint_passes_over_whole_pages(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    bool ok = true;
    {
        fifo r{pool};
        r.allocate(n, a);
        r.end_current_page();
        r.allocate(m, b);
        auto cp = r.get_checkpoint();
        r.end_current_page();
        auto* q = r.allocate(k, c);
        r.deallocate_before(cp);
        ok = r.count_pages() == 1 && probe::pages_held() == 1 && probe::held(q, k);
    }
    return ok && probe::each_page_returned_once();
}
}
