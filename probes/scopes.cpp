// Analysed only, never compiled or run: contracts over helpers that undo something at the end of a scope.
#include "jogasaki/memory/page_pool.h"
#include "align.h"
#include "jogasaki/memory/lifo_paged_memory_resource.h"
#include "jogasaki/utils/checkpoint_holder.h"
#include "jogasaki/utils/lazy_checkpoint_holder.h"
#include "jogasaki/utils/aligned_unique_ptr.h"
#include "jogasaki/scheduler/thread_info.h"

namespace probe {
bool held(void* block, std::size_t bytes);     // the block lies in a page taken from the pool and not given back
std::size_t pages_held();
bool each_page_returned_once();
bool each_block_freed_once();
bool is_block_of(void* p, std::size_t bytes, std::size_t alignment);
}

namespace probe::scopes {
using jogasaki::memory::page_size;
using jogasaki::memory::page_pool;
using lifo = jogasaki::memory::lifo_paged_memory_resource;
using jogasaki::utils::checkpoint_holder;
using jogasaki::utils::lazy_checkpoint_holder;
using N = std::size_t;

N fits(N bytes, N alignment) { return bytes <= page_size && bytes > 0 && alignment > 0 && alignment <= page_pool::min_alignment; }

bool the_end_of_a_scope_gives_back_what_it_allocated(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    auto* p = r.allocate(n, a);
    auto before = r.get_checkpoint();
    {
        checkpoint_holder h{&r};
        r.allocate(m, b);
    }
    return r.get_checkpoint() == before && probe::held(p, n) && r.count_pages() == 1;
}
bool the_end_of_a_scope_on_an_empty_resource_gives_back_everything(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    lifo r{pool};
    {
        checkpoint_holder h{&r};
        r.allocate(n, a);
    }
    return r.count_pages() == 0 && r.get_checkpoint() == lifo::initial_checkpoint;
}
bool a_scope_left_by_an_exception_gives_back_what_it_allocated(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    r.allocate(n, a);
    auto before = r.get_checkpoint();
    try {
        checkpoint_holder h{&r};
        r.allocate(m, b);
        throw 1;
    } catch (int) {
        return r.get_checkpoint() == before;
    }
    return false;
}
bool a_holder_gives_back_on_request(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    r.allocate(n, a);
    auto before = r.get_checkpoint();
    checkpoint_holder h{&r};
    r.allocate(m, b);
    h.reset();
    return r.get_checkpoint() == before;
}
bool a_holder_gives_back_again_after_a_request(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    lifo r{pool};
    auto* p = r.allocate(n, a);
    auto before = r.get_checkpoint();
    bool ok{};
    {
        checkpoint_holder h{&r};
        r.allocate(m, b);
        h.reset();
        ok = r.get_checkpoint() == before;
        r.allocate(k, c);
    }
    return ok && r.get_checkpoint() == before && probe::held(p, n);
}
bool a_holder_takes_its_checkpoint_when_made(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    lifo r{pool};
    r.allocate(n, a);
    checkpoint_holder outer{&r};
    auto before = r.get_checkpoint();
    r.allocate(m, b);
    auto between = r.get_checkpoint();
    bool ok{};
    {
        checkpoint_holder inner{&r};
        r.allocate(k, c);
    }
    ok = r.get_checkpoint() == between;
    outer.reset();
    return ok && r.get_checkpoint() == before;
}
bool a_holder_of_nothing_does_nothing() {
    {
        checkpoint_holder h{};
        h.reset();
        lazy_checkpoint_holder l{};
        l.release();
        l.set_checkpoint();
        l.release();
        l.reset();
        l.unset();
        lazy_checkpoint_holder none{nullptr};
        none.set_checkpoint();
        none.set_checkpoint();
        none.release();
    }
    return true;
}

bool a_lazy_holder_gives_back_from_the_point_it_was_set(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    lazy_checkpoint_holder h{&r};
    auto* p = r.allocate(n, a);
    auto before = r.get_checkpoint();
    h.set_checkpoint();
    r.allocate(m, b);
    h.release();
    return r.get_checkpoint() == before && probe::held(p, n);
}
bool a_lazy_holder_not_set_keeps_everything(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    lifo r{pool};
    lazy_checkpoint_holder h{&r};
    r.allocate(n, a);
    auto before = r.get_checkpoint();
    h.release();
    h.reset();
    return r.get_checkpoint() == before;
}
bool a_lazy_holder_can_give_back_again(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    lifo r{pool};
    r.allocate(n, a);
    lazy_checkpoint_holder h{&r};
    auto before = r.get_checkpoint();
    h.set_checkpoint();
    r.allocate(m, b);
    h.release();
    r.allocate(k, c);
    h.release();
    return r.get_checkpoint() == before;
}
bool a_lazy_holder_gives_back_once_when_reset(page_pool* pool, N n, N a, N m, N b, N k, N c) {
    if (! fits(n, a) || ! fits(m, b) || ! fits(k, c)) { return true; }
    lifo r{pool};
    r.allocate(n, a);
    lazy_checkpoint_holder h{&r};
    auto before = r.get_checkpoint();
    h.set_checkpoint();
    r.allocate(m, b);
    h.reset();
    auto ok = r.get_checkpoint() == before;
    r.allocate(k, c);
    auto after = r.get_checkpoint();
    h.release();
    h.reset();
    return ok && r.get_checkpoint() == after;
}
bool a_lazy_holder_can_be_set_again_after_it_was_reset(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    lazy_checkpoint_holder h{&r};
    h.set_checkpoint();
    h.reset();
    r.allocate(n, a);
    auto before = r.get_checkpoint();
    h.set_checkpoint();
    r.allocate(m, b);
    h.release();
    return r.get_checkpoint() == before;
}
bool a_lazy_holder_forgets_when_unset(page_pool* pool, N n, N a, N m, N b) {
    if (! fits(n, a) || ! fits(m, b)) { return true; }
    lifo r{pool};
    lazy_checkpoint_holder h{&r};
    h.set_checkpoint();
    r.allocate(n, a);
    auto before = r.get_checkpoint();
    h.unset();
    h.release();
    auto ok = r.get_checkpoint() == before;
    h.set_checkpoint();
    r.allocate(m, b);
    h.release();
    return ok && r.get_checkpoint() == before;
}
bool a_lazy_holder_keeps_everything_when_it_ends(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    lifo r{pool};
    auto before = r.get_checkpoint();
    {
        lazy_checkpoint_holder h{&r};
        h.set_checkpoint();
        r.allocate(n, a);
        before = r.get_checkpoint();
    }
    return r.get_checkpoint() == before;
}
bool a_lazy_holder_refuses_to_be_set_twice(page_pool* pool, N n, N a) {
    if (! fits(n, a)) { return true; }
    lifo r{pool};
    lazy_checkpoint_holder h{&r};
    auto before = r.get_checkpoint();
    h.set_checkpoint();
    r.allocate(n, a);
    try {
        h.set_checkpoint();
    } catch (std::logic_error const&) {
        h.release();
        return r.get_checkpoint() == before;
    }
    return false;
}
bool worker_information_is_kept(bool worker, N index) {
    jogasaki::scheduler::thread_info none{};
    jogasaki::scheduler::thread_info t{worker, index};
    return ! none.is_worker_thread() && none.worker_index() == jogasaki::scheduler::thread_info::undefined && t.is_worker_thread() == worker && t.worker_index() == index;
}
}

namespace probe::arrays {
using N = std::size_t;
bool an_aligned_array_is_large_enough_and_aligned(N alignment, N size) {
    if (alignment == 0 || alignment > (N{1} << 40U) || size > (N{1} << 40U)) { return true; }
    auto p = jogasaki::utils::make_aligned_array<char>(alignment, size);
    return probe::is_block_of(p.get(), size, alignment);
}
bool an_aligned_array_is_freed_once(N alignment, N size) {
    if (alignment == 0 || alignment > (N{1} << 40U) || size > (N{1} << 40U)) { return true; }
    {
        auto p = jogasaki::utils::make_aligned_array<char>(alignment, size);
        auto q = std::move(p);
        p.reset();
    }
    return probe::each_block_freed_once();
}
bool an_aligned_array_of_words_is_freed_once(N alignment, N size) {
    if (alignment == 0 || alignment > (N{1} << 40U) || size > (N{1} << 40U)) { return true; }
    {
        auto p = jogasaki::utils::make_aligned_array<std::uint64_t>(alignment, size);
        auto q = jogasaki::utils::make_aligned_array<std::uint64_t>(alignment, size);
        p = std::move(q);
    }
    return probe::each_block_freed_once();
}
}
