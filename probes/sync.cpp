// instantiations of the header-only synchronisation helpers, so that their bodies are type-checked
#include "jogasaki/utils/latch.h"
#include "jogasaki/utils/waitable_atomic.h"

template class jogasaki::utils::waitable_atomic<bool>;
template class jogasaki::utils::waitable_atomic<std::size_t>;

namespace probe {
bool latch_wait_for(jogasaki::utils::latch& l, std::chrono::milliseconds d) {
    return l.wait(d);
}
bool atomic_wait_for(jogasaki::utils::waitable_atomic<bool>& a, std::chrono::milliseconds d, bool old) {
    return a.wait_for(d, old);
}
}
