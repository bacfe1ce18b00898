// Analysed only.
#pragma once
#include <cstddef>
namespace tateyama::task_scheduler {
class task_scheduler_cfg {
public:
#define F(t, n) t n() const noexcept { return n##_; } void n(t v) noexcept { n##_ = v; }
    F(std::size_t, thread_count) F(bool, set_core_affinity) F(std::size_t, initial_core) F(bool, assign_numa_nodes_uniformly)
    F(std::size_t, force_numa_node) F(bool, stealing_enabled) F(bool, lazy_worker) F(bool, use_preferred_worker_for_current_thread)
    F(bool, stealing_wait) F(std::size_t, task_polling_wait) F(bool, busy_worker) F(std::size_t, watcher_interval) F(std::size_t, worker_try_count)
    F(std::size_t, worker_suspend_timeout) F(bool, enable_watcher) F(std::size_t, ratio_check_local_first_nominator) F(std::size_t, ratio_check_local_first_denominator)
    F(std::size_t, frequency_promoting_suspended_worker) F(std::size_t, frequency_stealing)
#undef F
    template<class T> void ratio_check_local_first(T) {}
    template<class T> void frequency_promoting_suspended_worker(T) {}
private:
    std::size_t thread_count_{}; bool set_core_affinity_{}; std::size_t initial_core_{}; bool assign_numa_nodes_uniformly_{};
    std::size_t force_numa_node_{}; bool stealing_enabled_{}; bool lazy_worker_{}; bool use_preferred_worker_for_current_thread_{};
    bool stealing_wait_{}; std::size_t task_polling_wait_{}; bool busy_worker_{}; std::size_t watcher_interval_{}; std::size_t worker_try_count_{};
    std::size_t worker_suspend_timeout_{}; bool enable_watcher_{}; std::size_t ratio_check_local_first_nominator_{}; std::size_t ratio_check_local_first_denominator_{};
    std::size_t frequency_promoting_suspended_worker_{}; std::size_t frequency_stealing_{};
};
}
