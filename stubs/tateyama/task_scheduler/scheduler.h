// Analysed only.
#pragma once
#include <cstddef>
#include <cstdint>
#include <ostream>
#include "basic_conditional_task.h"
#include "context.h"
#include "schedule_option.h"
#include "task_scheduler_cfg.h"
namespace tateyama::task_scheduler {
template<class T, class S = basic_conditional_task> class scheduler {
public:
    explicit scheduler(task_scheduler_cfg cfg = {}, bool = false);
    void schedule(T&& t, schedule_option opt = schedule_option{});
    void schedule_at(T&& t, std::size_t index);
    void schedule_conditional(S&& t);
    std::size_t preferred_worker_for_current_thread();
    std::size_t next_worker();
    void start();
    void stop();
    void print_worker_stats(std::ostream& out);
    void print_diagnostic(std::ostream& out);
};
}
