#pragma once
#include "hgv_sched.h"
namespace tbb {
    struct global_control {
        enum parameter { max_allowed_parallelism, thread_stack_size };
        int old;
        global_control(parameter p, size_t n) : old(hgv_sched::num_threads().load()) { if (p == max_allowed_parallelism) hgv_sched::num_threads().store((int) n); }
        ~global_control() { hgv_sched::num_threads().store(old); }
        static size_t active_value(parameter) { return (size_t) hgv_sched::num_threads().load(); }
    };
}
