#pragma once
#include "hgv_sched.h"
namespace tbb {
    class task_scheduler_init {
        bool active = false;
    public:
        static const int automatic = -1;
        static const int deferred = -2;
        static int default_num_threads() { return getenv("HGV_THREADS") ? atoi(getenv("HGV_THREADS")) : 4; }
        task_scheduler_init(int n = automatic) { if (n != deferred) initialize(n); }
        ~task_scheduler_init() {}
        void initialize(int n = automatic) { active = true; hgv_sched::num_threads().store(n == automatic ? default_num_threads() : n); }
        void terminate() { active = false; }
        bool is_active() const { return active; }
    };
}
