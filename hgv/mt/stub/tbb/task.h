// the part of the classic task interface that the parallel stable sort uses
#pragma once
#include "hgv_sched.h"
namespace tbb {
    class task;
    namespace hgv_detail {
        struct alloc { task *parent; bool continuation; };
        inline task *&pending() { thread_local task *p = nullptr; return p; }
    }
    class task {
    public:
        using alloc = hgv_detail::alloc;
        task() : parent_(hgv_detail::pending()) { hgv_detail::pending() = nullptr; }
        virtual ~task() {}
        virtual task *execute() = 0;
        task *parent() const { return parent_; }
        static alloc allocate_root() { return alloc{nullptr, false}; }
        alloc allocate_continuation() { alloc a{parent_, true}; parent_ = nullptr; return a; }
        alloc allocate_child() { return alloc{this, false}; }
        static alloc allocate_additional_child_of(task &t) { t.ref_.fetch_add(1, std::memory_order_relaxed); return alloc{&t, false}; }
        void set_ref_count(int c) { ref_.store(c, std::memory_order_relaxed); }
        int ref_count() const { return ref_.load(std::memory_order_relaxed); }
        void recycle_as_continuation() { recycled_ = true; }
        void recycle_as_child_of(task &t) { recycled_ = true; parent_ = &t; }
        void recycle_to_reexecute() { recycled_ = true; }
        static void destroy(task &t) { delete &t; }
        static void operator delete(void *p) { ::operator delete(p); }
        static void operator delete(void *p, const alloc &) { ::operator delete(p); }
        static void spawn(task &t) {
            auto &s = hgv_sched::stats();
            auto &r = hgv_sched::tl_rng();
            s.tasks.fetch_add(1, std::memory_order_relaxed);
            if (hgv_sched::num_threads().load(std::memory_order_relaxed) > 1 && s.live.load(std::memory_order_relaxed) < 64 && r.below(4)) {
                s.live.fetch_add(1, std::memory_order_relaxed);
                s.stolen.fetch_add(1, std::memory_order_relaxed);
                s.threads.fetch_add(1, std::memory_order_relaxed);
                task *p = &t;
                std::thread([p] {
                    hgv_sched::delay(hgv_sched::tl_rng());
                    hgv_sched::observe(2, 2);
                    drain(p);
                    hgv_sched::stats().live.fetch_sub(1, std::memory_order_relaxed);
                }).detach();
            } else
                deque().push_back(&t);
        }
        static void spawn_root_and_wait(task &t) {
            struct root : task {
                std::atomic<bool> finished{false};
                task *execute() override { return nullptr; }
            };
            auto *d = new root();
            d->set_ref_count(1);
            d->is_root_ = true;
            d->flag_ = &d->finished;
            t.parent_ = d;
            hgv_sched::stats().regions.fetch_add(1, std::memory_order_relaxed);
            drain(&t);
            while (!d->finished.load(std::memory_order_acquire)) sched_yield();
            delete d;
        }
    private:
        static std::vector<task *> &deque() { thread_local std::vector<task *> d; return d; }
        static void drain(task *t) {
            run(t);
            auto &d = deque();
            while (!d.empty()) {
                task *n = d.back();
                d.pop_back();
                run(n);
            }
        }
        static void run(task *t) {
            while (t) {
                t->recycled_ = false;
                task *next = t->execute();
                if (!t->recycled_) {
                    task *p = t->parent_;
                    delete t;
                    if (p && p->ref_.fetch_sub(1, std::memory_order_acq_rel) == 1) {
                        if (p->is_root_) p->flag_->store(true, std::memory_order_release);
                        else if (!next) next = p;
                        else deque().push_back(p);
                    }
                }
                t = next;
            }
        }
        task *parent_;
        std::atomic<int> ref_{0};
        bool recycled_ = false, is_root_ = false;
        std::atomic<bool> *flag_ = nullptr;
    };
}
inline void *operator new(std::size_t n, const tbb::hgv_detail::alloc &a) {
    tbb::hgv_detail::pending() = a.parent;
    return ::operator new(n);
}
inline void operator delete(void *p, const tbb::hgv_detail::alloc &) { ::operator delete(p); }
