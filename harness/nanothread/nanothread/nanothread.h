/*
 * Stand-in for the 'nanothread' submodule (absent in this sandbox).
 *
 * Interface-compatible reimplementation of the task API that drjit-core uses,
 * written for /verif.  It has two execution modes:
 *
 *  - threads: a plain worker pool (default)
 *  - sim:     no worker threads. Tasks only run inside task_wait()/nt_pump(),
 *             in an order that is any legal topological order of the task
 *             graph chosen by a seeded generator (i.e. an adversarial
 *             scheduler), with work units and thread ids permuted.
 */
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <exception>
#include <functional>
#include <new>
#include <utility>

#if !defined(NANOTHREAD_EXPORT)
#  define NANOTHREAD_EXPORT __attribute__((visibility("default")))
#endif

typedef struct Pool Pool;
typedef struct Task Task;

#define NANOTHREAD_AUTO ((uint32_t) -1)

extern "C" {
extern NANOTHREAD_EXPORT uint32_t core_count();
extern NANOTHREAD_EXPORT Pool *pool_create(uint32_t size = NANOTHREAD_AUTO, int ftz = 1);
extern NANOTHREAD_EXPORT void pool_destroy(Pool *pool = nullptr);
extern NANOTHREAD_EXPORT uint32_t pool_size(Pool *pool = nullptr);
extern NANOTHREAD_EXPORT void pool_set_size(Pool *pool, uint32_t size);
extern NANOTHREAD_EXPORT int pool_profile();
extern NANOTHREAD_EXPORT void pool_set_profile(int value);
extern NANOTHREAD_EXPORT uint32_t pool_thread_id();
extern NANOTHREAD_EXPORT
Task *task_submit_dep(Pool *pool, Task * const *parent, uint32_t parent_count,
                      uint32_t size = 1,
                      void (*func)(uint32_t, void *) = nullptr,
                      void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr,
                      int always_async = 0, int profile = 0);
extern NANOTHREAD_EXPORT void task_release(Task *task);
extern NANOTHREAD_EXPORT void task_retain(Task *task);
extern NANOTHREAD_EXPORT void task_wait(Task *task);
extern NANOTHREAD_EXPORT void task_wait_and_release(Task *task);
extern NANOTHREAD_EXPORT int task_query(Task *task);
extern NANOTHREAD_EXPORT double task_time(Task *task);
extern NANOTHREAD_EXPORT double task_time_rel(Task *a, Task *b);

// ---- verification-side controls (not part of nanothread) ----
/// Select mode: 0 = threads, 1 = sim (adversarial, deferred, seeded)
extern NANOTHREAD_EXPORT void nt_set_mode(int mode, uint64_t seed);
extern NANOTHREAD_EXPORT void nt_set_yield(void (*f)());
/// sim: run up to 'n' work units (0 = all)
extern NANOTHREAD_EXPORT void nt_pump(uint32_t n);
/// Number of tasks that were submitted / finished so far
extern NANOTHREAD_EXPORT uint64_t nt_submitted();
extern NANOTHREAD_EXPORT uint64_t nt_finished();
extern NANOTHREAD_EXPORT uint64_t nt_live();
extern NANOTHREAD_EXPORT uint64_t nt_units();
}

namespace drjit {
template <typename Int> struct blocked_range {
public:
    blocked_range(Int begin, Int end, Int block_size = 1)
        : m_begin(begin), m_end(end), m_block_size(block_size) { }
    struct iterator {
        Int value;
        iterator(Int value) : value(value) { }
        Int operator*() const { return value; }
        operator Int() const { return value; }
        void operator++() { value++; }
        bool operator==(const iterator &it) { return value == it.value; }
        bool operator!=(const iterator &it) { return value != it.value; }
    };
    uint32_t blocks() const { return (uint32_t) ((m_end - m_begin + m_block_size - 1) / m_block_size); }
    iterator begin() const { return iterator(m_begin); }
    iterator end() const { return iterator(m_end); }
    Int block_size() const { return m_block_size; }
private:
    Int m_begin, m_end, m_block_size;
};

template <typename Int, typename Func>
void parallel_for(const blocked_range<Int> &range, Func &&func, Pool *pool = nullptr) {
    using F = typename std::remove_reference<Func>::type;
    struct Payload { F *f; Int begin, end, block_size; };
    Payload p{ &func, (Int) range.begin(), (Int) range.end(), range.block_size() };
    if (range.blocks() == 0)
        return;
    Task *t = task_submit_dep(pool, nullptr, 0, range.blocks(),
        [](uint32_t index, void *ptr) {
            Payload *p = (Payload *) ptr;
            Int b = p->begin + p->block_size * (Int) index, e = b + p->block_size;
            if (e > p->end) e = p->end;
            (*p->f)(blocked_range<Int>(b, e));
        }, &p, sizeof(Payload));
    task_wait_and_release(t);
}
} // namespace drjit
using drjit::parallel_for;
