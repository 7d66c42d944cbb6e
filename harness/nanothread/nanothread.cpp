#include <nanothread/nanothread.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <mutex>
#include <thread>
#include <vector>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>

using Clock = std::chrono::steady_clock;

struct Task {
    std::atomic<uint32_t> refs{0};
    uint32_t size = 0, next = 0, running = 0, done = 0;
    uint32_t wait_parents = 0;
    bool finished = false;
    void (*func)(uint32_t, void *) = nullptr;
    void *payload = nullptr;
    void (*deleter)(void *) = nullptr;
    bool owned = false;
    alignas(16) uint8_t storage[64];
    std::vector<Task *> children;
    std::vector<uint32_t> order; // sim: permutation of units
    std::exception_ptr exc;
    std::atomic<bool> has_exc{false};
    Clock::time_point t0, t1;
    bool started = false;
};

struct Pool {
    std::vector<std::thread> workers;
    uint32_t size = 0;
    bool stop = false;
};

// Deliberately immortal
static std::mutex &M() { static std::mutex *m = new std::mutex(); return *m; }
static std::condition_variable &CV() { static auto *c = new std::condition_variable(); return *c; }
static std::deque<Task *> &ready() { static auto *r = new std::deque<Task *>(); return *r; }
static Pool *default_pool = nullptr;
static int g_mode = 0, g_profile = 0;
static uint64_t g_rng = 1;
static uint32_t g_sim_size = 0;
static std::atomic<uint64_t> g_submitted{0}, g_finished{0}, g_live{0}, g_units{0};
static thread_local uint32_t tid = 0;
static thread_local int in_task = 0;
static bool g_helper = false;
static void (*g_yield)() = nullptr; // (called instead of blocking, lets another thread continue)

static uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ull;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void run_unit(std::unique_lock<std::mutex> &lk, Task *t, uint32_t index);

static void finish(Task *t) { // lock held
    t->finished = true;
    t->t1 = Clock::now();
    if (!t->started) t->t0 = t->t1;
    g_finished++;
    std::vector<Task *> ch;
    ch.swap(t->children);
    for (Task *c : ch) {
        if (t->has_exc && !c->has_exc) { c->exc = t->exc; c->has_exc = true; }
        if (--c->wait_parents == 0)
            ready().push_back(c);
    }
}

static void drop_payload(Task *t) {
    if (t->deleter) { t->deleter(t->payload); t->deleter = nullptr; }
    else if (t->owned) { free(t->payload); t->owned = false; }
    t->payload = nullptr;
}

// Pop a work unit from the ready queue. Lock held.
static bool pop_unit(Task *&t, uint32_t &index) {
    auto &q = ready();
    if (q.empty()) return false;
    size_t k = g_mode == 1 ? rnd() % q.size() : 0;
    t = q[k];
    index = t->next++;
    if (!t->order.empty()) index = t->order[index];
    t->running++;
    if (!t->started) { t->started = true; t->t0 = Clock::now(); }
    if (t->next >= t->size)
        q.erase(q.begin() + k);
    return true;
}

static void run_unit(std::unique_lock<std::mutex> &lk, Task *t, uint32_t index) {
    // The running task is kept alive by the implicit reference of the pool
    lk.unlock();
    g_units++;
    if (t->func && !t->has_exc) {
        in_task++;
        try { t->func(index, t->payload); }
        catch (...) {
            std::lock_guard<std::mutex> g(M());
            if (!t->has_exc) { t->exc = std::current_exception(); t->has_exc = true; }
        }
        in_task--;
    }
    lk.lock();
    t->running--;
    if (++t->done == t->size) {
        lk.unlock();
        drop_payload(t);
        lk.lock();
        finish(t);
        CV().notify_all();
        lk.unlock();
        task_release(t);
        lk.lock();
    }
}

static void worker(Pool *pool, uint32_t id) {
    tid = id;
    std::unique_lock<std::mutex> lk(M());
    while (true) {
        CV().wait(lk, [&] { return pool->stop || (g_mode == 0 && !ready().empty()); });
        if (pool->stop) return;
        Task *t; uint32_t index;
        if (pop_unit(t, index)) {
            if (!ready().empty()) CV().notify_all();
            run_unit(lk, t, index);
        }
    }
}

uint32_t core_count() {
    const char *e = getenv("NT_POOL_SIZE");
    if (e) return (uint32_t) atoi(e);
    uint32_t n = std::thread::hardware_concurrency();
    return n ? n : 1;
}

static void pool_start(Pool *p, uint32_t size) {
    // 'size' counts the thread that waits (id 0) plus size-1 workers
    p->size = size ? size : 1;
    p->stop = false;
    if (g_mode == 1) return;
    for (uint32_t i = 1; i < p->size; ++i)
        p->workers.emplace_back(worker, p, i);
}
static void pool_stop(Pool *p) {
    { std::lock_guard<std::mutex> g(M()); p->stop = true; }
    CV().notify_all();
    for (auto &w : p->workers) w.join();
    p->workers.clear();
}

Pool *pool_create(uint32_t size, int) {
    Pool *p = new Pool();
    pool_start(p, size == NANOTHREAD_AUTO ? core_count() : size);
    return p;
}
static std::mutex pm;
static Pool *get_default() {
    std::lock_guard<std::mutex> g(pm);
    if (!default_pool) default_pool = pool_create();
    return default_pool;
}
void pool_destroy(Pool *p) {
    if (!p) { std::lock_guard<std::mutex> g(pm); p = default_pool; default_pool = nullptr; }
    if (!p) return;
    pool_stop(p);
    delete p;
}
uint32_t pool_size(Pool *p) {
    if (!p) p = get_default();
    return p->size;
}
void pool_set_size(Pool *p, uint32_t size) {
    if (!p) p = get_default();
    if (size == NANOTHREAD_AUTO) size = core_count();
    pool_stop(p);
    pool_start(p, size);
}
int pool_profile() { return g_profile; }
void pool_set_profile(int v) { g_profile = v; }
uint32_t pool_thread_id() { return tid; }

void nt_set_mode(int mode, uint64_t seed) {
    Pool *p = get_default();
    uint32_t size = p->size;
    pool_stop(p);
    { std::lock_guard<std::mutex> g(M()); g_mode = mode; g_rng = seed; }
    pool_start(p, size);
}
void nt_set_yield(void (*f)()) { g_yield = f; }
uint64_t nt_submitted() { return g_submitted; }
uint64_t nt_finished() { return g_finished; }
uint64_t nt_live() { return g_live; }
uint64_t nt_units() { return g_units; }

Task *task_submit_dep(Pool *pool, Task *const *parent, uint32_t parent_count,
                      uint32_t size, void (*func)(uint32_t, void *), void *payload,
                      uint32_t payload_size, void (*deleter)(void *),
                      int always_async, int profile) {
    (void) pool; (void) profile;
    get_default();
    bool has_parent = false;
    for (uint32_t i = 0; i < parent_count; ++i)
        has_parent |= parent[i] != nullptr;

    if (size <= 1 && !has_parent && !always_async && !g_profile) {
        if (func && size) { g_units++; func(0, payload); }
        if (deleter) deleter(payload);
        return nullptr;
    }

    Task *t = new Task();
    g_live++;
    g_submitted++;
    t->refs = 2; // caller + pool
    if (size == 0) { func = nullptr; size = 1; }
    t->size = size;
    t->func = func;
    if (deleter || payload_size == 0) {
        t->payload = payload; t->deleter = deleter;
    } else if (payload) {
        if (payload_size <= sizeof(t->storage)) t->payload = t->storage;
        else { t->payload = malloc(payload_size); t->owned = true; }
        memcpy(t->payload, payload, payload_size);
    }

    std::unique_lock<std::mutex> lk(M());
    if (g_mode == 1 && size > 1) {
        t->order.resize(size);
        for (uint32_t i = 0; i < size; ++i) t->order[i] = i;
        for (uint32_t i = size - 1; i > 0; --i) std::swap(t->order[i], t->order[rnd() % (i + 1)]);
    }
    for (uint32_t i = 0; i < parent_count; ++i) {
        Task *p = parent[i];
        if (!p) continue;
        if (p->finished) {
            if (p->has_exc && !t->has_exc) { t->exc = p->exc; t->has_exc = true; }
            continue;
        }
        p->children.push_back(t);
        t->wait_parents++;
    }
    if (t->wait_parents == 0) {
        ready().push_back(t);
        if (size > 1) CV().notify_all(); else CV().notify_all();
    }
    return t;
}

void task_retain(Task *t) { if (t) t->refs++; }
void task_release(Task *t) {
    if (!t) return;
    uint32_t prev = t->refs.fetch_sub(1);
    if (prev == 0) { fprintf(stderr, "nanothread-shim: task over-released\n"); abort(); }
    if (prev == 1) { g_live--; delete t; }
}

void task_wait(Task *t) {
    if (!t) return;
    t->refs++;
    uint32_t saved = tid;
    {
        std::unique_lock<std::mutex> lk(M());
        while (!t->finished) {
            Task *u; uint32_t index;
            // Only one non-worker thread may execute work at a time (as id 0)
            bool external = !in_task && tid == 0;
            if ((!external || !g_helper) && pop_unit(u, index)) {
                if (g_mode == 1)
                    tid = (uint32_t) (rnd() % (default_pool ? default_pool->size : 1));
                if (external) g_helper = true;
                run_unit(lk, u, index);
                tid = saved;
                if (external) { g_helper = false; CV().notify_all(); }
            } else if (g_yield) {
                lk.unlock(); g_yield(); lk.lock();
            } else {
                CV().wait(lk, [&] { return t->finished || (!ready().empty() && (!external || !g_helper)); });
            }
        }
    }
    std::exception_ptr exc = t->has_exc ? t->exc : std::exception_ptr();
    task_release(t);
    if (exc) std::rethrow_exception(exc);
}
void nt_pump(uint32_t n) {
    uint32_t saved = tid;
    std::unique_lock<std::mutex> lk(M());
    for (uint32_t i = 0; n == 0 || i < n; ++i) {
        Task *u; uint32_t index;
        if (!pop_unit(u, index)) break;
        tid = (uint32_t) (rnd() % (default_pool ? default_pool->size : 1));
        run_unit(lk, u, index);
        tid = saved;
    }
}
void task_wait_and_release(Task *t) {
    struct G { Task *t; ~G() { task_release(t); } } g{ t };
    task_wait(t);
}
int task_query(Task *t) {
    if (!t) return 1;
    std::lock_guard<std::mutex> g(M());
    return t->finished ? 1 : 0;
}
double task_time(Task *t) {
    if (!t) return 0;
    std::lock_guard<std::mutex> g(M());
    return std::chrono::duration<double, std::milli>(t->t1 - t->t0).count();
}
double task_time_rel(Task *a, Task *b) {
    if (!a || !b) return 0;
    std::lock_guard<std::mutex> g(M());
    return std::chrono::duration<double, std::milli>(b->t1 - a->t1).count();
}
