// C17: strong_try_rec_mutex is a recursive mutex with reliable try_lock
// STD: c++17
// FLAGS: -pthread
// ASSUME: std::mutex gives mutual exclusion: lock and unlock do not fail and make each operation's effects visible to the next
#include "vf.hpp"
#include <itlib/mutex.hpp>
#ifndef VF_SYMBOLIC
#include <functional>
#include <condition_variable>
#endif
using M = itlib::strong_try_rec_mutex;

// run code as thread id
#ifdef VF_SYMBOLIC
template <typename F> static void as(uint64_t id, F f) { uint64_t o = vf_set_thread(id); f(); vf_set_thread(o); }
#else
struct Worker {                                         // one real thread per id
    std::mutex m; std::condition_variable c; std::function<void()> job; bool quit = false; std::thread t;
    Worker() : t([this] {
        std::unique_lock<std::mutex> l(m);
        while (true) { c.wait(l, [&] { return job || quit; }); if (quit) return; job(); job = nullptr; c.notify_all(); }
    }) {}
    ~Worker() { { std::lock_guard<std::mutex> l(m); quit = true; } c.notify_all(); t.join(); }
    void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = std::move(f); c.notify_all(); c.wait(l, [&] { return !job; }); }
};
static Worker workers[4];
template <typename F> static void as(uint64_t id, F f) {
    if (id == 1) { f(); return; }
    workers[id].run(f);
}
#endif
static const uint64_t ME = 1, OTHER = 2, THIRD = 3;
static uint64_t depth(const char* n) { return vf_u64(n, 1, uint64_t(1) << 40, 3); }

static bool lock_n(M& m, uint64_t n) { bool ok = true; for (uint64_t i = 0; i < n; ++i) ok = ok & m.try_lock(); return ok; }
static void unlock_n(M& m, uint64_t n) { for (uint64_t i = 0; i < n; ++i) m.unlock(); }

struct World { M* m; uint64_t owner; };
// Every state of the mutex: free, or owned by this or another thread to any depth
#define WORLD alignas(64) char buf[sizeof(M)]; M* m = new (buf) M; World w{m, 0}; \
    w.owner = vf_concrete(vf_u64("owner", 0, 2), 3); uint64_t d = depth("depth"); vf_limit(d); \
    if (w.owner != 0) as(w.owner, [&] { vf_ensure_l(lock_n(*m, d), "the owner's try_lock always succeeds"); }); \
    else d = 0;
// the mutex is owned by `owner` to exactly depth d (or free)
static void owned(M& m, uint64_t owner, uint64_t d) {
    for (uint64_t t = 1; t <= 3; ++t) if (t != owner && owner != 0) as(t, [&] { vf_ensure_l(!m.try_lock(), "only the owner's try_lock succeeds"); });
    if (owner != 0) {
        as(owner, [&] { vf_ensure_l(m.try_lock(), "the owner's try_lock always succeeds"); });
        as(owner, [&] { unlock_n(m, d); });
        as(owner == 3 ? 1 : 3, [&] { vf_ensure_l(!m.try_lock(), "it stays owned until as many unlocks as locks"); });
        as(owner, [&] { m.unlock(); });
    }
    // free now
    for (uint64_t t = 1; t <= 3; ++t) as(t, [&] { vf_ensure_l(m.try_lock(), "try_lock of a free mutex succeeds"); m.unlock(); });
}
HARNESS(C17_fresh) {
    M m;
    owned(m, 0, 0);
}
HARNESS(C17_state) { WORLD
    owned(*m, w.owner, d);
    m->~M();
}
HARNESS(C17_try_lock) { WORLD
    bool r = m->try_lock();
    vf_ensure_l(vf_held(m) == 0, "the internal mutex is released");
    vf_ensure_l(r == (w.owner != OTHER), "try_lock succeeds exactly when the mutex is free or owned by the caller");
    owned(*m, r ? ME : w.owner, r ? d + 1 : d);
    m->~M();
}
HARNESS(C17_unlock) { WORLD
    vf_assume(w.owner == ME);
    m->unlock();
    vf_ensure_l(vf_held(m) == 0, "the internal mutex is released");
    owned(*m, d > 1 ? ME : 0, d - 1);
    m->~M();
}
// other threads act until this thread enters its critical section: they may take or release the mutex, but not this thread's
static void others(void* c) {
    World* w = static_cast<World*>(c);
    if (w->owner == OTHER && vf_bool("the other thread releases it")) { as(OTHER, [&] { w->m->unlock(); }); w->owner = 0; }
    if (w->owner == 0 && vf_bool("another thread takes it")) { as(THIRD, [&] { vf_ensure_l(w->m->try_lock(), "try_lock of a free mutex succeeds"); }); w->owner = THIRD; }
}
#define SHARED alignas(64) char buf[sizeof(M)]; M* m = new (buf) M; World w{m, 0}; \
    w.owner = vf_concrete(vf_u64("owner", 0, 2), 3); \
    if (w.owner != 0) as(w.owner, [&] { vf_ensure_l(m->try_lock(), "try_lock of a free mutex succeeds"); }); \
    vf_shared(buf, 1, others, &w);
HARNESS(C17_shared_try_lock) { SHARED
    uint64_t before = w.owner;
    bool r = m->try_lock();
    vf_ensure_l(vf_held(buf) == 0, "the internal mutex is released");
    vf_unshared(buf);
    vf_ensure_l(before != ME || w.owner == ME, "an owned mutex stays owned");
    vf_ensure_l(r == (w.owner == 0 || w.owner == ME), "try_lock succeeds exactly when the mutex is free or owned by the caller");
    owned(*m, r ? ME : w.owner, r && before == ME ? 2 : 1);
    m->~M();
}
HARNESS(C17_shared_unlock) { SHARED
    vf_assume(w.owner == ME);
    m->unlock();
    vf_ensure_l(vf_held(buf) == 0, "the internal mutex is released");
    vf_unshared(buf);
    owned(*m, 0, 0);
    m->~M();
}
HARNESS(C17_lock_guard) {
    M m;
    {
        std::unique_lock<M> l(m, std::try_to_lock);
        vf_ensure(l.owns_lock());
        { std::unique_lock<M> l2(m, std::try_to_lock); vf_ensure(l2.owns_lock()); }
        as(OTHER, [&] { std::unique_lock<M> o(m, std::try_to_lock); vf_ensure_l(!o.owns_lock(), "only the owner's try_lock succeeds"); });
    }
    owned(m, 0, 0);
}
