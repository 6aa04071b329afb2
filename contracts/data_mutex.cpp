// C16: data_mutex gives access to its data only under its lock
// STD: c++17
#include "obj.hpp"
#include <exception>
#include <mutex>
#include <utility>
#include <itlib/data_mutex.hpp>

// A mutex with arbitrary behaviour within the contract of a (shared) mutex: any outcome of try_lock and try_lock_shared,
// lock and lock_shared (and the try variants) may throw instead. Counts of what this thread holds; a lock this thread
// cannot get (it holds an incompatible one, or others do) fails in the try variants.
struct Count { uint32_t excl, shared, acquired, released; bool may_throw; };
static Count* g;
struct Mx {
    void fault() { if (g->may_throw && vf_nondet("the mutex operation throws")) throw 1; }
    void lock() { fault(); vf_ensure_l(g->excl == 0 && g->shared == 0, "no deadlock"); g->excl = 1; ++g->acquired; }
    bool try_lock() { fault(); if (g->excl || g->shared || vf_nondet("someone else holds it")) return false; g->excl = 1; ++g->acquired; return true; }
    void unlock() { vf_ensure_l(g->excl == 1, "nothing is unlocked which was not acquired in this mode"); g->excl = 0; ++g->released; }
    void lock_shared() { fault(); vf_ensure_l(g->excl == 0, "no deadlock"); ++g->shared; ++g->acquired; }
    bool try_lock_shared() { fault(); if (g->excl || vf_nondet("someone else holds it")) return false; ++g->shared; ++g->acquired; return true; }
    void unlock_shared() { vf_ensure_l(g->shared > 0, "nothing is unlocked which was not acquired in this mode"); --g->shared; ++g->released; }
};
using A = Obj<1>;
using D = itlib::data_mutex<A, Mx>;
static void balanced(Count& c) { vf_ensure_l(c.excl == 0 && c.shared == 0 && c.acquired == c.released, "each acquisition is released exactly once"); }
#define WORLD Count c{0, 0, 0, 0, vf_bool("operations may throw")}; g = &c; uint32_t x = uint32_t(vf_u64("x", 0, 1000)), y = uint32_t(vf_u64("y", 0, 1000)); \
    D dm(x); const D& cdm = dm; (void)cdm; bool thrown = false;
// reads and, for a mutable lock, writes through the lock object happen while the mutex is held in the right mode
template <typename L> static void use_const(L& l, uint32_t x, bool excl) {
    const L& cl = l;
    const A *p = &*l, *q = l.operator->(), *cp = &*cl, *cq = cl.operator->();
    vf_ensure_l(p == q && cp == q && cq == q, "all accesses are to the data");
    vf_ensure_l(p->get() == x, "all accesses are to the data");
    vf_ensure_l(excl ? g->excl == 1 : g->shared > 0, "the data is accessible only while the mutex is held in the matching mode");
    static_assert(std::is_const<typename std::remove_reference<decltype(*l)>::type>::value, "only const access");
}
template <typename L> static void use_mut(L& l, uint32_t x, uint32_t y) {
    const L& cl = l;
    A *p = &*l, *q = l.operator->(); const A *cp = &*cl, *cq = cl.operator->();
    vf_ensure_l(p == q && cp == q && cq == q, "all accesses are to the data");
    vf_ensure_l(p->get() == x, "all accesses are to the data");
    vf_ensure_l(g->excl == 1, "the data is accessible only while the mutex is held in the matching mode");
    static_assert(!std::is_const<typename std::remove_reference<decltype(*l)>::type>::value, "mutable access");
    *l = A(y); vf_ensure(p->get() == y);
}
HARNESS(C16_construct) {
    Count c{0, 0, 0, 0, false}; g = &c;
    uint32_t x = uint32_t(vf_u64("x", 0, 1000)), y = uint32_t(vf_u64("y", 0, 1000));
    D d; { auto l = d.unique_lock(); vf_ensure(l->get() == 77); }
    D e(x, y); { auto l = e.unique_lock(); vf_ensure(l->get() == (x ^ y)); }
    A a(x); D f(std::move(a)); { auto l = f.shared_lock(); vf_ensure(l->get() == x); }
    balanced(c);
}
HARNESS(C16_unique_lock) { WORLD
    try {
        auto l = dm.unique_lock();
        use_mut(l, x, y);
        vf_ensure(c.acquired == 1 && c.released == 0);
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure_l(c.acquired == (thrown ? 0 : 1), "each acquisition is released exactly once");
}
HARNESS(C16_const_unique_lock) { WORLD
    try {
        auto l = cdm.unique_lock();
        use_const(l, x, true);
        vf_ensure(c.acquired == 1 && c.released == 0);
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure(c.acquired == (thrown ? 0 : 1));
}
HARNESS(C16_shared_lock) { WORLD
    try {
        auto l = cdm.shared_lock();
        use_const(l, x, false);
        auto l2 = dm.shared_lock();
        use_const(l2, x, false);
        vf_ensure(c.acquired == 2 && c.shared == 2 && &*l == &*l2);
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure(thrown || c.acquired == 2);
}
HARNESS(C16_try_unique_lock) { WORLD
    try {
        auto l = dm.try_unique_lock();
        vf_ensure_l(bool(l) == (c.acquired == 1), "converts to true exactly when the lock was acquired");
        if (l) use_mut(l, x, y); else vf_ensure_l(l.operator->() == nullptr, "an empty lock object gives no access");
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure(!thrown || c.acquired == 0);
}
HARNESS(C16_try_const_unique_lock) { WORLD
    try {
        auto l = cdm.try_unique_lock();
        vf_ensure_l(bool(l) == (c.acquired == 1), "converts to true exactly when the lock was acquired");
        if (l) use_const(l, x, true); else vf_ensure_l(l.operator->() == nullptr, "an empty lock object gives no access");
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure(!thrown || c.acquired == 0);
}
HARNESS(C16_try_shared_lock) { WORLD
    try {
        auto l = cdm.try_shared_lock();
        vf_ensure_l(bool(l) == (c.acquired == 1), "converts to true exactly when the lock was acquired");
        if (l) use_const(l, x, false); else vf_ensure_l(l.operator->() == nullptr, "an empty lock object gives no access");
    } catch (int) { thrown = true; }
    balanced(c);
    vf_ensure(!thrown || c.acquired == 0);
}
HARNESS(C16_contention) { WORLD                         // what one lock object holds is respected by the next
    c.may_throw = false;
    int k = int(vf_concrete(vf_u64("first", 0, 2), 3));
    if (k == 0) { auto a = dm.unique_lock(); auto b = dm.try_unique_lock(); auto d = cdm.try_shared_lock(); auto e = cdm.try_unique_lock(); vf_ensure(!b && !d && !e && c.excl == 1); use_mut(a, x, y); }
    if (k == 1) { auto a = dm.shared_lock(); auto b = dm.try_unique_lock(); auto d = cdm.try_unique_lock(); vf_ensure(!b && !d && c.shared == 1); auto e = cdm.try_shared_lock(); if (e) use_const(e, x, false); use_const(a, x, false); }
    if (k == 2) { { auto a = cdm.try_unique_lock(); auto b = dm.try_shared_lock(); vf_ensure(!a || !b); } auto d = dm.unique_lock(); use_mut(d, x, y); }
    balanced(c);
}
// moving a lock object moves the duty to unlock; any sequence of moves is a sequence of these steps
template <typename L> static void move_step(L&& l, bool has, bool excl, const A* addr) {
    using T = typename std::decay<L>::type;
    alignas(16) char buf[3][sizeof(T)];
    T* a = new (buf[0]) T(std::move(l));
    bool given = vf_bool("already moved from");
    T* o = given ? new (buf[1]) T(std::move(*a)) : nullptr;
    uint32_t acq = g->acquired;
    T* b = new (buf[2]) T(std::move(*a));
    vf_ensure_l(g->acquired == acq && g->released == 0, "a move neither acquires nor releases");
    bool owns = has && !given;
    vf_ensure_l(b->operator->() == (owns ? addr : nullptr) && a->operator->() == nullptr, "a moved-from lock object gives no access");
    bool order = vf_bool("source dies first");
    if (order) { a->~T(); vf_ensure_l(g->released == 0, "a moved-from lock object releases nothing"); }
    b->~T();
    vf_ensure_l(g->released == (owns ? 1 : 0), "the acquisition is released with the object it was moved to");
    if (!order) a->~T();
    if (o) { vf_ensure(g->released == 0); o->~T(); }
    vf_ensure_l(g->released == (has ? 1 : 0), "each acquisition is released exactly once");
}
HARNESS(C16_move) { WORLD
    c.may_throw = false;
    const A* addr; { auto l = dm.shared_lock(); addr = &*l; } c.acquired = c.released = 0;
    int k = int(vf_concrete(vf_u64("which", 0, 5), 6));
    if (k == 0) move_step(dm.unique_lock(), true, true, addr);
    if (k == 1) move_step(cdm.unique_lock(), true, true, addr);
    if (k == 2) move_step(cdm.shared_lock(), true, false, addr);
    if (k == 3) { auto l = dm.try_unique_lock(); bool h(l); move_step(std::move(l), h, true, addr); }
    if (k == 4) { auto l = cdm.try_unique_lock(); bool h(l); move_step(std::move(l), h, true, addr); }
    if (k == 5) { auto l = cdm.try_shared_lock(); bool h(l); move_step(std::move(l), h, false, addr); }
    balanced(c);
}
HARNESS(C16_exception_while_held) { WORLD
    c.may_throw = false;
    int k = int(vf_concrete(vf_u64("which", 0, 2), 3));
    try {
        if (k == 0) { auto l = dm.unique_lock(); use_mut(l, x, y); throw 2; }
        if (k == 1) { auto l = dm.shared_lock(); use_const(l, x, false); throw 2; }
        if (k == 2) { auto l = dm.try_unique_lock(); throw 2; }
    } catch (int) { thrown = true; }
    vf_ensure(thrown);
    balanced(c);
}
// a mutex without shared modes
struct Plain {
    void lock() { vf_ensure_l(g->excl == 0, "no deadlock"); g->excl = 1; ++g->acquired; }
    bool try_lock() { if (g->excl || vf_nondet("someone else holds it")) return false; g->excl = 1; ++g->acquired; return true; }
    void unlock() { vf_ensure_l(g->excl == 1, "nothing is unlocked which was not acquired in this mode"); g->excl = 0; ++g->released; }
};
HARNESS(C16_plain_mutex) {
    Count c{0, 0, 0, 0, false}; g = &c;
    uint32_t x = uint32_t(vf_u64("x", 0, 1000)), y = uint32_t(vf_u64("y", 0, 1000));
    itlib::data_mutex<A, Plain> dm(x);
    const auto& cdm = dm;
    { auto l = dm.unique_lock(); use_mut(l, x, y); }
    { auto l = cdm.unique_lock(); use_const(l, y, true); }
    { auto l = dm.try_unique_lock(); if (l) use_mut(l, y, x); else vf_ensure(c.acquired == 2); }
    { auto l = cdm.try_unique_lock(); if (l) vf_ensure(l->get() == x || l->get() == y); }
    balanced(c);
}
