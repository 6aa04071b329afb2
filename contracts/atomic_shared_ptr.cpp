// C15: atomic_shared_ptr_storage: every operation takes effect atomically under its lock
// STD: c++17
// ASSUME: std::shared_ptr's reference counts are safe to change from several threads (libstdc++'s control blocks)
// ASSUME: with C++20's std::atomic<std::shared_ptr> available the storage is that type; only the spinlock version is under contract
#include "obj.hpp"
#include <itlib/atomic_shared_ptr_storage.hpp>
using A = Obj<1>;
using S = itlib::atomic_shared_ptr_storage<A>;
using P = std::shared_ptr<A>;

// Every value a shared_ptr can have is represented by one of: null, or an owner of one of 3 objects. The operations only
// compare, copy and swap pointers, at most 3 distinct ones matter at a time.
struct World {
    S* s;
    P vals[4];                                          // vals[0] is null
    uint64_t cur;                                       // ghost: index of the value at the moment the operation takes effect
    World(S* st) : s(st), cur(0) { vals[1] = std::make_shared<A>(1); vals[2] = std::make_shared<A>(2); vals[3] = std::make_shared<A>(3); }
};
static uint64_t pick(const char* n) { return vf_concrete(vf_u64(n, 0, 3, 3), 4); }
// what other threads may have done before this thread's operation takes effect: any number of complete operations,
// the last of which left any of the values
static void others(void* c) {
    World* w = static_cast<World*>(c);
    if (vf_bool("other threads change the value")) {
        w->cur = pick("their value");
        w->s->store(w->vals[w->cur]);
    }
}
#define WORLD alignas(64) char buf[sizeof(S)]; S* s = new (buf) S; World w(s); \
    uint64_t i0 = pick("initial value"); s->store(w.vals[i0]); w.cur = i0; vf_shared(buf, 1, others, &w);
// afterwards: the lock is free, the value is vals[k], reference counts balance (extra: references the harness holds)
static void after(World& w, void* buf, uint64_t k, const uint64_t (&extra)[4]) {
    vf_ensure_l(vf_held(buf) == 0, "the lock is released");
    vf_unshared(buf);
    { P p = w.s->load(); vf_ensure_l(p == w.vals[k], "the value is the one the operation left"); }
    for (int i = 1; i < 4; ++i) vf_ensure_l(uint64_t(w.vals[i].use_count()) == 1 + (k == uint64_t(i)) + extra[i], "reference counts balance");
    w.s->~S();
    for (int i = 1; i < 4; ++i) vf_ensure_l(uint64_t(w.vals[i].use_count()) == 1 + extra[i], "reference counts balance");
}
HARNESS(C15_construct) {
    P a = std::make_shared<A>(5);
    { S s; P p = s.load(); vf_ensure(!p); }
    { S s(a); P p = s.load(); vf_ensure(p == a && a.use_count() == 3); }
    vf_ensure_l(a.use_count() == 1, "reference counts balance");
    { S s(std::move(a)); vf_ensure(!a); P p = s.load(); vf_ensure(p && p->get() == 5 && p.use_count() == 2); }
    vf_ensure(vf_live_blocks() == 0);
}
HARNESS(C15_load) { WORLD
    const S* cs = s;
    uint64_t extra[4] = {0, 0, 0, 0};
    {
        P p = cs->load();
        vf_ensure_l(p.get() == w.vals[w.cur].get(), "load returns the current value");
        extra[w.cur] = 1;
        after(w, buf, w.cur, extra);
    }
}
HARNESS(C15_store) { WORLD
    uint64_t x = pick("x");
    uint64_t extra[4] = {0, 0, 0, 0};
    s->store(w.vals[x]);
    after(w, buf, x, extra);
}
HARNESS(C15_store_moved) { WORLD
    uint64_t x = pick("x");
    uint64_t extra[4] = {0, 0, 0, 0};
    P p = w.vals[x];
    s->store(std::move(p));
    vf_ensure(!p);
    after(w, buf, x, extra);
}
HARNESS(C15_exchange) { WORLD
    uint64_t x = pick("x");
    uint64_t extra[4] = {0, 0, 0, 0};
    P old = s->exchange(w.vals[x]);
    vf_ensure_l(old.get() == w.vals[w.cur].get(), "exchange returns the value it replaced");
    extra[w.cur] = 1;
    after(w, buf, x, extra);
}
HARNESS(C15_compare_exchange) { WORLD
    uint64_t x = pick("x"), e = pick("expected");
    uint64_t extra[4] = {0, 0, 0, 0};
    P expect = w.vals[e];
    bool r = s->compare_exchange(expect, w.vals[x]);
    uint64_t cur = w.cur;
    vf_ensure_l(r == (cur == e), "replaces the value exactly when it equals the expected one");
    vf_ensure_l(expect.get() == w.vals[cur].get(), "reports the current value");
    extra[cur] = 1;
    after(w, buf, r ? x : cur, extra);
}
// the last owner: values are destroyed exactly once, not while in use
HARNESS(C15_sole_owner) {
    uint32_t x = uint32_t(vf_u64("x", 0, 1000)), y = uint32_t(vf_u64("y", 0, 1000));
    {
        S s(std::make_shared<A>(x));
        vf_ensure(vf_live_blocks() == 1);
        s.store(std::make_shared<A>(y));
        vf_ensure_l(vf_live_blocks() == 1, "the replaced value is destroyed");
        P old = s.exchange(nullptr);
        vf_ensure(old && old->get() == y && old.use_count() == 1 && !s.load());
        P e;
        vf_ensure(s.compare_exchange(e, std::move(old)) && !old && !e);
        vf_ensure(s.load()->get() == y && vf_live_blocks() == 1);
        vf_ensure(!s.compare_exchange(e, nullptr) && e->get() == y && e.use_count() == 2);
        vf_ensure(s.compare_exchange(e, nullptr) && e->get() == y && e.use_count() == 1);
    }
    vf_ensure(vf_live_blocks() == 0);
}
// values whose destruction uses the storage itself: user code never runs while the lock is held
struct Back;
using SB = itlib::atomic_shared_ptr_storage<Back>;
using PB = std::shared_ptr<Back>;
static SB* g_sb;
struct Back {
    uint32_t v;
    Back(uint32_t x) : v(x) {}
    ~Back() { if (g_sb) { vf_ensure_l(vf_held(g_sb) == 0, "no value is destroyed while the lock is held"); PB p = g_sb->load(); } }
};
static void nobody(void*) {}
HARNESS(C15_no_destruction_under_the_lock) {
    alignas(64) char buf[sizeof(SB)];
    uint64_t how = vf_concrete(vf_u64("how", 0, 4, 5), 5);
    uint32_t x = uint32_t(vf_u64("x", 0, 1000)), y = uint32_t(vf_u64("y", 0, 1000));
    SB* s = new (buf) SB(std::make_shared<Back>(x));
    g_sb = s;
    vf_shared(buf, 1, nobody, nullptr);
    PB e = s->load();
    if (how == 0) { e.reset(); s->store(std::make_shared<Back>(y)); }
    if (how == 1) { e.reset(); s->exchange(std::make_shared<Back>(y)); }
    if (how == 2) { bool r = s->compare_exchange(e, std::make_shared<Back>(y)); vf_ensure(r); e.reset(); }
    if (how == 3) { e = std::make_shared<Back>(y); bool r = s->compare_exchange(e, nullptr); vf_ensure(!r && e->v == x); }
    if (how == 4) { bool r = s->compare_exchange(PB(e) ? e : e, nullptr); vf_ensure(r && e->v == x); e.reset(); }
    { PB p = s->load(); vf_ensure(how >= 4 ? !p : how == 3 ? p == e : p->v == y); }
    g_sb = nullptr;
    e.reset();
    vf_unshared(buf);
    s->~SB();
    vf_ensure_l(vf_live_blocks() == 0, "every value is destroyed");
}
