// C26: every update of atomic_relaxed_counter is one indivisible read-modify-write
// STD: c++17
#include "vf.hpp"
#include <itlib/atomic.hpp>
using namespace itlib;

// mode 2: other threads change the counter between any two atomic accesses; vf_atomic_old/new: the value right before and
// after the last access. One event per access. Natively (a single thread) only the results are checked.
static uint64_t accesses() { return vf_events("load") + vf_events("store") + vf_events("rmw"); }

template <typename I, typename U> struct Spec {
    using C = atomic_relaxed_counter<I>;
    static I any(const char* n) { return I(U(vf_u64(n, 0, U(-1)))); }
    // op updated the counter by d in one access and returned ret, the new (pre) or the old value
    template <typename F> static void update(F op, I d, bool returns_new) {
        I init = any("init");
        C c(init);
        vf_shared(&c, 2, nullptr, nullptr);
        I ret = op(c);
        vf_unshared(&c);
        if (vf_native) { vf_ensure_l(ret == (returns_new ? I(U(init) + U(d)) : init), "returns the value of its own update"); vf_ensure_l(c.load() == I(U(init) + U(d)), "the counter changes by the given amount"); return; }
        U o = U(vf_atomic_old()), n = U(vf_atomic_new());
        vf_ensure_l(vf_events("rmw") == 1 && vf_events("store") == 0, "the update is one indivisible read-modify-write");
        vf_ensure_l(n == U(o + U(d)), "the counter changes by the given amount");
        vf_ensure_l(U(ret) == (returns_new ? n : o), "returns the value of its own update");
    }
    static void inc() { update([](C& c) { return ++c; }, 1, true); }
    static void post_inc() { update([](C& c) { return c++; }, 1, false); }
    static void dec() { update([](C& c) { return --c; }, I(-1), true); }
    static void post_dec() { update([](C& c) { return c--; }, I(-1), false); }
    static void add() { I d = any("d"); update([d](C& c) { return c += d; }, d, true); }
    static void sub() { I d = any("d"); update([d](C& c) { return c -= d; }, I(U(0) - U(d)), true); }
    static void load() {
        I init = any("init");
        C c(init);
        vf_ensure(c.load() == init && I(c) == init);
        const C& cc = c;
        bool conv = vf_bool("conversion");
        vf_shared(&c, 2, nullptr, nullptr);
        I r = conv ? I(cc) : cc.load();
        vf_unshared(&c);
        if (vf_native) { vf_ensure(r == init); return; }
        vf_ensure_l(accesses() == 1 && vf_events("load") == 1, "a single atomic access");
        vf_ensure_l(U(r) == U(vf_atomic_old()), "loads the current value");
    }
    static void store() {
        I init = any("init"), x = any("x");
        C c(init);
        bool assign = vf_bool("assignment");
        vf_shared(&c, 2, nullptr, nullptr);
        if (assign) { I r = (c = x); vf_ensure_l(r == x, "assignment returns the value stored"); } else c.store(x);
        vf_unshared(&c);
        vf_ensure_l(c.load() == x, "stores the value");
        if (vf_native) return;
        vf_ensure_l(accesses() == 1 && vf_events("store") == 1, "a single atomic access");
    }
    static void copy_construct() {
        I init = any("init");
        C c(init);
        vf_shared(&c, 2, nullptr, nullptr);
        C d(c);
        vf_unshared(&c);
        if (vf_native) { vf_ensure(d.load() == init && c.load() == init); return; }
        vf_ensure_l(accesses() == 1 && vf_events("load") == 1, "a single atomic access to the source, which stays as it is");
        vf_ensure_l(U(d.load()) == U(vf_atomic_old()), "a snapshot of the value");
    }
    static void copy_assign() {
        I a = any("a"), b = any("b");
        C c(a), d(b);
        vf_shared(&c, 2, nullptr, nullptr);
        C& r = (d = c);
        vf_unshared(&c);
        vf_ensure(&r == &d);
        if (vf_native) { vf_ensure(d.load() == a && c.load() == a); return; }
        vf_ensure_l(accesses() == 1 && vf_events("load") == 1, "a single atomic access to the source, which stays as it is");
        vf_ensure_l(U(d.load()) == U(vf_atomic_old()), "a snapshot of the value");
    }
    static void assign_shared() {                       // the target is shared
        I a = any("a"), b = any("b");
        C c(a), d(b);
        vf_shared(&d, 2, nullptr, nullptr);
        d = c;
        vf_unshared(&d);
        vf_ensure(c.load() == a && d.load() == a);
        if (!vf_native) vf_ensure_l(accesses() == 1 && vf_events("store") == 1, "a single atomic access to the target");
    }
};
using U8 = Spec<uint8_t, uint8_t>;
using I16 = Spec<int16_t, uint16_t>;
using U32 = Spec<uint32_t, uint32_t>;
using I32 = Spec<int32_t, uint32_t>;
using U64 = Spec<uint64_t, uint64_t>;
using I64 = Spec<int64_t, uint64_t>;
HARNESS(C26_inc_U8) { U8::inc(); }
HARNESS(C26_post_inc_U8) { U8::post_inc(); }
HARNESS(C26_dec_U8) { U8::dec(); }
HARNESS(C26_post_dec_U8) { U8::post_dec(); }
HARNESS(C26_add_U8) { U8::add(); }
HARNESS(C26_sub_U8) { U8::sub(); }
HARNESS(C26_load_U8) { U8::load(); }
HARNESS(C26_store_U8) { U8::store(); }
HARNESS(C26_copy_construct_U8) { U8::copy_construct(); }
HARNESS(C26_copy_assign_U8) { U8::copy_assign(); }
HARNESS(C26_assign_shared_U8) { U8::assign_shared(); }
HARNESS(C26_inc_I16) { I16::inc(); }
HARNESS(C26_post_inc_I16) { I16::post_inc(); }
HARNESS(C26_dec_I16) { I16::dec(); }
HARNESS(C26_post_dec_I16) { I16::post_dec(); }
HARNESS(C26_add_I16) { I16::add(); }
HARNESS(C26_sub_I16) { I16::sub(); }
HARNESS(C26_load_I16) { I16::load(); }
HARNESS(C26_store_I16) { I16::store(); }
HARNESS(C26_copy_construct_I16) { I16::copy_construct(); }
HARNESS(C26_copy_assign_I16) { I16::copy_assign(); }
HARNESS(C26_assign_shared_I16) { I16::assign_shared(); }
HARNESS(C26_inc_U32) { U32::inc(); }
HARNESS(C26_post_inc_U32) { U32::post_inc(); }
HARNESS(C26_dec_U32) { U32::dec(); }
HARNESS(C26_post_dec_U32) { U32::post_dec(); }
HARNESS(C26_add_U32) { U32::add(); }
HARNESS(C26_sub_U32) { U32::sub(); }
HARNESS(C26_load_U32) { U32::load(); }
HARNESS(C26_store_U32) { U32::store(); }
HARNESS(C26_copy_construct_U32) { U32::copy_construct(); }
HARNESS(C26_copy_assign_U32) { U32::copy_assign(); }
HARNESS(C26_assign_shared_U32) { U32::assign_shared(); }
HARNESS(C26_inc_I32) { I32::inc(); }
HARNESS(C26_post_inc_I32) { I32::post_inc(); }
HARNESS(C26_dec_I32) { I32::dec(); }
HARNESS(C26_post_dec_I32) { I32::post_dec(); }
HARNESS(C26_add_I32) { I32::add(); }
HARNESS(C26_sub_I32) { I32::sub(); }
HARNESS(C26_load_I32) { I32::load(); }
HARNESS(C26_store_I32) { I32::store(); }
HARNESS(C26_copy_construct_I32) { I32::copy_construct(); }
HARNESS(C26_copy_assign_I32) { I32::copy_assign(); }
HARNESS(C26_assign_shared_I32) { I32::assign_shared(); }
HARNESS(C26_inc_U64) { U64::inc(); }
HARNESS(C26_post_inc_U64) { U64::post_inc(); }
HARNESS(C26_dec_U64) { U64::dec(); }
HARNESS(C26_post_dec_U64) { U64::post_dec(); }
HARNESS(C26_add_U64) { U64::add(); }
HARNESS(C26_sub_U64) { U64::sub(); }
HARNESS(C26_load_U64) { U64::load(); }
HARNESS(C26_store_U64) { U64::store(); }
HARNESS(C26_copy_construct_U64) { U64::copy_construct(); }
HARNESS(C26_copy_assign_U64) { U64::copy_assign(); }
HARNESS(C26_assign_shared_U64) { U64::assign_shared(); }
HARNESS(C26_inc_I64) { I64::inc(); }
HARNESS(C26_post_inc_I64) { I64::post_inc(); }
HARNESS(C26_dec_I64) { I64::dec(); }
HARNESS(C26_post_dec_I64) { I64::post_dec(); }
HARNESS(C26_add_I64) { I64::add(); }
HARNESS(C26_sub_I64) { I64::sub(); }
HARNESS(C26_load_I64) { I64::load(); }
HARNESS(C26_store_I64) { I64::store(); }
HARNESS(C26_copy_construct_I64) { I64::copy_construct(); }
HARNESS(C26_copy_assign_I64) { I64::copy_assign(); }
HARNESS(C26_assign_shared_I64) { I64::assign_shared(); }
