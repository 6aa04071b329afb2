// C23: ufunction is a move-only owner of exactly one callable
// STD: c++17
#include "obj.hpp"
#include <itlib/ufunction.hpp>

using A = Obj<1>;
struct MO : Obj<2> {                                    // move-only argument
    using Obj<2>::Obj;
    MO(MO&&) = default;
    MO(const MO&) = delete;
    MO& operator=(MO&&) = default;
};
using Sig = uint32_t(uint32_t, A&, MO, MO&&, const A&);
using UF = itlib::ufunction<Sig>;
static_assert(!std::is_copy_constructible<UF>::value, "move-only");

struct Log { uint32_t calls, id, x; const void *pa, *pm, *pc; uint32_t a, b, m, c; };
static Log g_log;

// move-only callable with observable lifetime and state
template <uint32_t TAG, int PAD>
struct Fn {
    uint32_t id, tag, state; uint32_t calls; char pad[PAD];
    void use() const { vf_life_check(this, sizeof(Fn)); vf_ensure_l(tag == TAG, "callable used as its own type"); }
    Fn(uint32_t i) noexcept { vf_life_begin(this, sizeof(Fn)); id = i; tag = TAG; state = 1; calls = 0; }
    Fn(const Fn&) = delete;
    Fn(Fn&& o) noexcept { o.use(); vf_life_begin(this, sizeof(Fn)); id = o.id; tag = TAG; state = o.state; calls = o.calls; o.state = 2; }
    Fn& operator=(Fn&& o) noexcept { use(); o.use(); id = o.id; state = o.state; calls = o.calls; o.state = 2; return *this; }
    ~Fn() { use(); tag = 0; vf_life_end(this, sizeof(Fn)); }
    uint32_t operator()(uint32_t x, A& a, MO b, MO&& m, const A& c) {
        use(); vf_ensure_l(state == 1, "the callable called has its state");
        ++calls; ++g_log.calls; g_log.id = id; g_log.x = x; g_log.pa = &a; g_log.pm = &m; g_log.pc = &c;
        g_log.a = a.get(); g_log.b = b.get(); g_log.m = m.get(); g_log.c = c.get();
        a.v = calls;
        return id + x;
    }
};
using F1 = Fn<11, 4>;                                   // small
using F2 = Fn<12, 100>;                                 // big
static uint32_t plain(uint32_t x, A& a, MO b, MO&& m, const A& c) {
    ++g_log.calls; g_log.id = 0; g_log.x = x; g_log.pa = &a; g_log.pm = &m; g_log.pc = &c;
    g_log.a = a.get(); g_log.b = b.get(); g_log.m = m.get(); g_log.c = c.get();
    a.v = 7;
    return x;
}
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0x7fffffff)); }

enum { none, k1, k2, kp };                              // what a ufunction holds
static void put(UF& f, int k, uint32_t id) {
    if (k == k1) f = F1(id);
    if (k == k2) f = F2(id);
    if (k == kp) f = &plain;
}
static uint64_t blocks(int k) { return k == k1 || k == k2; }
// holds exactly what is specified: emptiness and the effect of one call
static void is(UF& f, int k, uint32_t id, uint32_t ncalls = 0) {
    const UF& cf = f;
    vf_ensure_l(bool(f) == (k != none) && bool(cf) == (k != none), "emptiness is reported exactly");
    g_log = {};
    uint32_t x = val("x"), a = val("arg a"), b = val("arg b"), m = val("arg m"), c = val("arg c");
    A oa(a); MO ob(b); MO om(m); const A oc(c);
    uint32_t r = 0; bool thrown = false;
    if (vf_bool("call through const")) { try { r = cf(x, oa, std::move(ob), std::move(om), oc); } catch (const std::bad_function_call&) { thrown = true; } }
    else { try { r = f(x, oa, std::move(ob), std::move(om), oc); } catch (const std::bad_function_call&) { thrown = true; } }
    vf_ensure_l(thrown == (k == none), "calling an empty function throws std::bad_function_call");
    if (k == none) { vf_ensure(g_log.calls == 0); return; }
    vf_ensure_l(g_log.calls == 1, "the callable is invoked exactly once");
    vf_ensure_l(r == (k == kp ? x : id + x) && g_log.id == (k == kp ? 0 : id), "the callable held is invoked and its result returned");
    vf_ensure_l(g_log.x == x && g_log.pa == &oa && g_log.pm == &om && g_log.pc == &oc, "arguments are forwarded unchanged");
    vf_ensure_l(g_log.a == a && g_log.b == b && g_log.m == m && g_log.c == c, "arguments are forwarded unchanged");
    vf_ensure_l(oa.get() == (k == kp ? 7 : ncalls + 1), "the same callable is invoked every time");
    vf_ensure_l(om.get() == m, "arguments are forwarded unchanged");
}
#define ARB(f) int k_##f = int(vf_concrete(vf_u64("kind of " #f, 0, 3), 4)); uint32_t i_##f = val("id of " #f); UF f; put(f, k_##f, i_##f);

HARNESS(C23_construct) {
    UF e; vf_ensure(!e && vf_live_blocks() == 0);
    UF n(nullptr); vf_ensure(!n && vf_live_blocks() == 0);
    is(e, none, 0); is(n, none, 0);
}
HARNESS(C23_construct_callable) {
    uint32_t i = val("i");
    { UF f(F1{i}); is(f, k1, i); is(f, k1, i, 1); }
    vf_ensure(vf_live_blocks() == 0);
    { UF f(F2{i}); is(f, k2, i); }
    vf_ensure(vf_live_blocks() == 0);
    F1 c(i);
    UF f(std::move(c)); is(f, k1, i);
    vf_ensure(c.calls == 0);
}
HARNESS(C23_construct_pointer) {
    UF f(&plain); is(f, kp, 0);
    UF g(plain); is(g, kp, 0);
    Sig* p = nullptr;
    UF h(p); is(h, none, 0);
    f = p; is(f, none, 0);
    vf_ensure(vf_live_blocks() == 0);
}
HARNESS(C23_state) { ARB(f) is(f, k_f, i_f); is(f, k_f, i_f, 1); }
HARNESS(C23_assign_callable) {
    ARB(f)
    uint32_t i = val("i");
    vf_ensure(&(f = F2(i)) == &f);
    vf_ensure_l(vf_live_blocks() == 1, "the previous target is destroyed");
    is(f, k2, i);
    f = F1(i); vf_ensure_l(vf_live_blocks() == 1, "the previous target is destroyed");
    is(f, k1, i);
}
HARNESS(C23_assign_pointer_null) {
    ARB(f)
    vf_ensure(&(f = &plain) == &f);
    vf_ensure_l(vf_live_blocks() == 0, "the previous target is destroyed");
    is(f, kp, 0);
    put(f, k_f, i_f);
    vf_ensure(&(f = nullptr) == &f);
    vf_ensure_l(vf_live_blocks() == 0, "the previous target is destroyed");
    vf_ensure(!f);
    is(f, none, 0);
}
HARNESS(C23_move_construct) {
    ARB(f)
    UF g(std::move(f));
    vf_ensure(vf_live_blocks() == blocks(k_f));
    is(g, k_f, i_f); vf_ensure(!f);
    is(f, none, 0);
}
HARNESS(C23_move_assign) {
    ARB(f) ARB(g)
    vf_ensure(&(f = std::move(g)) == &f);
    vf_ensure_l(vf_live_blocks() == blocks(k_g), "the previous target is destroyed, the other one not copied");
    vf_ensure(!g);
    is(f, k_g, i_g);
    g = F1(i_f); is(g, k1, i_f);
}
HARNESS(C23_move_self) {
    ARB(f)
    UF& g = f;
    f = std::move(g);
    if (f) is(f, k_f, i_f);
}
HARNESS(C23_move_chain) {
    ARB(f)
    UF g(std::move(f)), h(std::move(g));
    f = std::move(h);
    vf_ensure(!g && !h && vf_live_blocks() == blocks(k_f));
    is(f, k_f, i_f);
}
HARNESS(C23_swap) {
    ARB(f) ARB(g)
    std::swap(f, g);
    is(f, k_g, i_g); is(g, k_f, i_f);
}
HARNESS(C23_reference_wrapper_lambda) {
    uint32_t i = val("i"), x = val("x"), n = 0;
    itlib::ufunction<uint32_t(uint32_t)> f = [&n, i](uint32_t a) { ++n; return a ^ i; };
    vf_ensure(f && f(x) == (x ^ i) && n == 1);
    itlib::ufunction<void()> v = [&n] { n = 55; };
    v(); vf_ensure(n == 55);
    itlib::ufunction<const uint32_t&()> r = [&n]() -> const uint32_t& { return n; };
    vf_ensure(&r() == &n);
    uint32_t st = 0;
    itlib::ufunction<uint32_t()> m = [st]() mutable { return ++st; };
    vf_ensure(m() == 1 && m() == 2);
    auto m2 = std::move(m);
    vf_ensure(m2() == 3 && !m);
}
