// C14: any owns exactly one value of the stored type
// STD: c++17
#include "obj.hpp"
using std::nullptr_t;                                  // any.hpp names it unqualified
#include <itlib/any.hpp>

// an allocator whose every allocation is observed: size, alignment and allocator identity must match on return
struct BAlloc {
    uint64_t tag;
    BAlloc(uint64_t t = 1) noexcept : tag(t) {}
    void* allocate_bytes(size_t n, size_t a) { if (n == 0 || (a & (a - 1))) vf_ensure_l(false, "allocation request is well-formed"); return vf_alloc(n, a, tag); }
    void deallocate_bytes(void* p, size_t n, size_t a) noexcept { vf_dealloc(p, n, a, tag); }
};
using Any = itlib::any<BAlloc>;
using A = Obj<1>;
using B = Obj<2>;
struct NC : Obj<3> {                                    // not copyable
    using Obj<3>::Obj;
    NC(NC&&) = default;
    NC(const NC&) = delete;
};
struct alignas(64) Big : Obj<4> {
    using Obj<4>::Obj;
    char more[40];
};
struct Thr : Obj<5> {                                   // any construction but the one from a number may fail
    Thr(uint32_t x) : Obj<5>(x) {}
    Thr(const Thr& o) : Obj<5>(may(o)) {}
    static const Obj<5>& may(const Obj<5>& o) { if (vf_nondet("copy throws")) throw 1; return o; }
    Thr(uint32_t x, int t) : Obj<5>(x) { if (t) throw 1; }
};

enum Kind { none, kA, kB, kNC, kBig, kThr };
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0xdeadbeee)); }

template <typename T, typename Y> static void isT(Y& a, bool held, uint32_t x) {
    auto p = itlib::any_cast<T>(&a);
    auto cp = itlib::any_cast<T>(&const_cast<const Y&>(a));
    vf_ensure_l((p != nullptr) == held && cp == p, "any_cast yields the stored type only");
    if (held) {
        vf_ensure_l(p->get() == x, "any_cast yields the stored value");
        vf_ensure_l(a.data() == p && const_cast<const Y&>(a).data() == p && a.template tdata<T>() == p && const_cast<const Y&>(a).template tdata<T>() == p, "data() is the stored value");
        vf_ensure_l(a.type() == typeid(T), "type() is the stored type");
        vf_ensure_l(reinterpret_cast<uint64_t>(p) % alignof(T) == 0, "the stored value is aligned");
        T& r = itlib::any_cast<T&>(a);
        vf_ensure_l(&r == p, "any_cast yields a reference to the stored value");
        const T& cr = itlib::any_cast<const T&>(const_cast<const Y&>(a));
        vf_ensure_l(&cr == p, "any_cast yields a reference to the stored value");
    }
    else {
        bool thrown = false;
        try { itlib::any_cast<T&>(a); } catch (const std::bad_cast&) { thrown = true; }
        vf_ensure_l(thrown, "any_cast of another type throws std::bad_cast");
        thrown = false;
        try { itlib::any_cast<const T&>(const_cast<const Y&>(a)); } catch (const std::bad_cast&) { thrown = true; }
        vf_ensure_l(thrown, "any_cast of another type throws std::bad_cast");
    }
}
template <typename Y> static void is(Y& a, int kind, uint32_t x) {
    vf_ensure_l(a.has_value() == (kind != none) && bool(a) == (kind != none), "holds a value as specified");
    if (kind == none) {
        vf_ensure_l(a.data() == nullptr && const_cast<const Y&>(a).data() == nullptr, "an empty any has no data");
        vf_ensure_l(a.type() == typeid(void), "an empty any has type void");
    }
    isT<A>(a, kind == kA, x);
    if (kind == none || kind == kA || kind == kB) isT<B>(a, kind == kB, x);
    if (kind == kNC) isT<NC>(a, true, x);
    if (kind == kBig) isT<Big>(a, true, x);
    if (kind == kThr) isT<Thr>(a, true, x);
    vf_ensure_l(itlib::any_cast<int>(&a) == nullptr, "any_cast yields the stored type only");
}
template <typename Y> static void put(Y& a, int kind, uint32_t x) {
    if (kind == kA) a.template emplace<A>(x);
    if (kind == kB) a.template emplace<B>(x);
    if (kind == kNC) a.template emplace<NC>(x);
    if (kind == kBig) a.template emplace<Big>(x);
    if (kind == kThr) a.template emplace<Thr>(x);
}
// an arbitrary any: nothing, or a value of one of several types, from allocator t
#define ARB(a, n, t) int k_##a = int(vf_concrete(vf_u64("kind of " #a, 0, n, n), (n) + 1)); uint32_t x_##a = val("value of " #a); \
    const BAlloc al_##a(t); Any a(al_##a); put(a, k_##a, x_##a); is(a, k_##a, x_##a); vf_ensure(a.get_allocator().tag == t);

HARNESS(C14_construct) {
    uint32_t x = val("x");
    Any d; is(d, none, 0);
    const BAlloc al5(5), al6(6); Any da(al5); is(da, none, 0); vf_ensure(da.get_allocator().tag == 5);
    Any db(std::allocator_arg, al6); is(db, none, 0); vf_ensure(db.get_allocator().tag == 6);
    A v(x);
    Any a(std::move(v)); is(a, kA, x); v.use();
    Any e(std::allocator_arg, BAlloc{5}, B(x)); is(e, kB, x); vf_ensure(e.get_allocator().tag == 5);
    Any g(NC{x}); is(g, kNC, x);
    vf_ensure(vf_live_blocks() == 3);
}
HARNESS(C14_construct_lvalue) {
    uint32_t x = val("x"), y = val("y");
    A v(x);
    const A c(y);
    Any a(v); is(a, kA, x);
    vf_ensure_l(v.get() == x, "an lvalue is copied");
    vf_ensure_l(a.data() != &v, "the any owns its value");
    v.v = y;
    is(a, kA, x);
    Any b(c); is(b, kA, y); vf_ensure_l(b.data() != &c, "the any owns its value");
    Any d(std::allocator_arg, BAlloc{7}, v); is(d, kA, y); vf_ensure_l(v.get() == y && d.data() != &v, "the any owns its value");
}
HARNESS(C14_assign_value) {
    ARB(a, 3, 3)
    uint32_t x = val("x");
    B v(x);
    vf_ensure(&(a = v) == &a); is(a, kB, x);
    vf_ensure_l(v.get() == x && a.data() != &v, "the any owns its value");
    v.v = x + 1; is(a, kB, x);
    A w(x);
    a = std::move(w); is(a, kA, x); w.use();
    const A cw(x);
    a = cw; is(a, kA, x); vf_ensure_l(a.data() != &cw, "the any owns its value");
    vf_ensure(vf_live_blocks() == 1 && a.get_allocator().tag == 3);
}
HARNESS(C14_emplace) {
    ARB(a, 4, 3)
    uint32_t x = val("x"), y = val("y");
    A& r = a.emplace<A>(x, y);
    is(a, kA, x ^ y); vf_ensure(&r == a.data());
    Big& b = a.emplace<Big>(x);
    is(a, kBig, x); vf_ensure(&b == a.data());
    a.emplace<NC>(x); is(a, kNC, x);
    A v(x);
    a.emplace<A>(v); is(a, kA, x); vf_ensure(v.get() == x);
    vf_ensure(vf_live_blocks() == 1 && a.get_allocator().tag == 3);
}
HARNESS(C14_reset) {
    ARB(a, 5, 2)
    a.reset(); is(a, none, 0); vf_ensure(vf_live_blocks() == 0);
    a.reset(); is(a, none, 0);
    uint32_t x = val("x");
    a = A(x); is(a, kA, x);
}
HARNESS(C14_copy_construct) {
    ARB(a, 4, 2)
    if (k_a == kNC) {
        bool thrown = false;
        try { Any b(a); } catch (const std::bad_cast&) { thrown = true; }
        vf_ensure_l(thrown, "copying a value that is not copyable throws std::bad_cast");
        is(a, k_a, x_a); vf_ensure(vf_live_blocks() == 1);
        return;
    }
    const Any& ca = a;
    Any b(ca);
    is(b, k_a, x_a); is(a, k_a, x_a);
    vf_ensure(k_a == none || a.data() != b.data());
    Any c(ca, BAlloc{9});
    is(c, k_a, x_a); is(a, k_a, x_a); vf_ensure(c.get_allocator().tag == 9);
    vf_ensure(vf_live_blocks() == (k_a == none ? 0 : 3));
    a.reset(); is(b, k_a, x_a); is(c, k_a, x_a);        // independent
}
HARNESS(C14_copy_assign) {
    ARB(a, 3, 2) ARB(b, 4, 4)
    const Any& cb = b;
    if (k_b == kNC) {
        bool thrown = false;
        try { a = cb; } catch (const std::bad_cast&) { thrown = true; }
        vf_ensure_l(thrown, "copying a value that is not copyable throws std::bad_cast");
        is(b, k_b, x_b);
        vf_ensure(vf_live_blocks() == (a.has_value() ? 2 : 1));
        return;
    }
    vf_ensure(&(a = cb) == &a);
    is(a, k_b, x_b); is(b, k_b, x_b);
    vf_ensure(a.get_allocator().tag == 2 && b.get_allocator().tag == 4);
    vf_ensure(vf_live_blocks() == (k_b == none ? 0 : 2));
    b.reset(); is(a, k_b, x_b);
}
HARNESS(C14_copy_self) {
    ARB(a, 5, 2)
    const Any& ca = a;
    try { a = ca; } catch (const std::bad_cast&) { vf_ensure(k_a == kNC); vf_ensure(vf_live_blocks() == (a.has_value() ? 1 : 0)); return; }
    is(a, k_a, x_a);
    vf_ensure(vf_live_blocks() == (k_a == none ? 0 : 1));
    a.copy_from(ca);
    is(a, k_a, x_a);
}
HARNESS(C14_move_construct) {
    ARB(a, 5, 2)
    auto p = a.data();
    Any b(std::move(a));
    is(b, k_a, x_a); is(a, none, 0);
    vf_ensure(b.data() == p && vf_live_blocks() == (k_a == none ? 0 : 1));
    uint32_t x = val("x");
    a = A(x); is(a, kA, x); is(b, k_a, x_a);
}
HARNESS(C14_move_assign) {
    ARB(a, 3, 2) ARB(b, 5, 4)
    auto p = b.data();
    vf_ensure(&(a = std::move(b)) == &a);
    is(a, k_b, x_b); is(b, none, 0);
    vf_ensure(a.data() == p && vf_live_blocks() == (k_b == none ? 0 : 1));
    uint32_t x = val("x");
    b = A(x); is(b, kA, x); is(a, k_b, x_b);
    a = B(x); is(a, kB, x);
}
HARNESS(C14_move_self) {
    ARB(a, 5, 2)
    Any& b = a;
    a = std::move(b);
    vf_ensure(!a.has_value() || vf_live_blocks() == 1);
    if (a.has_value()) is(a, k_a, x_a);
}
HARNESS(C14_swap) {
    ARB(a, 3, 2) ARB(b, 3, 4)
    std::swap(a, b);
    is(a, k_b, x_b); is(b, k_a, x_a);
}
HARNESS(C14_default_allocator) {
    using D = itlib::any<>;
    uint32_t x = val("x"), y = val("y");
    D a(A{x}); is(a, kA, x);
    D b(a); is(b, kA, x);
    b.emplace<Big>(y); is(b, kBig, y); is(a, kA, x);
    a = b; is(a, kBig, y);
    D c(std::move(a)); is(c, kBig, y); is(a, none, 0);
    a = std::move(c); is(a, kBig, y); is(c, none, 0);
    a.reset(); is(a, none, 0);
}
HARNESS(C14_any_cast_value) {
    ARB(a, 2, 2)
    const Any& ca = a;
    bool thrown = false;
    try { A v = itlib::any_cast<A>(a); vf_ensure_l(k_a == kA && v.get() == x_a, "any_cast copies the stored value"); } catch (const std::bad_cast&) { thrown = true; }
    vf_ensure(thrown == (k_a != kA));
    is(a, k_a, x_a);
    thrown = false;
    try { A v = itlib::any_cast<A>(ca); vf_ensure_l(k_a == kA && v.get() == x_a, "any_cast copies the stored value"); } catch (const std::bad_cast&) { thrown = true; }
    vf_ensure(thrown == (k_a != kA));
    is(a, k_a, x_a);
    const Any* np = nullptr; Any* mp = nullptr;
    vf_ensure(itlib::any_cast<A>(np) == nullptr && itlib::any_cast<A>(mp) == nullptr && itlib::any_cast<A>(nullptr) == nullptr);
    thrown = false;
    try { A v = itlib::any_cast<A>(std::move(a)); vf_ensure_l(k_a == kA && v.get() == x_a, "any_cast moves the stored value"); } catch (const std::bad_cast&) { thrown = true; }
    vf_ensure(thrown == (k_a != kA));
    vf_ensure(a.has_value() == (k_a != none));
    if (thrown) is(a, k_a, x_a);
}
HARNESS(C14_modify_in_place) {
    uint32_t x = val("x"), y = val("y");
    Any a(A{x});
    Any b(a);
    itlib::any_cast<A&>(a) = A(y); is(a, kA, y); is(b, kA, x);
    itlib::any_cast<A>(&b)->v = y; is(b, kA, y);
    static_cast<A*>(b.data())->v = x; is(b, kA, x); is(a, kA, y);
}
HARNESS(C14_throwing_construct) {
    ARB(a, 3, 2)
    uint32_t x = val("x");
    bool t = vf_bool("t"), thrown = false;
    try { a.emplace<Thr>(x, int(t)); } catch (int) { thrown = true; }
    vf_ensure(thrown == t);
    if (!t) is(a, kThr, x); else vf_ensure(a.has_value() || vf_live_blocks() == 0);
    a = A(x); is(a, kA, x);
    vf_ensure(vf_live_blocks() == 1);
}
HARNESS(C14_throwing_copy) {
    ARB(a, 2, 2)
    uint32_t x = val("x");
    const BAlloc al4(4); Any b(al4); b.emplace<Thr>(x); is(b, kThr, x);
    const Any& cb = b;
    bool thrown = false;
    try { a = cb; } catch (int) { thrown = true; }
    is(b, kThr, x);
    if (!thrown) is(a, kThr, x);
    vf_ensure(vf_live_blocks() == (a.has_value() ? 2 : 1));
    try { Any c(cb); is(c, kThr, x); } catch (int) {}
    vf_ensure(vf_live_blocks() == (a.has_value() ? 2 : 1));
    Thr v(x);
    try { Any c(v); is(c, kThr, x); } catch (int) {}
    vf_ensure(vf_live_blocks() == (a.has_value() ? 2 : 1));
}
// storage of every size class and alignment: what is given back is what was handed out, for the value and for its copies
template <uint32_t N, uint32_t AL> struct alignas(AL) Pad : Obj<6> { using Obj<6>::Obj; char more[N]; };
template <uint32_t N, uint32_t AL> static void one_size(uint32_t x) {
    using T = Pad<N, AL>;
    Any a(std::allocator_arg, BAlloc(2));
    a.emplace<T>(x); isT<T>(a, true, x);
    { Any b(static_cast<const Any&>(a)); isT<T>(b, true, x); vf_ensure(b.data() != a.data());
      Any c(std::allocator_arg, BAlloc(3)); c = static_cast<const Any&>(b); isT<T>(c, true, x);
      b = std::move(c); isT<T>(b, true, x); vf_ensure(!c.has_value()); }
    Any d(std::move(a)); isT<T>(d, true, x); vf_ensure(!a.has_value());
    vf_ensure(vf_live_blocks() == 1);
    d.reset();
    vf_ensure(vf_live_blocks() == 0);
}
HARNESS(C14_sizes_small) {
    uint32_t x = val("x");
    one_size<1, 4>(x); one_size<8, 4>(x); one_size<16, 4>(x); one_size<24, 4>(x); one_size<40, 8>(x); one_size<48, 8>(x); one_size<56, 4>(x); one_size<9, 16>(x); one_size<33, 16>(x); one_size<80, 16>(x);
}
HARNESS(C14_sizes_large) {
    uint32_t x = val("x");
    one_size<100, 4>(x); one_size<150, 8>(x); one_size<250, 8>(x); one_size<510, 32>(x); one_size<1000, 4>(x); one_size<1000, 64>(x); one_size<4090, 8>(x); one_size<70000, 8>(x); one_size<8, 128>(x); one_size<300, 256>(x);
}
