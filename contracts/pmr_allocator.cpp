// C27: pmr_allocator allocates, constructs and releases in pairs
// STD: c++17
#include "obj.hpp"
#include <utility>
#include <itlib/pmr_allocator.hpp>

// a memory resource whose calls are checked: every block goes back to the resource it came from, with its size and alignment
struct Res : std::pmr::memory_resource {
    uint64_t tag;
    explicit Res(uint64_t t) : tag(t) {}
    void* do_allocate(size_t n, size_t a) override { return vf_alloc(n, a, tag); }
    void do_deallocate(void* p, size_t n, size_t a) override { vf_dealloc(p, n, a, tag); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
using PA = itlib::pmr_allocator<>;
static_assert(std::is_base_of<std::pmr::polymorphic_allocator<std::byte>, PA>::value, "can be given as polymorphic_allocator");
static uint32_t val(const char* n) { return uint32_t(vf_u64(n, 0, 0x7fffffff)); }
static size_t any_align(const char* n) { return size_t(1) << vf_concrete(vf_u64(n, 0, 8), 9); }

HARNESS(C27_construct) {
    Res r(1), s(2);
    PA a(&r);
    vf_ensure_l(a.resource() == &r, "an allocator uses the resource given");
    PA b(a);
    itlib::pmr_allocator<int> c(a);
    std::pmr::polymorphic_allocator<int> sup(&s);
    PA d(sup);
    std::pmr::polymorphic_allocator<std::byte>& slice = b;
    PA e(&s);
    vf_ensure_l(b.resource() == &r && c.resource() == &r && d.resource() == &s && slice.resource() == &r, "copies and rebound copies use the same resource");
    vf_ensure_l(a == b && !(a != b) && !(a == e) && a != e && e == d, "equal exactly when the resources are");
}
HARNESS(C27_bytes) {
    {
        Res r(1), s(2);
        PA a(&r), other(&s);
        PA& x = vf_bool("which") ? a : other;
        size_t n = vf_u64("n", 1, VF_BIG), al = any_align("alignment");
        vf_limit(n);
        void* p = vf_bool("default alignment") ? (al = alignof(std::max_align_t), x.allocate_bytes(n)) : x.allocate_bytes(n, al);
        vf_ensure_l(vf_is_block(p) && vf_block_size(p) == n && vf_live_blocks() == 1, "allocate_bytes gives a block of exactly the requested size");
        vf_ensure_l(reinterpret_cast<uintptr_t>(p) % al == 0, "allocate_bytes gives the requested alignment");
        if (vf_bool("by a copy")) { PA y(x); if (al == alignof(std::max_align_t)) y.deallocate_bytes(p, n); else y.deallocate_bytes(p, n, al); }
        else if (al == alignof(std::max_align_t) && vf_bool("default alignment")) x.deallocate_bytes(p, n);
        else x.deallocate_bytes(p, n, al);
    }
    vf_ensure_l(vf_live_blocks() == 0, "released");
}
template <size_t S, size_t A> struct alignas(A) Blob { unsigned char b[S]; };
template <typename U> static void t_object() {
    {
        Res r(3);
        PA a(&r);
        size_t n = vf_u64("n", 1, VF_BIG);
        vf_limit(n);
        bool one = vf_bool("one");
        U* p = one ? (n = 1, a.allocate_object<U>()) : a.allocate_object<U>(n);
        vf_ensure_l(vf_is_block(p) && vf_block_size(p) == n * sizeof(U) && vf_live_blocks() == 1, "allocate_object gives a block for exactly n objects");
        vf_ensure_l(reinterpret_cast<uintptr_t>(p) % alignof(U) == 0, "allocate_object gives the alignment of the type");
        if (one) a.deallocate_object(p); else a.deallocate_object(p, n);
    }
    vf_ensure_l(vf_live_blocks() == 0, "released");
}
HARNESS(C27_object_1) { t_object<Blob<1, 1>>(); }
HARNESS(C27_object_24_8) { t_object<Blob<24, 8>>(); }
HARNESS(C27_object_64_64) { t_object<Blob<64, 64>>(); }
// a count whose size in bytes does not fit into size_t is refused, not satisfied with a smaller block
template <typename U> static void t_huge() {
    {
        Res r(3);
        PA a(&r);
        size_t n = vf_u64("n", VF_MAX / sizeof(U) + 1, VF_MAX);
        bool thrown = false;
        try { (void)a.allocate_object<U>(n); } catch (const std::bad_alloc&) { thrown = true; }
        vf_ensure_l(thrown && vf_live_blocks() == 0, "allocate_object of more than the address space throws");
    }
}
HARNESS(C27_object_huge_24) { t_huge<Blob<24, 8>>(); }
HARNESS(C27_object_huge_64) { t_huge<Blob<64, 64>>(); }

struct Bad { int code; };
struct alignas(32) Thrower : Obj<4> {
    Thrower(uint32_t x, bool fail) : Obj<4>(x) { if (fail) throw Bad{int(x)}; }
};
struct Fwd : Obj<5> {                                    // arguments by their value category
    uint32_t l, r; const void* addr;
    Fwd(Obj<1>& a, Obj<1>&& b) : Obj<5>(1), l(a.get()), addr(&a) { Obj<1> mine(std::move(b)); r = mine.get(); }
};
struct Aware {                                           // takes part in allocator propagation
    using allocator_type = std::pmr::polymorphic_allocator<std::byte>;
    uint32_t v; std::pmr::memory_resource* res;
    Aware(uint32_t x, const allocator_type& a) : v(x), res(a.resource()) {}
    Aware(uint32_t x) : v(x), res(nullptr) {}
};
HARNESS(C27_new_delete) {
    {
        Res r(3); PA a(&r);
        uint32_t x = val("x");
        Obj<2>* p = a.new_object<Obj<2>>(x);
        vf_ensure_l(vf_is_block(p) && vf_block_size(p) == sizeof(Obj<2>) && p->get() == x && vf_live_blocks() == 1, "new_object constructs one object in a block of its size");
        Obj<2>* q = a.new_object<Obj<2>>();
        vf_ensure_l(q->get() == 77 && p->get() == x && vf_live_blocks() == 2, "without arguments the object is default constructed");
        bool first = vf_bool("order");
        a.delete_object(first ? p : q);
        vf_ensure_l(vf_live_blocks() == 1 && (first ? q->get() == 77 : p->get() == x), "delete_object destroys and releases that object alone");
        a.delete_object(first ? q : p);
    }
    vf_ensure_l(vf_live_blocks() == 0, "released");
}
HARNESS(C27_new_throws) {
    {
        Res r(3); PA a(&r);
        uint32_t x = val("x"); bool fail = vf_bool("the constructor throws");
        Thrower* p = nullptr; bool thrown = false;
        try { p = a.new_object<Thrower>(x, fail); }
        catch (const Bad& b) { thrown = true; vf_ensure_l(uint32_t(b.code) == x, "the exception of the constructor reaches the caller"); }
        vf_ensure_l(thrown == fail && vf_live_blocks() == !fail, "the memory of an object whose construction fails is released");
        if (p) { vf_ensure(p->get() == x && reinterpret_cast<uintptr_t>(p) % 32 == 0); a.delete_object(p); }
    }
    vf_ensure_l(vf_live_blocks() == 0, "released");
}
HARNESS(C27_new_forwards) {
    {
        Res r(3); PA a(&r);
        uint32_t x = val("x"), y = val("y");
        Obj<1> l(x), m(y);
        Fwd* p = a.new_object<Fwd>(l, std::move(m));
        vf_ensure_l(p->l == x && p->r == y && p->addr == &l, "arguments are forwarded unchanged");
        vf_ensure_l(l.get() == x && m.get() == Obj<1>::MOVED, "arguments are moved exactly when they are rvalues");
        a.delete_object(p);
        Aware* w = a.new_object<Aware>(x);
        vf_ensure_l(w->v == x && w->res == &r, "an allocator-aware object gets the resource");
        a.delete_object(w);
    }
    vf_ensure_l(vf_live_blocks() == 0, "released");
}
