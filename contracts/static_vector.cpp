// C06, C07: static_vector
// ASSUME: arguments passed by reference do not refer into the container
// ASSUME: element constructors, assignments and destructors do not throw
#include "seq.hpp"
#include <initializer_list>
#include <iterator>
#include <itlib/static_vector.hpp>
using namespace itlib;

template <uint64_t N_> struct Cfg {
    using V = static_vector<Elem, N_>;
    static constexpr uint64_t N = N_, R = 0, MAXCAP = N_;
    static constexpr bool self_move = false;    // a self-moved static_vector is left empty, which the standard allows
    static V make(uint64_t) { V v; return v; }
    static V make_n(uint64_t n) { return V(n); }
    static V make_nv(uint64_t n, const Elem& x) { return V(n, x); }
    template <class I> static V make_range(I a, I b) { return V(a, b); }
    static V make_il(std::initializer_list<Elem> l) { return V(l); }
    static bool is_static(const V&) { return true; }
    static uint64_t count(uint64_t n) { vf_assume(n <= N); return n; }
    static void room(V& v, uint64_t n) { vf_assume(v.size() + n <= N); }
    static void swap(V& a, V& b) { if (vf_nondet("member")) a.swap(b); else std::swap(a, b); }
    static void policy(V& v) { vf_ensure(v.size() <= N && v.capacity() == N && v.max_size() == N && (char*)v.data() >= (char*)&v && (char*)(v.data() + N) <= (char*)(&v + 1)); }
    static void life(V& v) {
        policy(v);
        uint64_t j = vf_u64("slot", 0, N - 1);
        if (j < v.size()) vf_ensure_l(vf_alive(v.data() + j), "every position below size() holds a live element");
        else vf_ensure_l(!vf_alive(v.data() + j), "no live element beyond size()");
    }
#ifdef VF_SYMBOLIC
    static void arb(V& v, bool dyn, uint64_t cap, uint64_t size) {
        vf_assume(!dyn && cap == N);
        vf_generalize(&v, sizeof(v), 4, 4);
        vf_assume(v.size() == size && size <= N);
        vf_alive_range(v.data(), size, 4);
    }
#else
    static void arb(V& v, bool dyn, uint64_t cap, uint64_t size) {
        if (size > N || dyn || cap != N) vf_stop();
        for (uint64_t i = 0; i < size; ++i) v.push_back(Elem(0));
    }
#endif
};
using A = Cfg<3>;
using G = Cfg<60>;

// an operation that would exceed the capacity throws std::out_of_range
#define THROWS(expr) { bool thrown = false; try { expr; } catch (const std::out_of_range&) { thrown = true; } vf_ensure_l(thrown, "throws std::out_of_range"); }
#define UNCHANGED(v) POST(v); vf_ensure(v.size() == o_v.n); { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
template <class C, int P> void x_construct() {
    uint64_t n = vf_u64("n", C::N + 1, ~0ull);
    VAL(x, "x")
    THROWS(C::make_n(n))
    THROWS(C::make_nv(n, x))
    vf_ensure(x.v == x_v);
}
template <class C, int P> void x_construct_range() {
    uint64_t n = vf_u64("n", C::N + 1, 1u << 30); vf_limit(n);
    auto src = static_cast<uint32_t*>(vf_array("src", n, 4, 4));
    THROWS(C::make_range(src, src + n))
    ARB(v, 1, "a_")
    THROWS(v.assign(src, src + n))
    POST(v);
}
template <class C, int P> void x_push() {
    ARB(v, 1, "a_")
    vf_assume(o_v.n == C::N);
    VAL(x, "x")
    uint64_t how = vf_concrete(vf_u64("how", 0, 4), 5);
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    if (how == 0) THROWS(v.push_back(x))
    else if (how == 1) THROWS(v.push_back(std::move(x)))
    else if (how == 2) THROWS(v.emplace_back(x_v))
    else if (how == 3) THROWS(v.insert(v.cbegin() + pos, x))
    else THROWS(v.emplace(v.cbegin() + pos, x_v))
    UNCHANGED(v)
}
template <class C, int P> void x_insert_n() {
    ARB(v, 1, "a_")
    uint64_t n = vf_u64("n", 1, ~0ull);
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    vf_assume(n > C::N - o_v.n);
    VAL(x, "x")
    THROWS(v.insert(v.cbegin() + pos, n, x))
    vf_ensure(x.v == x_v);
    UNCHANGED(v)
}
template <class C, int P> void x_insert_range() {
    ARB(v, 1, "a_")
    uint64_t n = vf_u64("n", 1, 1u << 30); vf_limit(n);
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    vf_assume(n > C::N - o_v.n);
    auto src = static_cast<uint32_t*>(vf_array("src", n, 4, 4));
    THROWS(v.insert(v.cbegin() + pos, src, src + n))
    UNCHANGED(v)
}
template <class C, int P> void x_resize() {
    ARB(v, 1, "a_")
    uint64_t n = vf_u64("n", C::N + 1, ~0ull);
    VAL(x, "x")
    if (vf_nondet("val")) THROWS(v.resize(n, x)) else THROWS(v.resize(n))
    UNCHANGED(v)
}
template <class C, int P> void x_assign() {
    ARB(v, 1, "a_")
    uint64_t n = vf_u64("n", C::N + 1, ~0ull);
    VAL(x, "x")
    THROWS(v.assign(n, x))
    POST(v); vf_ensure(v.size() <= C::N);
}
// from a static_vector of another capacity
template <class C, int P> void x_other() {
    using D = Cfg<C::N + 3>;
    typename D::V w = D::make(1); D::arb(w, false, D::N, vf_u64("b_size", 0, D::N)); vf_havoc_content("b_val", w.data(), w.size(), 4);
    const uint64_t n = w.size(), s = vf_snapshot(w.data(), n, 4);
    if (n > C::N) { THROWS(typename C::V v(w)) }
    else { typename C::V v(w); POST(v); vf_ensure(v.size() == n && v == w); if (n) { uint64_t k = vf_idx("k", n); vf_ensure(v[k].v == uint32_t(vf_peek(s, k))); } }
    vf_ensure(w.size() == n);
}
HARNESS(C06_construct_A) { q_construct<A, 6>(); }
HARNESS(C06_construct_fill_A) { q_construct_fill<A, 6>(); }
HARNESS(C06_construct_range_A) { q_construct_range<A, 6>(); }
HARNESS(C06_il_A) { q_il<A, 6>(); }
HARNESS(C06_assign_il_A) { q_assign_il<A, 6>(); }
HARNESS(C06_insert_il_A) { q_insert_il<A, 6>(); }
HARNESS(C06_copy_A) { q_copy<A, 6>(); }
HARNESS(C06_copy_assign_A) { q_copy_assign<A, 6>(); }
HARNESS(C06_self_assign_A) { q_self_assign<A, 6>(); }
HARNESS(C06_move_A) { q_move<A, 6>(); }
HARNESS(C06_move_assign_A) { q_move_assign<A, 6>(); }
HARNESS(C06_swap_A) { q_swap<A, 6>(); }
HARNESS(C06_assign_fill_A) { q_assign_fill<A, 6>(); }
HARNESS(C06_assign_range_A) { q_assign_range<A, 6>(); }
HARNESS(C06_access_A) { q_access<A, 6>(); }
HARNESS(C06_clear_A) { q_clear<A, 6>(); }
HARNESS(C06_insert_A) { q_insert<A, 6>(); }
HARNESS(C06_insert_n_A) { q_insert_n<A, 6>(); }
HARNESS(C06_insert_range_A) { q_insert_range<A, 6>(); }
HARNESS(C06_erase_A) { q_erase<A, 6>(); }
HARNESS(C06_erase_range_A) { q_erase_range<A, 6>(); }
HARNESS(C06_push_A) { q_push<A, 6>(); }
HARNESS(C06_emplace_back0_A) { q_emplace_back0<A, 6>(); }
HARNESS(C06_pop_A) { q_pop<A, 6>(); }
HARNESS(C06_resize_A) { q_resize<A, 6>(); }
HARNESS(C06_resize_val_A) { q_resize_val<A, 6>(); }
HARNESS(C06_compare_A) { q_compare<A, 6>(); }
HARNESS(C06_compare2_A) { q_compare2<A, 6>(); }
HARNESS(C07_insert_A) { q_insert<A, 7>(); }
HARNESS(C07_insert_n_A) { q_insert_n<A, 7>(); }
HARNESS(C07_insert_range_A) { q_insert_range<A, 7>(); }
HARNESS(C07_push_A) { q_push<A, 7>(); }
HARNESS(C07_resize_A) { q_resize<A, 7>(); }
HARNESS(C07_resize_val_A) { q_resize_val<A, 7>(); }
HARNESS(C07_erase_range_A) { q_erase_range<A, 7>(); }
HARNESS(C07_swap_A) { q_swap<A, 7>(); }
HARNESS(C07_assign_fill_A) { q_assign_fill<A, 7>(); }
HARNESS(C07_copy_assign_A) { q_copy_assign<A, 7>(); }
HARNESS(C07_over_construct_A) { x_construct<A, 7>(); }
HARNESS(C07_over_construct_range_A) { x_construct_range<A, 7>(); }
HARNESS(C07_over_push_A) { x_push<A, 7>(); }
HARNESS(C07_over_insert_n_A) { x_insert_n<A, 7>(); }
HARNESS(C07_over_insert_range_A) { x_insert_range<A, 7>(); }
HARNESS(C07_over_resize_A) { x_resize<A, 7>(); }
HARNESS(C07_over_assign_A) { x_assign<A, 7>(); }
HARNESS(C07_over_other_A) { x_other<A, 7>(); }
HARNESS(C06_construct_G) { q_construct<G, 6>(); }
HARNESS(C06_construct_fill_G) { q_construct_fill<G, 6>(); }
HARNESS(C06_construct_range_G) { q_construct_range<G, 6>(); }
HARNESS(C06_il_G) { q_il<G, 6>(); }
HARNESS(C06_assign_il_G) { q_assign_il<G, 6>(); }
HARNESS(C06_insert_il_G) { q_insert_il<G, 6>(); }
HARNESS(C06_copy_G) { q_copy<G, 6>(); }
HARNESS(C06_copy_assign_G) { q_copy_assign<G, 6>(); }
HARNESS(C06_self_assign_G) { q_self_assign<G, 6>(); }
HARNESS(C06_move_G) { q_move<G, 6>(); }
HARNESS(C06_move_assign_G) { q_move_assign<G, 6>(); }
HARNESS(C06_swap_G) { q_swap<G, 6>(); }
HARNESS(C06_assign_fill_G) { q_assign_fill<G, 6>(); }
HARNESS(C06_assign_range_G) { q_assign_range<G, 6>(); }
HARNESS(C06_access_G) { q_access<G, 6>(); }
HARNESS(C06_clear_G) { q_clear<G, 6>(); }
HARNESS(C06_insert_G) { q_insert<G, 6>(); }
HARNESS(C06_insert_n_G) { q_insert_n<G, 6>(); }
HARNESS(C06_insert_range_G) { q_insert_range<G, 6>(); }
HARNESS(C06_erase_G) { q_erase<G, 6>(); }
HARNESS(C06_erase_range_G) { q_erase_range<G, 6>(); }
HARNESS(C06_push_G) { q_push<G, 6>(); }
HARNESS(C06_emplace_back0_G) { q_emplace_back0<G, 6>(); }
HARNESS(C06_pop_G) { q_pop<G, 6>(); }
HARNESS(C06_resize_G) { q_resize<G, 6>(); }
HARNESS(C06_resize_val_G) { q_resize_val<G, 6>(); }
HARNESS(C06_compare_G) { q_compare<G, 6>(); }
HARNESS(C06_compare2_G) { q_compare2<G, 6>(); }
HARNESS(C07_insert_G) { q_insert<G, 7>(); }
HARNESS(C07_insert_n_G) { q_insert_n<G, 7>(); }
HARNESS(C07_insert_range_G) { q_insert_range<G, 7>(); }
HARNESS(C07_push_G) { q_push<G, 7>(); }
HARNESS(C07_resize_G) { q_resize<G, 7>(); }
HARNESS(C07_resize_val_G) { q_resize_val<G, 7>(); }
HARNESS(C07_erase_range_G) { q_erase_range<G, 7>(); }
HARNESS(C07_swap_G) { q_swap<G, 7>(); }
HARNESS(C07_assign_fill_G) { q_assign_fill<G, 7>(); }
HARNESS(C07_copy_assign_G) { q_copy_assign<G, 7>(); }
HARNESS(C07_over_construct_G) { x_construct<G, 7>(); }
HARNESS(C07_over_construct_range_G) { x_construct_range<G, 7>(); }
HARNESS(C07_over_push_G) { x_push<G, 7>(); }
HARNESS(C07_over_insert_n_G) { x_insert_n<G, 7>(); }
HARNESS(C07_over_insert_range_G) { x_insert_range<G, 7>(); }
HARNESS(C07_over_resize_G) { x_resize<G, 7>(); }
HARNESS(C07_over_assign_G) { x_assign<G, 7>(); }
HARNESS(C07_over_other_G) { x_other<G, 7>(); }
