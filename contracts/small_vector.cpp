// C03, C04, C05: small_vector
// ASSUME: arguments passed by reference do not refer into the container
// ASSUME: element constructors, assignments and destructors do not throw
#include "seq.hpp"
#include <initializer_list>
#include <itlib/small_vector.hpp>
using namespace itlib;

template <uint64_t N_, uint64_t R_> struct Cfg {
    using A = VAlloc<Elem>;
    using V = small_vector<Elem, N_, R_, A>;
    static constexpr uint64_t N = N_, R = R_, MAXCAP = 1u << 30;
    static constexpr bool self_move = true;
    static V make(uint64_t tag) { return V(A(tag)); }
    static V make_n(uint64_t n) { return V(n, A(1)); }
    static V make_nv(uint64_t n, const Elem& x) { return V(n, x, A(1)); }
    template <class I> static V make_range(I a, I b) { return V(a, b, A(1)); }
    static V make_il(std::initializer_list<Elem> l) { return V(l, A(1)); }
    static bool is_static(const V& v) { return v.is_static(); }
    static uint64_t count(uint64_t n) { return n; }
    static void room(V&, uint64_t) {}
    static void swap(V& a, V& b) { std::swap(a, b); }
    static const Elem* statbuf(const V& v) { V e; return (const Elem*)((const char*)&v + ((const char*)e.data() - (const char*)&e)); }
    // representation invariant
    static bool wf(V& v, bool dyn) {
        if (v.size() > v.capacity()) return false;
        if (!dyn) return v.data() == statbuf(v) && v.capacity() == N;
        return vf_is_block(v.data()) && v.capacity() > N && vf_block_size(v.data()) == v.capacity() * sizeof(Elem);
    }
    static void policy(V& v) { vf_ensure(v.is_static() == (v.data() == statbuf(v))); vf_ensure_l(wf(v, !v.is_static()), "capacity() is StaticCapacity exactly while static, more while dynamic, and never below size()"); }
    // live elements: exactly the positions below size()
    static void life(V& v) {
        uint64_t j = vf_u64("slot", 0, v.capacity());
        if (j < v.size()) vf_ensure_l(vf_alive(v.data() + j), "every position below size() holds a live element");
        else if (j < v.capacity()) vf_ensure_l(!vf_alive(v.data() + j), "no live element beyond size()");
        if (!v.is_static()) { uint64_t i = vf_u64("sslot", 0, N - 1); vf_ensure_l(!vf_alive(statbuf(v) + i), "no live element in the unused static buffer");
            vf_ensure_l(vf_is_block(v.data()) && vf_block_size(v.data()) == v.capacity() * sizeof(Elem), "the dynamic buffer was allocated for capacity() elements"); }
    }
#ifdef VF_SYMBOLIC
    static void arb(V& v, bool dyn, uint64_t cap, uint64_t size) {
        const uint64_t tag = v.get_allocator().tag;
        if (vf_split(dyn)) v.reserve(N + 1);
        vf_generalize(&v, sizeof(v), 4, 4);
        vf_assume(v.get_allocator().tag == tag);
        vf_assume(v.capacity() == cap);
        vf_assume(v.size() == size && size <= cap);
        if (v.is_static()) vf_assume(v.data() == statbuf(v)); else vf_assume(v.data() == (Elem*)vf_block_start(v.data()));
        vf_assume(wf(v, dyn));
        vf_alive_range(v.data(), size, 4);
    }
#else
    static void arb(V& v, bool dyn, uint64_t cap, uint64_t size) {
        if (size > cap || dyn != (cap > N) || (!dyn && cap != N)) vf_stop();
        vf_limit(cap);
        for (uint64_t i = 0; i < size && i < N; ++i) v.push_back(Elem(0));
        if (dyn) v.reserve(cap);
        for (uint64_t i = N; i < size; ++i) v.push_back(Elem(0));
        if (v.capacity() != cap || v.size() != size) vf_stop();
    }
#endif
};

template <class C, int P> void q_copy_alloc() {
    ARB(v, 1, "a_")
    typename C::V w(v, typename C::A(2)); POST(w); POST(v);
    vf_ensure(w.size() == o_v.n && v.size() == o_v.n && w.get_allocator().tag == 2);
    if (P == 5) vf_ensure(C::is_static(w) == (o_v.n <= C::N) && v.data() == o_v.data && v.capacity() == o_v.cap);
    if (SEQ) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k] && v[k].v == o_v[k] && &w[k] != &v[k]); }
}
template <class C, int P> void q_reserve() {
    ARB(v, 1, "a_")
    CNT(n, "n")
    v.reserve(n); POST(v);
    vf_ensure(v.size() == o_v.n && v.capacity() >= n);
    if (P == 5 && n <= o_v.cap) vf_ensure(v.capacity() == o_v.cap && v.data() == o_v.data);
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
}
template <class C, int P> void q_shrink_to_fit() {
    ARB(v, 1, "a_")
    v.shrink_to_fit(); POST(v);
    vf_ensure(v.size() == o_v.n);
    if (P == 5) { vf_ensure(C::is_static(v) == (o_v.n <= C::N)); if (o_v.n > C::N) vf_ensure(v.capacity() == o_v.n); }
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
}
template <class C, int P> void q_revert() {
    ARB(v, 1, "a_")
    bool r = v.revert_to_static(); POST(v);
    vf_ensure(v.size() == o_v.n);
    if (P == 5) { vf_ensure(r == (o_v.n <= C::N) && C::is_static(v) == r); if (!r) vf_ensure(v.capacity() == o_v.cap && v.data() == o_v.data); }
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
}
template <class C, int P> void q_compare_other() {      // vectors of different static capacity
    ARB(v, 1, "a_")
    using O = Cfg<C::N + 2, 0>;
    typename O::V w = O::make(2);
    uint64_t n = vf_concrete(vf_u64("n", 0, 2), 3);
    for (uint64_t i = 0; i < n; ++i) w.emplace_back(uint32_t(vf_u64("w", 0, 0xfffffff, 2)));
    bool eq = v == w;
    vf_ensure(eq != (v != w));
    bool same = o_v.n == n && (n < 1 || o_v[0] == w[0].v) && (n < 2 || o_v[1] == w[1].v);
    vf_ensure(eq == same);
}
// ---- harnesses (generated by tools/gen_small.py)
using B = Cfg<3, 4>;       // reverts as soon as the elements fit
using A = Cfg<4, 0>;       // never reverts
using D = Cfg<4, 2>;       // in between
using G = Cfg<60, 59>;
HARNESS(C03_construct_B) { q_construct<B, 3>(); }
HARNESS(C03_construct_fill_B) { q_construct_fill<B, 3>(); }
HARNESS(C03_construct_range_B) { q_construct_range<B, 3>(); }
HARNESS(C03_il_B) { q_il<B, 3>(); }
HARNESS(C03_assign_il_B) { q_assign_il<B, 3>(); }
HARNESS(C03_insert_il_B) { q_insert_il<B, 3>(); }
HARNESS(C03_copy_B) { q_copy<B, 3>(); }
HARNESS(C03_copy_alloc_B) { q_copy_alloc<B, 3>(); }
HARNESS(C03_copy_assign_B) { q_copy_assign<B, 3>(); }
HARNESS(C03_self_assign_B) { q_self_assign<B, 3>(); }
HARNESS(C03_move_B) { q_move<B, 3>(); }
HARNESS(C03_move_assign_B) { q_move_assign<B, 3>(); }
HARNESS(C03_swap_B) { q_swap<B, 3>(); }
HARNESS(C03_assign_fill_B) { q_assign_fill<B, 3>(); }
HARNESS(C03_assign_range_B) { q_assign_range<B, 3>(); }
HARNESS(C03_access_B) { q_access<B, 3>(); }
HARNESS(C03_clear_B) { q_clear<B, 3>(); }
HARNESS(C03_insert_B) { q_insert<B, 3>(); }
HARNESS(C03_insert_n_B) { q_insert_n<B, 3>(); }
HARNESS(C03_insert_range_B) { q_insert_range<B, 3>(); }
HARNESS(C03_erase_B) { q_erase<B, 3>(); }
HARNESS(C03_erase_range_B) { q_erase_range<B, 3>(); }
HARNESS(C03_push_B) { q_push<B, 3>(); }
HARNESS(C03_emplace_back0_B) { q_emplace_back0<B, 3>(); }
HARNESS(C03_pop_B) { q_pop<B, 3>(); }
HARNESS(C03_resize_B) { q_resize<B, 3>(); }
HARNESS(C03_resize_val_B) { q_resize_val<B, 3>(); }
HARNESS(C03_reserve_B) { q_reserve<B, 3>(); }
HARNESS(C03_shrink_to_fit_B) { q_shrink_to_fit<B, 3>(); }
HARNESS(C03_revert_B) { q_revert<B, 3>(); }
HARNESS(C03_clear_A) { q_clear<A, 3>(); }
HARNESS(C03_erase_A) { q_erase<A, 3>(); }
HARNESS(C03_erase_range_A) { q_erase_range<A, 3>(); }
HARNESS(C03_pop_A) { q_pop<A, 3>(); }
HARNESS(C03_resize_A) { q_resize<A, 3>(); }
HARNESS(C03_resize_val_A) { q_resize_val<A, 3>(); }
HARNESS(C03_shrink_to_fit_A) { q_shrink_to_fit<A, 3>(); }
HARNESS(C03_revert_A) { q_revert<A, 3>(); }
HARNESS(C03_insert_n_G) { q_insert_n<G, 3>(); }
HARNESS(C03_erase_range_G) { q_erase_range<G, 3>(); }
HARNESS(C03_move_assign_G) { q_move_assign<G, 3>(); }
HARNESS(C03_resize_G) { q_resize<G, 3>(); }
HARNESS(C04_construct_B) { q_construct<B, 4>(); }
HARNESS(C04_construct_fill_B) { q_construct_fill<B, 4>(); }
HARNESS(C04_construct_range_B) { q_construct_range<B, 4>(); }
HARNESS(C04_il_B) { q_il<B, 4>(); }
HARNESS(C04_assign_il_B) { q_assign_il<B, 4>(); }
HARNESS(C04_insert_il_B) { q_insert_il<B, 4>(); }
HARNESS(C04_copy_B) { q_copy<B, 4>(); }
HARNESS(C04_copy_alloc_B) { q_copy_alloc<B, 4>(); }
HARNESS(C04_copy_assign_B) { q_copy_assign<B, 4>(); }
HARNESS(C04_self_assign_B) { q_self_assign<B, 4>(); }
HARNESS(C04_move_B) { q_move<B, 4>(); }
HARNESS(C04_move_assign_B) { q_move_assign<B, 4>(); }
HARNESS(C04_swap_B) { q_swap<B, 4>(); }
HARNESS(C04_assign_fill_B) { q_assign_fill<B, 4>(); }
HARNESS(C04_assign_range_B) { q_assign_range<B, 4>(); }
HARNESS(C04_access_B) { q_access<B, 4>(); }
HARNESS(C04_clear_B) { q_clear<B, 4>(); }
HARNESS(C04_insert_B) { q_insert<B, 4>(); }
HARNESS(C04_insert_n_B) { q_insert_n<B, 4>(); }
HARNESS(C04_insert_range_B) { q_insert_range<B, 4>(); }
HARNESS(C04_erase_B) { q_erase<B, 4>(); }
HARNESS(C04_erase_range_B) { q_erase_range<B, 4>(); }
HARNESS(C04_push_B) { q_push<B, 4>(); }
HARNESS(C04_emplace_back0_B) { q_emplace_back0<B, 4>(); }
HARNESS(C04_pop_B) { q_pop<B, 4>(); }
HARNESS(C04_resize_B) { q_resize<B, 4>(); }
HARNESS(C04_resize_val_B) { q_resize_val<B, 4>(); }
HARNESS(C04_reserve_B) { q_reserve<B, 4>(); }
HARNESS(C04_shrink_to_fit_B) { q_shrink_to_fit<B, 4>(); }
HARNESS(C04_revert_B) { q_revert<B, 4>(); }
HARNESS(C04_compare_B) { q_compare<B, 4>(); }
HARNESS(C04_compare2_B) { q_compare2<B, 4>(); }
HARNESS(C04_compare_other_B) { q_compare_other<B, 4>(); }
HARNESS(C04_clear_A) { q_clear<A, 4>(); }
HARNESS(C04_erase_A) { q_erase<A, 4>(); }
HARNESS(C04_erase_range_A) { q_erase_range<A, 4>(); }
HARNESS(C04_pop_A) { q_pop<A, 4>(); }
HARNESS(C04_resize_A) { q_resize<A, 4>(); }
HARNESS(C04_resize_val_A) { q_resize_val<A, 4>(); }
HARNESS(C04_shrink_to_fit_A) { q_shrink_to_fit<A, 4>(); }
HARNESS(C04_revert_A) { q_revert<A, 4>(); }
HARNESS(C05_construct_B) { q_construct<B, 5>(); }
HARNESS(C05_construct_fill_B) { q_construct_fill<B, 5>(); }
HARNESS(C05_construct_range_B) { q_construct_range<B, 5>(); }
HARNESS(C05_il_B) { q_il<B, 5>(); }
HARNESS(C05_assign_il_B) { q_assign_il<B, 5>(); }
HARNESS(C05_insert_il_B) { q_insert_il<B, 5>(); }
HARNESS(C05_copy_B) { q_copy<B, 5>(); }
HARNESS(C05_copy_alloc_B) { q_copy_alloc<B, 5>(); }
HARNESS(C05_copy_assign_B) { q_copy_assign<B, 5>(); }
HARNESS(C05_self_assign_B) { q_self_assign<B, 5>(); }
HARNESS(C05_move_B) { q_move<B, 5>(); }
HARNESS(C05_move_assign_B) { q_move_assign<B, 5>(); }
HARNESS(C05_swap_B) { q_swap<B, 5>(); }
HARNESS(C05_assign_fill_B) { q_assign_fill<B, 5>(); }
HARNESS(C05_assign_range_B) { q_assign_range<B, 5>(); }
HARNESS(C05_access_B) { q_access<B, 5>(); }
HARNESS(C05_clear_B) { q_clear<B, 5>(); }
HARNESS(C05_insert_B) { q_insert<B, 5>(); }
HARNESS(C05_insert_n_B) { q_insert_n<B, 5>(); }
HARNESS(C05_insert_range_B) { q_insert_range<B, 5>(); }
HARNESS(C05_erase_B) { q_erase<B, 5>(); }
HARNESS(C05_erase_range_B) { q_erase_range<B, 5>(); }
HARNESS(C05_push_B) { q_push<B, 5>(); }
HARNESS(C05_emplace_back0_B) { q_emplace_back0<B, 5>(); }
HARNESS(C05_pop_B) { q_pop<B, 5>(); }
HARNESS(C05_resize_B) { q_resize<B, 5>(); }
HARNESS(C05_resize_val_B) { q_resize_val<B, 5>(); }
HARNESS(C05_reserve_B) { q_reserve<B, 5>(); }
HARNESS(C05_shrink_to_fit_B) { q_shrink_to_fit<B, 5>(); }
HARNESS(C05_revert_B) { q_revert<B, 5>(); }
HARNESS(C05_clear_A) { q_clear<A, 5>(); }
HARNESS(C05_erase_A) { q_erase<A, 5>(); }
HARNESS(C05_erase_range_A) { q_erase_range<A, 5>(); }
HARNESS(C05_pop_A) { q_pop<A, 5>(); }
HARNESS(C05_resize_A) { q_resize<A, 5>(); }
HARNESS(C05_resize_val_A) { q_resize_val<A, 5>(); }
HARNESS(C05_shrink_to_fit_A) { q_shrink_to_fit<A, 5>(); }
HARNESS(C05_revert_A) { q_revert<A, 5>(); }
HARNESS(C05_clear_D) { q_clear<D, 5>(); }
HARNESS(C05_erase_D) { q_erase<D, 5>(); }
HARNESS(C05_erase_range_D) { q_erase_range<D, 5>(); }
HARNESS(C05_pop_D) { q_pop<D, 5>(); }
HARNESS(C05_resize_D) { q_resize<D, 5>(); }
HARNESS(C05_resize_val_D) { q_resize_val<D, 5>(); }
HARNESS(C05_shrink_to_fit_D) { q_shrink_to_fit<D, 5>(); }
HARNESS(C05_revert_D) { q_revert<D, 5>(); }
