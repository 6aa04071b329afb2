// C01, C02: pod_vector
// ASSUME: arguments passed by reference do not refer into the container
#include "vf.hpp"
#include <itlib/pod_vector.hpp>
using namespace itlib;

// ---------------------------------------------------------------- allocators (the documented allocator interface)
struct ReallocAlloc {   // realloc interface; an arbitrary threshold between realloc and malloc+copy
    using size_type = size_t;
    static void* malloc(size_type n) { return vf_alloc(n, 16, 7); }
    static void free(void* p) { vf_free(p, 7); }
    static constexpr size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return true; }
    static constexpr size_type alloc_align() { return 16; }
    static constexpr bool has_expand() { return false; }
    static bool expand(void*, size_t) { return false; }
    static void* realloc(void* p, size_type n) { return vf_realloc(p, n, 7); }
    static size_type realloc_wasteful_copy_size() { return vf_uf("wasteful", 0, VF_BIG); }
};
struct ExpandAlloc : ReallocAlloc {
    static constexpr bool has_expand() { return true; }
    static bool expand(void* p, size_t n) { return vf_expand(p, n, 7); }
    static constexpr bool zero_fill_new() { return false; }
};
struct alignas(128) Wide { uint32_t v; uint32_t rest[7]; };
inline bool same(uint32_t a, uint32_t b) { return a == b; }
template <class A, class T_, unsigned G> struct Cfg { using T = T_; using V = pod_vector<T, A>; static constexpr unsigned S = sizeof(T), gran = G, K = sizeof(T) / G; static constexpr bool zero = A::zero_fill_new(), aligned = A::alloc_align() >= alignof(T); };
using M = Cfg<impl::pod_allocator, uint32_t, 4>;
using R = Cfg<ReallocAlloc, uint32_t, 4>;
using X = Cfg<ExpandAlloc, uint32_t, 4>;
using W = Cfg<ReallocAlloc, Wide, 4>;
using B8 = Cfg<ReallocAlloc, uint8_t, 1>;
using WX = Cfg<ExpandAlloc, Wide, 4>;
using B8X = Cfg<ExpandAlloc, uint8_t, 1>;

inline uint32_t mk(uint32_t, uint32_t x) { return x; }
inline uint8_t mk(uint8_t, uint32_t x) { return uint8_t(x); }
inline Wide mk(Wide, uint32_t x) { Wide w = {}; w.v = x; return w; }
inline uint32_t val(const uint32_t& x) { return x; }
inline uint32_t val(const uint8_t& x) { return x; }
inline uint32_t val(const Wide& x) { return x.v; }
// value of element i in a snapshot taken with the granularity of the configuration
template <class C> uint32_t old(uint64_t s, uint64_t i) {
    return uint32_t(vf_peek(s, i * C::K));   // the first cell is the value, the rest is padding of the element
}

// representation invariant, in terms of the public observers
template <class C> bool wf(typename C::V& v) {
    if (v.size() > v.capacity()) return false;
    if (v.data() == nullptr) return v.capacity() == 0;
    if (C::aligned) return vf_is_block(v.data()) && vf_block_size(v.data()) >= v.capacity() * C::S;
    auto b = (uint8_t*)vf_block_start(v.data()); auto d = (uint8_t*)v.data();
    constexpr uint64_t al = alignof(typename C::T); uint64_t off = al - uintptr_t(b) % al;
    return vf_is_block(b) && d == b + off && d[-1] == off && vf_block_size(b) >= off + v.capacity() * C::S;
}
template <class C> uint64_t blocksize(typename C::V& v) {
    if (v.data() == nullptr) return 0;
    return vf_block_size(C::aligned ? (void*)v.data() : vf_block_start(v.data()));
}
// a new block was requested with the right size for the capacity
template <class C> bool exact(typename C::V& v, const void* olddata, uint64_t oldsize) {
    if (v.data() == olddata && blocksize<C>(v) == oldsize) return true;
    return v.data() == nullptr || blocksize<C>(v) == v.capacity() * C::S + (C::aligned ? 0 : alignof(typename C::T));
}

// v becomes an arbitrary vector that satisfies the invariant
#define ARB(v, p) typename C::V v; arb<C>(v, vf_u64(p "cap", 0, 1u << 30), vf_u64(p "size", 0, 1u << 30)); vf_havoc_content(p "val", v.data(), v.size() * C::K, C::gran); const uint64_t n_##v = v.size(), c_##v = v.capacity(); const void* const d_##v = v.data(); const uint64_t b_##v = blocksize<C>(v); const uint64_t s_##v = vf_snapshot(v.data(), v.size() * C::K, C::gran); (void)n_##v; (void)c_##v; (void)d_##v; (void)s_##v; (void)b_##v;
#define ARB2(D, w, p) typename D::V w; arb<D>(w, vf_u64(p "cap", 0, 1u << 30), vf_u64(p "size", 0, 1u << 30)); vf_havoc_content(p "val", w.data(), w.size() * D::K, D::gran);
#ifdef VF_SYMBOLIC
template <class C> void arb(typename C::V& v, uint64_t cap, uint64_t size) {
    if (vf_nondet("no_block")) { vf_assume(cap == 0 && size == 0); return; }
    v.reserve(1);
    vf_generalize(&v, sizeof(v), C::S, C::gran);
    vf_assume(v.capacity() == cap);
    vf_assume(v.size() == size);
    vf_assume(v.size() <= v.capacity());
    if (C::aligned) vf_assume(v.data() == vf_block_start(v.data()));
    else { auto b = (uint8_t*)vf_block_start(v.data()); vf_assume(vf_block_size(b) >= alignof(typename C::T) && (uint8_t*)v.data() == b + (alignof(typename C::T) - uintptr_t(b) % alignof(typename C::T))); auto d = (uint8_t*)v.data(); d[-1] = uint8_t(d - b); }
    vf_assume(wf<C>(v));
}
#else
template <class C> void arb(typename C::V& v, uint64_t cap, uint64_t size) {
    if (size > cap) vf_stop();
    vf_limit(cap);
    if (vf_nondet("no_block")) { if (cap) vf_stop(); return; }
    if (!cap) vf_stop();
    v.reserve(cap);
    for (uint64_t i = 0; i < size; ++i) v.push_back(mk(typename C::T{}, 0));
}
#endif
#define WF(v) vf_ensure(wf<C>(v))
#define EXACT(v) vf_ensure(exact<C>(v, d_##v, b_##v))
#define NOREALLOC(v) vf_ensure(v.data() == d_##v && v.capacity() == c_##v && blocksize<C>(v) == b_##v)
#define VALUE(x, p) uint32_t x##_v = uint32_t(vf_u64(p, 0, sizeof(typename C::T) == 1 ? 255 : 0xffffffff, 2)); auto x = mk(typename C::T{}, x##_v);
// every element of v equals the stated value (Skolem index k)
#define ALL(v, k, p) uint64_t k = vf_idx(p, v.size())

template <class C> void t_construct() {
    typename C::V e;
    vf_ensure(e.size() == 0 && e.empty() && e.capacity() == 0 && e.data() == nullptr);
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    typename C::V v(n);
    vf_ensure(v.size() == n); WF(v);
    vf_ensure(exact<C>(v, nullptr, 0));
    VALUE(x, "x")
    typename C::V w(n, x);
    vf_ensure(w.size() == n); WF(w);
    ALL(w, k, "k");
    vf_ensure(val(w[k]) == x_v);
    if (C::zero) vf_ensure(val(v[k]) == 0);
}
template <class C> void t_construct_range() {
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    auto src = static_cast<typename C::T*>(vf_array("src", n * C::K, C::gran, alignof(typename C::T)));
    uint64_t s = vf_snapshot(src, n * C::K, C::gran);
    typename C::V v(src, src + n);
    vf_ensure(v.size() == n); WF(v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s, k));
    vf_ensure(val(src[k]) == old<C>(s, k));
}
template <class C> void t_il() {
    VALUE(x, "x") VALUE(y, "y")
    typename C::V v({x, y, x});
    vf_ensure(v.size() == 3); WF(v);
    vf_ensure(val(v[0]) == x_v && val(v[1]) == y_v && val(v[2]) == x_v);
    v.assign({y, x});
    vf_ensure(v.size() == 2); WF(v);
    vf_ensure(val(v[0]) == y_v && val(v[1]) == x_v);
    auto it = v.insert(v.begin() + 1, {x, x, y});
    vf_ensure(v.size() == 5 && it == v.begin() + 1); WF(v);
    vf_ensure(val(v[0]) == y_v && val(v[1]) == x_v && val(v[2]) == x_v && val(v[3]) == y_v && val(v[4]) == x_v);
}
template <class C> void t_copy() {
    ARB(v, "a_")
    typename C::V w(v);
    vf_ensure(w.size() == n_v && v.size() == n_v); WF(w); WF(v); NOREALLOC(v);
    vf_ensure(n_v == 0 || !vf_same_object(w.data(), v.data()));
    ALL(w, k, "k");
    vf_ensure(val(w[k]) == old<C>(s_v, k) && val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_copy_assign() {
    ARB(v, "a_") ARB(w, "b_")
    auto& r = (w = v);
    vf_ensure(&r == &w && w.size() == n_v && v.size() == n_v); WF(w); WF(v); NOREALLOC(v); EXACT(w);
    vf_ensure(n_v == 0 || !vf_same_object(w.data(), v.data()));
    vf_ensure(c_w < n_v || w.data() == d_w);
    ALL(w, k, "k");
    vf_ensure(val(w[k]) == old<C>(s_v, k) && val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_self_assign() {
    ARB(v, "a_")
    auto& a = v;
    if (vf_nondet("move")) v = std::move(a); else v = a;
    vf_ensure(v.size() == n_v); WF(v); NOREALLOC(v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_move() {
    ARB(v, "a_")
    typename C::V w(std::move(v));
    vf_ensure(w.size() == n_v && w.data() == d_v && w.capacity() == c_v); WF(w);
    vf_ensure(v.size() == 0 && v.capacity() == 0 && v.data() == nullptr);
    ALL(w, k, "k");
    vf_ensure(val(w[k]) == old<C>(s_v, k));
}
template <class C> void t_move_assign() {
    ARB(v, "a_") ARB(w, "b_")
    auto& r = (w = std::move(v));
    vf_ensure(&r == &w && w.size() == n_v && w.data() == d_v && w.capacity() == c_v); WF(w);
    vf_ensure(v.size() == 0 && v.capacity() == 0 && v.data() == nullptr);
    ALL(w, k, "k");
    vf_ensure(val(w[k]) == old<C>(s_v, k));
}
template <class C> void t_swap() {
    ARB(v, "a_") ARB(w, "b_")
    v.swap(w);
    vf_ensure(w.size() == n_v && w.data() == d_v && w.capacity() == c_v); WF(w);
    vf_ensure(v.size() == n_w && v.data() == d_w && v.capacity() == c_w); WF(v);
    if (w.size()) { ALL(w, k, "k"); vf_ensure(val(w[k]) == old<C>(s_v, k)); }
    if (v.size()) { ALL(v, j, "j"); vf_ensure(val(v[j]) == old<C>(s_w, j)); }
}
template <class C> void t_assign_fill() {
    ARB(v, "a_")
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    VALUE(x, "x")
    v.assign(n, x);
    vf_ensure(v.size() == n); WF(v); EXACT(v);
    vf_ensure(c_v < n || v.data() == d_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == x_v);
}
template <class C> void t_assign_range() {
    ARB(v, "a_")
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    auto src = static_cast<typename C::T*>(vf_array("src", n * C::K, C::gran, alignof(typename C::T)));
    uint64_t s = vf_snapshot(src, n * C::K, C::gran);
    v.assign(src, src + n);
    vf_ensure(v.size() == n); WF(v); EXACT(v);
    vf_ensure(c_v < n || v.data() == d_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s, k));
}
template <class C> void t_access() {
    ARB(v, "a_")
    const auto& c = v;
    vf_ensure(v.empty() == (n_v == 0) && c.size() == n_v && v.byte_size() == n_v * C::S);
    vf_ensure(v.begin() == v.data() && c.begin() == v.data() && c.cbegin() == v.data() && c.data() == v.data());
    vf_ensure(v.end() == v.data() + n_v && c.end() == v.data() + n_v && c.cend() == v.data() + n_v);
    uint64_t i = vf_idx("i", n_v);
    vf_ensure(&v[i] == v.data() + i && &c[i] == v.data() + i && &v.at(i) == v.data() + i && &c.at(i) == v.data() + i);
    vf_ensure(&v.front() == v.data() && &c.front() == v.data() && &v.back() == v.data() + n_v - 1 && &c.back() == v.data() + n_v - 1);
    vf_ensure(&*(v.rbegin() + i) == v.data() + (n_v - 1 - i) && &*(c.rbegin() + i) == v.data() + (n_v - 1 - i) && &*(c.crbegin() + i) == v.data() + (n_v - 1 - i));
    vf_ensure(v.rend() - v.rbegin() == int64_t(n_v) && c.rend() - c.rbegin() == int64_t(n_v) && c.crend() - c.crbegin() == int64_t(n_v));
    vf_ensure(val(v[i]) == old<C>(s_v, i));
    NOREALLOC(v);
}
template <class C> void t_reserve() {
    ARB(v, "a_")
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    bool r = v.reserve(n);
    vf_ensure(v.size() == n_v && v.capacity() >= n && v.capacity() >= c_v); WF(v); EXACT(v);
    vf_ensure(r == (v.data() != d_v));
    if (n <= c_v) NOREALLOC(v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_shrink_to_fit() {
    ARB(v, "a_")
    bool r = v.shrink_to_fit();
    vf_ensure(v.size() == n_v && v.capacity() == n_v); WF(v); EXACT(v);
    vf_ensure(r == (v.data() != d_v) || v.size() == 0);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_clear() {
    ARB(v, "a_")
    v.clear();
    vf_ensure(v.size() == 0 && v.empty()); WF(v); NOREALLOC(v);
}
template <class C> void t_insert() {
    ARB(v, "a_")
    VALUE(x, "x")
    uint64_t pos = vf_u64("pos", 0, n_v);
    auto it = vf_nondet("emplace") ? v.emplace(v.cbegin() + pos, x) : v.insert(v.cbegin() + pos, x);
    vf_ensure(v.size() == n_v + 1); WF(v); EXACT(v);
    vf_ensure(it == v.begin() + pos && v.capacity() >= c_v);
    vf_ensure(c_v < n_v + 1 || v.data() == d_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < pos ? old<C>(s_v, k) : k == pos ? x_v : old<C>(s_v, k - 1)));
}
template <class C> void t_insert_n() {
    ARB(v, "a_")
    VALUE(x, "x")
    uint64_t pos = vf_u64("pos", 0, n_v);
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    auto it = v.insert(v.cbegin() + pos, n, x);
    vf_ensure(v.size() == n_v + n); WF(v); EXACT(v);
    vf_ensure(it == v.begin() + pos && v.capacity() >= c_v);
    vf_ensure(c_v < n_v + n || v.data() == d_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < pos ? old<C>(s_v, k) : k < pos + n ? x_v : old<C>(s_v, k - n)));
}
template <class C> void t_insert_range() {
    ARB(v, "a_")
    uint64_t pos = vf_u64("pos", 0, n_v);
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    auto src = static_cast<typename C::T*>(vf_array("src", n * C::K, C::gran, alignof(typename C::T)));
    uint64_t s = vf_snapshot(src, n * C::K, C::gran);
    auto it = v.insert(v.cbegin() + pos, src, src + n);
    vf_ensure(v.size() == n_v + n); WF(v); EXACT(v);
    vf_ensure(it == v.begin() + pos && v.capacity() >= c_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < pos ? old<C>(s_v, k) : k < pos + n ? old<C>(s, k - pos) : old<C>(s_v, k - n)));
}
template <class C> void t_erase() {
    ARB(v, "a_")
    uint64_t pos = vf_idx("pos", n_v);
    auto it = v.erase(v.cbegin() + pos);
    vf_ensure(v.size() == n_v - 1); WF(v); NOREALLOC(v);
    vf_ensure(it == v.begin() + pos);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < pos ? old<C>(s_v, k) : old<C>(s_v, k + 1)));
}
template <class C> void t_erase_range() {
    ARB(v, "a_")
    uint64_t pos = vf_u64("pos", 0, n_v), n = vf_u64("n", 0, n_v - pos);
    auto it = v.erase(v.cbegin() + pos, v.cbegin() + pos + n);
    vf_ensure(v.size() == n_v - n); WF(v); NOREALLOC(v);
    vf_ensure(it == v.begin() + pos);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < pos ? old<C>(s_v, k) : old<C>(s_v, k + n)));
}
template <class C> void t_push() {
    ARB(v, "a_")
    VALUE(x, "x")
    auto& r = vf_nondet("emplace") ? v.emplace_back(x) : v.push_back(x);
    vf_ensure(v.size() == n_v + 1 && &r == &v.back() && v.capacity() >= c_v); WF(v); EXACT(v);
    vf_ensure(c_v == n_v || v.data() == d_v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < n_v ? old<C>(s_v, k) : x_v));
}
template <class C> void t_emplace_back0() {
    ARB(v, "a_")
    auto& r = v.emplace_back();
    vf_ensure(v.size() == n_v + 1 && &r == &v.back()); WF(v); EXACT(v);
    uint64_t k = vf_idx("k", n_v);
    vf_ensure(val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_pop() {
    ARB(v, "a_")
    vf_assume(n_v > 0);
    v.pop_back();
    vf_ensure(v.size() == n_v - 1); WF(v); NOREALLOC(v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == old<C>(s_v, k));
}
template <class C> void t_resize() {
    ARB(v, "a_")
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    bool r = v.resize(n);
    vf_ensure(v.size() == n && v.capacity() >= c_v); WF(v); EXACT(v);
    vf_ensure(r == (v.data() != d_v));
    if (n <= c_v) NOREALLOC(v);
    ALL(v, k, "k");
    if (k < n_v) vf_ensure(val(v[k]) == old<C>(s_v, k));
    else if (C::zero) vf_ensure(val(v[k]) == 0);
}
template <class C> void t_resize_val() {
    ARB(v, "a_")
    VALUE(x, "x")
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n);
    bool r = v.resize(n, x);
    vf_ensure(v.size() == n && v.capacity() >= c_v); WF(v); EXACT(v);
    vf_ensure(r == (v.data() != d_v));
    if (n <= c_v) NOREALLOC(v);
    ALL(v, k, "k");
    vf_ensure(val(v[k]) == (k < n_v ? old<C>(s_v, k) : x_v));
}
template <class C> void t_compare() {
    ARB(v, "a_") ARB(w, "b_")
    bool eq = v == w, ne = v != w;
    vf_ensure(!(eq && ne) && (eq || ne));
    if (n_v != n_w) { vf_ensure(!eq); return; }
    if (eq && n_v) { ALL(v, k, "k"); vf_ensure(val(v[k]) == val(w[k])); }
    if (!eq) vf_ensure(n_v > 0);
    NOREALLOC(v); NOREALLOC(w);
}
// equal content implies equal
template <class C> void t_compare2() {
    ARB(v, "a_")
    typename C::V w(v);
    vf_ensure(v == w && !(v != w));
    uint64_t i = vf_idx("i", n_v);
    VALUE(x, "x")
    vf_assume(x_v != val(w[i]));
    w[i] = x;
    vf_ensure(v != w && !(v == w));
}

inline uint32_t byte(uint32_t x, uint64_t j) { return j == 0 ? x & 255 : j == 1 ? (x >> 8) & 255 : j == 2 ? (x >> 16) & 255 : x >> 24; }
// byte-wise recast between element types of different size
template <class C, class D> void t_recast_copy() {
    ARB(v, "a_")
    ARB2(D, w, "b_")
    w.recast_copy_from(v);
    vf_ensure(w.size() == n_v * C::S / D::S && v.size() == n_v); NOREALLOC(v); vf_ensure(wf<D>(w));
    uint64_t k = vf_idx("k", w.size());
    vf_ensure(val(w[k]) == val(reinterpret_cast<const typename D::T*>(v.data())[k]));
    vf_ensure(!vf_same_object(w.data(), v.data()));
}
template <class C, class D> void t_recast_take() {
    ARB(v, "a_")
    ARB2(D, w, "b_")
    w.recast_take_from(std::move(v));
    vf_ensure(w.size() == n_v * C::S / D::S && w.capacity() == c_v * C::S / D::S && (const void*)w.data() == d_v); vf_ensure(wf<D>(w));
    vf_ensure(v.size() == 0 && v.capacity() == 0 && v.data() == nullptr);
    uint64_t k = vf_idx("k", w.size());
    if (std::is_same<C, D>::value) vf_ensure(val(w[k]) == old<C>(s_v, k));
    else if (C::gran == 1) { vf_ensure(uint8_t(val(w[k])) == uint8_t(vf_peek(s_v, k * D::S))); }
    else vf_ensure(val(w[k]) == byte(uint32_t(vf_peek(s_v, k * D::S / C::S)), k * D::S % C::S));
}
HARNESS(C01_recast_copy_to_bytes) { t_recast_copy<R, B8>(); }
HARNESS(C01_recast_copy_from_bytes) { t_recast_copy<B8, R>(); }
HARNESS(C01_recast_take_to_bytes) { t_recast_take<R, B8>(); }
HARNESS(C01_recast_take_from_bytes) { t_recast_take<B8, R>(); }
HARNESS(C02_recast_copy_to_bytes) { t_recast_copy<X, B8X>(); }
HARNESS(C02_recast_copy_from_bytes) { t_recast_copy<B8X, X>(); }
HARNESS(C02_recast_take_to_bytes) { t_recast_take<R, B8>(); }
HARNESS(C02_recast_take_from_bytes) { t_recast_take<B8, R>(); }
HARNESS(C02_recast_take_bytes_x) { t_recast_take<X, B8X>(); }
HARNESS(C02_recast_take_wide) { t_recast_take<W, W>(); }
// every operation, for the default allocator (C01) and for each allocator flavour (C02)
HARNESS(C01_construct) { t_construct<M>(); }
HARNESS(C01_construct_range) { t_construct_range<M>(); }
HARNESS(C01_il) { t_il<M>(); }
HARNESS(C01_copy) { t_copy<M>(); }
HARNESS(C01_copy_assign) { t_copy_assign<M>(); }
HARNESS(C01_self_assign) { t_self_assign<M>(); }
HARNESS(C01_move) { t_move<M>(); }
HARNESS(C01_move_assign) { t_move_assign<M>(); }
HARNESS(C01_swap) { t_swap<M>(); }
HARNESS(C01_assign_fill) { t_assign_fill<M>(); }
HARNESS(C01_assign_range) { t_assign_range<M>(); }
HARNESS(C01_access) { t_access<M>(); }
HARNESS(C01_reserve) { t_reserve<M>(); }
HARNESS(C01_shrink_to_fit) { t_shrink_to_fit<M>(); }
HARNESS(C01_clear) { t_clear<M>(); }
HARNESS(C01_insert) { t_insert<M>(); }
HARNESS(C01_insert_n) { t_insert_n<M>(); }
HARNESS(C01_insert_range) { t_insert_range<M>(); }
HARNESS(C01_erase) { t_erase<M>(); }
HARNESS(C01_erase_range) { t_erase_range<M>(); }
HARNESS(C01_push) { t_push<M>(); }
HARNESS(C01_emplace_back0) { t_emplace_back0<M>(); }
HARNESS(C01_pop) { t_pop<M>(); }
HARNESS(C01_resize) { t_resize<M>(); }
HARNESS(C01_resize_val) { t_resize_val<M>(); }
HARNESS(C01_compare) { t_compare<M>(); }
HARNESS(C01_compare2) { t_compare2<M>(); }
HARNESS(C01_insert_n_bytes) { t_insert_n<B8>(); }
HARNESS(C01_insert_range_bytes) { t_insert_range<B8>(); }
HARNESS(C01_erase_range_bytes) { t_erase_range<B8>(); }
HARNESS(C01_resize_val_bytes) { t_resize_val<B8>(); }
HARNESS(C01_assign_fill_bytes) { t_assign_fill<B8>(); }
HARNESS(C01_copy_bytes) { t_copy<B8>(); }
HARNESS(C01_compare_bytes) { t_compare<B8>(); }
HARNESS(C02_construct_realloc) { t_construct<R>(); }
HARNESS(C02_copy_realloc) { t_copy<R>(); }
HARNESS(C02_copy_assign_realloc) { t_copy_assign<R>(); }
HARNESS(C02_move_assign_realloc) { t_move_assign<R>(); }
HARNESS(C02_swap_realloc) { t_swap<R>(); }
HARNESS(C02_assign_fill_realloc) { t_assign_fill<R>(); }
HARNESS(C02_assign_range_realloc) { t_assign_range<R>(); }
HARNESS(C02_reserve_realloc) { t_reserve<R>(); }
HARNESS(C02_shrink_to_fit_realloc) { t_shrink_to_fit<R>(); }
HARNESS(C02_clear_realloc) { t_clear<R>(); }
HARNESS(C02_insert_realloc) { t_insert<R>(); }
HARNESS(C02_insert_n_realloc) { t_insert_n<R>(); }
HARNESS(C02_insert_range_realloc) { t_insert_range<R>(); }
HARNESS(C02_erase_realloc) { t_erase<R>(); }
HARNESS(C02_erase_range_realloc) { t_erase_range<R>(); }
HARNESS(C02_push_realloc) { t_push<R>(); }
HARNESS(C02_emplace_back0_realloc) { t_emplace_back0<R>(); }
HARNESS(C02_pop_realloc) { t_pop<R>(); }
HARNESS(C02_resize_realloc) { t_resize<R>(); }
HARNESS(C02_resize_val_realloc) { t_resize_val<R>(); }
HARNESS(C02_construct_expand) { t_construct<X>(); }
HARNESS(C02_copy_expand) { t_copy<X>(); }
HARNESS(C02_copy_assign_expand) { t_copy_assign<X>(); }
HARNESS(C02_move_assign_expand) { t_move_assign<X>(); }
HARNESS(C02_swap_expand) { t_swap<X>(); }
HARNESS(C02_assign_fill_expand) { t_assign_fill<X>(); }
HARNESS(C02_assign_range_expand) { t_assign_range<X>(); }
HARNESS(C02_reserve_expand) { t_reserve<X>(); }
HARNESS(C02_shrink_to_fit_expand) { t_shrink_to_fit<X>(); }
HARNESS(C02_clear_expand) { t_clear<X>(); }
HARNESS(C02_insert_expand) { t_insert<X>(); }
HARNESS(C02_insert_n_expand) { t_insert_n<X>(); }
HARNESS(C02_insert_range_expand) { t_insert_range<X>(); }
HARNESS(C02_erase_expand) { t_erase<X>(); }
HARNESS(C02_erase_range_expand) { t_erase_range<X>(); }
HARNESS(C02_push_expand) { t_push<X>(); }
HARNESS(C02_emplace_back0_expand) { t_emplace_back0<X>(); }
HARNESS(C02_pop_expand) { t_pop<X>(); }
HARNESS(C02_resize_expand) { t_resize<X>(); }
HARNESS(C02_resize_val_expand) { t_resize_val<X>(); }
HARNESS(C02_construct_overaligned) { t_construct<W>(); }
HARNESS(C02_copy_overaligned) { t_copy<W>(); }
HARNESS(C02_copy_assign_overaligned) { t_copy_assign<W>(); }
HARNESS(C02_move_assign_overaligned) { t_move_assign<W>(); }
HARNESS(C02_swap_overaligned) { t_swap<W>(); }
HARNESS(C02_assign_fill_overaligned) { t_assign_fill<W>(); }
HARNESS(C02_assign_range_overaligned) { t_assign_range<W>(); }
HARNESS(C02_reserve_overaligned) { t_reserve<W>(); }
HARNESS(C02_shrink_to_fit_overaligned) { t_shrink_to_fit<W>(); }
HARNESS(C02_clear_overaligned) { t_clear<W>(); }
HARNESS(C02_insert_overaligned) { t_insert<W>(); }
HARNESS(C02_insert_n_overaligned) { t_insert_n<W>(); }
HARNESS(C02_insert_range_overaligned) { t_insert_range<W>(); }
HARNESS(C02_erase_overaligned) { t_erase<W>(); }
HARNESS(C02_erase_range_overaligned) { t_erase_range<W>(); }
HARNESS(C02_push_overaligned) { t_push<W>(); }
HARNESS(C02_emplace_back0_overaligned) { t_emplace_back0<W>(); }
HARNESS(C02_pop_overaligned) { t_pop<W>(); }
HARNESS(C02_resize_overaligned) { t_resize<W>(); }
HARNESS(C02_resize_val_overaligned) { t_resize_val<W>(); }
HARNESS(C02_construct_overaligned_expand) { t_construct<WX>(); }
HARNESS(C02_copy_overaligned_expand) { t_copy<WX>(); }
HARNESS(C02_copy_assign_overaligned_expand) { t_copy_assign<WX>(); }
HARNESS(C02_move_assign_overaligned_expand) { t_move_assign<WX>(); }
HARNESS(C02_swap_overaligned_expand) { t_swap<WX>(); }
HARNESS(C02_assign_fill_overaligned_expand) { t_assign_fill<WX>(); }
HARNESS(C02_assign_range_overaligned_expand) { t_assign_range<WX>(); }
HARNESS(C02_reserve_overaligned_expand) { t_reserve<WX>(); }
HARNESS(C02_shrink_to_fit_overaligned_expand) { t_shrink_to_fit<WX>(); }
HARNESS(C02_clear_overaligned_expand) { t_clear<WX>(); }
HARNESS(C02_insert_overaligned_expand) { t_insert<WX>(); }
HARNESS(C02_insert_n_overaligned_expand) { t_insert_n<WX>(); }
HARNESS(C02_insert_range_overaligned_expand) { t_insert_range<WX>(); }
HARNESS(C02_erase_overaligned_expand) { t_erase<WX>(); }
HARNESS(C02_erase_range_overaligned_expand) { t_erase_range<WX>(); }
HARNESS(C02_push_overaligned_expand) { t_push<WX>(); }
HARNESS(C02_emplace_back0_overaligned_expand) { t_emplace_back0<WX>(); }
HARNESS(C02_pop_overaligned_expand) { t_pop<WX>(); }
HARNESS(C02_resize_overaligned_expand) { t_resize<WX>(); }
HARNESS(C02_resize_val_overaligned_expand) { t_resize_val<WX>(); }
