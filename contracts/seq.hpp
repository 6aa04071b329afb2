// contracts of the std::vector-like operations shared by small_vector (C03, C04, C05) and static_vector (C06, C07)
// The vector is arbitrary (C::arb), its elements are Elem (value + observable lifetime). P selects the property the
// postconditions belong to; lifetime, memory and allocator obligations are generated everywhere.
#pragma once
#include "vf.hpp"

// what the harness remembers about a vector before the call
struct Old {
    uint64_t n, cap; const void* data; uint64_t snap; bool st;
    uint32_t operator[](uint64_t i) const { return uint32_t(vf_peek(snap, i)); }
};
#define ARB(v, tag, p) typename C::V v = C::make(tag); C::arb(v, vf_bool(p "dyn"), vf_u64(p "cap", C::N, C::MAXCAP), vf_u64(p "size", 0, 1u << 30)); \
    vf_havoc_content(p "val", v.data(), v.size(), 4); const Old o_##v{v.size(), v.capacity(), v.data(), vf_snapshot(v.data(), v.size(), 4), C::is_static(v)}; (void)o_##v;
#define LIFE(v) do { if (P == 3 || P == 6) C::life(v); } while (0)
// a vector that was dynamic: reverts below RevertToStaticBelow when its size is reduced, and otherwise keeps its buffer while that suffices
#define KEEP(v, o, m, reducing) if (P == 5 && !o.st) { if ((reducing) && (m) < C::R) vf_ensure_l(C::is_static(v), "reduced below RevertToStaticBelow: back in the static buffer"); \
    else if ((m) >= C::R) { vf_ensure_l(!C::is_static(v), "a dynamic vector does not return to the static buffer by itself"); \
        if ((m) <= o.cap) vf_ensure_l(v.data() == o.data && v.capacity() == o.cap, "a dynamic vector keeps its buffer while the capacity suffices"); } }
#define POLICY(v) do { if (P == 5 || P == 7) C::policy(v); } while (0)
#define VAL(x, p) Elem x(uint32_t(vf_u64(p, 0, 0xfffffff, 2))); const uint32_t x##_v = x.v;
#define CNT(n, p) uint64_t n = C::count(vf_u64(p, 0, 1u << 30)); vf_limit(n);
#define POST(v) LIFE(v); POLICY(v);
#define SEQ (P == 4 || P == 6)

template <class C, int P> void q_construct() {
    { typename C::V e = C::make(1); vf_ensure(e.size() == 0 && e.empty()); POST(e); if (P == 5) vf_ensure(C::is_static(e) && e.capacity() == C::N); }
    CNT(n, "n")
    { typename C::V v = C::make_n(n); POST(v);
      vf_ensure(v.size() == n); if (P == 5) vf_ensure(C::is_static(v) == (n <= C::N) && (n <= C::N || v.capacity() >= n));
      if (SEQ && n) { uint64_t k = vf_idx("k0", v.size()); vf_ensure(v[k].v == 0); } }
}
template <class C, int P> void q_construct_fill() {
    CNT(n, "n")
    VAL(x, "x")
    typename C::V v = C::make_nv(n, x); POST(v);
    vf_ensure(v.size() == n); if (P == 5) vf_ensure(C::is_static(v) == (n <= C::N) && (n <= C::N || v.capacity() >= n));
    if (SEQ) { vf_ensure(x.v == x_v); uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == x_v); }
}
template <class C, int P> void q_construct_range() {
    CNT(n, "n")
    auto src = static_cast<uint32_t*>(vf_array("src", n, 4, 4));
    uint64_t s = vf_snapshot(src, n, 4);
    typename C::V v = C::make_range(src, src + n); POST(v);
    vf_ensure(v.size() == n); if (P == 5) vf_ensure(C::is_static(v) == (n <= C::N));
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == uint32_t(vf_peek(s, k))); vf_ensure(src[k] == uint32_t(vf_peek(s, k))); }
}
template <class C, int P> void q_il() {
    VAL(x, "x") VAL(y, "y")
    typename C::V v = C::make_il({x, y, x}); POST(v);
    if (P == 5) vf_ensure(C::is_static(v));
    vf_ensure(v.size() == 3);
    if (SEQ) vf_ensure(v[0].v == x_v && v[1].v == y_v && v[2].v == x_v);
}
template <class C, int P> void q_assign_il() {
    ARB(v, 1, "a_")
    VAL(x, "x") VAL(y, "y")
    v.assign({x, y, x}); POST(v);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v));
    KEEP(v, o_v, 3, o_v.n > 3)
    vf_ensure(v.size() == 3);
    if (SEQ) vf_ensure(v[0].v == x_v && v[1].v == y_v && v[2].v == x_v);
}
template <class C, int P> void q_insert_il() {
    ARB(v, 1, "a_")
    C::room(v, 2);
    VAL(x, "x") VAL(y, "y")
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    auto it = v.insert(v.cbegin() + pos, {x, y}); POST(v);
    vf_ensure(v.size() == o_v.n + 2);
    if (SEQ) { vf_ensure(it == v.begin() + pos);
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : k == pos ? x_v : k == pos + 1 ? y_v : o_v[k - 2])); }
}
template <class C, int P> void q_copy() {
    ARB(v, 1, "a_")
    typename C::V w(v); POST(w); POST(v);
    vf_ensure(w.size() == o_v.n && v.size() == o_v.n);
    if (P == 5) vf_ensure(C::is_static(w) == (o_v.n <= C::N) && v.data() == o_v.data && v.capacity() == o_v.cap);
    if (SEQ) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k] && v[k].v == o_v[k] && &w[k] != &v[k]); }
}
template <class C, int P> void q_copy_assign() {
    ARB(v, 1, "a_") ARB(w, 2, "b_")
    auto& r = (w = v); POST(w); POST(v);
    vf_ensure(&r == &w && w.size() == o_v.n && v.size() == o_v.n);
    if (P == 5) { vf_ensure(v.data() == o_v.data && v.capacity() == o_v.cap); if (o_w.st && o_v.n <= C::N) vf_ensure(C::is_static(w)); }
    KEEP(w, o_w, o_v.n, o_v.n < o_w.n)
    if (SEQ) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k] && v[k].v == o_v[k] && &w[k] != &v[k]); }
}
template <class C, int P> void q_self_assign() {
    ARB(v, 1, "a_")
    auto& a = v;
    if (C::self_move && vf_nondet("move")) v = std::move(a); else v = a;
    POST(v);
    vf_ensure(v.size() == o_v.n);
    if (P == 5) vf_ensure(v.data() == o_v.data && v.capacity() == o_v.cap);
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
}
template <class C, int P> void q_move() {
    ARB(v, 1, "a_")
    typename C::V w(std::move(v)); POST(w); POST(v);
    vf_ensure(w.size() == o_v.n);
    if (SEQ) vf_ensure(v.size() == 0);
    if (P == 5) { vf_ensure(C::is_static(v) && v.capacity() == C::N && C::is_static(w) == o_v.st); if (!o_v.st) vf_ensure(w.data() == o_v.data && w.capacity() == o_v.cap); }
    if (SEQ) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k]); }
}
template <class C, int P> void q_move_assign() {
    ARB(v, 1, "a_") ARB(w, 2, "b_")
    auto& r = (w = std::move(v)); POST(w); POST(v);
    vf_ensure(&r == &w && w.size() == o_v.n);
    if (SEQ) vf_ensure(v.size() == 0);
    if (P == 5) { vf_ensure(C::is_static(v) && v.capacity() == C::N && C::is_static(w) == o_v.st); if (!o_v.st) vf_ensure(w.data() == o_v.data && w.capacity() == o_v.cap); }
    if (SEQ) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k]); }
}
template <class C, int P> void q_swap() {
    ARB(v, 1, "a_") ARB(w, 2, "b_")
    C::swap(v, w); POST(w); POST(v);
    vf_ensure(w.size() == o_v.n && v.size() == o_w.n);
    if (P == 5) { vf_ensure(C::is_static(v) == o_w.st && C::is_static(w) == o_v.st); if (!o_v.st) vf_ensure(w.data() == o_v.data && w.capacity() == o_v.cap); if (!o_w.st) vf_ensure(v.data() == o_w.data && v.capacity() == o_w.cap); }
    if (SEQ) { if (vf_nondet("w")) { uint64_t k = vf_idx("k", w.size()); vf_ensure(w[k].v == o_v[k]); }
    else { uint64_t k = vf_idx("j", v.size()); vf_ensure(v[k].v == o_w[k]); } }
}
template <class C, int P> void q_assign_fill() {
    ARB(v, 1, "a_")
    CNT(n, "n")
    VAL(x, "x")
    v.assign(n, x); POST(v);
    vf_ensure(v.size() == n);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (n <= C::N));
    KEEP(v, o_v, n, n < o_v.n)
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == x_v && x.v == x_v); }
}
// n live elements that do not belong to any vector
#define SRC(n, src, s) auto src = static_cast<Elem*>(vf_array(#src, n, 4, 4)); vf_live_src(src, n, 4); const uint64_t s = vf_snapshot(src, n, 4);
#define SRC_OK(n, src, s) if (SEQ && n) { uint64_t q = vf_idx("srck", n); vf_ensure(src[q].v == uint32_t(vf_peek(s, q)) && vf_alive(src + q)); }
template <class C, int P> void q_assign_range() {
    ARB(v, 1, "a_")
    CNT(n, "n") SRC(n, src, s)
    v.assign(src, src + n); POST(v);
    vf_ensure(v.size() == n);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (n <= C::N));
    KEEP(v, o_v, n, n < o_v.n)
    if (SEQ) { SRC_OK(n, src, s) uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == uint32_t(vf_peek(s, k))); }
    vf_dead_src(src, n, 4);
}
template <class C, int P> void q_access() {
    ARB(v, 1, "a_")
    const auto& c = v;
    vf_ensure(v.empty() == (o_v.n == 0) && c.size() == o_v.n);
    vf_ensure(v.begin() == v.data() && c.begin() == v.data() && c.cbegin() == v.data() && c.data() == v.data());
    vf_ensure(v.end() == v.data() + o_v.n && c.end() == v.data() + o_v.n && c.cend() == v.data() + o_v.n);
    uint64_t i = vf_idx("i", o_v.n);
    vf_ensure(&v[i] == v.data() + i && &c[i] == v.data() + i && &v.at(i) == v.data() + i && &c.at(i) == v.data() + i);
    vf_ensure(&v.front() == v.data() && &c.front() == v.data() && &v.back() == v.data() + o_v.n - 1 && &c.back() == v.data() + o_v.n - 1);
    vf_ensure(&*(v.rbegin() + i) == v.data() + (o_v.n - 1 - i) && &*(c.rbegin() + i) == v.data() + (o_v.n - 1 - i) && &*(c.crbegin() + i) == v.data() + (o_v.n - 1 - i));
    vf_ensure(v.rend() - v.rbegin() == int64_t(o_v.n) && c.rend() - c.rbegin() == int64_t(o_v.n) && c.crend() - c.crbegin() == int64_t(o_v.n));
    vf_ensure(v[i].v == o_v[i]);
    POST(v);
}
template <class C, int P> void q_clear() {
    ARB(v, 1, "a_")
    v.clear(); POST(v);
    vf_ensure(v.size() == 0 && v.empty() && v.begin() == v.end());
    if (P == 5 && C::R > 0) vf_ensure(C::is_static(v));
    KEEP(v, o_v, 0, o_v.n > 0)
}
template <class C, int P> void q_insert() {
    ARB(v, 1, "a_")
    C::room(v, 1);
    VAL(x, "x")
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    uint64_t how = vf_concrete(vf_u64("how", 0, 2), 3);
    auto it = how == 0 ? v.insert(v.cbegin() + pos, x) : how == 1 ? v.insert(v.cbegin() + pos, std::move(x)) : v.emplace(v.cbegin() + pos, x_v);
    POST(v);
    vf_ensure(v.size() == o_v.n + 1);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (o_v.n + 1 <= C::N));
    KEEP(v, o_v, o_v.n + 1, false)
    if (SEQ) { vf_ensure(it == v.begin() + pos); vf_ensure(x.v == (how == 1 ? Elem::MOVED : x_v));
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : k == pos ? x_v : o_v[k - 1])); }
}
template <class C, int P> void q_insert_n() {
    ARB(v, 1, "a_")
    CNT(n, "n")
    C::room(v, n);
    VAL(x, "x")
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    auto it = v.insert(v.cbegin() + pos, n, x); POST(v);
    vf_ensure(v.size() == o_v.n + n);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (o_v.n + n <= C::N));
    KEEP(v, o_v, o_v.n + n, false)
    if (SEQ) { vf_ensure(it == v.begin() + pos && x.v == x_v);
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : k < pos + n ? x_v : o_v[k - n])); }
}
template <class C, int P> void q_insert_range() {
    ARB(v, 1, "a_")
    CNT(n, "n") SRC(n, src, s)
    C::room(v, n);
    uint64_t pos = vf_u64("pos", 0, o_v.n);
    auto it = v.insert(v.cbegin() + pos, (const Elem*)src, (const Elem*)src + n); POST(v);
    vf_ensure(v.size() == o_v.n + n);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (o_v.n + n <= C::N));
    KEEP(v, o_v, o_v.n + n, false)
    if (SEQ) { vf_ensure(it == v.begin() + pos); SRC_OK(n, src, s)
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : k < pos + n ? uint32_t(vf_peek(s, k - pos)) : o_v[k - n])); }
    vf_dead_src(src, n, 4);
}
template <class C, int P> void q_erase() {
    ARB(v, 1, "a_")
    uint64_t pos = vf_idx("pos", o_v.n);
    auto it = v.erase(v.cbegin() + pos); POST(v);
    vf_ensure(v.size() == o_v.n - 1);
    if (P == 5) vf_ensure(C::is_static(v) == (o_v.st || o_v.n - 1 < C::R));
    KEEP(v, o_v, o_v.n - 1, true)
    if (SEQ) { vf_ensure(it == v.begin() + pos);
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : o_v[k + 1])); }
}
template <class C, int P> void q_erase_range() {
    ARB(v, 1, "a_")
    uint64_t pos = vf_u64("pos", 0, o_v.n), n = vf_u64("n", 0, o_v.n - pos);
    auto it = v.erase(v.cbegin() + pos, v.cbegin() + pos + n); POST(v);
    vf_ensure(v.size() == o_v.n - n);
    if (P == 5 && (n || o_v.st)) vf_ensure(C::is_static(v) == (o_v.st || o_v.n - n < C::R));
    KEEP(v, o_v, o_v.n - n, n > 0)
    if (SEQ) { vf_ensure(it == v.begin() + pos);
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < pos ? o_v[k] : o_v[k + n])); }
}
template <class C, int P> void q_push() {
    ARB(v, 1, "a_")
    C::room(v, 1);
    VAL(x, "x")
    uint64_t how = vf_concrete(vf_u64("how", 0, 2), 3);
    if (how == 0) v.push_back(x);
    else if (how == 1) v.push_back(std::move(x));
    else { auto& r = v.emplace_back(x_v); vf_ensure(&r == &v.back()); }
    POST(v);
    vf_ensure(v.size() == o_v.n + 1);
    if (P == 5 && o_v.st) vf_ensure(C::is_static(v) == (o_v.n + 1 <= C::N));
    KEEP(v, o_v, o_v.n + 1, false)
    if (SEQ) { vf_ensure(x.v == (how == 1 ? Elem::MOVED : x_v));
    uint64_t k = vf_idx("k", v.size());
    vf_ensure(v[k].v == (k < o_v.n ? o_v[k] : x_v)); }
}
template <class C, int P> void q_emplace_back0() {
    ARB(v, 1, "a_")
    C::room(v, 1);
    auto& r = v.emplace_back(); POST(v);
    vf_ensure(v.size() == o_v.n + 1 && &r == &v.back());
    KEEP(v, o_v, o_v.n + 1, false)
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == (k < o_v.n ? o_v[k] : 0)); }
}
template <class C, int P> void q_pop() {
    ARB(v, 1, "a_")
    vf_assume(o_v.n > 0);
    v.pop_back(); POST(v);
    vf_ensure(v.size() == o_v.n - 1);
    if (P == 5) vf_ensure(C::is_static(v) == (o_v.st || o_v.n - 1 < C::R));
    KEEP(v, o_v, o_v.n - 1, true)
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == o_v[k]); }
}
template <class C, int P> void q_resize() {
    ARB(v, 1, "a_")
    CNT(n, "n")
    v.resize(n); POST(v);
    vf_ensure(v.size() == n);
    if (P == 5) { if (o_v.st) vf_ensure(C::is_static(v) == (n <= C::N)); else if (n < o_v.n && n < C::R) vf_ensure(C::is_static(v)); }
    KEEP(v, o_v, n, n < o_v.n)
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == (k < o_v.n ? o_v[k] : 0)); }
}
template <class C, int P> void q_resize_val() {
    ARB(v, 1, "a_")
    CNT(n, "n")
    VAL(x, "x")
    v.resize(n, x); POST(v);
    vf_ensure(v.size() == n);
    if (P == 5) { if (o_v.st) vf_ensure(C::is_static(v) == (n <= C::N)); else if (n < o_v.n && n < C::R) vf_ensure(C::is_static(v)); }
    KEEP(v, o_v, n, n < o_v.n)
    if (SEQ) { uint64_t k = vf_idx("k", v.size()); vf_ensure(v[k].v == (k < o_v.n ? o_v[k] : x_v) && x.v == x_v); }
}
template <class C, int P> void q_compare() {
    ARB(v, 1, "a_") ARB(w, 2, "b_")
    bool eq = v == w, ne = v != w;
    vf_ensure(eq != ne);
    POST(v); POST(w);
    if (o_v.n != o_w.n) { vf_ensure(!eq); return; }
    uint64_t k = vf_idx("k", v.size());
    if (eq) vf_ensure(v[k].v == w[k].v);
}
template <class C, int P> void q_compare2() {
    ARB(v, 1, "a_")
    typename C::V w(v);
    vf_ensure(v == w && !(v != w));
    uint64_t i = vf_idx("i", o_v.n);
    uint32_t x = uint32_t(vf_u64("x", 0, 0xffffffff, 2));
    vf_assume(x != w[i].v);
    w[i].v = x;
    vf_ensure(v != w && !(v == w));
}
