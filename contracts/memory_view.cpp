// C28: memory_view addresses exactly the elements it was given
// FLAGS: -Wno-deprecated-declarations
#include "vf.hpp"
#include <itlib/memory_view.hpp>
using T = uint32_t;
using V = itlib::memory_view<T>;
using C = itlib::const_memory_view<T>;

#define SOURCE \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    T* src = static_cast<T*>(vf_array("src", n, 4, 4));

template <typename W> static void shows(const W& w, const T* p, uint64_t n) {
    vf_ensure_l(w.size() == n && w.data() == p && w.get() == p, "the view shows exactly its source");
    vf_ensure_l(w.empty() == (n == 0) && bool(w) == (p != nullptr), "the view shows exactly its source");
}
HARNESS(C28_construct) {
    SOURCE
    V v(src, n); shows(v, src, n);
    C c(src, n); shows(c, src, n);
    C fv(v); shows(fv, src, n);
    V cp(v); shows(cp, src, n);
    C ccp(c); shows(ccp, src, n);
    V mv(std::move(cp)); shows(mv, src, n);
    C cmv(std::move(ccp)); shows(cmv, src, n);
    V e; shows(e, nullptr, 0);
    C ce; shows(ce, nullptr, 0);
    e = v; shows(e, src, n); shows(v, src, n);
    ce = c; shows(ce, src, n); shows(c, src, n);
    ce = v; shows(ce, src, n);
    auto m = itlib::make_memory_view(src, n); shows(m, src, n);
    auto cm = itlib::make_memory_view(static_cast<const T*>(src), n); shows(cm, src, n);
    static_assert(std::is_same<decltype(m), V>::value && std::is_same<decltype(cm), C>::value, "constness of the source is kept");
    const T arr[7] = {};
    auto am = itlib::make_memory_view(arr); shows(am, arr, 7);
}
struct Cont { using value_type = T; T* p; size_t n; T* data() { return p; } const T* data() const { return p; } size_t size() const { return n; } };
HARNESS(C28_container) {
    SOURCE
    Cont c{src, size_t(n)}; const Cont cc{src, size_t(n)};
    uint64_t off = vf_u64("offset", 0, n);
    auto a = itlib::make_memory_view(c); shows(a, src, n);
    auto b = itlib::make_memory_view(cc); shows(b, src, n);
    auto d = itlib::make_memory_view(c, off); shows(d, src + off, n - off);
    auto e = itlib::make_memory_view(cc, off); shows(e, src + off, n - off);
    static_assert(std::is_same<decltype(a), V>::value && std::is_same<decltype(b), C>::value, "constness of the source is kept");
}
template <typename W> static void t_access(W& w, T* src, uint64_t n) {
    uint64_t i = vf_idx("i", n);
    vf_ensure_l(&w[i] == src + i && &w.at(i) == src + i && &w.front() == src && &w.back() == src + (n - 1), "element i of the view is element i of the source");
    vf_ensure_l(w.begin() == src && w.cbegin() == src && w.end() == src + n && w.cend() == src + n, "iteration covers the source exactly");
    vf_ensure_l(&*(w.begin() + i) == src + i && &*(w.cbegin() + i) == src + i, "iteration covers the source in order");
    vf_ensure_l(&*(w.rbegin() + i) == src + (n - 1 - i) && &*(w.crbegin() + i) == src + (n - 1 - i), "reverse iteration covers the source in reverse order");
    vf_ensure_l(w.rend() - w.rbegin() == int64_t(n) && w.crend() - w.crbegin() == int64_t(n), "reverse iteration covers the source exactly");
}
HARNESS(C28_access) {
    SOURCE
    V v(src, n); const V cv(src, n);
    C c(src, n); const C cc(src, n);
    switch (vf_concrete(vf_u64("view", 0, 3), 4)) {
    case 0: t_access(v, src, n); break;
    case 1: t_access(cv, src, n); break;
    case 2: t_access(c, src, n); break;
    default: t_access(cc, src, n);
    }
}
HARNESS(C28_write_through) {
    SOURCE
    V v(src, n);
    uint64_t i = vf_idx("i", n), j = vf_idx("j", n);
    T old = src[j], x = T(vf_u64("x", 0, 0xffffffff));
    if (vf_bool("at")) v.at(i) = x; else v[i] = x;
    vf_ensure_l(src[j] == (i == j ? x : old), "a write through the view changes exactly that element of the source");
}
template <typename W> static void t_slice() {
    SOURCE
    W w(src, n);
    uint64_t off = vf_u64("offset", 0, VF_MAX), cnt = vf_u64("count", 0, VF_MAX);
    bool dflt = vf_bool("default count");
    auto s = dflt ? w.slice(off) : w.slice(off, cnt);
    uint64_t o = off < n ? off : n, left = n - o, m = dflt || cnt > left ? left : cnt;
    vf_ensure_l(s.data() == src + o && s.size() == m, "slice is the part of the source asked for, cut at its end");
    shows(w, src, n);
}
HARNESS(C28_slice) { t_slice<V>(); }
HARNESS(C28_slice_const) { t_slice<C>(); }
template <typename W> static void t_change() {
    SOURCE
    W w(src, n);
    uint64_t k = vf_u64("k", 0, n);
    switch (vf_concrete(vf_u64("op", 0, 4), 5)) {
    case 0: w.remove_prefix(k); vf_ensure_l(w.data() == src + k && w.size() == n - k, "remove_prefix drops the first k elements"); break;
    case 1: w.remove_suffix(k); vf_ensure_l(w.data() == src && w.size() == n - k, "remove_suffix drops the last k elements"); break;
    case 2: w.reset(k); vf_ensure_l(w.data() == src && w.size() == k, "reset(size) keeps the position"); break;
    case 3: w.reset(); vf_ensure_l(!w && w.size() == 0 && w.data() == nullptr, "reset gives an empty view"); break;
    default: w.reset(src + k, n - k); vf_ensure_l(w.data() == src + k && w.size() == n - k, "reset attaches to the new source");
    }
}
HARNESS(C28_change) { t_change<V>(); }
HARNESS(C28_change_const) { t_change<C>(); }
