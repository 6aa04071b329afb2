// C11: span addresses exactly the elements it was given
#include "vf.hpp"
#include <itlib/span.hpp>
using namespace itlib;
using T = uint32_t;

// an arbitrary source sequence of n elements and a span of it
#define SOURCE \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    T* src = static_cast<T*>(vf_array("src", n, 4, 4)); \
    span<T> s(src, size_t(n)); \
    vf_ensure(s.size() == n); vf_ensure(s.data() == src);

HARNESS(C11_span_construct) {
    SOURCE
    span<T> r(src, src + n);
    vf_ensure(r.size() == n && r.data() == src);
    span<const T> c(s);
    vf_ensure(c.size() == n && c.data() == src);
    span<const T> c2; 
    vf_ensure(c2.size() == 0 && c2.empty() && !c2);
    c2 = s;
    vf_ensure(c2.size() == n && c2.data() == src);
    span<T> cp(s); span<T> as; as = s;
    vf_ensure(cp.size() == n && cp.data() == src && as.size() == n && as.data() == src);
    auto m = make_span(src, size_t(n)); auto m2 = make_span(src, src + n);
    vf_ensure(m.size() == n && m.data() == src && m2.size() == n && m2.data() == src);
    vf_ensure(s.empty() == (n == 0));
    vf_ensure(bool(s) == (src != nullptr));
    vf_ensure(s.size_bytes() == n * 4);
    auto b = s.as_bytes(); auto w = s.as_writable_bytes();
    vf_ensure(b.size() == n * 4 && (const void*)b.data() == src);
    vf_ensure(w.size() == n * 4 && (void*)w.data() == src);
}
HARNESS(C11_span_array) {
    T a[5] = {1, 2, 3, 4, 5};
    span<T> s(a);
    vf_ensure(s.size() == 5 && s.data() == a);
    auto m = make_span(a);
    vf_ensure(m.size() == 5 && m.data() == a);
    span<const T> c = m;
    vf_ensure(c.size() == 5 && c.data() == a);
}
struct Cont { T* p; size_t n; T* data() { return p; } const T* data() const { return p; } size_t size() const { return n; } };
HARNESS(C11_span_container) {
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n);
    T* src = static_cast<T*>(vf_array("src", n, 4, 4));
    Cont c{src, size_t(n)};
    span<T> s(c); span<const T> d(c); auto m = make_span(c);
    const Cont cc{src, size_t(n)};
    span<const T> e(cc); auto m2 = make_span(cc);
    vf_ensure(s.size() == n && s.data() == src);
    vf_ensure(d.size() == n && d.data() == src);
    vf_ensure(m.size() == n && m.data() == src);
    vf_ensure(e.size() == n && e.data() == src);
    vf_ensure(m2.size() == n && m2.data() == src);
}
HARNESS(C11_span_access) {
    SOURCE
    uint64_t i = vf_idx("i", n);
    vf_ensure(&s[i] == src + i);
    vf_ensure(&s.at(i) == src + i);
    vf_ensure(&s.front() == src);
    vf_ensure(&s.back() == src + (n - 1));
    vf_ensure(s.begin() == src && s.cbegin() == src && s.end() == src + n && s.cend() == src + n);
    vf_ensure(s.end() - s.begin() == int64_t(n));
    vf_ensure(&*(s.begin() + i) == src + i);
    vf_ensure(&*(s.rbegin() + i) == src + (n - 1 - i));
    vf_ensure(&*(s.crbegin() + i) == src + (n - 1 - i));
    vf_ensure(s.rend() - s.rbegin() == int64_t(n) && s.crend() - s.crbegin() == int64_t(n));
    // writes go through to the source
    T v = T(vf_u64("v", 0, 0xffffffff));
    s[i] = v;
    vf_ensure(src[i] == v);
}
HARNESS(C11_span_subspan) {
    SOURCE
    uint64_t off = vf_u64("off", 0, VF_MAX, 5), cnt = vf_u64("cnt", 0, VF_MAX, 5);
    auto r = s.subspan(off, cnt);
    uint64_t o = off < n ? off : n, want = cnt < n - o ? cnt : n - o;
    vf_ensure(r.size() == want);
    vf_ensure(r.data() == src + o);
}
HARNESS(C11_span_subspan_huge) {
    SOURCE
    uint64_t off = VF_MAX - vf_u64("d", 0, 1000, 9);
    auto r = s.subspan(off);
    vf_ensure(r.size() == 0);
    vf_ensure(r.data() == src + n);
    auto q = s.subspan(off, 2);
    vf_ensure(q.size() == 0);
}
HARNESS(C11_span_first_last) {
    SOURCE
    uint64_t k = vf_u64("k", 0, VF_MAX, 6);
    auto f = s.first(k);
    vf_ensure(f.size() == (k < n ? k : n) && f.data() == src);
    vf_assume(k <= n);
    auto l = s.last(k);
    vf_ensure(l.size() == k && l.data() == src + (n - k));
    auto d = s.subspan(k);
    vf_ensure(d.size() == n - k && d.data() == src + k);
}
HARNESS(C11_span_remove) {
    SOURCE
    uint64_t a = vf_u64("a", 0, VF_BIG); vf_assume(a <= n);
    s.remove_prefix(a);
    vf_ensure(s.size() == n - a && s.data() == src + a);
    uint64_t b = vf_u64("b", 0, VF_BIG); vf_assume(b <= n - a);
    s.remove_suffix(b);
    vf_ensure(s.size() == n - a - b && s.data() == src + a);
}
