// C11, C12: stride_span and poly_span address exactly their elements; iterator laws
#include "vf.hpp"
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
using namespace itlib;
using T = uint32_t;

// n elements, stride bytes apart, in a buffer of exactly the needed size
#define SOURCE \
    uint64_t n = vf_u64("n", 0, 1u << 20); vf_limit(n); \
    uint64_t st = vf_u64("stride4", 1, 1u << 20, 3) * 4; vf_limit(st); \
    uint64_t bytes = n == 0 ? 0 : (n - 1) * st + 4; \
    uint8_t* src = static_cast<uint8_t*>(vf_array("src", bytes / 4, 4, 4)); \
    stride_span<T> s(src, st, n);
#define AT(i) ((T*)(src + (i) * st))

HARNESS(C11_stride_construct) {
    SOURCE
    vf_ensure(s.size() == n && s.stride() == st && s.data() == src && s.empty() == (n == 0) && bool(s) == (src != nullptr));
    stride_span<const T> c(s), c2; c2 = s;
    vf_ensure(c.size() == n && c.stride() == st && c.data() == src);
    vf_ensure(c2.size() == n && c2.stride() == st && c2.data() == src);
    stride_span<T> e;
    vf_ensure(e.size() == 0 && e.empty() && !e);
    stride_span<T> cp(s), as; as = s;
    vf_ensure(cp.size() == n && cp.stride() == st && cp.data() == src);
    vf_ensure(as.size() == n && as.stride() == st && as.data() == src);
}
HARNESS(C11_stride_access) {
    SOURCE
    uint64_t i = vf_idx("i", n);
    vf_ensure(&s[i] == AT(i));
    vf_ensure(&s.at(i) == AT(i));
    vf_ensure(&s.front() == AT(0));
    vf_ensure(&s.back() == AT(n - 1));
    const auto& cs = s;
    vf_ensure(&cs[i] == AT(i) && &cs.at(i) == AT(i) && &cs.front() == AT(0) && &cs.back() == AT(n - 1));
    T v = T(vf_u64("v", 0, 0xffffffff));
    s[i] = v;
    vf_ensure(*AT(i) == v);
}
HARNESS(C11_stride_subspan) {
    SOURCE
    uint64_t off = vf_u64("off", 0, VF_MAX, 5), cnt = vf_u64("cnt", 0, VF_MAX, 5);
    auto r = s.subspan(off, cnt);
    uint64_t o = off < n ? off : n, want = cnt < n - o ? cnt : n - o;
    vf_ensure(r.size() == want);
    vf_ensure(r.stride() == st);
    vf_ensure(r.data() == src + o * st);
}
HARNESS(C11_stride_first_last) {
    SOURCE
    uint64_t k = vf_u64("k", 0, VF_MAX, 6);
    auto f = s.first(k);
    vf_ensure(f.size() == (k < n ? k : n) && f.data() == src && f.stride() == st);
    vf_assume(k <= n);
    auto l = s.last(k);
    vf_ensure(l.size() == k && l.data() == src + (n - k) * st && l.stride() == st);
}
HARNESS(C11_stride_remove) {
    SOURCE
    uint64_t a = vf_u64("a", 0, VF_BIG); vf_assume(a <= n);
    s.remove_prefix(a);
    vf_ensure(s.size() == n - a && s.data() == src + a * st && s.stride() == st);
    uint64_t b = vf_u64("b", 0, VF_BIG); vf_assume(b <= n - a);
    s.remove_suffix(b);
    vf_ensure(s.size() == n - a - b && s.data() == src + a * st && s.stride() == st);
}
struct Rec { uint32_t a; uint32_t b; uint64_t c; };
struct Base { uint32_t x; }; struct Pre { uint64_t y; }; struct Derived : Pre, Base { uint32_t z; };
HARNESS(C11_stride_make) {
    uint64_t n = vf_u64("n", 0, 1u << 20); vf_limit(n);
    Rec* r = static_cast<Rec*>(vf_array("recs", n * 4, 4, 8));
    auto m = make_stride_span_member_view(r, n, &Rec::b);
    vf_ensure(m.size() == n && m.stride() == sizeof(Rec) && (void*)m.data() == (char*)r + 4);
    const Rec* cr = r;
    auto cm = make_stride_span_member_view(cr, n, &Rec::b);
    vf_ensure(cm.size() == n && cm.stride() == sizeof(Rec) && (const void*)cm.data() == (char*)r + 4);
    auto fb = make_stride_span_from_buf<uint32_t>(r, size_t(4), sizeof(Rec), size_t(n));
    vf_ensure(fb.size() == n && fb.stride() == sizeof(Rec) && (void*)fb.data() == (char*)r + 4);
    auto b2 = make_stride_span_from_buf(&r->b, sizeof(Rec), size_t(n));
    vf_ensure(b2.size() == n && b2.stride() == sizeof(Rec) && (void*)b2.data() == (char*)r + 4);
    if (n > 0) {
        uint64_t i = vf_idx("i", n);
        vf_ensure(&m[i] == &r[i].b);
        vf_ensure(&cm[i] == &r[i].b);
        vf_ensure(&fb[i] == &r[i].b);
    }
}
HARNESS(C11_stride_make_base) {
    uint64_t n = vf_u64("n", 1, 1u << 20); vf_limit(n);
    Derived* d = static_cast<Derived*>(vf_array("der", n * (sizeof(Derived) / 4), 4, 8));
    auto b = make_stride_span_base_view<Base>(d, size_t(n));
    uint64_t i = vf_idx("i", n);
    vf_ensure(b.size() == n && &b[i] == static_cast<Base*>(d + i));
}
HARNESS(C11_stride_make_array) {
    uint64_t n = vf_u64("n", 1, 1u << 20, 6); vf_limit(n);
    uint64_t no = vf_u64("noff", 0, 1u << 20), ns = vf_u64("nstride", 1, 1u << 20);
    vf_assume(no < n);
    T* a = static_cast<T*>(vf_array("arr", n, 4, 4));
    auto s = make_stride_span_from_array(a, n, no, ns);
    // exactly the elements no, no + ns, no + 2 ns, ... below n
    uint64_t c = s.size();
    vf_ensure(s.stride() == ns * 4 && (void*)s.data() == a + no);
    vf_ensure(c >= 1 && no + (c - 1) * ns < n && no + c * ns >= n);
}

// ------------------------------------------------------------------ iterator laws
#define ITER(IT, B) \
    uint64_t i = vf_u64("i", 0, n), j = vf_u64("j", 0, n); \
    auto a = B.begin() + int64_t(i); auto b = B.begin() + int64_t(j);
#define LAWS \
    vf_ensure(a - b == int64_t(i) - int64_t(j)); \
    vf_ensure(b - a == int64_t(j) - int64_t(i)); \
    vf_ensure((a == b) == (i == j)); vf_ensure((a != b) == (i != j)); \
    vf_ensure((a < b) == (i < j)); vf_ensure((a > b) == (i > j)); \
    vf_ensure((a <= b) == (i <= j)); vf_ensure((a >= b) == (i >= j));
#define STEPS \
    int64_t k = int64_t(j) - int64_t(i); \
    vf_ensure(a + k == b); vf_ensure(b - k == a); \
    vf_ensure((a + k) - a == k); \
    { auto c = a; c += k; vf_ensure(c == b); c -= k; vf_ensure(c == a); auto& r = (c += k); vf_ensure(&r == &c); } \
    if (i < n) { auto c = a; auto& r = ++c; vf_ensure(&r == &c); vf_ensure(c == a + 1); vf_ensure(c - a == 1); --c; vf_ensure(c == a); } \
    if (i > 0) { auto c = a; auto& r = --c; vf_ensure(&r == &c); vf_ensure(c == a - 1); vf_ensure(a - c == 1); ++c; vf_ensure(c == a); }

HARNESS(C12_stride_order) { SOURCE ITER(iterator, s) LAWS }
HARNESS(C12_stride_order_const) { SOURCE const auto& cs = s; ITER(const_iterator, cs) LAWS }
HARNESS(C12_stride_steps) { SOURCE ITER(iterator, s) STEPS }
HARNESS(C12_stride_steps_const) { SOURCE const auto& cs = s; ITER(const_iterator, cs) STEPS }
HARNESS(C12_stride_range) {
    SOURCE
    const auto& cs = s;
    vf_ensure(s.end() - s.begin() == int64_t(n)); vf_ensure(cs.end() - cs.begin() == int64_t(n)); vf_ensure(s.cend() - s.cbegin() == int64_t(n));
    vf_ensure(s.begin() + int64_t(n) == s.end()); vf_ensure(cs.begin() + int64_t(n) == cs.end()); vf_ensure(s.cend() - int64_t(n) == s.cbegin());
    uint64_t i = vf_idx("i", n);
    vf_ensure(&*(s.begin() + int64_t(i)) == AT(i)); vf_ensure(&*(cs.begin() + int64_t(i)) == AT(i));
    vf_ensure((s.begin() + int64_t(i)).operator->() == AT(i)); vf_ensure((cs.begin() + int64_t(i)).ptr() == AT(i));
    vf_ensure(&*(s.end() - int64_t(i + 1)) == AT(n - 1 - i));
}
HARNESS(C12_stride_reverse) {
    SOURCE
    const auto& cs = s;
    uint64_t i = vf_idx("i", n);
    vf_ensure(&*(s.rbegin() + int64_t(i)) == AT(n - 1 - i)); vf_ensure(&*(cs.rbegin() + int64_t(i)) == AT(n - 1 - i));
    vf_ensure(&*(s.rend() - int64_t(i + 1)) == AT(i)); vf_ensure(&*(cs.rend() - int64_t(i + 1)) == AT(i));
}

// ------------------------------------------------------------------ poly_span
#define PSOURCE \
    uint64_t n = vf_u64("n", 0, 1u << 30); vf_limit(n); \
    Rec* src = static_cast<Rec*>(vf_array("recs", n * 4, 4, 8)); \
    poly_span<uint32_t&> s(src, size_t(n), [](Rec& r) -> uint32_t& { return r.b; });
HARNESS(C11_poly_construct) {
    PSOURCE
    vf_ensure(s.size() == n && s.stride() == sizeof(Rec) && (void*)s.data() == src && s.empty() == (n == 0) && bool(s) == (src != nullptr));
    poly_span<uint32_t&> e, cp(s), as; as = s;
    vf_ensure(e.size() == 0 && e.empty() && !e);
    vf_ensure(cp.size() == n && cp.stride() == sizeof(Rec) && (void*)cp.data() == src);
    vf_ensure(as.size() == n && as.stride() == sizeof(Rec) && (void*)as.data() == src);
    uint64_t i = vf_idx("i", n);
    vf_ensure(&cp[i] == &src[i].b && &as[i] == &src[i].b);
}
HARNESS(C11_poly_access) {
    PSOURCE
    uint64_t i = vf_idx("i", n);
    vf_ensure(&s[i] == &src[i].b); vf_ensure(&s.at(i) == &src[i].b);
    vf_ensure(&s.front() == &src[0].b); vf_ensure(&s.back() == &src[n - 1].b);
    const auto& cs = s;
    vf_ensure(&cs[i] == &src[i].b); vf_ensure(&cs.at(i) == &src[i].b);
    vf_ensure(&cs.front() == &src[0].b); vf_ensure(&cs.back() == &src[n - 1].b);
}
HARNESS(C11_poly_subspan) {
    PSOURCE
    uint64_t off = vf_u64("off", 0, VF_MAX, 5), cnt = vf_u64("cnt", 0, VF_MAX, 5);
    auto r = s.subspan(off, cnt);
    uint64_t o = off < n ? off : n, want = cnt < n - o ? cnt : n - o;
    vf_ensure(r.size() == want); vf_ensure(r.stride() == sizeof(Rec)); vf_ensure((void*)r.data() == src + o);
    uint64_t i = vf_idx("i", want);
    vf_ensure(&r[i] == &src[o + i].b);
}
HARNESS(C11_poly_first_last) {
    PSOURCE
    uint64_t k = vf_u64("k", 0, VF_MAX, 6);
    auto f = s.first(k);
    vf_ensure(f.size() == (k < n ? k : n) && (void*)f.data() == src && f.stride() == sizeof(Rec));
    vf_assume(k <= n);
    auto l = s.last(k);
    vf_ensure(l.size() == k && (void*)l.data() == src + (n - k) && l.stride() == sizeof(Rec));
    uint64_t i = vf_idx("i", k);
    vf_ensure(&l[i] == &src[n - k + i].b); vf_ensure(&f[i] == &src[i].b);
}
HARNESS(C11_poly_remove) {
    PSOURCE
    uint64_t a = vf_u64("a", 0, VF_BIG); vf_assume(a <= n);
    s.remove_prefix(a);
    vf_ensure(s.size() == n - a && (void*)s.data() == src + a);
    uint64_t b = vf_u64("b", 0, VF_BIG); vf_assume(b <= n - a);
    s.remove_suffix(b);
    vf_ensure(s.size() == n - a - b && (void*)s.data() == src + a && s.stride() == sizeof(Rec));
}
// elements of arbitrary size (byte granularity of the stride through the element type)
HARNESS(C12_poly_order) { PSOURCE ITER(iterator, s) LAWS }
HARNESS(C12_poly_order_const) { PSOURCE const auto& cs = s; ITER(const_iterator, cs) LAWS }
HARNESS(C12_poly_steps) { PSOURCE ITER(iterator, s) STEPS }
HARNESS(C12_poly_steps_const) { PSOURCE const auto& cs = s; ITER(const_iterator, cs) STEPS }
HARNESS(C12_poly_range) {
    PSOURCE
    const auto& cs = s;
    vf_ensure(s.end() - s.begin() == int64_t(n)); vf_ensure(cs.end() - cs.begin() == int64_t(n)); vf_ensure(s.cend() - s.cbegin() == int64_t(n));
    vf_ensure(s.begin() + int64_t(n) == s.end()); vf_ensure(cs.begin() + int64_t(n) == cs.end()); vf_ensure(s.cend() - int64_t(n) == s.cbegin());
    uint64_t i = vf_idx("i", n);
    vf_ensure(&*(s.begin() + int64_t(i)) == &src[i].b); vf_ensure(&*(cs.begin() + int64_t(i)) == &src[i].b); vf_ensure(&*(s.cbegin() + int64_t(i)) == &src[i].b);
    vf_ensure(&*(s.end() - int64_t(i + 1)) == &src[n - 1 - i].b);
    vf_ensure(&*(s.rbegin() + int64_t(i)) == &src[n - 1 - i].b);
    vf_ensure(&*(s.rend() - int64_t(i + 1)) == &src[i].b);
    vf_ensure(&*(cs.rbegin() + int64_t(i)) == &src[n - 1 - i].b);
    vf_ensure(&*(cs.rend() - int64_t(i + 1)) == &src[i].b);
}
