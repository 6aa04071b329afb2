// C20: strutil functions match their definitions on every string
// STD: c++17
#include "vf.hpp"
#include <itlib/strutil.hpp>
#include <cstring>
#include <vector>
using namespace itlib;
using SV = std::string_view;

// two arbitrary strings of arbitrary lengths
#define STRINGS \
    uint64_t n = vf_u64("n", 0, VF_BIG), p = vf_u64("p", 0, VF_BIG); vf_limit(n); vf_limit(p); \
    const char* s = static_cast<const char*>(vf_array("str", n, 1, 1)); \
    const char* q = static_cast<const char*>(vf_array("pat", p, 1, 1)); \
    SV str(s, n), pat(q, p);
// the pattern is a part of the string itself
#define SUBSTRING \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    const char* s = static_cast<const char*>(vf_array("str", n, 1, 1)); \
    uint64_t o = vf_u64("o", 0, n), p = vf_u64("p", 0, n - o); \
    const char* q = s + o; \
    SV str(s, n), pat(q, p);

// the definition: same length and every character equal
static bool same(const char* a, const char* b, uint64_t n) { return n == 0 || memcmp(a, b, n) == 0; }

HARNESS(C20_starts_with) {
    STRINGS
    bool r = starts_with(str, pat);
    vf_ensure(r == (p <= n && same(s, q, p)));
    if (r) { uint64_t i = vf_u64("i", 0, VF_BIG); if (i < p) vf_ensure(s[i] == q[i]); }
    if (p == 0) vf_ensure(r);
}
HARNESS(C20_starts_with_own_part) {
    SUBSTRING
    bool r = starts_with(str, pat);
    vf_ensure(r == (p <= n && same(s, q, p)));
    if (o == 0) vf_ensure(r);
}
HARNESS(C20_ends_with) {
    STRINGS
    bool r = ends_with(str, pat);
    vf_ensure(r == (p <= n && same(s + (n - p), q, p)));
    if (r) { uint64_t i = vf_u64("i", 0, VF_BIG); if (i < p) vf_ensure(s[n - p + i] == q[i]); }
    if (p == 0) vf_ensure(r);
}
HARNESS(C20_ends_with_own_part) {
    SUBSTRING
    bool r = ends_with(str, pat);
    vf_ensure(r == (p <= n && same(s + (n - p), q, p)));
    if (o + p == n) vf_ensure(r);
}

// r is s with whole repetitions of the pattern removed from the front, and it does not start with the pattern
static void check_prefix(const char* s, uint64_t n, const char* q, uint64_t p, SV r) {
    if (p == 0) { vf_ensure(r.data() == s && r.size() == n); return; }
    vf_ensure(r.size() <= n);
    uint64_t k = n - r.size();              // characters removed
    vf_ensure(r.data() == s + k);           // from the front, and only there
    vf_ensure(k % p == 0);                  // whole patterns
    uint64_t t = vf_u64("t", 0, VF_BIG), i = vf_u64("i", 0, VF_BIG);
    if (i < p && t < k / p) {               // character i of removed repetition t is character i of the pattern
        vf_inst(t);
        vf_ensure(s[p * t + i] == q[i]);
    }
    vf_ensure(r.size() < p || !same(r.data(), q, p));   // nothing left to remove
}
static void check_suffix(const char* s, uint64_t n, const char* q, uint64_t p, SV r) {
    if (p == 0) { vf_ensure(r.data() == s && r.size() == n); return; }
    vf_ensure(r.size() <= n);
    uint64_t k = n - r.size();
    vf_ensure(r.data() == s);
    vf_ensure(k % p == 0);
    uint64_t t = vf_u64("t", 0, VF_BIG), i = vf_u64("i", 0, VF_BIG);
    if (i < p && t < k / p) {
        vf_inst(t);
        vf_ensure(s[n - p * t - p + i] == q[i]);
    }
    vf_ensure(r.size() < p || !same(r.data() + (r.size() - p), q, p));
}
HARNESS(C20_remove_prefix_all) {
    STRINGS
    SV r = remove_prefix_all(str, pat);
    check_prefix(s, n, q, p, r);
}
HARNESS(C20_remove_prefix_all_own_part) {
    SUBSTRING
    SV r = remove_prefix_all(str, pat);
    check_prefix(s, n, q, p, r);
}
HARNESS(C20_remove_suffix_all) {
    STRINGS
    SV r = remove_suffix_all(str, pat);
    check_suffix(s, n, q, p, r);
}
HARNESS(C20_remove_suffix_all_own_part) {
    SUBSTRING
    SV r = remove_suffix_all(str, pat);
    check_suffix(s, n, q, p, r);
}
HARNESS(C20_null_views) {
    SV z, e("", 0), x("x", 1);
    for (SV a : {z, e}) {
        vf_ensure(starts_with(a, z) && ends_with(a, z) && starts_with(x, a) && ends_with(x, a));
        vf_ensure(!starts_with(a, x) && !ends_with(a, x));
        vf_ensure(remove_prefix_all(a, x).size() == 0 && remove_suffix_all(a, x).size() == 0);
        vf_ensure(remove_prefix_all(a, x).data() == a.data() && remove_suffix_all(a, x).data() == a.data());
        SV r = remove_prefix_all(x, a); vf_ensure(r.data() == x.data() && r.size() == 1);
        r = remove_suffix_all(x, a); vf_ensure(r.data() == x.data() && r.size() == 1);
    }
}
HARNESS(C20_make_string_view_pointers) {
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n);
    char* s = static_cast<char*>(vf_array("str", n, 1, 1));
    uint64_t b = vf_u64("b", 0, n), e = vf_u64("e", b, n);
    const char* c = s;
    SV r = make_string_view(c + b, c + e);              // the const char* overload
    vf_ensure(r.size() == e - b && r.data() == c + b);
    SV m = make_string_view(s + b, s + e);              // the template
    vf_ensure(m.size() == e - b && (e == b || m.data() == c + b));
}
// a contiguous iterator of class type, which must not be dereferenced at the end
struct It {
    using value_type = char; using difference_type = ptrdiff_t; using reference = const char&; using pointer = const char*;
    using iterator_category = std::random_access_iterator_tag;
    const char* p; const char* end;
    const char& operator*() const { vf_ensure(p != end); return *p; }
    bool operator==(const It& o) const { return p == o.p; }
    bool operator!=(const It& o) const { return p != o.p; }
    ptrdiff_t operator-(const It& o) const { return p - o.p; }
};
HARNESS(C20_make_string_view_iterators) {
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n);
    char* s = static_cast<char*>(vf_array("str", n, 1, 1));
    uint64_t b = vf_u64("b", 0, n), e = vf_u64("e", b, n);
    SV r = make_string_view(It{s + b, s + n}, It{s + e, s + n});
    vf_ensure(r.size() == e - b && (e == b || r.data() == s + b));
}
