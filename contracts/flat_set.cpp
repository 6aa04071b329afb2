// C09: flat_set is a sorted set of unique values
// STD: c++17
// ASSUME: the comparator is a strict weak order: x < y iff rank(x) < rank(y) for an arbitrary function rank
// ASSUME: arguments passed by reference do not refer into the container
// BOUNDED: C09_from_unsorted.* construction from unsorted input: at most 3 values (real std::sort and std::unique; every order and every pattern of duplicates)
#include "vf.hpp"
#include <itlib/flat_set.hpp>
#include "stdvec.hpp"
using namespace itlib;
using T = uint32_t;

// an arbitrary strict weak order on the values, and on keys of another type
struct Key { uint32_t k; };
inline uint64_t rk(uint32_t x) { return vf_uf("rank", x, 0xffffffff); }
inline uint64_t rk(const Key& x) { return vf_uf("keyrank", x.k, 0xffffffff); }
struct Less { template <class A, class B> bool operator()(const A& a, const B& b) const { return rk(a) < rk(b); } };
using FS = flat_set<T, Less, std::vector<T>>;

// an arbitrary set: n values in strictly increasing order, in a vector of arbitrary capacity. The order is a
// precondition for all pairs of positions, instantiated where a proof needs it.
#define SET SET_(RESERVE)
#define SET_SPARE SET_(SPARE)
#define SET_(RESERVE) \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    T* src = static_cast<T*>(vf_array("src", n, 4, 4)); \
    if (!vf_native) {} else for (uint64_t i = 1; i < n; ++i) vf_assume(rk(src[i - 1]) < rk(src[i])); \
    FS s; uint64_t cap = n; RESERVE vf_std_vector(s.modify_container(), src, n, cap); const FS& cs = s; (void)cs;
#define RESERVE
#define SPARE cap += vf_u64("spare", 0, VF_BIG); vf_limit(cap);
#define SORTED vf_increasing(n ? &*s.begin() : nullptr, src, n, "rank", 4, 0);     // that precondition, for all positions looked at
#define SORTED_AT(p) vf_increasing(n ? &*s.begin() : nullptr, src, n, "rank", 4, p);
#define KEY T k = T(vf_u64("k", 0, 0xffffffff));

// p is the first position whose value is not less than (greater than) k
template <class C, class K> void lower(C& s, const T* src, uint64_t n, uint64_t p, const K& k) {
    vf_ensure(p <= n);
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j]); SORTED_AT(p) vf_ensure((j < p) == (r < rk(k))); }
}
template <class C, class K> void upper(C& s, const T* src, uint64_t n, uint64_t p, const K& k) {
    vf_ensure(p <= n);
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j]); SORTED_AT(p) vf_ensure((j < p) == (r <= rk(k))); }
}
// content is exactly src
template <class C> void unchanged(C& s, const T* src, uint64_t n) {
    vf_ensure(s.size() == n && s.empty() == (n == 0));
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j < n) vf_ensure(s.begin()[j] == src[j]);
}
template <class F> void with_key(F f) { if (vf_bool("other_key_type")) f(Key{uint32_t(vf_u64("k", 0, 0xffffffff))}); else f(T(vf_u64("k", 0, 0xffffffff))); }

HARNESS(C09_lower_bound) {
    SET
    with_key([&](auto k) {
        if (vf_bool("const")) lower(s, src, n, uint64_t(cs.lower_bound(k) - cs.begin()), k);
        else lower(s, src, n, uint64_t(s.lower_bound(k) - s.begin()), k);
    });
    unchanged(s, src, n);
}
HARNESS(C09_upper_bound) {
    SET
    with_key([&](auto k) {
        if (vf_bool("const")) upper(s, src, n, uint64_t(cs.upper_bound(k) - cs.begin()), k);
        else upper(s, src, n, uint64_t(s.upper_bound(k) - s.begin()), k);
    });
    unchanged(s, src, n);
}
HARNESS(C09_equal_range) {
    SET
    KEY
    auto r = s.equal_range(k);
    lower(s, src, n, uint64_t(r.first - s.begin()), k);
    upper(s, src, n, uint64_t(r.second - s.begin()), k);
}
HARNESS(C09_equal_range_const) {
    SET
    Key k{uint32_t(vf_u64("k", 0, 0xffffffff))};
    auto r = cs.equal_range(k);
    lower(s, src, n, uint64_t(r.first - cs.begin()), k);
    upper(s, src, n, uint64_t(r.second - cs.begin()), k);
}
// i is the position of the value equivalent to k, or n when there is none
template <class K> void found(FS& s, const T* src, uint64_t n, uint64_t i, const K& k) {
    vf_ensure(i <= n);
    if (i < n) { vf_ensure(rk(src[i]) == rk(k)); return; }
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j]); SORTED vf_ensure(r != rk(k)); }
}
HARNESS(C09_find) {
    SET
    KEY
    found(s, src, n, uint64_t(s.find(k) - s.begin()), k);
    unchanged(s, src, n);
}
HARNESS(C09_find_const_other_key) {
    SET
    Key k{uint32_t(vf_u64("k", 0, 0xffffffff))};
    found(s, src, n, uint64_t(cs.find(k) - cs.begin()), k);
}
HARNESS(C09_count) {
    SET
    KEY
    uint64_t c = cs.count(k);
    vf_ensure(c <= 1);
    if (c == 1) { bool f = s.find(k) != s.end(); SORTED vf_ensure(f); return; }
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j]); SORTED vf_ensure(r != rk(k)); }
}

// the result of inserting k: position i, whether it was inserted
template <class C> void inserted(C& s, const T* src, uint64_t n, uint64_t i, bool ins, T k) {
    if (!ins) {
        vf_ensure(i < n && rk(src[i]) == rk(k));    // there already
        unchanged(s, src, n);
        return;
    }
    vf_ensure(s.size() == n + 1 && i <= n);
    vf_ensure(s.begin()[i] == k);
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j < n) vf_ensure(s.begin()[j < i ? j : j + 1] == src[j]);       // all others still there, in order
    // strictly increasing
    if (j < n) { uint64_t r = rk(src[j]); SORTED vf_ensure(j < i ? r < rk(k) : rk(k) < r); }
}
HARNESS(C09_insert) {
    SET_SPARE
    KEY
    const T kk = k;
    auto r = s.insert(kk);
    inserted(s, src, n, uint64_t(r.first - s.begin()), r.second, k);
}
HARNESS(C09_insert_rvalue) {
    SET_SPARE
    KEY
    T kk = k;
    auto r = s.insert(std::move(kk));
    inserted(s, src, n, uint64_t(r.first - s.begin()), r.second, k);
}
HARNESS(C09_insert_lvalue) {
    SET_SPARE
    KEY
    T kk = k;
    auto r = s.insert(kk);
    inserted(s, src, n, uint64_t(r.first - s.begin()), r.second, k);
    vf_ensure(kk == k);
}
HARNESS(C09_emplace) {
    SET_SPARE
    KEY
    auto r = s.emplace(k);
    inserted(s, src, n, uint64_t(r.first - s.begin()), r.second, k);
}
// content is src without position i
template <class C> void removed(C& s, const T* src, uint64_t n, uint64_t i) {
    vf_ensure(i < n && s.size() == n - 1);
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j + 1 < n) vf_ensure(s.begin()[j] == src[j < i ? j : j + 1]);
}
HARNESS(C09_erase_iterator) {
    SET_SPARE
    uint64_t i = vf_idx("i", n);
    uint64_t r;
    if (vf_bool("const")) r = uint64_t(s.erase(s.cbegin() + i) - s.begin()); else r = uint64_t(s.erase(s.begin() + i) - s.begin());
    removed(s, src, n, i);
    vf_ensure(r == i);
}
HARNESS(C09_erase_key) {
    SET
    KEY
    uint64_t p = uint64_t(s.find(k) - s.begin());
    uint64_t c = s.erase(k);
    vf_ensure(c <= 1);
    if (p < n) { SORTED vf_ensure(c == 1); removed(s, src, n, p); }
    else { SORTED vf_ensure(c == 0); unchanged(s, src, n); }
}
HARNESS(C09_observers) {
    SET
    unchanged(s, src, n); unchanged(cs, src, n);
    vf_ensure(uint64_t(s.end() - s.begin()) == n && uint64_t(cs.end() - cs.begin()) == n && uint64_t(s.cend() - s.cbegin()) == n);
    vf_ensure(uint64_t(s.rend() - s.rbegin()) == n && uint64_t(cs.rend() - cs.rbegin()) == n);
    vf_ensure(s.capacity() >= n && s.capacity() == s.container().capacity() && s.max_size() == s.container().max_size());
    vf_ensure(&s.container() == &s.modify_container());
    if (n) { vf_ensure(*s.rbegin() == src[n - 1] && *cs.rbegin() == src[n - 1] && *s.begin() == src[0] && *cs.cbegin() == src[0]); }
    Less l = s.key_comp(); T a = T(vf_u64("a", 0, 0xffffffff)), b = T(vf_u64("b", 0, 0xffffffff));
    vf_ensure(l(a, b) == (rk(a) < rk(b)));
}
HARNESS(C09_clear_reserve) {
    SET_SPARE
    uint64_t c = vf_u64("c", 0, VF_BIG); vf_limit(c);
    s.reserve(c);
    vf_ensure(s.capacity() >= c && s.capacity() >= n);
    unchanged(s, src, n);
    s.clear();
    vf_ensure(s.empty() && s.size() == 0 && s.begin() == s.end());
}
HARNESS(C09_copy) {
    SET
    FS c(s);
    unchanged(c, src, n); unchanged(s, src, n);
    vf_ensure(c == s && !(c != s));
}
HARNESS(C09_copy_assign) {
    SET_SPARE
    FS c; c.modify_container().assign(3, 7);
    c = s;
    unchanged(c, src, n); unchanged(s, src, n);
    s = cs;
    unchanged(s, src, n);
}
HARNESS(C09_move) {
    SET_SPARE
    FS c(std::move(s));
    unchanged(c, src, n);
    vf_ensure(s.size() == 0);       // still a valid set
}
HARNESS(C09_move_assign_swap) {
    SET
    FS c; c.modify_container().assign(1, 7);
    if (vf_bool("swap")) {
        c.swap(s);
        unchanged(c, src, n);
        vf_ensure(s.size() == 1 && *s.begin() == 7);
    } else {
        c = std::move(s);
        unchanged(c, src, n);
    }
}
HARNESS(C09_equality) {
    SET
    uint64_t m = vf_u64("m", 0, VF_BIG); vf_limit(m);
    T* q = static_cast<T*>(vf_array("other", m, 4, 4));
    FS o; o.modify_container().assign(q, q + m);
    bool e = s == o;
    vf_ensure((s != o) == !e);
    if (e) { vf_ensure(m == n); uint64_t j = vf_u64("j", 0, VF_BIG); if (j < n) vf_ensure(s.begin()[j] == o.begin()[j]); }
    if (n != m) vf_ensure(!e);
}
// a comparator with state is the one that is used
struct Dir { uint64_t d; bool operator()(const T& a, const T& b) const { return d ? b < a : a < b; } };
HARNESS(C09_stateful_comparator) {
    uint64_t d = vf_u64("d", 0, 1);
    flat_set<T, Dir> s(Dir{d});
    T a = T(vf_u64("a", 0, 0xffffffff)), b = T(vf_u64("b", 0, 0xffffffff)); vf_assume(a != b);
    s.insert(a); s.insert(b);
    T lo = a < b ? a : b, hi = a < b ? b : a;
    vf_ensure(s.size() == 2 && s.begin()[0] == (d ? hi : lo) && s.begin()[1] == (d ? lo : hi));
    vf_ensure(s.key_comp().d == d);
    flat_set<T, Dir> o(Dir{1 - d});
    o.swap(s);
    vf_ensure(o.key_comp().d == d && s.key_comp().d == 1 - d && s.size() == 0 && o.size() == 2);
    flat_set<T, Dir> c(o), m(std::move(o));
    vf_ensure(c.key_comp().d == d && m.key_comp().d == d && c == m);
    s = c;
    vf_ensure(s.key_comp().d == d && s == c);
}

// construction from unsorted input
template <class F> void from_unsorted(F make) {
    uint64_t n = vf_concrete(vf_u64("n", 0, vf_native ? 4 : 3), 5);
    T a[4]; for (uint64_t i = 0; i < n; ++i) a[i] = T(vf_u64("v", 0, 0xffffffff));
    FS s = make(a, n);
    uint64_t m = s.size();
    vf_ensure(m <= n && (m == 0) == (n == 0));
    for (uint64_t i = 0; i + 1 < m; ++i) vf_ensure(rk(s.begin()[i]) < rk(s.begin()[i + 1]));    // sorted, unique
    for (uint64_t i = 0; i < m; ++i) { bool f = false; for (uint64_t j = 0; j < n; ++j) f |= a[j] == s.begin()[i]; vf_ensure(f); } // only given values
    for (uint64_t j = 0; j < n; ++j) { bool f = false; for (uint64_t i = 0; i < m; ++i) f |= rk(a[j]) == rk(s.begin()[i]); vf_ensure(f); } // every given value
}
HARNESS(C09_from_unsorted_container) { from_unsorted([](const T* a, uint64_t n) { return FS(std::vector<T>(a, a + n)); }); }
HARNESS(C09_from_unsorted_range) { from_unsorted([](const T* a, uint64_t n) { if (vf_bool("alloc")) return FS(a, a + n, std::allocator<T>()); return FS(a, a + n, Less()); }); }
HARNESS(C09_from_unsorted_list) {
    from_unsorted([](const T* a, uint64_t n) {
        switch (n) {
        case 0: return FS(std::initializer_list<T>{});
        case 1: return FS({a[0]}, std::allocator<T>());
        case 2: return FS({a[0], a[1]}, Less());
        case 3: return FS({a[0], a[1], a[2]});
        default: return FS({a[0], a[1], a[2], a[3]});
        }
    });
}
