// C08: flat_map is a sorted map with unique keys
// STD: c++17
// ASSUME: the comparator is a strict weak order: x < y iff rank(x) < rank(y) for an arbitrary function rank
// ASSUME: arguments passed by reference do not refer into the container
// BOUNDED: C08_from_unsorted.* construction from unsorted input: at most 3 entries (real std::sort and std::unique; every order and every pattern of duplicates)
#include "vf.hpp"
#include <itlib/flat_map.hpp>
#include "stdvec.hpp"
using namespace itlib;
using T = uint32_t;

// an arbitrary strict weak order on the keys, and on keys of another type
struct Key { uint32_t k; };
inline uint64_t rk(uint32_t x) { return vf_uf("rank", x, 0xffffffff); }
inline uint64_t rk(const Key& x) { return vf_uf("keyrank", x.k, 0xffffffff); }
struct Less { template <class A, class B> bool operator()(const A& a, const B& b) const { return rk(a) < rk(b); } };
using E = std::pair<T, T>;
using FM = flat_map<T, T, Less, std::vector<E>>;

// an arbitrary map: n entries with strictly increasing keys, in a vector of arbitrary capacity. The order is a
// precondition for all pairs of positions, instantiated where a proof needs it.
#define MAP MAP_(RESERVE)
#define MAP_SPARE MAP_(SPARE)
#define MAP_(RESERVE) \
    uint64_t n = vf_u64("n", 0, VF_BIG); vf_limit(n); \
    E* src = reinterpret_cast<E*>(vf_array("src", 2 * n, 4, 4)); \
    if (!vf_native) {} else for (uint64_t i = 1; i < n; ++i) vf_assume(rk(src[i - 1].first) < rk(src[i].first)); \
    FM s; uint64_t cap = n; RESERVE vf_std_vector(s.modify_container(), src, n, cap); const FM& cs = s; (void)cs;
#define RESERVE
#define SPARE cap += vf_u64("spare", 0, VF_BIG); vf_limit(cap);
#define SORTED_AT(p) vf_increasing(n ? &*s.begin() : nullptr, src, n, "rank", 8, p);     // that precondition, for all positions looked at
#define SORTED SORTED_AT(0)
#define KEY T k = T(vf_u64("k", 0, 0xffffffff));
#define OTHERKEY Key k{uint32_t(vf_u64("k", 0, 0xffffffff))};
#define VAL T v = T(vf_u64("v", 0, 0xffffffff));

template <class C, class K> void lower(C& s, const E* src, uint64_t n, uint64_t p, const K& k) {
    vf_ensure(p <= n);
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j].first); SORTED_AT(p) vf_ensure((j < p) == (r < rk(k))); }
}
template <class C, class K> void upper(C& s, const E* src, uint64_t n, uint64_t p, const K& k) {
    vf_ensure(p <= n);
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j].first); SORTED_AT(p) vf_ensure((j < p) == (r <= rk(k))); }
}
// content is exactly src
template <class C> void unchanged(C& s, const E* src, uint64_t n) {
    vf_ensure(s.size() == n && s.empty() == (n == 0));
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j < n) vf_ensure(s.begin()[j].first == src[j].first && s.begin()[j].second == src[j].second);
}

HARNESS(C08_lower_bound) {
    MAP
    if (vf_bool("const")) { OTHERKEY lower(s, src, n, uint64_t(cs.lower_bound(k) - cs.begin()), k); }
    else { KEY lower(s, src, n, uint64_t(s.lower_bound(k) - s.begin()), k); }
    unchanged(s, src, n);
}
HARNESS(C08_upper_bound) {
    MAP
    if (vf_bool("const")) { OTHERKEY upper(s, src, n, uint64_t(cs.upper_bound(k) - cs.begin()), k); }
    else { KEY upper(s, src, n, uint64_t(s.upper_bound(k) - s.begin()), k); }
    unchanged(s, src, n);
}
HARNESS(C08_equal_range) {
    MAP
    KEY
    auto r = s.equal_range(k);
    lower(s, src, n, uint64_t(r.first - s.begin()), k);
    upper(s, src, n, uint64_t(r.second - s.begin()), k);
}
HARNESS(C08_equal_range_const) {
    MAP
    OTHERKEY
    auto r = cs.equal_range(k);
    lower(s, src, n, uint64_t(r.first - cs.begin()), k);
    upper(s, src, n, uint64_t(r.second - cs.begin()), k);
}
// i is the position of the entry with a key equivalent to k, or n when there is none
template <class K> void found(FM& s, const E* src, uint64_t n, uint64_t i, const K& k) {
    vf_ensure(i <= n);
    if (i < n) { vf_ensure(rk(src[i].first) == rk(k)); return; }
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j].first); SORTED vf_ensure(r != rk(k)); }
}
HARNESS(C08_find) {
    MAP
    KEY
    found(s, src, n, uint64_t(s.find(k) - s.begin()), k);
    unchanged(s, src, n);
}
HARNESS(C08_find_const_other_key) {
    MAP
    OTHERKEY
    found(s, src, n, uint64_t(cs.find(k) - cs.begin()), k);
}
HARNESS(C08_count) {
    MAP
    KEY
    uint64_t c = cs.count(k);
    vf_ensure(c <= 1);
    if (c == 1) { bool f = s.find(k) != s.end(); SORTED vf_ensure(f); return; }
    uint64_t j = vf_u64("j", 0, VF_BIG);
    if (j < n) { uint64_t r = rk(src[j].first); SORTED vf_ensure(r != rk(k)); }
}
// at() gives the value of the key, or throws std::out_of_range exactly when it is absent
template <class M> void at(M& m, FM& s, const E* src, uint64_t n) {
    KEY
    const T* r = nullptr; bool threw = false;
    try { r = &m.at(k); }
    catch (std::out_of_range&) { threw = true; }
    if (threw) {
        uint64_t j = vf_u64("j", 0, VF_BIG);
        if (j < n) { uint64_t q = rk(src[j].first); SORTED vf_ensure(q != rk(k)); }
    } else {
        uint64_t i = uint64_t(reinterpret_cast<const E*>(r - 1) - &*s.begin());
        vf_ensure(i < n && rk(src[i].first) == rk(k) && r == &s.begin()[i].second);
    }
    unchanged(s, src, n);
}
HARNESS(C08_at) { MAP at(s, s, src, n); }
HARNESS(C08_at_const) { MAP at(cs, s, src, n); }

// the result of inserting (k, v): position i, whether it was inserted
template <class C> void inserted(C& s, const E* src, uint64_t n, uint64_t i, bool ins, T k, T v) {
    if (!ins) {                                     // there already, and not overwritten
        vf_ensure(i < n && rk(src[i].first) == rk(k));
        unchanged(s, src, n);
        return;
    }
    vf_ensure(s.size() == n + 1 && i <= n);
    vf_ensure(s.begin()[i].first == k && s.begin()[i].second == v);
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j < n) {
        auto& e = s.begin()[j < i ? j : j + 1];     // all others still there, in order
        vf_ensure(e.first == src[j].first && e.second == src[j].second);
        uint64_t r = rk(src[j].first); SORTED vf_ensure(j < i ? r < rk(k) : rk(k) < r);     // strictly increasing
    }
}
#define INSERT(name, setup, call) \
    MAP_SPARE KEY VAL setup \
    auto r = call; \
    inserted(s, src, n, uint64_t(r.first - s.begin()), r.second, k, v);
HARNESS(C08_insert) { INSERT(insert, const E e(k, v);, s.insert(e)) }
HARNESS(C08_insert_rvalue) { INSERT(insert_rvalue, E e(k, v);, s.insert(std::move(e))) }
HARNESS(C08_insert_lvalue) { INSERT(insert_lvalue, E e(k, v);, s.insert(e)) vf_ensure(e.first == k && e.second == v); }
struct Pair2 { T first; T second; operator E() const { return E(first, second); } };
HARNESS(C08_insert_convertible) { INSERT(insert_convertible, Pair2 e{k} ; e.second = v;, s.insert(e)) }
HARNESS(C08_emplace) { INSERT(emplace, , s.emplace(k, v)) }
// operator[]: the value of the key, default-inserted when absent
HARNESS(C08_index) {
    MAP_SPARE
    KEY
    T* r;
    if (vf_bool("rvalue")) { T kk = k; r = &s[std::move(kk)]; } else r = &s[k];
    bool ins = s.size() != n;
    uint64_t i = uint64_t(reinterpret_cast<const E*>(r - 1) - &*s.begin());
    vf_ensure(r == &s.begin()[i].second);
    inserted(s, src, n, i, ins, k, 0);
}
// content is src without position i
template <class C> void removed(C& s, const E* src, uint64_t n, uint64_t i) {
    vf_ensure(i < n && s.size() == n - 1);
    uint64_t j = vf_u64("u", 0, VF_BIG);
    if (j + 1 < n) { auto& e = s.begin()[j]; auto& o = src[j < i ? j : j + 1]; vf_ensure(e.first == o.first && e.second == o.second); }
}
HARNESS(C08_erase_iterator) {
    MAP
    uint64_t i = vf_idx("i", n);
    uint64_t r;
    if (vf_bool("const")) r = uint64_t(s.erase(s.cbegin() + i) - s.begin()); else r = uint64_t(s.erase(s.begin() + i) - s.begin());
    removed(s, src, n, i);
    vf_ensure(r == i);
}
HARNESS(C08_erase_key) {
    MAP
    KEY
    uint64_t p = uint64_t(s.find(k) - s.begin());
    uint64_t c = s.erase(k);
    vf_ensure(c <= 1);
    if (p < n) { SORTED vf_ensure(c == 1); removed(s, src, n, p); }
    else { SORTED vf_ensure(c == 0); unchanged(s, src, n); }
}
HARNESS(C08_observers) {
    MAP
    unchanged(s, src, n); unchanged(cs, src, n);
    vf_ensure(uint64_t(s.end() - s.begin()) == n && uint64_t(cs.end() - cs.begin()) == n && uint64_t(s.cend() - s.cbegin()) == n);
    vf_ensure(uint64_t(s.rend() - s.rbegin()) == n && uint64_t(cs.rend() - cs.rbegin()) == n);
    vf_ensure(s.capacity() >= n && s.capacity() == s.container().capacity() && s.max_size() == s.container().max_size());
    vf_ensure(&s.container() == &s.modify_container());
    if (n) { vf_ensure(s.rbegin()->first == src[n - 1].first && cs.rbegin()->second == src[n - 1].second && s.begin()->first == src[0].first && cs.cbegin()->second == src[0].second); }
}
HARNESS(C08_clear_reserve) {
    MAP
    uint64_t c = vf_u64("c", 0, VF_BIG); vf_limit(c);
    s.reserve(c);
    vf_ensure(s.capacity() >= c && s.capacity() >= n);
    unchanged(s, src, n);
    s.clear();
    vf_ensure(s.empty() && s.size() == 0 && s.begin() == s.end());
}
HARNESS(C08_copy) {
    MAP
    FM c(s);
    unchanged(c, src, n); unchanged(s, src, n);
}
HARNESS(C08_copy_assign) {
    MAP_SPARE
    FM c; c.modify_container().assign(3, E(7, 8));
    c = s;
    unchanged(c, src, n); unchanged(s, src, n);
    s = cs;
    unchanged(s, src, n);
}
HARNESS(C08_move) {
    MAP
    FM c(std::move(s));
    unchanged(c, src, n);
    vf_ensure(s.size() == 0);       // still a valid map
}
HARNESS(C08_move_assign_swap) {
    MAP
    FM c; c.modify_container().assign(1, E(7, 8));
    if (vf_bool("swap")) {
        c.swap(s);
        unchanged(c, src, n);
        vf_ensure(s.size() == 1 && s.begin()->first == 7 && s.begin()->second == 8);
    } else {
        c = std::move(s);
        unchanged(c, src, n);
    }
}
HARNESS(C08_equality) {
    MAP
    uint64_t m = vf_u64("m", 0, VF_BIG); vf_limit(m);
    E* q = reinterpret_cast<E*>(vf_array("other", 2 * m, 4, 4));
    FM o; o.modify_container().assign(q, q + m);
    bool e = s == o;
    vf_ensure((s != o) == !e);
    if (e) { vf_ensure(m == n); uint64_t j = vf_u64("j", 0, VF_BIG); if (j < n) vf_ensure(s.begin()[j].first == o.begin()[j].first && s.begin()[j].second == o.begin()[j].second); }
    if (n != m) vf_ensure(!e);
}
// a comparator with state is the one that is used
struct Dir { uint64_t d = 0; bool operator()(const T& a, const T& b) const { return d ? b < a : a < b; } };
HARNESS(C08_stateful_comparator) {
    uint64_t d = vf_u64("d", 0, 1);
    using DM = flat_map<T, T, Dir>;
    DM s(Dir{d});
    T a = T(vf_u64("a", 0, 0xffffffff)), b = T(vf_u64("b", 0, 0xffffffff)); vf_assume(a != b);
    s[a] = 1; s[b] = 2;
    T lo = a < b ? a : b, hi = a < b ? b : a;
    vf_ensure(s.size() == 2 && s.begin()[0].first == (d ? hi : lo) && s.begin()[1].first == (d ? lo : hi));
    vf_ensure(s.at(a) == 1 && s.at(b) == 2);
    DM o(Dir{1 - d});
    o.swap(s);
    vf_ensure(s.size() == 0 && o.size() == 2 && o.at(a) == 1 && o.at(b) == 2);
    s[a] = 5; s[b] = 6;             // the order of the other one now
    vf_ensure(s.begin()[0].first == (d ? lo : hi));
    DM c(o), m(std::move(o));
    vf_ensure(c == m && c.at(a) == 1 && m.at(b) == 2);
    s = c;
    vf_ensure(s == c && s.at(a) == 1 && s.at(b) == 2);
}
// construction from unsorted input: one of the given entries for every key
template <class F> void from_unsorted(F make) {
    uint64_t n = vf_concrete(vf_u64("n", 0, vf_native ? 4 : 3), 5);
    E a[4]; for (uint64_t i = 0; i < n; ++i) a[i] = E(T(vf_u64("key", 0, 0xffffffff)), T(i));
    FM s = make(a, n);
    uint64_t m = s.size();
    vf_ensure(m <= n && (m == 0) == (n == 0));
    for (uint64_t i = 0; i + 1 < m; ++i) vf_ensure(rk(s.begin()[i].first) < rk(s.begin()[i + 1].first));    // sorted, unique
    for (uint64_t i = 0; i < m; ++i) { bool f = false; for (uint64_t j = 0; j < n; ++j) f |= bool(int(a[j].first == s.begin()[i].first) & int(a[j].second == s.begin()[i].second)); vf_ensure(f); } // only given entries
    for (uint64_t j = 0; j < n; ++j) { bool f = false; for (uint64_t i = 0; i < m; ++i) f |= rk(a[j].first) == rk(s.begin()[i].first); vf_ensure(f); } // every given key
}
HARNESS(C08_from_unsorted_container) { from_unsorted([](const E* a, uint64_t n) { return FM(std::vector<E>(a, a + n)); }); }
HARNESS(C08_from_unsorted_range) { from_unsorted([](const E* a, uint64_t n) { if (vf_bool("alloc")) return FM(a, a + n, std::allocator<E>()); return FM(a, a + n, Less()); }); }
HARNESS(C08_from_unsorted_list) {
    from_unsorted([](const E* a, uint64_t n) {
        switch (n) {
        case 0: return FM(std::initializer_list<E>{});
        case 1: return FM({a[0]}, std::allocator<E>());
        case 2: return FM({a[0], a[1]}, Less());
        case 3: return FM({a[0], a[1], a[2]});
        default: return FM({a[0], a[1], a[2], a[3]});
        }
    });
}
